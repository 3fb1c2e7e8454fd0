// C03: binary_header() of a reader reports every field of the file's binary file
// header, whatever the bytes, in the file's byte order.
#include "binhdr.hpp"
static const int fmts[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
static Img<3600> f;
// endianness marker: 0 absent (big), 1 big, 2 little
static void build(int marker)
{
    f.be = marker != 2;
    memset(f.b, 'C', 3200);
    f.sym("bin", 3200, 400);
    unsigned char* h = f.b + 3200;
    if (marker == 0) memset(h + 96, 0, 4);
    else if (marker == 1) { h[96] = 1; h[97] = 2; h[98] = 3; h[99] = 4; }
    else { h[96] = 4; h[97] = 3; h[98] = 2; h[99] = 1; }
    vf::put(h + 24, 5, 2, f.be);
    vf::put(h + 304, 0, 2, f.be); // no extended text headers
    vf::put(h + 328, 0, 4, f.be); // no trailer
    // a negative number of additional trace headers is refused (C12)
    vf::assume(h[300] < 2 || !(h[f.be ? 306 : 309] & 0x80));
    vf::assume(vf::get(h + 320, 8, f.be) < (1ull << 40)); // first trace offset a file system can hold
}
static void compare(CommonSEGY::BinaryHeader b)
{
    const unsigned char* h = f.b + 3200;
    bin_fields(b, [&](auto v, int off, const char* name) {
        uint64_t w = vf::get(h + off, sizeof v, f.be);
        if (sizeof v < 8) { uint64_t x = 0; memcpy(&x, &v, sizeof v); vf::check_eq(x, w, name); }
        else vf::check_eq(vf::bits(v), w, name);
    });
    bool r2 = h[300] > 1;
    bin_fields_rev2(b, [&](auto v, int off, const char* name) {
        uint64_t w = r2 ? vf::get(h + off, sizeof v, f.be) : 0;
        vf::check_eq(vf::bits(v), w, name);
    });
}
template <int M> static void go()
{
    build(M);
    unsigned char* h = f.b + 3200;
    // sizes of the sample buffer: kept small here, all values in h_ns_*
    vf::assume(vf::get(h + 20, 2, f.be) <= 3 && vf::get(h + 68, 4, f.be) <= 3);
    f.save("a.sgy");
    ISEGY s("a.sgy");
    compare(s.binary_header());
    vf::check(s.text_headers().size() == 1 && s.text_headers()[0].size() == 3200, "one text header of 3200 bytes");
    CommonSEGY::BinaryHeader b = ISEGY::read_binary_header("a.sgy");
    compare(b);
    vf::reach("end");
}
extern "C" void h_none() { go<0>(); }
extern "C" void h_big() { go<1>(); }
extern "C" void h_little() { go<2>(); }
// all values of the samples-per-trace fields
template <int M> static void ns()
{
    build(M);
    unsigned char* h = f.b + 3200;
    memset(h + 68, 0, 4);
    f.save("a.sgy");
    ISEGY s("a.sgy");
    compare(s.binary_header());
    vf::reach("end");
}
extern "C" void h_ns_big() { ns<1>(); }
extern "C" void h_ns_little() { ns<2>(); }
// every format code is reported as stored
extern "C" void h_fmt()
{
    for (int be = 0; be < 2; ++be) {
        f.be = be;
        memset(f.b, 0, 3600);
        if (!be) { f.b[3296] = 4; f.b[3297] = 3; f.b[3298] = 2; f.b[3299] = 1; }
        for (int c : fmts) {
            f.u(3200 + 24, c, 2);
            f.save("a.sgy");
            ISEGY s("a.sgy");
            vf::check(s.binary_header().format_code == c, "format code");
        }
    }
    vf::reach("end");
}
// the overriding constructor uses the caller's header, with the file's byte order
template <int M> static void over()
{
    build(M);
    f.save("a.sgy");
    CommonSEGY::BinaryHeader o;
    memset(&o, 0, sizeof o);
    bin_fields(o, [&](auto& v, int off, const char* name) { vf::bytes(name, &v, sizeof v); });
    bin_fields_rev2(o, [&](auto& v, int off, const char* name) { vf::bytes(name, &v, sizeof v); });
    o.format_code = 3; o.ext_text_headers_num = 0; o.num_of_trailer_stanza = 0;
    vf::assume(o.samp_per_tr >= 0 && o.samp_per_tr <= 3 && o.ext_samp_per_tr >= 0 && o.ext_samp_per_tr <= 3 && o.byte_off_of_first_tr < (1ull << 40) && (o.max_num_add_tr_headers == 0 || o.max_num_add_tr_headers == 1));
    ISEGY s("a.sgy", o);
    CommonSEGY::BinaryHeader b = s.binary_header();
    std::vector<uint64_t> got;
    bin_fields(b, [&](auto v, int, const char*) { got.push_back(vf::bits(v)); });
    bin_fields_rev2(b, [&](auto v, int, const char*) { got.push_back(vf::bits(v)); });
    size_t i = 0;
    bin_fields(o, [&](auto v, int, const char* n) { vf::check_eq(got[i++], vf::bits(v), n); });
    bin_fields_rev2(o, [&](auto v, int, const char* n) { vf::check_eq(got[i++], vf::bits(v), n); });
    vf::reach("end");
}
extern "C" void h_over_big() { over<0>(); }
extern "C" void h_over_little() { over<2>(); }
