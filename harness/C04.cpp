// C04: the binary file header a writer puts in the file holds the caller's
// values, field by field, in the chosen byte order; only documented defaults differ.
#include "binhdr.hpp"
#include <memory>
static void symbolic_header(CommonSEGY::BinaryHeader& o, int marker)
{
    memset(&o, 0, sizeof o);
    bin_fields(o, [&](auto& v, int, const char* name) { vf::bytes(name, &v, sizeof v); });
    bin_fields_rev2(o, [&](auto& v, int, const char* name) { vf::bytes(name, &v, sizeof v); });
    o.endianness = marker == 0 ? 0 : marker == 1 ? 0x04030201 : 0x01020304;
    vf::assume(o.samp_per_tr >= 0 && o.samp_per_tr <= 3 && o.ext_samp_per_tr >= 0 && o.ext_samp_per_tr <= 3);
    vf::assume(o.max_num_add_tr_headers == 0 || o.max_num_add_tr_headers == 1);
    vf::assume(o.job_id != 0); // the all-default header is C17
}
static void compare(CommonSEGY::BinaryHeader o, int marker, const char* file)
{
    bool be = marker != 2;
    vf::check(vf_file_size(file) >= 3600, "headers are written");
    const unsigned char* h = vf_file_data(file) + 3200;
    bin_fields(o, [&](auto v, int off, const char* name) { vf::check_eq(vf::get(h + off, sizeof v, be), vf::bits(v), name); });
    bin_fields_rev2(o, [&](auto v, int off, const char* name) { vf::check_eq(vf::get(h + off, sizeof v, be), vf::bits(v), name); });
    static const unsigned char mk[3][4] = { { 0, 0, 0, 0 }, { 1, 2, 3, 4 }, { 4, 3, 2, 1 } };
    vf::check(!memcmp(h + 96, mk[marker], 4), "byte order marker");
    for (int i = 100; i < 300; ++i) vf::check(h[i] == 0, "unassigned bytes are zero");
    for (int i = 332; i < 400; ++i) vf::check(h[i] == 0, "unassigned bytes are zero");
}
static const std::string txt(3200, 'x');
template <int REV> static void go(int marker, int fmt)
{
    CommonSEGY::BinaryHeader o;
    symbolic_header(o, marker);
    if (fmt >= 0) o.format_code = fmt;
    vf::assume(o.format_code == fmt);
    if (REV == 0) { OSEGYRev0 w("o.sgy", txt, o); }
    if (REV == 1) { OSEGYRev1 w("o.sgy", { txt, txt }, o); o.ext_text_headers_num = 1; if (!o.SEGY_rev_major_ver) o.SEGY_rev_major_ver = 1; }
    if (REV == 2) { OSEGYRev2 w("o.sgy", { txt, txt, txt }, o, { txt }); o.ext_text_headers_num = 2; o.num_of_trailer_stanza = 1; if (!o.SEGY_rev_major_ver) o.SEGY_rev_major_ver = 2; }
    if (o.format_code == 0) o.format_code = REV ? 5 : 1; // default format
    compare(o, marker, "o.sgy");
    vf::reach("end");
}
#define H(R) \
    extern "C" void h_rev##R##_none() { go<R>(0, 5); } \
    extern "C" void h_rev##R##_big() { go<R>(1, 1); } \
    extern "C" void h_rev##R##_little() { go<R>(2, 3); } \
    extern "C" void h_rev##R##_default_format() { go<R>(0, 0); }
H(0) H(1) H(2)
static const int fmts[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
template <int REV> static void formats()
{
    for (int c : fmts) {
        CommonSEGY::BinaryHeader o = {};
        o.format_code = c; o.samp_per_tr = 1; o.endianness = c & 1 ? 0 : 0x01020304;
        if (REV == 0) { OSEGYRev0 w("o.sgy", txt, o); }
        if (REV == 1) { OSEGYRev1 w("o.sgy", {}, o); }
        if (REV == 2) { OSEGYRev2 w("o.sgy", {}, o); }
        vf::check(vf::get(vf_file_data("o.sgy") + 3224, 2, c & 1) == c, "format code");
    }
    vf::reach("end");
}
extern "C" void h_formats0() { formats<0>(); }
extern "C" void h_formats1() { formats<1>(); }
extern "C" void h_formats2() { formats<2>(); }
