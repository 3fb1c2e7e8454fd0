// C06: a trace header written to a SEG-Y file stores every mapped word at its
// offset with its type, in the file's byte order; everything else is zero.
#include "hdr.hpp"
static CommonSEGY::BinaryHeader bh(bool be, int add)
{
    CommonSEGY::BinaryHeader b = {};
    b.format_code = 3; b.samp_per_tr = 1; b.samp_int = 500; b.fixed_tr_length = 1; b.endianness = be ? 0 : 0x01020304;
    if (add >= 0) { b.SEGY_rev_major_ver = 2; b.max_num_add_tr_headers = add; }
    return b;
}
// header words for all names of a mapping, the value of each taken from the last map that has it
static void fill(UMap& h, const TMap& m, int nhdr, unsigned char* raw)
{
    for (int k = 0; k < nhdr && k < (int)m.size(); ++k)
        for (auto& p : m[k].second) {
            const TypeInfo& i = info(p.second.second);
            const unsigned char* q = raw + 240 * k + p.first;
            uint64_t w = vf::get(q, i.n, true);
            if (i.fl) h[p.second.first] = decode(q, i.fmt, true);
            else h[p.second.first] = i.sgn ? vf::sext(w, 8 * i.n) : (int64_t)w;
        }
}
static void check_image(const unsigned char* got, const TMap& m, int nhdr, const unsigned char* raw, bool be)
{
    for (int k = 0; k < nhdr; ++k) {
        bool used[240] = {};
        if (k < (int)m.size())
            for (auto& p : m[k].second) {
                int n = info(p.second.second).n;
                for (int j = 0; j < n; ++j) used[p.first + j] = true;
                if (raw) vf::check_eq(vf::get(got + 240 * k + p.first, n, be), vf::get(raw + 240 * k + p.first, n, true), p.second.first.c_str());
            }
        for (int j = 0; j < 240; ++j) if (!used[j] || !raw) vf::check(got[240 * k + j] == 0, "bytes without a word are zero");
    }
}
template <int REV> static void write1(const UMap& h, const CommonSEGY::BinaryHeader& b, const TMap& m)
{
    Trace t(h, { 7.0 });
    if (REV == 0) { OSEGYRev0 o("o.sgy", std::string(3200, ' '), b, m); o.write_trace(t); o.write_trace(t); }
    if (REV == 1) { OSEGYRev1 o("o.sgy", {}, b, m); o.write_trace(t); o.write_trace(t); }
    if (REV == 2) { OSEGYRev2 o("o.sgy", {}, b, {}, m); o.write_trace(t); o.write_trace(t); }
}
// default mapping, all words symbolic
template <int REV> static void def()
{
    bool be = vf::choose("be", 0, 1);
    static unsigned char raw[240];
    vf::bytes("h", raw, 240);
    UMap h;
    fill(h, std_map(), 1, raw);
    h["NOT_MAPPED"] = (int64_t)77;
    write1<REV>(h, bh(be, REV == 2 ? 0 : -1), CommonSEGY::default_trace_header);
    vf::check(vf_file_size("o.sgy") == 3600 + 2 * 242, "file size");
    const unsigned char* p = vf_file_data("o.sgy") + 3600;
    check_image(p, std_map(), 1, raw, be);
    check_image(p + 242, std_map(), 1, raw, be);
    vf::reach("end");
}
extern "C" void h_default0() { def<0>(); }
extern "C" void h_default1() { def<1>(); }
extern "C" void h_default2() { def<2>(); }
// no words set at all: zeros
extern "C" void h_empty()
{
    UMap h;
    write1<0>(h, bh(true, -1), CommonSEGY::default_trace_header);
    vf::check(vf_file_size("o.sgy") == 3600 + 2 * 242, "file size");
    check_image(vf_file_data("o.sgy") + 3600, std_map(), 1, nullptr, true);
    vf::reach("end");
}
// additional headers: each map goes to its own 240 bytes
static const TMap two = { { "FIRST000", { { 4, { "X", VT::int32_t } }, { 8, { "Y", VT::uint16_t } }, { 20, { "D", VT::ieee_double } } } },
    { "SECOND00", { { 0, { "X2", VT::int64_t } }, { 232, { "Z", VT::int64_t } }, { 9, { "S", VT::ieee_single } } } },
    { "THIRD000", { { 3, { "Y3", VT::uint8_t } }, { 100, { "Q", VT::uint64_t } }, { 6, { "I24", VT::int24_t } } } } };
template <int N> static void add()
{
    bool be = vf::choose("be", 0, 1);
    static unsigned char raw[720];
    vf::bytes("h", raw, 240 * (N + 1));
    vf::assume((vf::get(raw + 20, 8, true) >> 52 & 0x7ff) != 0x7ff);
    if (N > 0) vf::assume((vf::get(raw + 249, 4, true) >> 23 & 0xff) != 0xff);
    TMap m(two.begin(), two.begin() + N + 1);
    UMap h;
    fill(h, m, N + 1, raw);
    write1<2>(h, bh(be, N), m);
    size_t tl = 240 * (N + 1) + 2;
    vf::check(vf_file_size("o.sgy") == 3600 + 2 * tl, "file size");
    const unsigned char* p = vf_file_data("o.sgy") + 3600;
    check_image(p, m, N + 1, raw, be);
    check_image(p + tl, m, N + 1, raw, be);
    vf::reach("end");
}
extern "C" void h_add0() { add<0>(); }
extern "C" void h_add1() { add<1>(); }
extern "C" void h_add2() { add<2>(); }
// one word of every type at any offset between two others
template <int T> static void custom(bool all)
{
    const TypeInfo& i = types[T];
    bool be = vf::choose("be", 0, 1);
    int off, last = 240 - i.n;
    if (all) off = (int)vf::choose("off", 0, last);
    else { static const int o[] = { 0, 1, 114, 115 }; int k = (int)vf::choose("k", 0, 4); off = k < 4 ? o[k] : last; }
    HMap m;
    m[off] = { "W", i.t };
    if (off >= 2) m[off - 2] = { "A", VT::int16_t };
    if (off + i.n + 3 <= 240) m[off + i.n] = { "B", VT::uint24_t };
    static unsigned char raw[240];
    vf::bytes("h", raw, 240);
    if (i.fmt == 1) { // a normalised IBM number
        raw[off] = (unsigned char)((raw[off] & 0x80) | (all ? vf::choose("e", 60, 70) : 66));
        vf::assume(raw[off + 1] >= 0x10);
    } else if (i.fmt == 5) vf::assume((vf::get(raw + off, 4, true) >> 23 & 0xff) != 0xff);
    else if (i.fmt == 6) vf::assume((vf::get(raw + off, 8, true) >> 52 & 0x7ff) != 0x7ff);
    TMap mm = { { "MYHEADER", m } };
    UMap h;
    fill(h, mm, 1, raw);
    write1<0>(h, bh(be, -1), mm);
    vf::check(vf_file_size("o.sgy") == 3600 + 2 * 242, "file size");
    check_image(vf_file_data("o.sgy") + 3600, mm, 1, raw, be);
    vf::reach("end");
}
#define H(T, N) \
    extern "C" void h_custom_##N() { custom<T>(false); } \
    extern "C" void t_custom_##N() { custom<T>(true); }
H(0, int8) H(1, uint8) H(2, int16) H(3, uint16) H(4, int24) H(5, uint24) H(6, int32) H(7, uint32) H(8, int64) H(9, uint64) H(10, ibm) H(11, single) H(12, dbl)
// integer words given as double and floating point words given as integers are converted
extern "C" void h_convert()
{
    bool be = vf::choose("be", 0, 1);
    int32_t a = vf::sym<int32_t>("a"), b = vf::sym<int32_t>("b");
    int16_t c = vf::sym<int16_t>("c");
    UMap h;
    h["I"] = (double)a; h["S"] = (double)c; h["D"] = (int64_t)b; h["F"] = (int64_t)c;
    TMap m = { { "MYHEADER", { { 0, { "I", VT::int32_t } }, { 4, { "S", VT::int16_t } }, { 8, { "D", VT::ieee_double } }, { 16, { "F", VT::ieee_single } } } } };
    write1<1>(h, bh(be, -1), m);
    const unsigned char* p = vf_file_data("o.sgy") + 3600;
    vf::check_eq(vf::get(p, 4, be), (uint32_t)a, "double to int32 word");
    vf::check_eq(vf::get(p + 4, 2, be), (uint16_t)c, "double to int16 word");
    vf::check_eq(vf::get(p + 8, 8, be), vf::bits((double)b), "integer to double word");
    vf::check_eq(vf::get(p + 16, 4, be), vf::bits((float)c), "integer to single word");
    vf::reach("end");
}
