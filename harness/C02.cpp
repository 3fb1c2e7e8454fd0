// C02: every sample written to a SEG-Y file is stored as the bytes that represent
// it under the writer's format code and byte order.
#include "segy.hpp"
// value with an integer meaning for integer formats
static CommonSEGY::BinaryHeader bh(int fmt, bool be, int ns)
{
    CommonSEGY::BinaryHeader b = {};
    b.format_code = fmt; b.samp_per_tr = ns; b.samp_int = 500; b.fixed_tr_length = 1; b.SEGY_rev_major_ver = 1;
    b.endianness = be ? 0 : 0x01020304;
    return b;
}
static Trace mk(std::vector<double> v) { UMap h; h["SAMP_NUM"] = (int64_t)v.size(); h["SAMP_INT"] = (int64_t)500; return Trace(h, v); }
// integers and IEEE formats: 2 traces x 2 samples, all symbolic
template <int FMT, bool BE> static void go()
{
    int B = bps(FMT);
    unsigned char raw[4][8] = {};
    double val[4];
    for (int i = 0; i < 4; ++i) {
        char nm[3] = { 'v', char('0' + i), 0 };
        if (FMT == 9 || FMT == 12) { // integers a double holds exactly
            int64_t x = vf::sym<int64_t>(nm);
            if (FMT == 9) vf::assume(x >= -(1ll << 53) && x <= (1ll << 53));
            else vf::assume(x >= 0 && x <= (1ll << 53));
            vf::put(raw[i], (uint64_t)x, 8, BE);
        } else vf::bytes(nm, raw[i], B);
        val[i] = decode(raw[i], FMT, BE);
        if (FMT == 5 || FMT == 6) vf::assume(!is_nan(val[i]));
    }
    {
        OSEGYRev1 o("o.sgy", {}, bh(FMT, BE, 2));
        for (int t = 0; t < 2; ++t) { Trace tr = mk({ val[2 * t], val[2 * t + 1] }); o.write_trace(tr); }
    }
    size_t n = vf_file_size("o.sgy"), tl = 240 + 2 * B;
    vf::check(n == 3600 + 2 * tl, "file size");
    const unsigned char* p = vf_file_data("o.sgy");
    for (int i = 0; i < 4; ++i) {
        const unsigned char* q = p + 3600 + (i / 2) * tl + 240 + (i % 2) * B;
        vf::check_eq(vf::get(q, B, BE), vf::get(raw[i], B, BE), "stored sample bytes");
    }
    vf::reach("end");
}
// any double in format 5 becomes the nearest single
template <bool BE> static void single()
{
    double d = vf::sym<double>("d");
    vf::assume(!is_nan(d));
    { OSEGYRev1 o("o.sgy", {}, bh(5, BE, 1)); Trace tr = mk({ d }); o.write_trace(tr); }
    vf::check(vf_file_size("o.sgy") == 3844, "file size");
    float f = (float)d; uint32_t w; memcpy(&w, &f, 4);
    vf::check_eq(vf::get(vf_file_data("o.sgy") + 3840, 4, BE), w, "nearest single");
    vf::reach("end");
}
// IBM: every normalised IBM number (and zero) is stored exactly
template <bool BE> static void ibm_exact()
{
    int e = (int)vf::choose("exp", 0, 127);
    uint32_t m = vf::sym<uint32_t>("mant");
    bool neg = vf::sym<uint8_t>("neg") & 1;
    vf::assume(m < (1u << 24) && m >= (1u << 20));
    double v = __builtin_ldexp((double)m, 4 * (e - 64) - 24);
    if (neg) v = -v;
    { OSEGYRev1 o("o.sgy", {}, bh(1, BE, 1)); Trace tr = mk({ v }); o.write_trace(tr); }
    vf::check(vf_file_size("o.sgy") == 3844, "file size");
    uint32_t got = (uint32_t)vf::get(vf_file_data("o.sgy") + 3840, 4, BE);
    vf::check_eq(got, (uint32_t)neg << 31 | (uint32_t)e << 24 | m, "IBM bytes of a representable value");
    vf::reach("end");
}
// IBM: any double with 53 significant bits in the IBM range is stored to within one unit of the last IBM place
template <bool BE> static void ibm_any()
{
    int e = (int)vf::choose("exp", 1, 126); // hexadecimal exponent
    int z = (int)vf::choose("lead", 0, 3);  // leading zero bits of the first digit
    uint64_t M = vf::sym<uint64_t>("mant");
    M = (M & ((1ull << 52) - 1)) | 1ull << 52;
    // v = M * 2^k with 16^(e-65) <= v < 16^(e-64)
    int k = 4 * (e - 64) - z - 53;
    double v = __builtin_ldexp((double)M, k);
    { OSEGYRev1 o("o.sgy", {}, bh(1, BE, 1)); Trace tr = mk({ v }); o.write_trace(tr); }
    vf::check(vf_file_size("o.sgy") == 3844, "file size");
    uint32_t got = (uint32_t)vf::get(vf_file_data("o.sgy") + 3840, 4, BE);
    uint64_t want = ((uint64_t)e << 24) + (M >> (53 + z - 24));
    // one step up in the last place (including a carry into the next hexadecimal digit) is allowed
    bool ok = got == want || got == want + 1 || ((want & 0xffffff) == 0xffffff && got == ((uint64_t)(e + 1) << 24 | 1u << 20));
    vf::check(ok, "IBM value within one unit in the last place");
    vf::reach("end");
}
// IBM: the smallest numbers have leading zero digits; smaller ones are stored to within
// one unit, greater ones as the greatest number
extern "C" void h_ibm_small()
{
    uint32_t m = vf::sym<uint32_t>("mant") & 0xfffff;
    bool neg = vf::sym<uint8_t>("neg") & 1;
    vf::assume(m != 0);
    double v = __builtin_ldexp((double)m, 4 * -64 - 24);
    if (neg) v = -v;
    { OSEGYRev1 o("o.sgy", {}, bh(1, true, 1)); Trace tr = mk({ v }); o.write_trace(tr); }
    uint32_t got = (uint32_t)vf::get(vf_file_data("o.sgy") + 3840, 4, true);
    vf::check_eq(got, (uint32_t)neg << 31 | m, "IBM bytes of a number with leading zero digits");
    vf::reach("end");
}
extern "C" void h_ibm_outside()
{
    static const int K[8] = { -281, -300, -700, -1022, 252, 253, 300, 1023 };
    int k = (int)vf::choose("k", 0, 7);
    bool neg = vf::choose("neg", 0, 1);
    double v = __builtin_ldexp(1.0, K[k]);
    if (neg) v = -v;
    { OSEGYRev1 o("o.sgy", {}, bh(1, true, 1)); Trace tr = mk({ v }); o.write_trace(tr); }
    uint32_t got = (uint32_t)vf::get(vf_file_data("o.sgy") + 3840, 4, true);
    if (k < 4) vf::check((got & 0x7fffffff) <= 1, "a number below the IBM range is stored as zero or the smallest one");
    else vf::check_eq(got, (uint32_t)neg << 31 | 0x7fffffff, "a number beyond the IBM range is stored as the greatest one");
    vf::reach("end");
}
extern "C" void h_ibm_zero()
{
    { OSEGYRev1 o("o.sgy", {}, bh(1, true, 1)); Trace tr = mk({ 0.0 }); o.write_trace(tr); }
    vf::check_eq(vf::get(vf_file_data("o.sgy") + 3840, 4, true) & 0xffffff, 0, "IBM zero has a zero fraction");
    vf::reach("end");
}
#define H(F) \
    extern "C" void h_fmt##F##_be() { go<F, true>(); } \
    extern "C" void h_fmt##F##_le() { go<F, false>(); }
H(2) H(3) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(15) H(16)
extern "C" void h_single_be() { single<true>(); }
extern "C" void h_single_le() { single<false>(); }
extern "C" void h_ibm_be() { ibm_exact<true>(); }
extern "C" void h_ibm_le() { ibm_exact<false>(); }
extern "C" void h_ibm_any() { ibm_any<true>(); }
extern "C" void t_ibm_any_le() { ibm_any<false>(); }
// long traces: any value at a few places, set values elsewhere
static void go_long(int fmt, bool be, int n)
{
    int B = bps(fmt);
    unsigned char raw[4][8] = {};
    size_t at[4] = { 0, 256, (size_t)n - 2, (size_t)n - 1 };
    std::vector<double> v(n);
    auto other = [](size_t i) { return (int)(i * 7 % 120); };
    for (int i = 0; i < n; ++i) v[i] = other(i);
    for (int i = 0; i < 4; ++i) {
        char nm[3] = { 'v', char('0' + i), 0 };
        vf::bytes(nm, raw[i], B);
        if (fmt == 1) { raw[i][be ? 0 : 3] = (unsigned char)((raw[i][be ? 0 : 3] & 0x80) | (0x3f + i)); raw[i][be ? 1 : 2] |= 0x80; }
        if (fmt == 9 || fmt == 12) { raw[i][be ? 0 : 7] = 0; raw[i][be ? 1 : 6] &= 0x1f; }
        v[at[i]] = decode(raw[i], fmt, be);
        if (fmt == 5 || fmt == 6) vf::assume(!is_nan(v[at[i]]));
    }
    { OSEGYRev1 o("o.sgy", {}, bh(fmt, be, n)); Trace tr = mk(v); o.write_trace(tr); }
    vf::check_eq(vf_file_size("o.sgy"), (size_t)(3840 + n * B), "file size");
    const unsigned char* p = vf_file_data("o.sgy") + 3840;
    bool bad = false;
    for (int i = 0; i < n; ++i) {
        int k = -1;
        for (int j = 0; j < 4; ++j) if (at[j] == (size_t)i) k = j;
        if (k >= 0) vf::check_eq(vf::get(p + i * B, B, be), vf::get(raw[k], B, be), "stored sample of a long trace");
        else bad |= decode(p + i * B, fmt, be) != other(i);
    }
    vf::check(!bad, "stored samples of a long trace");
    vf::reach("end");
}
static const int FM[13] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
extern "C" void h_long() { go_long(FM[vf::choose("fmt", 0, 12)], vf::choose("be", 0, 1), vf::choose("n", 0, 1) ? 1001 : 258); }
extern "C" void t_long() { go_long(FM[vf::choose("fmt", 0, 12)], vf::choose("be", 0, 1), 32767); }
