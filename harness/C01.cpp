// C01: every sample read from a SEG-Y file is the value its bytes represent
// under the file's format code and byte order, whatever its position.
#include "segy.hpp"
// 2 traces x 3 samples; all sample bytes symbolic
template <int FMT, bool BE> static void go()
{
    static Img<3600 + 2 * (240 + 3 * 8)> f;
    int B = bps(FMT);
    f.base(BE, FMT, 3);
    size_t tl = 240 + 3 * B;
    int which = -1;
    if (FMT == 1) which = (int)vf::choose("which", 0, 5); // one symbolic sample at a symbolic position
    for (int t = 0; t < 2; ++t)
        for (int i = 0; i < 3; ++i) {
            size_t off = 3600 + t * tl + 240 + i * B;
            char nm[3] = { 's', char('0' + t * 3 + i), 0 };
            if (which < 0 || which == t * 3 + i) f.sym(nm, off, B);
            else f.u(off, 0x42640000u + 0x01000001u * (t * 3 + i), B);
        }
    f.save("a.sgy", 3600 + 2 * tl);
    ISEGY s("a.sgy");
    for (int t = 0; t < 2; ++t) {
        vf::check(s.has_trace(), "has_trace before the last trace");
        Trace tr = s.read_trace();
        auto& v = tr.samples();
        vf::check(v.size() == 3, "number of samples");
        for (int i = 0; i < 3; ++i) {
            double e = decode(f.b + 3600 + t * tl + 240 + i * B, FMT, BE);
            if (FMT == 1) vf::check(v[i] == e, "IBM sample value");
            else if (FMT == 5 || FMT == 6) { if (!is_nan(e)) vf::check_eqd(v[i], e, "IEEE sample value"); else vf::check(is_nan(v[i]), "IEEE NaN stays NaN"); }
            else vf::check_eqd(v[i], e, "integer sample value");
        }
    }
    vf::check(!s.has_trace(), "no trace after the last");
    vf::reach("end");
}
#define H(F) \
    extern "C" void h_fmt##F##_be() { go<F, true>(); } \
    extern "C" void h_fmt##F##_le() { go<F, false>(); }
H(1) H(2) H(3) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(15) H(16)
// long traces: any bytes at a few places and set bytes elsewhere
static void go_long(int fmt, bool be, size_t n, bool ext)
{
    static Img<3600 + 240 + 8 * 65540> f;
    int B = bps(fmt);
    memset(f.b, 0, 3840);
    f.base(be, fmt, ext ? 3 : (unsigned)n);
    if (ext) f.b[3500] = 2, f.u(3502, 1, 2), f.u(3268, n, 4);
    unsigned char* p = f.b + 3840;
    for (size_t i = 0; i < n * B; ++i) p[i] = (unsigned char)(i * 29 + (i >> 8) + 3);
    size_t at[5] = { 0, 255, 256, n - 2, n - 1 };
    for (int i = 0; i < 5; ++i) {
        char nm[3] = { 's', char('0' + i), 0 };
        f.sym(nm, 3840 + at[i] * B, B);
        if (fmt == 1) p[at[i] * B + (be ? 0 : 3)] = (unsigned char)((p[at[i] * B + (be ? 0 : 3)] & 0x80) | (0x3e + i));
    }
    f.save("a.sgy", 3840 + n * B);
    ISEGY s("a.sgy");
    vf::check(s.has_trace(), "has_trace");
    Trace t = s.read_trace();
    auto& v = t.samples();
    vf::check_eq(v.size(), n, "number of samples of a long trace");
    bool bad = false;
    for (size_t i = 0; i < n; ++i) {
        double e = decode(p + i * B, fmt, be);
        bool sym = false;
        for (size_t a : at) sym |= a == i;
        if (sym) vf::check((is_nan(e) & is_nan(v[i])) | (v[i] == e), "sample of a long trace");
        else bad |= !((is_nan(e) & is_nan(v[i])) | (v[i] == e));
    }
    vf::check(!bad, "samples of a long trace");
    vf::check(!s.has_trace(), "no trace after the last");
    vf::reach("end");
}
static const int FM[13] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
extern "C" void h_long()
{
    static const size_t N[4] = { 257, 1001, 32768, 65535 };
    int n = (int)vf::choose("n", 0, 3), f = (int)vf::choose("fmt", 0, 12);
    if (n > 1 && f % 4 != 0) n = 0; // the longest with some of the formats
    go_long(FM[f], vf::choose("be", 0, 1), N[n], false);
}
extern "C" void h_longer() { go_long(vf::choose("f", 0, 1) ? 7 : 3, vf::choose("be", 0, 1), 65537, true); }
extern "C" void t_long() { go_long(FM[vf::choose("fmt", 0, 12)], vf::choose("be", 0, 1), 65535 + (size_t)vf::choose("n", 0, 2), true); }
