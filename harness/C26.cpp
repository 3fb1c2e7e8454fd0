// C26: every sample read from a SEG-D file is the value its bits represent under
// the format code, times 2 to the descale exponent of its channel set.
#include "segd.hpp"
// bytes of n samples; at most one exponent (of sample `free`) is symbolic where a
// format splits into many cases by exponent
static void fill(unsigned char* p, int fmt, size_t n, int free, const char* name)
{
    size_t len = bytes_of(fmt, n);
    vf::bytes(name, p, len);
    for (int i = 0; i < (int)n; ++i) {
        if (i == free) continue;
        switch (fmt) {
        case 8015: {
            unsigned char* q = p + i / 4 * 10 + i % 4 / 2;
            *q = i % 2 ? (*q & 0xf0) | (3 * i + 2) % 16 : (*q & 15) | (3 * i + 2) % 16 << 4;
            break;
        }
        case 8022: p[i] = (p[i] & 0x8f) | (i + 3) % 8 << 4; break;
        case 8024: p[2 * i] = (p[2 * i] & 0x8f) | (i + 3) % 8 << 4; break;
        case 8042: p[i] = (p[i] & 0x9f) | (i + 1) % 4 << 5; break;
        case 8044: p[2 * i] = (p[2 * i] & 0x9f) | (i + 1) % 4 << 5; break;
        case 8048: p[4 * i] = (p[4 * i] & 0x80) | (0x40 + i); break;
        }
    }
    if (fmt == 8015) // unused places of the last group
        for (size_t i = n; i % 4; ++i) {
            unsigned char* q = p + i / 4 * 10 + i % 4 / 2;
            *q = i % 2 ? *q & 0xf0 : *q & 15;
        }
}
static bool nan_(double d) { return d != d; }
static void go(int fmt, int major, size_t n, int k0, int k1, bool all)
{
    static Gd<96 + 2 * 96 + 2 * (20 + 32 + 64)> f;
    f.n = 0;
    f.gh1(fmt, major < 3 ? 1 : 2, 1, 2);
    f.gh2(major);
    if (major > 2) f.gh3();
    if (major < 3) f.set2(1, 1, 1, 1024 * k0), f.set2(1, 2, 1, 1024 * k1);
    else f.set3(1, 1, 1, (unsigned)n, (float)k0), f.set3(1, 2, 1, (unsigned)n, (float)k1);
    unsigned char* p[2];
    bool split = fmt == 8015 || fmt == 8022 || fmt == 8024 || fmt == 8042 || fmt == 8044 || fmt == 8048;
    int free = split ? (all ? (int)vf::choose("free", 0, 2 * (int)n - 1) : (int)n - 1 + (int)vf::choose("next", 0, 1)) : 0;
    for (int i = 0; i < 2; ++i) { // the second channel set comes first
        f.trc(1, 2 - i, 1, 1);
        f.ext(major, (unsigned)n);
        p[i] = f.at(bytes_of(fmt, n));
        fill(p[i], fmt, n, free - i * (int)n, i ? "s1" : "s0");
    }
    f.save("a");
    ISEGD g("a");
    for (int i = 0; i < 2; ++i) {
        Trace r = g.read_trace();
        auto& v = r.samples();
        vf::check_eq(v.size(), n, "number of samples");
        for (size_t j = 0; j < n; ++j) {
            double w = sample_of(fmt, p[i], j, i ? k0 : k1);
            if (fmt % 1000 == 58 || fmt % 1000 == 80) vf::check((nan_(w) & nan_(v[j])) | vf::same_bits(v[j], w), "IEEE sample (a NaN stays a NaN)");
            else vf::check(v[j] == w, "sample");
        }
    }
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
static void ks(int fmt, size_t n, bool all = false)
{
    int k = (int)vf::choose("k", 0, 2);
    go(fmt, (int)vf::choose("major", 2, 3), n, k == 0 ? 0 : k == 1 ? 1 : -5, k == 0 ? 3 : k == 1 ? -1 : 6, all);
}
#define H(F) extern "C" void h_##F() { ks(F, 3); }
H(8022) H(8024) H(8036) H(8038) H(8042) H(8044) H(8048) H(8058) H(8080) H(9036) H(9038) H(9058) H(9080)
extern "C" void h_8015() { ks(8015, (size_t)vf::choose("n", 1, 6)); }
#define T(F) extern "C" void t_##F() { ks(F, 5, true); }
T(8022) T(8024) T(8036) T(8038) T(8042) T(8044) T(8048) T(8058) T(8080) T(9036) T(9038) T(9058) T(9080)
extern "C" void t_8015() { ks(8015, (size_t)vf::choose("n", 1, 9), true); }
// long traces: any bits at a few places (both sides of what fits a byte or two, and the last), set bits elsewhere
static void go_long(int fmt, int major, size_t n, int k)
{
    constexpr size_t M = 8 * 65540;
    static Gd<96 + 96 + 20 + 32 + M> f;
    f.n = 0;
    f.gh1(fmt, major < 3 ? 1 : 2, 1, 1);
    f.gh2(major);
    if (major > 2) f.gh3(), f.set3(1, 1, 1, (unsigned)n, (float)k);
    else f.set2(1, 1, 1, 1024 * k);
    f.trc(1, 1, 1, 1);
    f.ext(major, (unsigned)n);
    unsigned char* p = f.at(bytes_of(fmt, n));
    for (size_t i = 0; i < bytes_of(fmt, n); ++i) p[i] = (unsigned char)(i * 13 + (i >> 8) + 1);
    if (fmt == 8015) // unused places of the last group
        for (size_t i = n; i % 4; ++i) {
            unsigned char* q = p + i / 4 * 10 + i % 4 / 2;
            *q = i % 2 ? *q & 0xf0 : *q & 15;
        }
    size_t at[5] = { 127, 255, 256, n - 2, n - 1 };
    int b = bits_of(fmt) / 8;
    for (int i = 0; i < 5; ++i) {
        char nm[3] = { 's', char('0' + i), 0 };
        if (at[i] >= n) continue;
        if (fmt == 8015) vf::bytes(nm, p + at[i] / 4 * 10 + 2 + 2 * (at[i] % 4), 2);
        else {
            unsigned char* q = p + b * at[i];
            unsigned char o = *q;
            vf::bytes(nm, q, b);
            switch (fmt) { // exponents stay
            case 8022: case 8024: *q = (*q & 0x8f) | (o & 0x70); break;
            case 8042: case 8044: *q = (*q & 0x9f) | (o & 0x60); break;
            case 8048: *q = (*q & 0x80) | (o & 0x7f); break;
            }
        }
    }
    f.save("a");
    ISEGD g("a");
    Trace r = g.read_trace();
    auto& v = r.samples();
    vf::check_eq(v.size(), n, "number of samples");
    bool bad = false;
    for (size_t j = 0; j < n; ++j) {
        double w = sample_of(fmt, p, j, k);
        bool sym = false;
        for (size_t a : at) sym |= a == j;
        if (!sym) bad |= !((nan_(w) & nan_(v[j])) | (v[j] == w));
        else if (fmt % 1000 == 58 || fmt % 1000 == 80) vf::check((nan_(w) & nan_(v[j])) | vf::same_bits(v[j], w), "IEEE sample of a long trace");
        else vf::check(v[j] == w, "sample of a long trace");
    }
    vf::check(!bad, "samples of a long trace");
    vf::check_eq((size_t)wi(r.header(), "SAMP_NUM"), n, "SAMP_NUM");
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
extern "C" void h_long()
{
    int fmt = FMT[vf::choose("fmt", 0, 13)];
    static const size_t N[4] = { 255, 256, 258, 1001 };
    go_long(fmt, (int)vf::choose("major", 2, 3), N[vf::choose("n", 0, 3)], 2);
}
extern "C" void h_longer() { go_long(vf::choose("fmt", 0, 1) ? 8015 : 9036, (int)vf::choose("major", 2, 3), 65537, 0); }
extern "C" void t_longer() { go_long(FMT[vf::choose("fmt", 0, 13)], (int)vf::choose("major", 1, 3), 65535 + (size_t)vf::choose("n", 0, 2), -1); }
// exponents that are not whole
extern "C" void h_fraction()
{
    static Gd<64 + 32 + 20 + 32 + 4> f;
    f.n = 0;
    static const int D[4] = { 512, -256, 1536, 1 };
    int d = D[vf::choose("d", 0, 3)];
    f.gh1(8038, 1, 1, 1);
    f.gh2(2);
    f.set2(1, 1, 1, d);
    f.trc(1, 1, 1, 1);
    f.ext(2, 1);
    static const int V[5] = { 0, 1, -3, 1000001, -0x7fffffff - 1 };
    int v = V[vf::choose("v", 0, 4)];
    vf::put(f.at(4), (uint32_t)v, 4, true);
    f.save("a");
    ISEGD g("a");
    Trace r = g.read_trace();
    double w = v * __builtin_pow(2, d / 1024.0), e = r.samples()[0] - w;
    vf::check((e < 0 ? -e : e) <= 1e-12 * (w < 0 ? -w : w), "sample times a power of 2 that is not whole");
    vf::reach("end");
}
// format codes that are not known are refused
extern "C" void h_unknown()
{
    static Gd<32> f;
    f.n = 0;
    unsigned char* p = f.gh1(8058, 0, 0, 0);
    vf::bytes("f", p + 2, 2);
    f.save("a");
    uint64_t c = dec(p, 4, 4);
    bool known = false;
    for (int k : FMT) known |= c == (uint64_t)k;
    bool ok = true;
    try {
        ISEGD g("a");
        vf::check_eq((uint64_t)g.general_header().format_code, c, "format_code");
    } catch (Exception&) {
        ok = false;
    }
    vf::check(ok == known, "accepted exactly when the format is known");
    vf::reach("end");
}
// traces of several scan types and channel sets in any order: each has the factor and
// (without a header extension) the number of samples of its own set
extern "C" void h_sets()
{
    static const int K[4] = { 2, -3, 5, -1 };
    int fmt = 8036, b = bits_of(fmt) / 8, major = (int)vf::choose("major", 0, 3);
    bool ext = major && vf::choose("ext", 0, 1);
    Gd<2000> f;
    f.gh1(fmt, major == 0 ? 0 : major < 3 ? 1 : 2, 2, 2);
    if (major) f.gh2(major);
    if (major > 2) f.gh3();
    for (int i = 0; i < 4; ++i)
        if (major < 3) f.set2(i / 2 + 1, i % 2 + 1, i == 3 ? 0 : 1, K[i] * 1024)[11] = (unsigned char)(i << 4);
        else f.set3(i / 2 + 1, i % 2 + 1, i == 3 ? 0 : 1, 1 << i, K[i]);
    int z[3];
    unsigned char* s[3];
    for (int i = 0; i < 3; ++i) {
        char n[3] = { 'z', char('0' + i), 0 }, m[3] = { 's', char('0' + i), 0 };
        z[i] = (int)vf::choose(n, 0, 3);
        int ns = ext ? 1 + i : 1 << z[i];
        f.trc(z[i] / 2 + 1, z[i] % 2 + 1, i + 1, ext);
        if (ext) f.ext(major, ns);
        s[i] = f.at(ns * b);
        vf::bytes(m, s[i], ns * b);
    }
    f.save("a");
    ISEGD g("a");
    for (int i = 0; i < 3; ++i) {
        Trace t = g.read_trace();
        size_t ns = ext ? 1 + i : 1 << z[i];
        vf::check(t.samples().size() == ns, "number of samples of the channel set");
        for (size_t j = 0; j < ns; ++j) vf::check(t.samples()[j] == sample_of(fmt, s[i], j, K[z[i]]), "sample");
    }
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
