// C31: samples written in each format are the values given, divided by the descale
// factor: exactly when the format can hold them, else to within one unit of the last
// place, and never beyond the greatest value of the format.
#include "segd.hpp"
// a value that the format holds exactly: from bits; at most one exponent symbolic
static void fill(unsigned char* p, int fmt, size_t n, int free)
{
    vf::bytes("s", p, bytes_of(fmt, n));
    for (int i = 0; i < (int)n; ++i) {
        if (i == free) continue;
        switch (fmt) {
        case 8015: {
            unsigned char* q = p + i / 4 * 10 + i % 4 / 2;
            *q = i % 2 ? (*q & 0xf0) | (3 * i + 2) % 16 : (*q & 15) | (3 * i + 2) % 16 << 4;
            q = p + i / 4 * 10 + 2 + i % 4 * 2;
            q[0] = 0x40; // the fraction is normalised
            break;
        }
        case 8022: p[i] = (p[i] & 0x80) | (i + 3) % 8 << 4 | 8 | i; break;
        case 8024: p[2 * i] = (p[2 * i] & 0x80) | (i + 3) % 8 << 4 | 8; break;
        case 8042: p[i] = (p[i] & 0x80) | (i + 1) % 4 << 5 | 0x10 | i; break;
        case 8044: p[2 * i] = (p[2 * i] & 0x80) | (i + 1) % 4 << 5 | 0x10; break;
        case 8048: p[4 * i] = (p[4 * i] & 0x80) | (0x40 + i); p[4 * i + 1] |= 0x80; break;
        }
    }
    if (fmt == 8015)
        for (size_t i = n; i % 4; ++i) {
            unsigned char* q = p + i / 4 * 10 + i % 4 / 2;
            *q = i % 2 ? *q & 0xf0 : *q & 15;
        }
}
static const unsigned char* write(int fmt, int k, std::vector<double> const& x)
{
    GH1 g = w_gh1(fmt, 1, 1);
    std::vector<std::vector<CSH>> c(1);
    c[0].push_back(w_set(1, 1, 1, k));
    Trace t(UMap {}, x);
    {
        OSEGDRev2_1 o("o", g, w_gh2(), c);
        o.write_trace(t);
    }
    vf::check_eq(vf_file_size("o"), 96 + 20 + bytes_of(fmt, x.size()), "size of the file");
    return vf_file_data("o") + 116;
}
static void exact(int fmt, size_t n, int k, int free)
{
    unsigned char p[64];
    fill(p, fmt, n, free);
    std::vector<double> x;
    for (size_t i = 0; i < n; ++i) x.push_back(sample_of(fmt, p, i, k));
    const unsigned char* d = write(fmt, k, x);
    for (size_t i = 0; i < n; ++i) vf::check(sample_of(fmt, d, i, k) == x[i], "sample");
    vf::reach("end");
}
static int ks() { int k = (int)vf::choose("k", 0, 2); return k == 0 ? 0 : k == 1 ? 3 : -5; }
#define H(F) extern "C" void h_##F() { exact(F, 3, ks(), (int)vf::choose("free", 0, 2)); }
H(8022) H(8024) H(8042) H(8044)
extern "C" void h_8015()
{
    int n = (int)vf::choose("n", 0, 2);
    exact(8015, n == 0 ? 1 : n == 1 ? 4 : 5, n == 0 ? 0 : n == 1 ? 3 : -5, n == 0 ? 0 : n == 1 ? (int)vf::choose("free", 0, 3) : 4);
}
extern "C" void t_8015() { exact(8015, (size_t)vf::choose("n", 1, 6), ks(), (int)vf::choose("free", 0, 5)); }
// whole numbers; in the second sample a fraction that is dropped or rounded
static void whole(int fmt)
{
    int bits = fmt % 1000 == 36 ? 24 : 32, k = ks(), sign = (int)vf::choose("sign", 0, 1);
    uint32_t m[2];
    for (int i = 0; i < 2; ++i) m[i] = vf::sym<uint32_t>(i ? "m1" : "m0") & ((1u << (bits - 1)) - 1);
    uint8_t fr = vf::sym<uint8_t>("fr");
    if (vf::choose("least", 0, 1)) sign = 1, m[0] = 1u << (bits - 1), m[1] = 12345;
    double v[2] = { (double)m[0], (double)((uint64_t)m[1] << 8 | fr) / 256 };
    if (sign) v[0] = -v[0], v[1] = -v[1];
    const unsigned char* d = write(fmt, k, { __builtin_ldexp(v[0], k), __builtin_ldexp(v[1], k) });
    int n = bits / 8;
    uint64_t mask = (1ull << bits) - 1;
    uint64_t got[2] = { vf::get(d, n, fmt < 9000), vf::get(d + n, n, fmt < 9000) };
    vf::check_eq(got[0], (sign ? 0 - (uint64_t)m[0] : (uint64_t)m[0]) & mask, "whole number");
    uint64_t lo = sign ? 0 - (uint64_t)m[1] : (uint64_t)m[1], hi = sign ? lo - 1 : lo + 1;
    vf::check((got[1] == (lo & mask)) | ((fr != 0) & (got[1] == (hi & mask))), "fraction dropped or rounded");
    vf::reach("end");
}
extern "C" void h_8036() { whole(8036); }
extern "C" void h_8038() { whole(8038); }
extern "C" void h_9036() { whole(9036); }
extern "C" void h_9038() { whole(9038); }
// IBM floating point: every normalised number
static void ibm(int e)
{
    int k = ks(), sign = (int)vf::choose("sign", 0, 1);
    uint32_t m = (vf::sym<uint32_t>("m") & 0xfffff) | (uint32_t)vf::choose("digit", 1, 15) << 20;
    double v = __builtin_ldexp((double)m, 4 * (e - 64) - 24 + k);
    const unsigned char* d = write(8048, k, { sign ? -v : v, __builtin_ldexp(1, k), 0, __builtin_ldexp(-5, -270 + k), __builtin_ldexp(-1, 300 + k) });
    vf::check_eq(vf::get(d, 4, true), (uint64_t)sign << 31 | (uint64_t)e << 24 | m, "IBM number");
    vf::check_eq(vf::get(d + 4, 4, true), 0x41100000ull, "power of 16");
    vf::check_eq(vf::get(d + 8, 4, true) & 0xffffff, 0ull, "zero");
    vf::check_eq(vf::get(d + 12, 4, true), (uint64_t)0x80000000 | 5u << 10, "number with leading zero digits");
    vf::check_eq(vf::get(d + 16, 4, true), 0xffffffffull, "number beyond the range");
    vf::reach("end");
}
extern "C" void h_8048()
{
    static const int E[8] = { 0, 1, 0x20, 0x3f, 0x40, 0x41, 0x7e, 0x7f };
    ibm(E[vf::choose("e", 0, 7)]);
}
extern "C" void t_8048() { ibm((int)vf::choose("e", 0, 127)); }
// any floating point number
static void ieee(int fmt)
{
    int k = ks();
    double x[2];
    for (int i = 0; i < 2; ++i) {
        uint64_t u = vf::sym<uint64_t>(i ? "u1" : "u0");
        if (fmt % 1000 == 58) { // of single precision, or rounded to it
            if (i) { u &= ~(0x7ffull << 52); u |= (uint64_t)vf::choose("exp", 1000, 1003) << 52; memcpy(x + 1, &u, 8); }
            else { uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); x[0] = f; }
        } else memcpy(x + i, &u, 8);
        vf::assume(x[i] == x[i]);
    }
    const unsigned char* d = write(fmt, k, { x[0], x[1] });
    double s = __builtin_ldexp(1.0, k);
    for (int i = 0; i < 2; ++i) {
        if (fmt % 1000 == 58) {
            float f = (float)(x[i] / s);
            uint32_t w;
            memcpy(&w, &f, 4);
            vf::check_eq(vf::get(d + 4 * i, 4, fmt < 9000), (uint64_t)w, "nearest single precision number");
        } else {
            double f = x[i] / s;
            uint64_t w;
            memcpy(&w, &f, 8);
            vf::check_eq(vf::get(d + 8 * i, 8, fmt < 9000), w, "double precision number");
        }
    }
    vf::reach("end");
}
extern "C" void h_8058() { ieee(8058); }
extern "C" void h_9058() { ieee(9058); }
extern "C" void h_8080() { ieee(8080); }
extern "C" void h_9080() { ieee(9080); }
// values between those of the format: at most one unit of the last place away
static void near(int fmt, int ebits, int base, int fb)
{
    int k = ks(), top = (1 << ebits) - 1, e = (int)vf::choose("e", 0, top), sign = (int)vf::choose("sign", 0, 1);
    const int extra = 5;
    uint64_t m = vf::sym<uint64_t>("m") & ((1ull << (fb + extra)) - 1);
    // this exponent is the smallest that can hold the value
    if (e) vf::assume(m >> (fb + extra - base));
    double v = __builtin_ldexp((double)m, base * e - fb - extra), unit = __builtin_ldexp(1.0, base * e - fb);
    const unsigned char* d = write(fmt, k, { __builtin_ldexp(sign ? -v : v, k) });
    double g = sample_of(fmt, d, 0, 0);
    if (sign) g = -g;
    double r = g - v;
    vf::check(r <= unit, "not more than one unit too great");
    vf::check(-r <= unit, "not more than one unit too small");
    vf::reach("end");
}
extern "C" void h_near_8015() { near(8015, 4, 1, 15); }
extern "C" void h_near_8022() { near(8022, 3, 1, 4); }
extern "C" void h_near_8024() { near(8024, 3, 1, 12); }
extern "C" void h_near_8042() { near(8042, 2, 4, 5); }
extern "C" void h_near_8044() { near(8044, 2, 4, 13); }
// values beyond the format: the greatest one, with the sign kept
extern "C" void h_beyond()
{
    static const int F[5] = { 8015, 8022, 8024, 8042, 8044 }, E[5] = { 15, 7, 7, 12, 12 }, FB[5] = { 15, 4, 12, 5, 13 };
    int f = (int)vf::choose("f", 0, 4), sign = (int)vf::choose("sign", 0, 1), k = ks(), x = (int)vf::choose("x", 0, 2);
    double v = __builtin_ldexp(x == 1 ? 1.5 : 1, E[f] + (x == 2 ? 40 : 0));
    const unsigned char* d = write(F[f], k, { __builtin_ldexp(sign ? -v : v, k) });
    double g = sample_of(F[f], d, 0, 0), most = __builtin_ldexp(1.0, E[f]), unit = __builtin_ldexp(1.0, E[f] - FB[f]);
    if (sign) g = -g;
    vf::check((g <= most) & (g >= most - unit), "the greatest value");
    vf::reach("end");
}
// traces of several scan types and channel sets in any order: each has the factor of its own set
extern "C" void h_sets()
{
    static const int K[4] = { 2, -3, 5, -1 };
    int fmt = 8036, b = bits_of(fmt) / 8;
    GH1 g = w_gh1(fmt, 2, 2);
    std::vector<std::vector<CSH>> c(2);
    for (int i = 0; i < 4; ++i) c[i / 2].push_back(w_set(i / 2 + 1, i % 2 + 1, 1, K[i]));
    int z[3];
    double x[3];
    {
        OSEGDRev2_1 o("o", g, w_gh2(), c);
        for (int i = 0; i < 3; ++i) {
            char n[3] = { 'z', char('0' + i), 0 }, m[3] = { 's', char('0' + i), 0 };
            z[i] = (int)vf::choose(n, 0, 3);
            unsigned char p[4];
            vf::bytes(m, p, b);
            x[i] = sample_of(fmt, p, 0, K[z[i]]);
            UMap h;
            h["SCAN_TYPE_NUM"] = z[i] / 2 + 1;
            h["CH_SET_NUM"] = z[i] % 2 + 1;
            Trace t(h, { x[i] });
            o.write_trace(t);
        }
    }
    vf::check_eq(vf_file_size("o"), 64 + 4 * 32 + 3 * (20 + b), "size of the file");
    const unsigned char* d = vf_file_data("o") + 64 + 4 * 32;
    for (int i = 0; i < 3; ++i) vf::check(sample_of(fmt, d + 20 + i * (20 + b), 0, K[z[i]]) == x[i], "sample");
    vf::reach("end");
}
