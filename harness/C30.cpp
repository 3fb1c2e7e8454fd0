// C30: a SEG-D writer stores every trace given to it, in order: header words, header
// extensions (standard or by the caller's maps) and samples in the file's format.
#include "segd.hpp"
struct W { // a writer with two scan types of two channel sets each
    GH1 g;
    GH2 h;
    std::vector<std::vector<CSH>> c;
    size_t head;
    W(int fmt, int major, int k0, int k1, int k2, int k3)
        : g { w_gh1(fmt, 2, 2) }
        , h { w_gh2(major) }
        , c(2)
        , head { 64 + 4 * 32 }
    {
        c[0].push_back(w_set(1, 1, 9, k0));
        c[0].push_back(w_set(1, 2, 9, k1));
        c[1].push_back(w_set(2, 1, 9, k2));
        c[1].push_back(w_set(2, 2, 9, k3));
    }
};
static const unsigned char* data(size_t want) { vf::check_eq(vf_file_size("o"), want, "size of the file"); return vf_file_data("o"); }
static void same(const unsigned char* d, const unsigned char* w, int n, const char* m) { for (int i = 0; i < n; ++i) vf::check_eq((uint64_t)d[i], (uint64_t)w[i], m); }
// the 20 bytes of a trace header; the extended file number may repeat a short one
static void check20(const unsigned char* d, const unsigned char* w, const char* m)
{
    same(d, w, 17, m);
    uint64_t x = vf::get(d + 17, 3, true), f = vf::get(w + 17, 3, true);
    if (w[0] == 0xff) vf::check_eq(x, f, m);
    else vf::check((x == 0) | (x == dec(w, 0, 4)), m);
}
static void file_number(unsigned char* w, uint32_t n)
{
    if (n > 9999) w[0] = w[1] = 0xff, vf::put(w + 17, n, 3, true);
    else bcd(w, 0, 4, n);
}
// numbers at their limits, the rest of the header any value
extern "C" void h_header()
{
    W s(8038, (int)vf::choose("major", 0, 2), 0, 0, 0, 0);
    unsigned char w[20] = {};
    bcd(w, 4, 2, 1);
    bcd(w, 6, 2, 1);
    vf::bytes("a", w + 6, 3);
    vf::bytes("b", w + 10, 5);
    static const int F[7] = { 0, 1, 99, 4711, 9999, 10000, 0xfffffe }, N[5] = { 0, 1, 99, 4711, 9999 };
    UMap m;
    int k = (int)vf::choose("k", 0, 5);
    int ffid = 7, chan = 12, scan = 1, set = 1;
    if (k == 0) ffid = F[vf::choose("v", 0, 6)];
    if (k == 1) chan = N[vf::choose("v", 0, 4)];
    if (k == 2) scan = 2;
    if (k == 3) set = 2;
    if (k == 4) scan = set = 2;
    if (k != 5) {
        m["FFID"] = (int64_t)ffid;
        m["CHAN"] = (int64_t)chan;
        m["SCAN_TYPE_NUM"] = (int64_t)scan;
        m["CH_SET_NUM"] = (int64_t)set;
        m["FIRST_TIMING_WORD"] = (double)(uint32_t)vf::get(w + 6, 3, true) / 256;
        m["SAMPLE_SKEW"] = (double)w[10] / 256;
        m["TRACE_EDIT"] = (int64_t)w[11];
        m["TIME_BREAK_WIN"] = (double)(uint32_t)vf::get(w + 12, 3, true) / 256;
        m["TR_HDR_EXT"] = (int64_t)0;
        m["OTHER"] = (int64_t)99;
        file_number(w, ffid);
        bcd(w, 8, 4, chan);
        bcd(w, 4, 2, scan);
        bcd(w, 6, 2, set);
    } else { // no words: zeros, the first channel set
        memset(w, 0, 20);
        bcd(w, 4, 2, 1);
        bcd(w, 6, 2, 1);
    }
    Trace t(m, { 5 });
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c);
        o.write_trace(t);
    }
    const unsigned char* d = data(s.head + 24) + s.head;
    check20(d, w, "trace header");
    vf::check_eq(vf::get(d + 20, 4, true), (uint64_t)5, "sample after the header");
    vf::reach("end");
}
// scan types and channel sets of two digits and more
static void numbers(int scans, int sets, int scan, int set)
{
    GH1 g = w_gh1(8038, scans, sets > 99 ? 165 : sets);
    GH2 h = w_gh2();
    if (sets > 99) h.ext_ch_sets_per_scan_type = (uint16_t)sets;
    std::vector<std::vector<CSH>> c(scans);
    for (int s = 1; s <= scans; ++s)
        for (int i = 1; i <= sets; ++i) c[s - 1].push_back(w_set(s, i, 1, (s + i) % 5 - 2));
    unsigned char w[20] = {};
    file_number(w, 3);
    bcd(w, 4, 2, scan);
    if (set > 99) w[3] = 0xff, vf::put(w + 15, set, 2, true);
    else bcd(w, 6, 2, set);
    vf::bytes("e", w + 11, 1);
    Trace t(UMap { { "FFID", (int64_t)3 }, { "SCAN_TYPE_NUM", (int64_t)scan }, { "CH_SET_NUM", (int64_t)set }, { "TRACE_EDIT", (int64_t)w[11] } }, { 1000 });
    {
        OSEGDRev2_1 o("o", g, h, c);
        o.write_trace(t);
    }
    size_t at = 64 + 32 * scans * sets;
    const unsigned char* d = data(at + 24) + at;
    check20(d, w, "trace header");
    vf::check_eq(vf::get(d + 20, 4, true), (uint64_t)(4000 >> (scan + set) % 5), "descaled by its channel set");
    vf::reach("end");
}
extern "C" void h_set100()
{
    static const int S[6] = { 9, 10, 12, 57, 90, 99 }, C[10] = { 9, 10, 45, 90, 98, 99, 100, 101, 256, 300 };
    if (vf::choose("k", 0, 1)) numbers(99, 1, S[vf::choose("scan", 0, 5)], 1);
    else numbers(1, 300, 1, C[vf::choose("set", 0, 9)]);
}
// standard extension; further ones are empty
static void standard(int major, int ext, int kind)
{
    W s(8038, major, 0, 0, 0, 0);
    unsigned char w[32] = {};
    vf::bytes("e", w, 10);
    UMap m { { "TR_HDR_EXT", (int64_t)ext } };
    uint32_t line = (uint32_t)vf::get(w, 3, true), point = (uint32_t)vf::get(w + 3, 3, true);
    m["R_POINT_IDX"] = (int64_t)w[6];
    m["SAMP_NUM"] = (int64_t)vf::get(w + 7, 3, true);
    unsigned char x[11];
    memcpy(x, w, 3);
    memcpy(x + 5, w + 3, 3);
    vf::bytes("x", x + 3, 2);
    vf::bytes("y", x + 8, 3);
    if (kind & 1) m["R_LINE"] = (double)((uint64_t)line << 16 | (uint32_t)vf::get(x + 3, 2, true)) / 65536;
    else m["R_LINE"] = (int64_t)line, x[3] = x[4] = 0;
    if (kind & 2) m["R_POINT"] = (double)((uint64_t)point << 16 | (uint32_t)vf::get(x + 8, 2, true)) / 65536;
    else m["R_POINT"] = (int64_t)point, x[8] = x[9] = 0;
    m["SENSOR_TYPE"] = (int64_t)x[10];
    if (major > 1) memcpy(w + 10, x, 11);
    if (kind == 4) memset(w, 0, 32), m = UMap { { "TR_HDR_EXT", (int64_t)ext } };
    Trace t(m, { 77 });
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c);
        o.write_trace(t);
    }
    const unsigned char* d = data(s.head + 24 + 32 * ext) + s.head;
    vf::check_eq((uint64_t)d[9], (uint64_t)ext, "number of extensions");
    same(d + 20, w, 32, "first extension");
    for (int i = 0; i < 32 * (ext - 1); ++i) vf::check_eq((uint64_t)d[52 + i], (uint64_t)0, "further extensions");
    vf::check_eq(vf::get(d + 20 + 32 * ext, 4, true), (uint64_t)77, "sample after extensions");
    vf::reach("end");
}
extern "C" void h_standard() { standard((int)vf::choose("major", 1, 2), (int)vf::choose("ext", 1, 2), (int)vf::choose("kind", 0, 4)); }
extern "C" void h_standard_many()
{
    static const int E[5] = { 9, 10, 16, 100, 255 };
    standard((int)vf::choose("major", 1, 2), E[vf::choose("ext", 0, 4)], 3);
}
extern "C" void t_standard() { standard((int)vf::choose("major", 1, 2), 3, (int)vf::choose("kind", 0, 4)); }
// the caller's maps: every type at any place of any extension, nothing around it
static const VT TY[13] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t, VT::uint64_t, VT::ieee_single, VT::ieee_double, VT::ibm };
static const int SZ[13] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 8, 4 };
extern "C" void h_maps()
{
    W s(8038, 2, 0, 0, 0, 0);
    int k = (int)vf::choose("t", 0, 12), b = (int)vf::choose("b", 0, 1), n = SZ[k];
    int off = (int)vf::choose("off", 0, 2);
    off = off == 0 ? 0 : off == 1 ? 5 : 32 - n;
    unsigned char w[64] = {};
    unsigned char* p = w + 32 * b + off;
    vf::bytes("v", p, n);
    uint64_t u = vf::get(p, n, true);
    Value v;
    bool nan = false;
    if (k == 10) { uint32_t i = (uint32_t)u; float f; memcpy(&f, &i, 4); v = (double)f; nan = f != f; vf::assume(!nan); }
    else if (k == 11) { double f; memcpy(&f, &u, 8); v = f; }
    else if (k == 12) { // a normalised IBM number
        int e = (int)vf::choose("e", 0, 2);
        p[0] = (p[0] & 0x80) | (e == 0 ? 0x40 : e == 1 ? 0x20 : 0x7f);
        p[1] |= 0x10;
        double f = __builtin_ldexp((double)(uint32_t)vf::get(p + 1, 3, true), 4 * ((p[0] & 0x7f) - 64) - 24);
        v = p[0] & 0x80 ? -f : f;
    } else if (k == 9) v = (int64_t)u;
    else v = k % 2 ? (int64_t)u : (int64_t)vf::sext(u, 8 * n);
    std::vector<XMap> maps(2);
    maps[b][off] = { "VALUE", TY[k] };
    unsigned char z[2];
    vf::bytes("z", z, 2);
    // another word in the same block
    int o2 = off < 16 ? 30 : 0;
    maps[b][o2] = { "SECOND", VT::uint16_t };
    maps[1 - b][11] = { "SECOND", VT::uint16_t };
    memcpy(w + 32 * b + o2, z, 2);
    memcpy(w + 32 * (1 - b) + 11, z, 2);
    Trace t(UMap { { "TR_HDR_EXT", (int64_t)2 }, { "VALUE", v }, { "SECOND", (int64_t)vf::get(z, 2, true) }, { "R_LINE", (int64_t)5 }, { "SAMP_NUM", (int64_t)1 } }, { 77 });
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c, {}, {}, {}, maps);
        o.write_trace(t);
    }
    const unsigned char* d = data(s.head + 24 + 64) + s.head;
    same(d + 20, w, 64, "extensions");
    vf::check_eq(vf::get(d + 84, 4, true), (uint64_t)77, "sample after extensions");
    vf::reach("end");
}
// fewer extensions than maps: only those are written
extern "C" void h_fewer()
{
    W s(8038, 2, 0, 0, 0, 0);
    int ext = (int)vf::choose("ext", 0, 3);
    std::vector<XMap> maps(3);
    unsigned char z[12];
    vf::bytes("z", z, 12);
    UMap m;
    if (ext || vf::choose("word", 0, 1)) m["TR_HDR_EXT"] = (int64_t)ext;
    for (int i = 0; i < 3; ++i) {
        std::string nm = i == 0 ? "A" : i == 1 ? "B" : "C";
        maps[i][4 * i] = { nm, VT::uint32_t };
        if (i < ext) m[nm] = (int64_t)vf::get(z + 4 * i, 4, true);
    }
    Trace t(m, { 77 });
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c, {}, {}, {}, maps);
        o.write_trace(t);
    }
    const unsigned char* d = data(s.head + 24 + 32 * ext) + s.head;
    vf::check_eq((uint64_t)d[9], (uint64_t)ext, "number of extensions");
    for (int i = 0; i < ext; ++i)
        for (int j = 0; j < 32; ++j)
            vf::check_eq((uint64_t)d[20 + 32 * i + j], j >= 4 * i && j < 4 * i + 4 ? (uint64_t)z[j] : (uint64_t)0, "extensions");
    vf::check_eq(vf::get(d + 20 + 32 * ext, 4, true), (uint64_t)77, "sample after extensions");
    vf::reach("end");
}
// traces one after another, each in its channel set, all the samples
extern "C" void h_order()
{
    int fmt = vf::choose("f", 0, 1) ? 8015 : 8036;
    W s(fmt, 2, 0, 3, -2, 1);
    static const int K[4] = { 0, 3, -2, 1 };
    int n[3], set[3];
    size_t pos[4] = { s.head };
    for (int i = 0; i < 3; ++i) {
        static const char* nn[] = { "n0", "n1", "n2" };
        static const char* sn[] = { "s0", "s1", "s2" };
        n[i] = (int)vf::choose(nn[i], 0, i == 1 ? 5 : 2) + (i == 0 ? 3 : 0);
        set[i] = (int)vf::choose(sn[i], 0, i == 2 ? 0 : 3);
        pos[i + 1] = pos[i] + 20 + bytes_of(fmt, n[i]);
    }
    unsigned char v[3][6];
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c);
        for (int i = 0; i < 3; ++i) {
            static const char* vn[] = { "v0", "v1", "v2" };
            vf::bytes(vn[i], v[i], 6);
            std::vector<double> x;
            for (int j = 0; j < n[i]; ++j) { v[i][j] |= 0x80; x.push_back(__builtin_ldexp((double)v[i][j], K[set[i]]) * (j % 2 ? -1 : 1)); }
            Trace t(UMap { { "FFID", (int64_t)4711 }, { "CHAN", (int64_t)(i + 1) }, { "SCAN_TYPE_NUM", (int64_t)(set[i] / 2 + 1) }, { "CH_SET_NUM", (int64_t)(set[i] % 2 + 1) } }, x);
            o.write_trace(t);
        }
    }
    const unsigned char* d = data(pos[3]);
    for (int i = 0; i < 3; ++i) {
        unsigned char w[20] = {};
        bcd(w, 0, 4, 4711);
        bcd(w, 4, 2, set[i] / 2 + 1);
        bcd(w, 6, 2, set[i] % 2 + 1);
        bcd(w, 8, 4, i + 1);
        check20(d + pos[i], w, "trace header");
        for (int j = 0; j < n[i]; ++j) vf::check(sample_of(fmt, d + pos[i] + 20, j, 0) == (double)v[i][j] * (j % 2 ? -1 : 1), "sample divided by the descale factor of its channel set");
        if (fmt == 8015) for (int j = n[i]; j % 4; ++j) vf::check(sample_of(fmt, d + pos[i] + 20, j, 0) == 0, "padding of the last group");
    }
    vf::reach("end");
}
// many traces, and long ones: any value at a few places
static void many(int fmt, int nt, int n)
{
    W s(fmt, 2, 0, 3, -2, 1);
    for (auto& a : s.c) for (auto& b : a) b.number_of_channels = (uint32_t)nt;
    static const int K[4] = { 0, 3, -2, 1 };
    uint32_t v[3];
    vf::bytes("v", v, sizeof v);
    for (auto& x : v) x = (x & 0x3fffff) | 0x400000;
    auto val = [&](int i, int j) {
        if (i == nt - 1 && (j == 0 || j == n / 2 || j == n - 1)) return (double)(fmt == 8015 ? v[j == 0 ? 0 : j < n - 1 ? 1 : 2] >> 8 : v[j == 0 ? 0 : j < n - 1 ? 1 : 2]);
        return (double)((i * 31 + j * 7) % 20011 - 9000);
    };
    size_t len = 20 + bytes_of(fmt, n);
    {
        OSEGDRev2_1 o("o", s.g, s.h, s.c);
        for (int i = 0; i < nt; ++i) {
            std::vector<double> x(n);
            for (int j = 0; j < n; ++j) x[j] = __builtin_ldexp(val(i, j), K[i % 4]);
            Trace t(UMap { { "FFID", (int64_t)4711 }, { "CHAN", (int64_t)(i + 1) }, { "SCAN_TYPE_NUM", (int64_t)(i % 4 / 2 + 1) }, { "CH_SET_NUM", (int64_t)(i % 2 + 1) } }, x);
            o.write_trace(t);
        }
    }
    const unsigned char* d = data(s.head + nt * len) + s.head;
    bool bad = false;
    for (int i = 0; i < nt; ++i, d += len) {
        bad |= dec(d, 0, 4) != 4711 || dec(d, 4, 2) != (uint64_t)i % 4 / 2 + 1 || dec(d, 6, 2) != (uint64_t)i % 2 + 1 || dec(d, 8, 4) != (uint64_t)i + 1;
        for (int j = 0; j < n; ++j) {
            bool sym = i == nt - 1 && (j == 0 || j == n / 2 || j == n - 1);
            double w = sample_of(fmt, d + 20, j, 0);
            if (sym) vf::check(w == val(i, j), "sample of a long trace");
            else bad |= w != val(i, j);
        }
    }
    vf::check(!bad, "headers and samples in order");
    vf::reach("end");
}
static const int MF[4] = { 8015, 8036, 8038, 9058 };
extern "C" void h_many() { static const int N[2] = { 256, 300 }; many(MF[vf::choose("f", 0, 3)], N[vf::choose("n", 0, 1)], 1); }
extern "C" void h_long() { static const int N[3] = { 257, 1001, 4099 }; many(MF[vf::choose("f", 0, 3)], 2, N[vf::choose("n", 0, 2)]); }
extern "C" void t_many() { many(MF[vf::choose("f", 0, 3)], 700, 2); }
extern "C" void t_long() { many(MF[vf::choose("f", 0, 3)], 1, 65535 + (int)vf::choose("n", 0, 2)); }
