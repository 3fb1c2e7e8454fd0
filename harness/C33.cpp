// C33: a SEG-D file of revision 1 or 2 that is read and written again with what was
// read comes out byte for byte the same.
#include "segd.hpp"
static void copy(const char* from, const char* to, std::vector<XMap> const& maps)
{
    ISEGD in(from, maps);
    auto g = in.general_header();
    auto h = in.general_header2();
    vf::check(h.has_value(), "general header 2");
    std::vector<std::shared_ptr<AGH>> a;
    for (auto& x : in.general_headerN()) a.push_back(std::make_shared<GHN>(x));
    OSEGDRev2_1 out(to, g, *h, in.channel_set_headers(), a, in.extended_headers(), in.external_headers(), maps);
    while (in.has_trace()) {
        Trace t = in.read_trace();
        out.write_trace(t);
    }
}
static void same(const unsigned char* w, size_t n)
{
    vf::check_eq(vf_file_size("o"), n, "size of the file");
    const unsigned char* d = vf_file_data("o");
    for (size_t i = 0; i < n; ++i) vf::check_eq((uint64_t)d[i], (uint64_t)w[i], "byte of the file");
}
// decimal fields of general header 1 and of a channel set
static void digits1(unsigned char* p, int k)
{
    static const char* V[3] = { "4711123456789012973652143567898765432107", "9999999999999999993662359599999999999999", "0000000000000000000000000000000000000000" };
    const char* v = V[k];
    uint8_t add = p[11] >> 4, fm[2] = { p[2], p[3] };
    for (int i = 0; i < 44; ++i) bcd(p, i, 1, v[i % 40] - '0');
    p[2] = fm[0], p[3] = fm[1];
    p[11] = (unsigned char)(add << 4 | (p[11] & 15));
    bcd(p, 46, 1, k == 1 ? 9 : 0);
    p[50 / 2] = 0;
    bcd(p, 50, 4, k == 0 ? 8321 : k == 1 ? 9999 : 0);
}
static void go(int fmt, int major, int variant, int nsets, int add, int extd, int extl, int ext, bool maps, int samps)
{
    static Gd<64 + 32 * 12 + 3 * (20 + 64 + 64)> f;
    f.n = 0;
    bool big = variant == 3; // extended numbers
    unsigned char* p = f.gh1(fmt, 1 + add, 1, nsets, variant == 1 ? 1 : 0, extd, extl);
    digits1(p, big ? 0 : variant);
    p[22] = vf::sym<unsigned char>("scan interval");
    // number of scans with the smallest exponent
    p[23] = (p[23] & 0xf0) | (variant == 1 ? 5 : 0);
    p[24] = vf::sym<unsigned char>("scans");
    if (variant == 1) p[24] |= 0x80;
    unsigned char* q = f.gh2(major);
    if (big) {
        p[0] = p[1] = 0xff;
        p[25] |= 15, p[26] = 0xff;
        p[28] = 0xff, vf::put(q + 3, nsets, 2, true);
        p[30] = 0xff, vf::put(q + 5, extd, 2, true);
        p[31] = 0xff, vf::put(q + 7, extl, 2, true);
        vf::bytes("len", q + 14, 3);
        q[14] |= 1;
    }
    vf::bytes("q", q, 3);
    q[11] = vf::sym<unsigned char>("minor");
    q[18] = vf::sym<unsigned char>("blk");
    vf::bytes("seq", q + 20, 2);
    for (int i = 0; i < add; ++i) {
        unsigned char* b = f.at(32);
        vf::bytes(i ? "b1" : "b0", b, 20);
        b[3] &= 0x7f, b[8] &= 0x7f;
        b[18] = (unsigned char)(3 + i);
    }
    for (int k = 1; k <= nsets; ++k) {
        unsigned char* c = f.at(32);
        vf::bytes(k > 1 ? "c1" : "c0", c, 32);
        bcd(c, 0, 2, 1);
        bcd(c, 2, 2, k);
        vf::put(c + 6, k > 1 ? 0x8400 : 0x0800, 2, true); // -1, 2
        bcd(c, 16, 4, k > 1 ? 2 : 1);
        bcd(c, 20, 1, k);
        c[10] &= 0xf0;
        bcd(c, 22, 2, k > 1 ? 94 : 5);
        for (int i = 24; i < 52; i += 4) bcd(c, i, 4, k > 1 ? 9000 + i : 10 * i);
    }
    for (int i = 0; i < (variant == 1 ? 1 : 0); ++i) f.at(32);
    if (extd) vf::bytes("extd", f.at(32 * extd), 32 * extd);
    if (extl) vf::bytes("extl", f.at(32 * extl), 32 * extl);
    for (int i = 0; i < (nsets > 1 ? 3 : 1); ++i) {
        static const char* N[3][4] = { { "t0", "u0", "e0", "s0" }, { "t1", "u1", "e1", "s1" }, { "t2", "u2", "e2", "s2" } };
        unsigned char* t = f.trc(1, i ? 2 : 1, i ? i : 7, ext);
        vf::bytes(N[i][0], t + 6, 3);
        vf::bytes(N[i][1], t + 10, 5);
        if (big) t[0] = t[1] = 0xff;
        vf::put(t + 17, big ? 70000 + i : dec(t, 0, 4), 3, true);
        for (int j = 0; j < ext; ++j) {
            unsigned char* e = f.at(32);
            if (maps) {
                if (j == 0) vf::bytes(N[i][2], e, 20), vf::put(e + 28, samps, 4, true);
            } else if (j == 0) {
                vf::bytes(N[i][2], e, 7);
                if (i || fmt != 8036) e[2] |= 1, e[5] |= 1; // not zero
                vf::put(e + 7, samps, 3, true);
                if (major > 1) vf::bytes(N[i][3], e + 10, 11), memcpy(e + 10, e, 3), memcpy(e + 15, e + 3, 3);
            }
        }
        unsigned char* s = f.at(bytes_of(fmt, samps));
        char nm[3] = { 'd', char('0' + i), 0 };
        if (fmt == 8015) { // normalised
            for (int j = 0; j < samps; ++j) bcd(s, j / 4 * 20 + j % 4, 1, 2 + j), vf::put(s + j / 4 * 10 + 2 + 2 * (j % 4), 0x4000 + 77 * j + i, 2, true);
        } else {
            vf::bytes(nm, s, bytes_of(fmt, samps));
            for (int j = 0; j < samps; ++j) {
                if (fmt == 8022) s[j] = (unsigned char)((s[j] & 0x80) | 0x38 | j);
                if (fmt == 8044) s[2 * j] = (unsigned char)((s[2 * j] & 0x80) | 0x30 | (s[2 * j] & 15));
                if (fmt == 8048) s[4 * j] = (unsigned char)((s[4 * j] & 0x80) | (0x3f + j)), s[4 * j + 1] |= 0x80;
                if (fmt == 8036) s[3 * j] &= 0x7f;
                if (fmt == 9038) s[4 * j + 3] &= 0x7f;
                if (fmt == 8058) s[4 * j] &= 0xbf; // small enough for the factors
                if (fmt == 9080) s[8 * j + 7] = (s[8 * j + 7] & 0xbf) | 0x20;
            }
        }
    }
    f.save("a");
    std::vector<XMap> m;
    if (maps) m = { XMap { { 0, { "A", VT::int64_t } }, { 8, { "B", VT::ieee_double } }, { 16, { "C", VT::uint24_t } }, { 19, { "D", VT::int8_t } }, { 28, { "SAMP_NUM", VT::uint32_t } } }, XMap {} };
    copy("a", "o", m);
    same(f.b, f.n);
    vf::reach("end");
}
static const int F[8] = { 8036, 9038, 8022, 8044, 8048, 8058, 9080, 8015 };
extern "C" void h_formats() { go(F[vf::choose("f", 0, 7)], 2, 0, 2, 0, 0, 0, 1, false, 3); }
extern "C" void h_headers()
{
    int v = (int)vf::choose("v", 0, 3);
    go(8036, (int)vf::choose("major", 1, 2), v, (int)vf::choose("sets", 1, 2), v % 3, (int)vf::choose("extd", 0, 2), v < 2, 1, false, 1);
}
extern "C" void h_maps() { go(8036, 2, (int)vf::choose("v", 0, 1) * 3, 2, 0, 0, 0, (int)vf::choose("ext", 1, 2), true, (int)vf::choose("samps", 0, 2)); }
extern "C" void h_standard() { go(8036, (int)vf::choose("major", 1, 2), 0, 2, 0, 0, 0, (int)vf::choose("ext", 1, 2), false, (int)vf::choose("samps", 0, 5)); }
extern "C" void t_formats() { go(F[vf::choose("f", 0, 7)], (int)vf::choose("major", 1, 2), (int)vf::choose("v", 0, 3), 2, 1, 1, 1, (int)vf::choose("ext", 1, 2), false, (int)vf::choose("samps", 0, 5)); }
// many channel sets, header blocks, traces and samples
static void many(int nsets, int blocks, int chans, int samps)
{
    static Gd<400000> f;
    f.n = 0;
    unsigned char* p = f.gh1(8036, 1, 1, nsets > 99 ? 0 : nsets, 0, blocks > 99 ? 0 : blocks, 0);
    unsigned char* q = f.gh2(2);
    if (nsets > 99) p[28] = 0xff, vf::put(q + 3, nsets, 2, true);
    if (blocks > 99) p[30] = 0xff, vf::put(q + 5, blocks, 2, true);
    for (int k = 1; k <= nsets; ++k) {
        unsigned char* c = f.set2(1, k, k == nsets ? chans : 0, 1024);
        if (k == nsets) vf::bytes("c", c + 2, 4);
    }
    for (int i = 0; i < blocks; ++i) {
        unsigned char* b = f.at(32);
        for (int j = 0; j < 32; ++j) b[j] = (unsigned char)(i + 3 * j);
        if (i == blocks - 1) vf::bytes("b", b, 32);
    }
    for (int i = 0; i < chans; ++i) {
        unsigned char* t = f.trc(1, nsets, i + 1, 1);
        vf::put(t + 17, 1234, 3, true);
        f.ext(2, samps);
        for (int j = 0; j < samps; ++j) vf::put(f.at(3), 8 * (i + j) + 1, 3, true);
        if (i == chans - 1 && samps) vf::bytes("s", f.b + f.n - 3, 3), f.b[f.n - 3] &= 0x7f;
    }
    f.save("a");
    copy("a", "o", {});
    same(f.b, f.n);
    vf::reach("end");
}
extern "C" void h_many()
{
    int w = (int)vf::choose("w", 0, 6);
    many(w == 0 ? 99 : w == 1 ? 300 : 1, w == 2 ? 99 : w == 3 ? 257 : 1, w == 4 ? 300 : 1, w == 5 ? 257 : w == 6 ? 1025 : 1);
}
