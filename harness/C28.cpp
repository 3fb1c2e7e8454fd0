// C28: whatever bytes a SEG-D file holds and wherever it ends, the reader returns
// traces that lie in the file or throws; it never touches memory that is not its own.
#include "segd.hpp"
#include <stdexcept>
// reads up to n traces; each must fit into the file
static void drain(const char* name, size_t size, int n, const std::vector<XMap>& maps = {})
{
    size_t used = 0;
    try {
        ISEGD g(name, maps);
        used = 32;
        (void)g.general_header2();
        (void)g.general_headerN();
        (void)g.general_header3();
        (void)g.general_header_vessel_crew_id();
        (void)g.general_header_airgun_info();
        for (auto& b : g.extended_headers()) vf::check(b.size() == 32, "size of a header block"), used += 32;
        for (auto& b : g.external_headers()) vf::check(b.size() == 32, "size of a header block"), used += 32;
        for (auto& s : g.channel_set_headers()) used += 32 * s.size();
        vf::check(used <= size, "headers lie in the file");
        int bits = bits_of(g.general_header().format_code);
        for (int i = 0; i < n && g.has_trace(); ++i) {
            Trace t = g.read_trace();
            used += 20 + 32 * (size_t)vf::pick((uint64_t)wi(t.header(), "TR_HDR_EXT")) + t.samples().size() * bits / 8;
            vf::check(used <= size, "traces lie in the file");
        }
    } catch (std::exception const&) {
    }
    vf::reach("end");
}
// a file that ends anywhere
static void cut(int major, int fmt, int add)
{
    static Gd<640> f;
    f.n = 0;
    f.gh1(fmt, (major < 3 ? 1 : 2) + add, 1, 2, 1, 1, 1);
    f.gh2(major, 0, 1);
    if (major > 2) f.gh3();
    for (int i = 0; i < add; ++i) { unsigned char* p = f.at(32); p[major < 3 ? 18 : 31] = major < 3 ? 3 : 0x10; }
    for (int k = 1; k < 3; ++k) if (major < 3) f.set2(1, k, 1); else f.set3(1, k, 1, 2);
    f.at(32 * 3);
    size_t head = f.n, tl = 20 + 32 + bytes_of(fmt, 2);
    for (int k = 1; k < 3; ++k) { f.trc(1, k, k, 1); f.ext(major, 2); f.at(bytes_of(fmt, 2)); }
    f.at(32);
    size_t cut = (size_t)vf::choose("cut", 0, 639);
    size_t full = f.n;
    if (cut > full) cut = full;
    f.n = cut;
    f.save("a");
    int traces = 0;
    bool thrown = false;
    try {
        ISEGD g("a");
        while (traces < 3 && g.has_trace()) { Trace t = g.read_trace(); ++traces; vf::check(t.samples().size() == 2, "whole trace"); }
    } catch (std::exception const&) {
        thrown = true;
    }
    int whole = cut < head ? 0 : cut - head >= 2 * tl ? 2 : cut - head >= tl ? 1 : 0;
    vf::check(traces <= whole, "no more traces than the file holds");
    vf::check(thrown == (cut < full), "a file that is cut short is reported");
    if (!thrown) vf::check(traces == 2, "all traces of the file");
    vf::reach("end");
}
extern "C" void h_cut2() { cut((int)vf::choose("major", 1, 2), 8058, (int)vf::choose("add", 0, 1)); }
extern "C" void h_cut3() { cut(3, 8080, 1); }
extern "C" void h_cut_8015() { cut(2, 8015, 0); }
// general header 1: any bytes; no blocks besides general headers
extern "C" void h_gh1()
{
    static Gd<32 * 4> f;
    f.n = 0;
    unsigned char* p = f.at(32);
    vf::bytes("p", p, 32);
    memset(p + 27, 0, 5);
    p[11] &= 15;
    p[11] |= (unsigned char)(vf::choose("add", 0, 3) << 4);
    f.at(32 * (int)vf::choose("more", 0, 2));
    f.save("a");
    drain("a", f.n, 1);
}
// counts of everything in general headers 1 and 2: one of them any value
static void counts(int major, int more)
{
    static Gd<32 * 3 + 32 * 16> f;
    f.n = 0;
    int base = major < 3 ? 1 : 2;
    unsigned char* p = f.gh1(8058, base, 1, 1);
    unsigned char* q = f.gh2(major);
    if (major > 2) f.gh3();
    unsigned char* r = f.at(32 * more);
    memset(r, 0x11, 32 * more);
    int k = (int)vf::choose("k", 0, 12);
    if (k < 5) p[27 + k] = vf::sym<unsigned char>("c");
    else if (k == 5) p[11] = vf::sym<unsigned char>("c");
    else if (k < 11) { // extended counts
        static const int from[2][5] = { { 3, 5, 7, 12, 14 }, { 3, 5, 8, 22, 27 } };
        int o = from[major > 2][k - 6];
        if (k == 6) p[28] = 0xff;
        if (k == 7) p[30] = 0xff;
        if (k == 8) p[major < 3 ? 31 : 29] = 0xff;
        if (k == 9 && major > 2) p[11] = 0xf0;
        if (k == 10) p[31] = 0xff;
        vf::bytes("x", q + o, major > 2 && (k == 7 || k == 10) ? 3 : 2);
    } else { // several marks without a count, or many of everything
        memset(p + 27, k == 11 ? 0xff : 0x99, 5);
        if (vf::choose("add", 0, 1)) p[11] = 0xf0;
    }
    f.save("a");
    drain("a", f.n, 2);
}
extern "C" void h_counts2() { counts(2, (int)vf::choose("more", 0, 4)); }
extern "C" void h_counts3() { counts(3, (int)vf::choose("more", 0, 5)); }
extern "C" void t_counts2() { counts(2, 8); }
extern "C" void t_counts3() { counts(3, 10); }
// additional blocks: any bytes
extern "C" void h_blocks()
{
    static Gd<32 * 6> f;
    f.n = 0;
    int major = (int)vf::choose("major", 2, 3);
    f.gh1(8058, 4, 0, 0);
    f.gh2(major);
    if (major > 2) f.gh3();
    unsigned char* p = f.at(32 * (major < 3 ? 3 : 2));
    for (int i = 0; i < (major < 3 ? 3 : 2); ++i) vf::bytes(i ? i > 1 ? "b2" : "b1" : "b0", p + 32 * i + (major < 3 ? 0 : 31), major < 3 ? 32 : 1);
    f.save("a");
    drain("a", f.n, 1);
}
// channel sets: any bytes
static void sets(int major, int n)
{
    static Gd<32 * 4 + 3 * 96 + 64> f;
    f.n = 0;
    f.gh1(8058, major < 3 ? 1 : 2, 1, n);
    f.gh2(major);
    if (major > 2) f.gh3();
    int size = major < 3 ? 32 : 96;
    unsigned char* p = f.at(size * n);
    for (int i = 0; i < n; ++i) {
        vf::bytes(i ? "c1" : "c0", p + size * i, size);
        if (major < 3) { // split by value
            if (!i) { static const unsigned char D[4] = { 0, 0x80, 0x7f, 0xff }; p[6] = D[vf::choose("d", 0, 3)]; p[7] = p[6] << 1; }
            if (i) p[size * i + 11] &= 0x0f, p[size * i + 6] = p[size * i + 7] = 0;
        }
    }
    f.trc(1, 1, 1, 0);
    f.at(8);
    f.save("a");
    drain("a", f.n, 2);
}
extern "C" void h_sets2() { sets(2, 1); }
extern "C" void t_sets2() { sets(2, 2); }
// trace header and extension: any bytes, with and without maps
static void traces(int major, int fmt, bool maps, bool quick = true)
{
    static Gd<32 * 4 + 2 * 96 + 20 + 3 * 32 + 20 + 32> f;
    f.n = 0;
    f.gh1(fmt, major < 3 ? 1 : 2, 1, 2);
    f.gh2(major);
    if (major > 2) f.gh3();
    if (major < 3) f.set2(1, 1, 2), f.set2(1, 2, 0);
    else f.set3(1, 1, 2, 3), f.set3(1, 2, 0, 1);
    unsigned char* t = f.at(20);
    vf::bytes("t", t, 20);
    if (quick) { // how many extensions: none, one, more than there are
        static const unsigned char X[4] = { 0, 1, 2, 255 };
        t[9] = fmt == 8015 ? 1 : X[vf::choose("exts", 0, 3)];
        t[0] = 0x12, t[1] = 0x34, t[6] = t[7] = t[8] = 0;
        for (int i : { 10, 11, 12, 13, 14, 17, 18, 19 }) t[i] = 0;
    }
    unsigned char* e = f.at(32);
    vf::bytes("e", e, 32);
    f.at((size_t)(quick ? vf::choose("more", 0, 1) * 40 : vf::choose("more", 0, 3) * 17));
    f.save("a");
    std::vector<XMap> m;
    if (maps) m = { XMap { { 0, { "A", VT::int64_t } }, { 28, { "SAMP_NUM", VT::int32_t } } } };
    drain("a", f.n, quick ? 1 : 2, m);
}
extern "C" void h_trace2() { traces((int)vf::choose("major", 1, 2), 8036, false); }
extern "C" void h_trace3() { traces(3, 9058, false); }
extern "C" void h_trace_maps() { traces(2, 8058, true); }
extern "C" void h_trace_8015() { traces(2, 8015, false); }

extern "C" void t_trace2() { traces(2, 8036, false, false); }
extern "C" void t_trace3() { traces(3, 9058, false, false); }
extern "C" void t_trace_maps() { traces(2, 8058, true, false); }
