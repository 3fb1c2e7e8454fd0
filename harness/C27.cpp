// C27: reading while there is a record and a trace yields every trace of every
// record once, in file order; after the last trace of a record the headers are
// those of the next one; two readers do not disturb each other.
#include "segd.hpp"
struct Rec {
    int major, fmt, scans, sets, trailers = 0, extd = 0, extl = 0, add = 0; // add: additional blocks beside GH2 (and GH3)
    int chans[4] = {}; // by scan type and channel set
    int samps = 1;
    bool ext = true; // traces have a header extension
};
static const char* const NM[16] = { "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "ta", "tb", "tc", "td", "te", "tf" };
struct Exp { int rec, scan, set; unsigned char *t, *s; };
struct File {
    static constexpr size_t N = 4 * (96 + 3 * 32 + 4 * 96 + 64) + 16 * (20 + 32 + 24) + 512;
    Gd<N> f;
    Exp e[16];
    int n = 0;
    unsigned char* g1[4];
    const Rec* r = nullptr;
};
static void build(File& F, const Rec* r, int nr, bool back, int name0)
{
    F.f.n = 0;
    F.n = 0;
    F.r = r;
    for (int i = 0; i < nr; ++i) {
        const Rec& c = r[i];
        F.g1[i] = F.f.gh1(c.fmt, c.major == 0 ? 0 : (c.major < 3 ? 1 : 2) + c.add, c.scans, c.sets, 0, c.extd, c.extl);
        bcd(F.g1[i], 0, 4, 1000 + i);
        if (c.major) F.f.gh2(c.major, 0, c.trailers);
        if (c.major > 2) F.f.gh3();
        for (int k = 0; k < c.add; ++k) {
            unsigned char* p = F.f.at(32);
            if (c.major < 3) p[18] = (unsigned char)(3 + k);
            else p[0] = 'A' + i, p[31] = (unsigned char)(0x10 + k);
        }
        for (int s = 0; s < c.scans; ++s)
            for (int k = 0; k < c.sets; ++k) {
                int ch = c.chans[s * c.sets + k];
                if (c.major < 3) {
                    unsigned char* p = F.f.set2(s + 1, k + 1, ch);
                    if (!c.ext) p[11] = (unsigned char)(c.samps == 1 ? 0 : c.samps == 2 ? 1 : 2) << 4;
                } else F.f.set3(s + 1, k + 1, ch, c.samps);
            }
        for (int k = 0; k < c.extd; ++k) memset(F.f.at(32), 0xd0 + i, 32);
        for (int k = 0; k < c.extl; ++k) memset(F.f.at(32), 0xe0 + i, 32);
        // order of the channel sets: forwards or backwards
        int ns = c.scans * c.sets;
        for (int q = 0; q < ns; ++q) {
            int z = back ? ns - 1 - q : q;
            for (int k = 0; k < c.chans[z]; ++k) {
                Exp& e = F.e[F.n];
                e = { i, z / c.sets + 1, z % c.sets + 1, nullptr, nullptr };
                e.t = F.f.trc(e.scan, e.set, 0, c.ext);
                vf::bytes(NM[(name0 + F.n) % 16], e.t + 17, 3);
                e.t[17] |= 0x80; // not zero
                e.t[4] = 0x01, e.t[5] = (unsigned char)F.n;
                if (c.ext) F.f.ext(c.major, c.samps);
                e.s = F.f.at(bytes_of(c.fmt, c.samps));
                for (int j = 0; j < c.samps; ++j) {
                    int b = bits_of(c.fmt) / 8;
                    if (c.fmt == 8036 || c.fmt == 8038) vf::put(e.s + j * b, 100 * F.n + j, b, true);
                    else vf::put(e.s + j * b, 0x42800000u + 0x10000 * (2 * F.n + j), 4, true); // 64 + ...
                }
                ++F.n;
            }
        }
        memset(F.f.at(32 * c.trailers), 0x77, 32 * c.trailers);
    }
}
static double value(int fmt, int n, int j) { return fmt == 8036 || fmt == 8038 ? 100 * n + j : 64 + (2 * n + j) / 2.0; }
static void head(ISEGD& g, const File& F, int i)
{
    const Rec& c = F.r[i];
    auto h = g.general_header();
    vf::check(h.file_number == 1000 + i && h.format_code == c.fmt, "general header of the record");
    vf::check(g.general_header2().has_value() == (c.major > 0), "general header 2 of the record");
    if (c.major) {
        vf::check(g.general_header2()->segd_rev_major == c.major, "revision of the record");
        vf::check(g.general_header2()->gen_trailer_num_of_blocks == (unsigned)c.trailers, "trailer blocks of the record");
    }
    vf::check(g.general_header3().has_value() == (c.major > 2), "general header 3 of the record");
    vf::check(g.general_headerN().size() == (size_t)(c.major < 3 ? c.add : 0), "additional general headers of the record");
    auto v = g.general_header_vessel_crew_id();
    vf::check(v.has_value() == (c.major > 2 && c.add > 0), "additional block of the record");
    if (v) vf::check(v->abbr_vessel_crew_name[0] == 'A' + i, "additional block of the record");
    auto& s = g.channel_set_headers();
    vf::check(s.size() == (size_t)c.scans, "scan types of the record");
    for (int a = 0; a < c.scans; ++a) {
        vf::check(s[a].size() == (size_t)c.sets, "channel sets of the record");
        for (int b = 0; b < c.sets; ++b) vf::check(s[a][b].scan_type_number == a + 1 && s[a][b].channel_set_number == b + 1 && s[a][b].number_of_channels == (unsigned)c.chans[a * c.sets + b], "channel set of the record");
    }
    auto x = g.extended_headers(), y = g.external_headers();
    vf::check(x.size() == (size_t)c.extd && y.size() == (size_t)c.extl, "header blocks of the record");
    for (auto& b : x) vf::check((unsigned char)b[0] == 0xd0 + i, "extended header of the record");
    for (auto& b : y) vf::check((unsigned char)b[31] == 0xe0 + i, "external header of the record");
}
static void next(ISEGD& g, const File& F, int k)
{
    const Exp& e = F.e[k];
    const Rec& c = F.r[e.rec];
    if (!k || F.e[k - 1].rec != e.rec) head(g, F, e.rec);
    vf::check(g.has_record() && g.has_trace(), "a trace is left");
    Trace t = g.read_trace();
    uint64_t x = vf::get(e.t + 17, 3, true);
    vf::check_eq((uint64_t)wi(t.header(), "FFID"), x, "traces in file order");
    vf::check((uint64_t)wi(t.header(), "CHAN") == dec(e.t, 8, 4) && wi(t.header(), "SCAN_TYPE_NUM") == e.scan && wi(t.header(), "CH_SET_NUM") == e.set, "traces in file order");
    vf::check(t.samples().size() == (size_t)c.samps, "number of samples");
    vf::check(t.header().get("SAMP_NUM").has_value() == c.ext && t.header().get("SENSOR_TYPE").has_value() == (c.ext && c.major > 1) && t.header().get("PHYSICAL_UNIT").has_value() == (c.ext && c.major > 2), "header words of the revision of the record");
    for (int j = 0; j < c.samps; ++j) vf::check(t.samples()[j] == value(c.fmt, k, j), "samples in file order");
}
static void last(ISEGD& g) { vf::check(!g.has_trace() && !g.has_record(), "nothing after the last trace"); }
static File A, B;
static void go(const Rec* r, int nr, bool back)
{
    build(A, r, nr, back, 0);
    A.f.save("a");
    ISEGD g("a");
    for (int k = 0; k < A.n; ++k) next(g, A, k);
    last(g);
    vf::reach("end");
}
// one record: channels of four sets
extern "C" void h_sets()
{
    static Rec r;
    r = { (int)vf::choose("major", 1, 3), 8058, 2, 2 };
    for (int i = 0; i < 4; ++i) { char n[3] = { 'c', char('0' + i), 0 }; r.chans[i] = (int)vf::choose(n, 0, 2); }
    r.trailers = (int)vf::choose("tl", 0, 1);
    r.samps = 2;
    if (r.chans[0] + r.chans[1] + r.chans[2] + r.chans[3] == 0) { vf::reach("end"); return; }
    go(&r, 1, vf::choose("back", 0, 1));
}
// records of different revisions, formats and layouts
static Rec kind(int k)
{
    switch (k) {
    case 0: { Rec r = { 2, 8058, 1, 1 }; r.chans[0] = 2; r.trailers = 1; return r; }
    case 1: { Rec r = { 3, 8036, 1, 2, 2, 1, 0, 1 }; r.chans[0] = 1; r.chans[1] = 1; r.samps = 3; return r; }
    case 2: { Rec r = { 0, 8038, 1, 1, 0, 0, 2 }; r.chans[0] = 1; r.samps = 2; r.ext = false; return r; }
    case 3: { Rec r = { 1, 8058, 2, 1, 0, 2, 1, 2 }; r.chans[0] = 1; r.chans[1] = 2; r.samps = 0; return r; }
    case 4: { Rec r = { 0, 8036, 1, 1 }; r.chans[0] = 2; r.samps = 2; return r; }
    default: { Rec r = { 3, 8058, 1, 1 }; r.chans[0] = 3; r.ext = false; r.samps = 2; return r; }
    }
}
extern "C" void h_records()
{
    static Rec r[3];
    r[0] = kind((int)vf::choose("k0", 0, 5));
    r[1] = kind((int)vf::choose("k1", 0, 5));
    r[2] = kind((int)vf::choose("k2", 0, 5));
    go(r, (int)vf::choose("n", 2, 3), false);
}
extern "C" void t_records()
{
    static Rec r[4];
    for (int i = 0; i < 4; ++i) { char n[3] = { 'k', char('0' + i), 0 }; r[i] = kind((int)vf::choose(n, 0, 5)); }
    go(r, 4, vf::choose("back", 0, 1));
}
// trailers of 0..3 blocks at the end and between
extern "C" void h_trailers()
{
    static Rec r[2];
    for (int i = 0; i < 2; ++i) {
        r[i] = { (int)vf::choose(i ? "m1" : "m0", 1, 3), 8058, 1, 1 };
        r[i].chans[0] = 1 + i;
        r[i].trailers = (int)vf::choose(i ? "l1" : "l0", 0, 3);
    }
    go(r, 2, false);
}
// two readers, reads interleaved in any order
static void two(int steps)
{
    static Rec r[2], s[2];
    r[0] = kind(0), r[1] = kind(1);
    s[0] = kind(3), s[1] = kind(2);
    build(A, r, 2, false, 0);
    build(B, s, 2, true, 8);
    A.f.save("a");
    B.f.save("b");
    ISEGD g("a"), h("b");
    int i = 0, j = 0;
    for (int k = 0; k < steps; ++k) {
        char n[3] = { 'w', char('0' + k), 0 };
        bool w = vf::choose(n, 0, 1);
        if (w ? j < B.n : i < A.n) w ? next(h, B, j++) : next(g, A, i++);
    }
    while (i < A.n) next(g, A, i++);
    last(g);
    while (j < B.n) next(h, B, j++);
    last(h);
    vf::reach("end");
}
extern "C" void h_two() { two(4); }
extern "C" void t_two() { two(8); }
// many traces in a set, many records, many trailer blocks
static void many(int major, int nr, const int* chans, int sets, int trailers)
{
    static Gd<200000> f;
    f.n = 0;
    static unsigned char* last[16];
    int k = 0;
    for (int i = 0; i < nr; ++i) {
        bcd(f.gh1(8036, major == 0 ? 0 : major < 3 ? 1 : 2, 1, sets), 0, 4, 1000 + i);
        if (major) f.gh2(major, 0, trailers);
        if (major > 2) f.gh3();
        for (int s = 0; s < sets; ++s) {
            if (major < 3) f.set2(1, s + 1, chans[s]);
            else f.set3(1, s + 1, chans[s], 1);
        }
        for (int s = 0; s < sets; ++s)
            for (int c = 0; c < chans[s]; ++c) {
                f.trc(1, s + 1, c + 1, major ? 1 : 0);
                if (major) f.ext(major, 1);
                vf::put(f.at(3), k++, 3, true);
            }
        char n[3] = { 'l', char('a' + i), 0 };
        last[i] = f.b + f.n - 3;
        vf::bytes(n, last[i], 3);
        memset(f.at(32 * trailers), 0x20, 32 * trailers);
    }
    f.save("a");
    ISEGD g("a");
    k = 0;
    bool bad = false;
    for (int i = 0; i < nr; ++i) {
        vf::check(g.general_header().file_number == 1000 + i && g.channel_set_headers()[0].size() == (size_t)sets, "headers of the record");
        for (int s = 0; s < sets; ++s)
            for (int c = 0; c < chans[s]; ++c, ++k) {
                if (!g.has_trace() || !g.has_record()) { vf::check(false, "every trace of every record is read"); return; }
                Trace t = g.read_trace();
                bad |= wi(t.header(), "CHAN") != c + 1 || wi(t.header(), "CH_SET_NUM") != s + 1 || t.samples().size() != 1;
                if (s == sets - 1 && c == chans[s] - 1) vf::check(t.samples()[0] == (double)(int32_t)vf::sext(vf::get(last[i], 3, true), 24), "last trace of the record");
                else bad |= t.samples()[0] != k;
            }
    }
    vf::check(!bad, "traces in file order");
    ::last(g);
    vf::reach("end");
}
extern "C" void h_many()
{
    int major = (int)vf::choose("major", 0, 3), w = (int)vf::choose("w", 0, 4);
    if (w == 4 && !major) { vf::reach("end"); return; }
    static const int C[4][3] = { { 300, 2, 0 }, { 2, 257, 0 }, { 99, 0, 101 }, { 1, 0, 1 } };
    if (w == 4) { static const int B[2] = { 99, 300 }; many(major, 2, C[3], 3, B[vf::choose("b", 0, 1)]); }
    else many(major, w == 3 ? 12 : 1, C[w], w == 1 || w == 0 ? 2 : 3, major ? 1 : 0);
}
extern "C" void t_many()
{
    static const int C[2][3] = { { 1100, 256, 255 }, { 255, 1, 1024 } };
    many((int)vf::choose("major", 0, 3), 1, C[vf::choose("w", 0, 1)], 3, 0);
}
