// C24: a SEG-D trace header and its standard extension are reported word by word.
#include "segd.hpp"
static uint64_t be(const unsigned char* p, int n) { return vf::get(p, n, true); }
static void iw(const Trace::Header& h, const char* k, uint64_t want) { vf::check_eq((uint64_t)wi(h, k), want, k); }
// words of the 20 byte header other than those that select a channel set
static void main_words(const Trace::Header& h, const unsigned char* t, bool ext_chan)
{
    uint64_t x = be(t + 17, 3);
    iw(h, "FFID", x ? x : dec(t, 0, 4));
    if (!ext_chan) iw(h, "CHAN", dec(t, 8, 4));
    vf::check_eqd(wd(h, "FIRST_TIMING_WORD"), (double)(uint32_t)be(t + 6, 3) / 256, "FIRST_TIMING_WORD");
    iw(h, "TR_HDR_EXT", t[9]);
    vf::check_eqd(wd(h, "SAMPLE_SKEW"), (double)t[10] / 256, "SAMPLE_SKEW");
    iw(h, "TRACE_EDIT", t[11]);
    vf::check_eqd(wd(h, "TIME_BREAK_WIN"), (double)(uint32_t)be(t + 12, 3) / 256, "TIME_BREAK_WIN");
}
// R_LINE, R_POINT: the extended value when it is given
static void place(const Trace::Header& h, const char* k, const unsigned char* s, const unsigned char* x)
{
    if (x && be(x, 5)) vf::check_eqd(wd(h, k), (double)(uint32_t)be(x, 3) + (double)(uint16_t)be(x + 3, 2) / 65536, k);
    else iw(h, k, be(s, 3));
}
// the words of the standard extension; returns their number
static int ext_words(const Trace::Header& h, const unsigned char* t, const unsigned char* e, int major)
{
    place(h, "R_LINE", e, major > 1 ? e + 10 : nullptr);
    place(h, "R_POINT", e + 3, major > 1 ? e + 15 : nullptr);
    iw(h, "R_POINT_IDX", e[6]);
    int n = 3;
    if (major < 3) {
        iw(h, "SAMP_NUM", be(e + 7, 3));
        ++n;
    } else {
        iw(h, "RESHOOT_IDX", e[7]);
        iw(h, "GROUP_IDX", e[8]);
        iw(h, "DEPTH_IDX", e[9]);
        n += 3;
    }
    if (major > 1) {
        iw(h, "SENSOR_TYPE", e[20]);
        ++n;
    }
    if (major > 2) {
        iw(h, "CHAN", be(t + 4, 2) == 0xffff ? be(e + 21, 3) : dec(t, 8, 4));
        iw(h, "SAMP_NUM", be(e + 24, 4));
        iw(h, "SENSOR_MOVING", e[28]);
        iw(h, "PHYSICAL_UNIT", e[30]);
        n += 3;
    }
    return n;
}
template <size_t N> static void head(Gd<N>& f, int major, int scans, int sets, int chans, unsigned samps)
{
    f.gh1(8058, major == 0 ? 0 : major < 3 ? 1 : 2, scans, sets);
    if (major) f.gh2(major);
    if (major > 2) f.gh3();
    for (int s = 0; s < scans; ++s)
        for (int k = 0; k < sets; ++k) {
            int c = s == 0 && k == 0 ? chans : 0;
            if (major < 3) f.set2(s + 1, k + 1, c);
            else f.set3(s + 1, k + 1, c, samps);
        }
}
// any header words, 0..3 extensions (only the first has standard words)
static void go(int major, int ext, int samps)
{
    static Gd<96 + 96 + 2 * (20 + 96 + 8)> f;
    f.n = 0;
    head(f, major, 1, 1, 2, samps);
    unsigned char *t[2], *e[2];
    for (int i = 0; i < 2; ++i) {
        t[i] = f.at(20);
        vf::bytes(i ? "t1" : "t0", t[i], 20);
        t[i][2] = t[i][3] = 1;
        t[i][9] = (unsigned char)ext;
        t[i][15] = t[i][16] = 0;
        e[i] = f.at(32 * ext);
        vf::bytes(i ? "e1" : "e0", e[i], 32 * ext);
        if (ext && major < 3) vf::put(e[i] + 7, samps, 3, true);
        if (ext && major > 2) vf::put(e[i] + 24, samps, 4, true);
        f.at(4 * samps);
    }
    f.save("a");
    ISEGD g("a");
    for (int i = 0; i < 2; ++i) {
        Trace r = g.read_trace();
        auto& h = r.header();
        main_words(h, t[i], ext && major > 2);
        iw(h, "SCAN_TYPE_NUM", 1);
        iw(h, "CH_SET_NUM", 1);
        size_t n = 9;
        if (ext) n += ext_words(h, t[i], e[i], major);
        vf::check_eq(h.keys().size(), n, "no other words");
        vf::check_eq(r.samples().size(), (size_t)samps, "number of samples");
    }
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
extern "C" void h_rev1() { go(1, (int)vf::choose("ext", 1, 3), (int)vf::choose("samps", 0, 2)); }
extern "C" void h_rev2() { go(2, (int)vf::choose("ext", 1, 2), 1); }
extern "C" void h_rev3() { go(3, (int)vf::choose("ext", 0, 2), 1); }
extern "C" void h_plain() { go((int)vf::choose("major", 0, 2), 0, 1); }
extern "C" void t_samps() { go((int)vf::choose("major", 1, 3), (int)vf::choose("ext", 1, 3), (int)vf::choose("samps", 0, 2)); }
// scan type and channel set, given in the header or as the extended number
extern "C" void h_set()
{
    int major = (int)vf::choose("major", 1, 3), scan = (int)vf::choose("scan", 1, 2), set = (int)vf::choose("set", 1, 3);
    int how = (int)vf::choose("how", 0, 2);
    static Gd<96 + 6 * 96 + 20 + 32 + 4> f;
    f.n = 0;
    head(f, major, 2, 3, 1, 1);
    unsigned char* t = f.at(20);
    vf::bytes("t", t, 20);
    t[9] = 1;
    t[2] = (unsigned char)scan;
    if (how == 0) t[3] = (unsigned char)set, vf::put(t + 15, 0, 2, true);
    else {
        t[3] = how == 1 ? 0xff : 0x02; // the extended number counts when it is not zero
        vf::put(t + 15, set, 2, true);
    }
    unsigned char* e = f.ext(major, 1);
    f.at(4);
    f.save("a");
    ISEGD g("a");
    Trace r = g.read_trace();
    main_words(r.header(), t, major > 2);
    ext_words(r.header(), t, e, major);
    iw(r.header(), "SCAN_TYPE_NUM", scan);
    iw(r.header(), "CH_SET_NUM", set);
    vf::reach("end");
}
// a trace of a channel set the record does not have is refused
extern "C" void h_no_set()
{
    int major = (int)vf::choose("major", 1, 3);
    static Gd<96 + 2 * 96 + 20 + 32 + 4> f;
    f.n = 0;
    head(f, major, 1, 2, 1, 1);
    unsigned char* t = f.trc(1, 1, 1, 1);
    vf::bytes("s", t + 2, 2);
    vf::bytes("x", t + 15, 2);
    f.ext(major, 1);
    f.at(4);
    f.save("a");
    ISEGD g("a");
    uint64_t set = be(t + 15, 2) ? be(t + 15, 2) : dec(t, 6, 2);
    bool valid = dec(t, 4, 2) == 1 && (set == 1 || set == 2);
    bool ok = true;
    try {
        Trace r = g.read_trace();
        vf::check_eq((uint64_t)wi(r.header(), "CH_SET_NUM"), set, "CH_SET_NUM");
    } catch (Exception&) {
        ok = false;
    }
    vf::check(ok == valid, "refused exactly when there is no such channel set");
    vf::reach("end");
}
// scan types and channel sets of two digits and more, and many extensions
extern "C" void h_numbers()
{
    int major = (int)vf::choose("major", 1, 3), k = (int)vf::choose("k", 0, 2);
    static const int S[6] = { 9, 10, 12, 57, 90, 99 }, C[8] = { 9, 10, 45, 99, 100, 255, 256, 300 }, E[5] = { 9, 10, 16, 100, 255 };
    int scan = k == 0 ? S[vf::choose("scan", 0, 5)] : 1, set = k == 1 ? C[vf::choose("set", 0, 7)] : 1, ext = k == 2 ? E[vf::choose("ext", 0, 4)] : 1;
    int scans = k == 0 ? 99 : 1, sets = k == 1 ? 300 : 1;
    static Gd<96 + 300 * 96 + 20 + 255 * 32 + 4> f;
    f.n = 0;
    unsigned char* p = f.gh1(8036, major < 3 ? 1 : 2, scans, sets > 99 ? 0 : sets);
    unsigned char* q = f.gh2(major);
    if (sets > 99) p[28] = 0xff, vf::put(q + 3, sets, 2, true);
    if (major > 2) f.gh3();
    for (int s = 1; s <= scans; ++s)
        for (int c = 1; c <= sets; ++c) {
            int n = s == scan && c == set, d = n; // its own factor: 2
            if (major < 3) f.set2(s, c, n, 1024 * d);
            else f.set3(s, c, n, 1, (float)d);
        }
    unsigned char* t = f.trc(scan, set, 3, ext);
    vf::bytes("t", t + 10, 5);
    unsigned char* e = f.ext(major, 1);
    vf::bytes("e", e, 7);
    f.at(32 * (ext - 1));
    vf::put(f.at(3), 77, 3, true);
    f.save("a");
    ISEGD g("a");
    Trace r = g.read_trace();
    main_words(r.header(), t, major > 2);
    ext_words(r.header(), t, e, major);
    iw(r.header(), "SCAN_TYPE_NUM", scan);
    iw(r.header(), "CH_SET_NUM", set);
    vf::check(r.samples().size() == 1 && r.samples()[0] == 154, "sample of the trace");
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
