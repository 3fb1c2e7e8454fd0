// C23: SEG-D header blocks are found at their places whatever the counts; the
// extended and external header blocks are returned byte for byte.
#include "segd.hpp"
// counts come from the first general header, or from the second where the first holds FF
struct Cnt { int scans, sets, skew, extd, extl; bool x[4]; };
template <size_t N> static void head(Gd<N>& f, int major, const Cnt& c)
{
    unsigned char* p = f.gh1(8058, major == 0 ? 0 : major < 3 ? 1 : 2, c.scans, c.sets, c.skew, c.extd, c.extl);
    if (!major) return;
    unsigned char* q = f.gh2(major);
    if (c.x[0]) p[28] = 0xff, vf::put(q + 3, c.sets, 2, true);
    if (major < 3) {
        if (c.x[2]) p[30] = 0xff, vf::put(q + 5, c.extd, 2, true);
        if (c.x[3]) p[31] = 0xff, vf::put(q + 7, c.extl, 2, true);
    } else {
        if (c.x[1]) p[29] = 0xff, vf::put(q + 8, c.skew, 2, true);
        if (c.x[2]) p[30] = 0xff, vf::put(q + 5, c.extd, 3, true);
        if (c.x[3]) p[31] = 0xff, vf::put(q + 27, c.extl, 3, true);
        f.gh3();
    }
}
// of many blocks the first and the last are symbolic
static void blocks(const char* name, unsigned char* p, int n)
{
    if (n <= 3) { vf::bytes(name, p, 32 * n); return; }
    for (int i = 0; i < 32 * n; ++i) p[i] = (unsigned char)(i / 32 * 7 + i % 32);
    unsigned char b[64];
    vf::bytes(name, b, 64);
    memcpy(p, b, 32);
    memcpy(p + 32 * (n - 1), b + 32, 32);
}
static void layout(int major, Cnt c)
{
    static Gd<40000> f;
    f.n = 0;
    head(f, major, c);
    for (int s = 0; s < c.scans; ++s) {
        for (int k = 0; k < c.sets; ++k) {
            int chans = s == c.scans - 1 && k == c.sets - 1 ? 1 : 0;
            if (major < 3) f.set2(s + 1, k + 1, chans);
            else f.set3(s + 1, k + 1, chans, 1);
        }
        unsigned char* q = f.at(32 * c.skew);
        memset(q, 0xee, 32 * c.skew);
    }
    unsigned char* e = f.at(32 * c.extd);
    blocks("extd", e, c.extd);
    unsigned char* x = f.at(32 * c.extl);
    blocks("extl", x, c.extl);
    bool traces = c.scans && c.sets;
    unsigned char* t = nullptr;
    if (traces) {
        f.trc(c.scans, c.sets, 7, major ? 1 : 0);
        if (major) f.ext(major, 1);
        t = f.at(4);
        vf::put(t, 0x40490fdb, 4, true);
    }
    f.save("a");
    ISEGD g("a");
    auto& v = g.channel_set_headers();
    vf::check_eq(v.size(), (size_t)c.scans, "number of scan types");
    for (int s = 0; s < c.scans; ++s) {
        vf::check_eq(v[s].size(), (size_t)c.sets, "number of channel sets");
        for (int k = 0; k < c.sets; ++k) vf::check(v[s][k].scan_type_number == s + 1 && (major < 3 && k >= 99 ? v[s][k].ext_ch_set_num : v[s][k].channel_set_number) == k + 1, "channel sets in file order");
    }
    auto a = g.extended_headers(), b = g.external_headers();
    vf::check_eq(a.size(), (size_t)c.extd, "number of extended header blocks");
    vf::check_eq(b.size(), (size_t)c.extl, "number of external header blocks");
    for (int i = 0; i < c.extd; ++i) {
        vf::check_eq(a[i].size(), (size_t)32, "size of an extended header block");
        for (int j = 0; j < 32; ++j) vf::check_eq((unsigned char)a[i][j], e[32 * i + j], "extended header byte");
    }
    for (int i = 0; i < c.extl; ++i) {
        vf::check_eq(b[i].size(), (size_t)32, "size of an external header block");
        for (int j = 0; j < 32; ++j) vf::check_eq((unsigned char)b[i][j], x[32 * i + j], "external header byte");
    }
    vf::check(g.has_trace() == traces, "traces follow the headers");
    if (traces) {
        Trace r = g.read_trace();
        vf::check(wi(r.header(), "CHAN") == 7, "trace header after the header blocks");
        vf::check(r.samples().size() == 1 && r.samples()[0] == (double)3.14159274101257324f, "samples after the trace header");
    }
    vf::check(!g.has_record() && !g.has_trace(), "whole file read");
    vf::reach("end");
}
// all small counts
extern "C" void h_counts()
{
    int major = (int)vf::choose("major", 0, 3);
    Cnt c = { (int)vf::choose("scans", 0, 2), (int)vf::choose("sets", 0, 2), (int)vf::choose("skew", 0, 2), (int)vf::choose("extd", 0, 2), (int)vf::choose("extl", 0, 2), {} };
    layout(major, c);
}
// counts taken from the second general header, each field separately and all together
extern "C" void h_extended()
{
    int major = (int)vf::choose("major", 1, 3), x = (int)vf::choose("x", 0, 4);
    Cnt c = { (int)vf::choose("scans", 1, 2), (int)vf::choose("sets", 1, 2), (int)vf::choose("skew", 0, 2), (int)vf::choose("extd", 0, 2), (int)vf::choose("extl", 0, 2), {} };
    for (int i = 0; i < 4; ++i) c.x[i] = x == 4 || x == i;
    if (major < 3 && c.x[1]) c.x[1] = false;
    layout(major, c);
}
extern "C" void t_more()
{
    int major = (int)vf::choose("major", 1, 3);
    Cnt c = { (int)vf::choose("scans", 1, 3), (int)vf::choose("sets", 1, 3), (int)vf::choose("skew", 0, 3), (int)vf::choose("extd", 0, 3), (int)vf::choose("extl", 0, 3), {} };
    bool x = vf::choose("x", 0, 1);
    for (int i = 0; i < 4; ++i) c.x[i] = x;
    if (major < 3) c.x[1] = false;
    layout(major, c);
}
// one of the counts great: two digits, or more than two digits (or a byte) by the extended field
extern "C" void h_many()
{
    int k = (int)vf::choose("k", 0, 4), major = (int)vf::choose("major", k ? 1 : 0, 3);
    bool x = k && !(k == 2 && major < 3) && vf::choose("x", 0, 1);
    int n = x ? (vf::choose("n", 0, 1) ? 300 : 100) : (vf::choose("n", 0, 1) ? 99 : 10);
    Cnt c = { k == 0 ? n : 1, k == 1 ? n : 1, k == 2 ? n : 1, k == 3 ? n : 1, k == 4 ? n : 1, {} };
    if (k) c.x[k - 1] = x;
    layout(major, c);
}
