// C13: a SEG-Y file cut short never yields a trace that is not completely in the
// file, and the cut is reported by an exception unless it falls between traces.
#include "segy.hpp"
static unsigned char b[3600 + 3200 + 3 * 260];
struct L { int rev = 0, fixed = 0, ext = 0, be = 1, fmt = 3, n0 = 2, n1 = 2, nt = 2; };
static void go(const L& l, size_t from, size_t to, size_t step)
{
    memset(b, 0, sizeof b);
    bool be = l.be;
    vf::put(b + 3216, 1000, 2, be);
    vf::put(b + 3220, l.n0, 2, be);
    vf::put(b + 3224, l.fmt, 2, be);
    if (!be) { b[3296] = 4; b[3297] = 3; b[3298] = 2; b[3299] = 1; }
    b[3500] = l.rev;
    vf::put(b + 3502, l.fixed, 2, be);
    vf::put(b + 3504, l.ext, 2, be);
    size_t first = 3600 + 3200 * l.ext, p = first, pos[3], end[3];
    bool fix = l.fixed || !l.rev;
    for (int i = 0; i < l.nt; ++i) {
        int n = i && !fix ? l.n1 : l.n0;
        pos[i] = p;
        char nm[] = "f0"; nm[1] += i;
        vf::bytes(nm, b + p + 8, 4);
        vf::put(b + p + 114, n, 2, be);
        char sn[] = "s0"; sn[1] += i;
        vf::bytes(sn, b + p + 240, n * bps(l.fmt));
        p += 240 + n * bps(l.fmt);
        end[i] = p;
    }
    size_t base = from;
    size_t cut = base + step * vf::choose("cut", 0, (to - base) / step);
    if (cut > p) cut = p;
    vf_put_file("a.sgy", b, cut);
    int got = 0;
    bool clean = false;
    int ops = (int)vf::choose("ops", 0, 3);
    try {
        ISEGY s("a.sgy");
        vf::check(cut >= first, "a file cut in its headers is refused");
        while (s.has_trace()) {
            if (ops >> got & 1) {
                Trace t = s.read_trace();
                vf::check(got < l.nt, "not more traces than there are");
                vf::check(end[got] <= cut, "a trace that is not complete is not returned");
                vf::check_eq(std::get<int64_t>(*t.header().get("FFID")), vf::sext(vf::get(b + pos[got] + 8, 4, be), 32), "header of a complete trace");
                int n = got && !fix ? l.n1 : l.n0;
                vf::check(t.samples().size() == (size_t)n, "number of samples");
                for (int k = 0; k < n; ++k) vf::check_eqd(t.samples()[k], decode(b + pos[got] + 240 + k * bps(l.fmt), l.fmt, be), "samples of a complete trace");
            } else {
                Trace::Header h = s.read_header();
                vf::check(got < l.nt, "not more traces than there are");
                vf::check(pos[got] + 240 <= cut, "a header that is not complete is not returned");
                vf::check_eq(std::get<int64_t>(*h.get("FFID")), vf::sext(vf::get(b + pos[got] + 8, 4, be), 32), "header");
            }
            ++got;
        }
        clean = true;
    } catch (std::exception const&) {
    }
    bool boundary = cut == first;
    int complete = 0;
    for (int i = 0; i < l.nt; ++i) { boundary |= cut == end[i]; complete += end[i] <= cut; }
    vf::check(clean == boundary, "a cut within a trace or the headers is reported, one between traces is a shorter file");
    vf::check(got >= complete, "all complete traces are delivered");
    vf::reach("end");
}
extern "C" void h_rev0() { L l; l.be = (int)vf::choose("be", 0, 1); go(l, 3595, 3600 + 488, 3); }
extern "C" void h_rev0_edges() { L l; go(l, 3600 + 239, 3600 + 250, 1); }
extern "C" void h_rev0_edges2() { L l; go(l, 3600 + 482, 3600 + 488, 1); }
extern "C" void h_rev1_var() { L l; l.rev = 1; l.n1 = 1; l.fmt = 6; go(l, 3595, 3600 + 504, 4); }
extern "C" void h_rev1_fix() { L l; l.rev = 1; l.fixed = 1; l.fmt = 7; go(l, 3595, 3600 + 492, 4); }
extern "C" void h_ext() { L l; l.rev = 1; l.ext = 1; go(l, 3600, 3600 + 3200 + 488, 100); }
extern "C" void h_head() { L l; go(l, 0, 3600, 150); }
extern "C" void t_every() { L l; go(l, 0, 3600 + 488, 1); }
extern "C" void t_every_var() { L l; l.rev = 1; l.n1 = 1; l.fmt = 6; go(l, 3600, 3600 + 504, 1); }
// traces longer than a byte or a block of a kilobyte
extern "C" void h_long()
{
    static unsigned char f[3600 + 3 * (240 + 3 * 1500)];
    static const int N[3] = { 300, 1025, 1500 };
    int n = N[vf::choose("n", 0, 2)], rev = (int)vf::choose("rev", 0, 1);
    size_t tl = 240 + 3 * n, end = 3600 + 3 * tl;
    memset(f, 0, sizeof f);
    vf::put(f + 3220, n, 2, true); vf::put(f + 3224, 7, 2, true); f[3500] = rev;
    for (int i = 0; i < 3; ++i) {
        unsigned char* p = f + 3600 + i * tl;
        vf::put(p + 8, i + 1, 4, true); vf::put(p + 114, n, 2, true);
        for (int k = 0; k < n; ++k) vf::put(p + 240 + 3 * k, k * 5 + i, 3, true);
        char sn[] = "s0"; sn[1] += i;
        vf::bytes(sn, p + 240 + 3 * (n - 1), 3);
    }
    static const int C[12] = { 0, 1, 2, 3, 4, 255, 256, 257, 600, 768, 1024, 4096 };
    size_t cut = end - (vf::choose("t", 0, 1) ? tl : 0) - C[vf::choose("c", 0, 11)];
    if (cut < 3600) { vf::reach("end"); return; }
    vf_put_file("a.sgy", f, cut);
    size_t got = 0;
    bool clean = false, ops = vf::choose("ops", 0, 1);
    try {
        ISEGY s("a.sgy");
        while (s.has_trace()) {
            if (ops && got < 1) { s.read_header(); ++got; continue; }
            Trace t = s.read_trace();
            vf::check(got < 3 && 3600 + (got + 1) * tl <= cut, "a trace that is not complete is not returned");
            vf::check(t.samples().size() == (size_t)n, "number of samples");
            for (int k = 0; k < n; ++k) vf::check(t.samples()[k] == decode(f + 3600 + got * tl + 240 + 3 * k, 7, true), "samples of a complete trace");
            ++got;
        }
        clean = true;
    } catch (std::exception const&) {
    }
    vf::check(clean == ((cut - 3600) % tl == 0), "a cut within a trace is reported");
    vf::check(got >= (cut - 3600) / tl, "all complete traces are delivered");
    vf::reach("end");
}
