// C07: a reader delivers exactly the traces of the file, each once and in file
// order, for any interleaving of header-only and full reads.
#include "segy.hpp"
static unsigned char b[3600 + 4 * 3200 + 4 * (3 * 240 + 24)];
struct Layout { int fmt = 3, rev = 0, fixed = 0, add = 0, ext = 0, trailers = 0, gap = 0, nt = 3, be = 1; bool extns = false; };
// traces: nt of them with ns[i] samples; header words FFID (8), SAMP_NUM and sample bytes are symbolic
static size_t pos[4], ns[4];
static size_t build(const Layout& l)
{
    memset(b, 0, sizeof b);
    bool be = l.be;
    memset(b, ' ', 3200);
    vf::put(b + 3216, 1000, 2, be);
    vf::put(b + 3224, l.fmt, 2, be);
    if (!be) { b[3296] = 4; b[3297] = 3; b[3298] = 2; b[3299] = 1; }
    b[3500] = l.rev;
    vf::put(b + 3502, l.fixed, 2, be);
    vf::put(b + 3504, l.ext, 2, be);
    if (l.rev > 1) {
        vf::put(b + 3506, l.add, 4, be);
        vf::put(b + 3528, l.trailers, 4, be);
        if (l.gap) vf::put(b + 3520, 3600 + 3200 * l.ext + l.gap, 8, be);
    }
    bool fix = l.fixed || !l.rev;
    if (fix) {
        if (l.extns) { vf::put(b + 3268, ns[0], 4, be); vf::put(b + 3220, 77, 2, be); }
        else vf::put(b + 3220, ns[0], 2, be);
    }
    size_t p = 3600 + 3200 * l.ext + l.gap;
    int bp = bps(l.fmt);
    for (int i = 0; i < l.nt; ++i) {
        pos[i] = p;
        size_t n = fix ? ns[0] : ns[i];
        char nm[] = "f0"; nm[1] += i;
        vf::bytes(nm, b + p + 8, 4);
        vf::put(b + p + 114, fix ? 5 : n, 2, be);
        if (l.add) {
            vf::put(b + p + 240 + 136, fix ? 5 : n, 4, be);
            memcpy(b + p + 240 + 16, b + p + 8, 4); // FFID of the additional header
        }
        p += 240 * (1 + l.add);
        char sn[] = "s0"; sn[1] += i;
        if (n) vf::bytes(sn, b + p, n * bp);
        p += n * bp;
    }
    memset(b + p, 'T', 3200 * l.trailers);
    p += 3200 * l.trailers;
    vf_put_file("a.sgy", b, p);
    return p;
}
static void iterate(const Layout& l, bool sorted = false)
{
    ISEGY s("a.sgy");
    bool fix = l.fixed || !l.rev;
    for (int i = 0; i < l.nt; ++i) {
        vf::check(s.has_trace(), "has_trace before the last trace was read");
        char cn[] = "op0"; cn[2] += i;
        int op = (int)vf::choose(cn, 0, 1);
        const unsigned char* h = b + pos[i];
        int64_t ffid = l.add ? (int64_t)vf::get(h + 240 + 16, 8, l.be) : vf::sext(vf::get(h + 8, 4, l.be), 32);
        if (op) {
            Trace t = s.read_trace();
            vf::check_eq(std::get<int64_t>(*t.header().get("FFID")), ffid, "header of the trace in file order");
            size_t n = fix ? ns[0] : ns[i];
            vf::check_eq(t.samples().size(), n, "number of samples");
            for (size_t k = 0; k < n; ++k) vf::check_eqd(t.samples()[k], decode(h + 240 * (1 + l.add) + k * bps(l.fmt), l.fmt, l.be), "sample of the trace in file order");
        } else {
            Trace::Header t = s.read_header();
            vf::check_eq(std::get<int64_t>(*t.get("FFID")), ffid, "header in file order");
        }
    }
    vf::check(!s.has_trace(), "no trace after the last one");
    vf::reach("end");
}
// one layout parameter set: rev 0 fixed; rev 1 fixed flag; rev 1 variable; rev 2 with everything
extern "C" void h_rev0() { Layout l; l.fixed = (int)vf::choose("fx", 0, 1); l.be = (int)vf::choose("be", 0, 1); ns[0] = vf::choose("n", 0, 3); build(l); iterate(l); }
extern "C" void h_rev1_fixed() { Layout l; l.rev = 1; l.fixed = 1; l.fmt = 8; l.ext = (int)vf::choose("ext", 0, 2); ns[0] = vf::choose("n", 0, 3); build(l); iterate(l); }
extern "C" void h_rev1_var()
{
    Layout l; l.rev = 1; l.fmt = 7; l.be = (int)vf::choose("be", 0, 1); l.ext = (int)vf::choose("ext", 0, 1);
    ns[0] = vf::choose("n0", 0, 3); ns[1] = vf::choose("n1", 0, 3); ns[2] = vf::choose("n2", 0, 2);
    build(l); iterate(l);
}
static void rev2(bool fixed)
{
    Layout l; l.rev = 2; l.fixed = fixed; l.be = (int)vf::choose("be", 0, 1);
    l.add = (int)vf::choose("add", 0, 2); l.ext = (int)vf::choose("ext", 0, 1); l.trailers = (int)vf::choose("tr", 0, 2); l.gap = vf::choose("gap", 0, 1) ? 100 : 0;
    if (l.add > 1) { l.add = 1; l.fmt = 6; }
    l.nt = 2;
    ns[0] = vf::choose("n0", 0, 2); ns[1] = 1;
    if (fixed) l.extns = vf::choose("extns", 0, 1) && ns[0];
    build(l); iterate(l);
}
extern "C" void h_rev2_fixed() { rev2(true); }
extern "C" void h_rev2_var() { rev2(false); }
// a file without traces
extern "C" void h_none() { Layout l; l.nt = 0; l.rev = (int)vf::choose("rev", 0, 2); l.ext = (int)vf::choose("ext", 0, 1); if (l.rev > 1) l.trailers = (int)vf::choose("tr", 0, 1); ns[0] = 2; build(l); iterate(l); }
// two readers of the same file do not disturb each other
extern "C" void h_two_readers()
{
    Layout l; l.nt = 2; ns[0] = 1; build(l);
    ISEGY a("a.sgy"), c("a.sgy");
    Trace a0 = a.read_trace(), c0 = c.read_trace();
    Trace::Header a1 = a.read_header();
    vf::check(!a.has_trace() && c.has_trace(), "readers advance independently");
    Trace c1 = c.read_trace();
    for (int i = 0; i < 2; ++i) {
        int64_t ffid = vf::sext(vf::get(b + pos[i] + 8, 4, true), 32);
        vf::check_eq(std::get<int64_t>(*(i ? c1 : c0).header().get("FFID")), ffid, "header");
        vf::check_eq(std::get<int64_t>(*(i ? a1 : a0.header()).get("FFID")), ffid, "header");
        vf::check_eqd((i ? c1 : c0).samples()[0], decode(b + pos[i] + 240, 3, true), "sample");
    }
    vf::reach("end");
}
// long traces: the position after a header-only read of a trace of many samples
template <int FMT> static void big()
{
    Layout l; l.nt = 2; l.fmt = FMT; l.rev = (int)vf::choose("rev", 0, 1); l.fixed = 0;
    static const size_t lens[] = { 255, 256, 257, 300 };
    ns[0] = lens[vf::choose("len", 0, 3)]; ns[1] = 2;
    memset(b, 0, sizeof b);
    b[3500] = l.rev;
    vf::put(b + 3220, ns[0], 2, true); vf::put(b + 3224, l.fmt, 2, true);
    size_t n1 = l.rev ? 2 : ns[0];
    pos[0] = 3600; pos[1] = 3600 + 240 + ns[0] * bps(FMT);
    vf::bytes("f0", b + pos[0] + 8, 4); vf::bytes("f1", b + pos[1] + 8, 4);
    vf::put(b + pos[0] + 114, ns[0], 2, true); vf::put(b + pos[1] + 114, n1, 2, true);
    vf::bytes("s", b + pos[1] + 240, 2 * bps(FMT));
    vf_put_file("a.sgy", b, pos[1] + 240 + n1 * bps(FMT));
    ISEGY s("a.sgy");
    if (vf::choose("op", 0, 1)) { Trace t = s.read_trace(); vf::check(t.samples().size() == ns[0], "number of samples"); }
    else s.read_header();
    vf::check(s.has_trace(), "has_trace");
    Trace t = s.read_trace();
    vf::check_eq(std::get<int64_t>(*t.header().get("FFID")), vf::sext(vf::get(b + pos[1] + 8, 4, true), 32), "second header");
    vf::check_eqd(t.samples()[1], decode(b + pos[1] + 240 + bps(FMT), FMT, true), "second trace");
    vf::check(!s.has_trace(), "end");
    vf::reach("end");
}
extern "C" void h_big3() { big<3>(); }
extern "C" void h_big8() { big<8>(); }
// more samples than a signed 16-bit field can hold, and more than 32767 or 65535 bytes of samples
extern "C" void h_long()
{
    static const struct { int rev, fixed, fmt; size_t n; } L[5] = { { 0, 0, 8, 65535 }, { 0, 0, 8, 32768 }, { 1, 0, 6, 32767 }, { 1, 1, 2, 20000 }, { 2, 1, 3, 70000 } };
    static unsigned char f[3600 + 2 * 240 + 2 * 262136];
    const auto& l = L[vf::choose("k", 0, 4)];
    size_t n = l.n, by = n * bps(l.fmt);
    memset(f, 0, sizeof f);
    f[3500] = l.rev;
    if (l.rev == 2) vf::put(f + 3268, n, 4, true);
    else vf::put(f + 3220, n, 2, true);
    vf::put(f + 3224, l.fmt, 2, true);
    vf::put(f + 3502, l.fixed, 2, true);
    size_t p1 = 3600 + 240 + by;
    vf::put(f + 3600 + 114, n, 2, true); vf::put(f + p1 + 114, n, 2, true);
    vf::bytes("f0", f + 3608, 4); vf::bytes("f1", f + p1 + 8, 4);
    vf_put_file("a.sgy", f, p1 + 240 + by);
    ISEGY s("a.sgy");
    std::optional<Trace> t;
    if (vf::choose("op", 0, 1)) t = s.read_trace();
    if (t) vf::check(t->samples().size() == n, "number of samples");
    Trace::Header a = t ? t->header() : s.read_header();
    vf::check(s.has_trace(), "has_trace");
    Trace::Header c = s.read_header();
    vf::check(!s.has_trace(), "end");
    vf::check_eq(std::get<int64_t>(*a.get("FFID")), vf::sext(vf::get(f + 3608, 4, true), 32), "first header");
    vf::check_eq(std::get<int64_t>(*c.get("FFID")), vf::sext(vf::get(f + p1 + 8, 4, true), 32), "second header");
    vf::reach("end");
}
// many traces, fixed or of alternating length; any value in the last two
static void many(int nt)
{
    constexpr int fmt = 7;
    static unsigned char f[3600 + 1100 * (240 + 9)];
    int rev = (int)vf::choose("rev", 0, 1), w = (int)vf::choose("op", 0, 3);
    memset(f, 0, sizeof f);
    f[3500] = rev;
    vf::put(f + 3220, 2, 2, true); vf::put(f + 3224, fmt, 2, true);
    auto len = [&](int i) { return rev ? (size_t)i % 4 : 2; };
    size_t p = 3600;
    for (int i = 0; i < nt; ++i) {
        vf::put(f + p + 8, 3 * i + 1, 4, true);
        vf::put(f + p + 114, len(i), 2, true);
        if (i >= nt - 2) vf::bytes(i == nt - 1 ? "fa" : "fb", f + p + 8, 4);
        p += 240;
        for (size_t k = 0; k < len(i); ++k) vf::put(f + p + 3 * k, 5 * i + k, 3, true);
        if (i >= nt - 2 && len(i)) vf::bytes(i == nt - 1 ? "sa" : "sb", f + p, 3 * len(i));
        p += 3 * len(i);
    }
    vf_put_file("a.sgy", f, p);
    ISEGY s("a.sgy");
    p = 3600;
    bool bad = false;
    for (int i = 0; i < nt; ++i) {
        if (!s.has_trace()) { vf::check(false, "has_trace before the last trace"); return; }
        bool full = w == 0 ? true : w == 1 ? false : w == 2 ? i % 2 : i % 3 == 0;
        const unsigned char* h = f + p;
        int64_t ffid = vf::sext(vf::get(h + 8, 4, true), 32);
        std::optional<Trace> r;
        if (full) r = s.read_trace();
        Trace::Header hd = full ? r->header() : s.read_header();
        int64_t x = std::get<int64_t>(*hd.get("FFID"));
        if (i >= nt - 2) vf::check_eq(x, ffid, "header in file order");
        else bad |= x != ffid;
        if (full) {
            Trace& t = *r;
            bad |= t.samples().size() != len(i);
            for (size_t k = 0; k < len(i); ++k) {
                double d = decode(h + 240 + 3 * k, fmt, true);
                if (i >= nt - 2) vf::check_eqd(t.samples()[k], d, "sample in file order");
                else bad |= t.samples()[k] != d;
            }
        }
        p += 240 + 3 * len(i);
    }
    vf::check(!bad, "traces in file order");
    vf::check(!s.has_trace(), "no trace after the last one");
    vf::reach("end");
}
extern "C" void h_many() { many(vf::choose("nt", 0, 1) ? 300 : 256); }
extern "C" void t_many() { many(1100); }
