// C08: the reader reports every text header, extended text header and trailer
// stanza of the file, unchanged and in order, and still finds the traces between them.
#include "segy.hpp"
static unsigned char b[3600 + 262 * 3200 + 4 * (4 * 240 + 24)];
static const char EndText[] = "((SEG: EndText))";
// what is in a block: symbolic at its ends and around the marker, constant in between
static void block(const char* nm, size_t p, bool last)
{
    memset(b + p, 'a' + p / 3200 % 26, 3200);
    if (!nm) { if (last) memcpy(b + p, EndText, 16); return; }
    char n2[4] = { nm[0], nm[1], 'z', 0 };
    vf::bytes(nm, b + p, 20);
    vf::bytes(n2, b + p + 3190, 10);
    if (last) memcpy(b + p, EndText, 16);
}
static void check_block(const std::string& s, size_t p)
{
    vf::check(s.size() == 3200, "text block of 3200 bytes");
    for (int i = 0; i < 3200; ++i)
        if (i < 24 || i >= 3186 || i % 64 == 0) vf::check_eq((unsigned char)s[i], b[p + i], "text block is unchanged");
}
static bool is_end(size_t p)
{
    unsigned d = 0;
    for (int i = 0; i < 16; ++i) d |= (unsigned)(b[p + i] ^ (unsigned char)EndText[i]);
    return d == 0;
}
struct L { int rev = 2, ext = 0, trailers = 0, fixed = 1, add = 0, nt = 2, be = 1, fmt = 3; bool mark_ext = false, mark_tr = false; bool gap = false; bool noword = false; };
static size_t txt[262], tr[262], pos[4], ns[4] = { 1, 1, 1, 1 };
static void go(const L& l)
{
    memset(b, 0, sizeof b);
    bool be = l.be;
    txt[0] = 0;
    block("t0", 0, false);
    vf::put(b + 3216, 1000, 2, be);
    vf::put(b + 3220, ns[0], 2, be);
    vf::put(b + 3224, l.fmt, 2, be);
    if (!be) { b[3296] = 4; b[3297] = 3; b[3298] = 2; b[3299] = 1; }
    b[3500] = l.rev;
    vf::put(b + 3502, l.fixed, 2, be);
    vf::put(b + 3504, l.mark_ext ? 0xffff : l.ext, 2, be);
    if (l.rev > 1) {
        vf::put(b + 3506, l.add, 4, be);
        vf::put(b + 3512, l.nt, 8, be);
        vf::put(b + 3528, l.mark_tr ? 0xffffffffu : (unsigned)l.trailers, 4, be);
        if (l.gap) vf::put(b + 3520, 3600 + 3200 * l.ext + 40, 8, be);
    }
    size_t p = 3600;
    for (int i = 0; i < l.ext; ++i) {
        char n[] = "e0"; n[1] += i % 10;
        block(i < 3 || i > l.ext - 3 ? n : nullptr, p, l.mark_ext && i == l.ext - 1);
        if (l.mark_ext && i != l.ext - 1) vf::assume(!is_end(p));
        txt[i + 1] = p; p += 3200;
    }
    if (l.gap) p += 40;
    for (int i = 0; i < l.nt; ++i) {
        pos[i] = p;
        size_t n = l.fixed || !l.rev ? ns[0] : ns[i];
        char nm[] = "f0"; nm[1] += i;
        vf::bytes(nm, b + p + 8, 4);
        vf::put(b + p + 114, n, 2, be);
        if (l.add) {
            vf::put(b + p + 240 + 136, n, 4, be);
            memcpy(b + p + 240 + 16, b + p + 8, 4);
            if (!l.noword) vf::put(b + p + 240 + 156, l.add, 2, be);
        }
        p += 240 * (1 + l.add);
        char sn[] = "s0"; sn[1] += i;
        // of many samples the last is symbolic
        if (n) vf::bytes(sn, b + p + (n > 99 ? n - 1 : 0) * bps(l.fmt), (n > 99 ? 1 : n) * bps(l.fmt));
        p += n * bps(l.fmt);
    }
    for (int i = 0; i < l.trailers; ++i) {
        char n[] = "r0"; n[1] += i % 10;
        block(i < 3 || i > l.trailers - 3 ? n : nullptr, p, l.mark_tr && i == l.trailers - 1);
        if (l.mark_tr && i != l.trailers - 1) vf::assume(!is_end(p));
        tr[i] = p; p += 3200;
    }
    vf_put_file("a.sgy", b, p);
    ISEGY s("a.sgy");
    auto check_text = [&] {
        vf::check(s.text_headers().size() == (size_t)l.ext + 1, "number of text headers");
        for (int i = 0; i <= l.ext; ++i) check_block(s.text_headers()[i], txt[i]);
        vf::check(s.trailer_stanzas().size() == (size_t)l.trailers, "number of trailer stanzas");
        for (int i = 0; i < l.trailers; ++i) check_block(s.trailer_stanzas()[i], tr[i]);
    };
    check_text();
    for (int i = 0; i < l.nt; ++i) {
        vf::check(s.has_trace(), "has_trace before the last trace");
        Trace t = s.read_trace();
        const unsigned char* h = b + pos[i];
        int64_t ffid = l.add ? (int64_t)vf::get(h + 256, 8, be) : vf::sext(vf::get(h + 8, 4, be), 32);
        vf::check_eq(std::get<int64_t>(*t.header().get("FFID")), ffid, "trace header between the text blocks");
        size_t n = l.fixed || !l.rev ? ns[0] : ns[i];
        vf::check(t.samples().size() == n, "number of samples");
        if (n) vf::check_eqd(t.samples()[n - 1], decode(h + 240 * (1 + l.add) + (n - 1) * bps(l.fmt), l.fmt, be), "sample of a trace between the text blocks");
    }
    vf::check(!s.has_trace(), "trailer stanzas are not taken for traces");
    check_text();
    vf::reach("end");
}
extern "C" void h_rev0() { L l; l.rev = 0; l.fixed = 0; l.be = (int)vf::choose("be", 0, 1); l.ext = (int)vf::choose("ext", 0, 1); go(l); }
extern "C" void h_rev1_ext() { L l; l.rev = 1; l.fixed = (int)vf::choose("fx", 0, 1); ns[1] = 2; l.be = (int)vf::choose("be", 0, 1); l.ext = (int)vf::choose("ext", 0, 3); go(l); }
extern "C" void h_rev1_endtext() { L l; l.rev = 1; l.mark_ext = true; l.ext = (int)vf::choose("ext", 1, 3); go(l); }
extern "C" void h_rev2_endtext() { L l; l.mark_ext = true; l.ext = (int)vf::choose("ext", 1, 2); l.trailers = (int)vf::choose("tr", 0, 1); l.be = (int)vf::choose("be", 0, 1); go(l); }
extern "C" void h_rev2_count() { L l; l.ext = (int)vf::choose("ext", 0, 2); l.trailers = (int)vf::choose("tr", 0, 3); l.be = (int)vf::choose("be", 0, 1); l.gap = vf::choose("gap", 0, 1); go(l); }
extern "C" void h_rev2_marked_fixed()
{
    L l; l.mark_tr = true; l.trailers = (int)vf::choose("tr", 1, 3); l.add = (int)vf::choose("add", 0, 1); l.nt = (int)vf::choose("nt", 1, 3);
    l.be = (int)vf::choose("be", 0, 1); l.ext = (int)vf::choose("ext", 0, 1); ns[0] = vf::choose("n", 1, 3); l.fmt = 5;
    l.gap = vf::choose("gap", 0, 1);
    go(l);
}
extern "C" void h_rev2_marked_var()
{
    L l; l.mark_tr = true; l.fixed = 0; l.trailers = (int)vf::choose("tr", 1, 2); l.add = (int)vf::choose("add", 0, 1); l.nt = (int)vf::choose("nt", 1, 3);
    l.be = (int)vf::choose("be", 0, 1); l.ext = (int)vf::choose("ext", 0, 1); ns[0] = vf::choose("n0", 0, 2); ns[1] = 2; l.fmt = 7;
    l.gap = vf::choose("gap", 0, 1);
    go(l);
}
// more additional headers; their number may be missing in the trace header
extern "C" void h_rev2_marked_add()
{
    L l; l.mark_tr = true; l.fixed = (int)vf::choose("fx", 0, 1); l.trailers = (int)vf::choose("tr", 1, 2); l.add = (int)vf::choose("add", 1, 3); l.nt = (int)vf::choose("nt", 1, 2);
    l.be = (int)vf::choose("be", 0, 1); l.noword = vf::choose("now", 0, 1); ns[0] = vf::choose("n0", 1, 2); ns[1] = 1;
    go(l);
}
extern "C" void h_rev2_count_add()
{
    L l; l.fixed = (int)vf::choose("fx", 0, 1); l.trailers = (int)vf::choose("tr", 0, 1); l.add = (int)vf::choose("add", 1, 3);
    l.be = (int)vf::choose("be", 0, 1); l.noword = vf::choose("now", 0, 1); ns[1] = 2;
    go(l);
}
// no traces at all
extern "C" void h_rev2_empty() { L l; l.nt = 0; l.ext = (int)vf::choose("ext", 0, 1); l.trailers = (int)vf::choose("tr", 0, 2); go(l); }
// every byte of the blocks of one file
extern "C" void h_all_bytes()
{
    memset(b, 0, sizeof b);
    vf::bytes("text", b, 3200); vf::bytes("ext", b + 3600, 3200); vf::bytes("trailer", b + 6800 + 242, 3200);
    vf::put(b + 3220, 1, 2, true); vf::put(b + 3224, 3, 2, true); b[3500] = 2; b[3503] = 1; b[3505] = 1; b[3531] = 1;
    vf_put_file("a.sgy", b, 6800 + 242 + 3200);
    ISEGY s("a.sgy");
    vf::check(s.text_headers().size() == 2 && s.trailer_stanzas().size() == 1, "number of text blocks");
    vf::check(s.text_headers()[0].size() == 3200 && s.text_headers()[1].size() == 3200 && s.trailer_stanzas()[0].size() == 3200, "text block of 3200 bytes");
    for (int i = 0; i < 3200; ++i) {
        vf::check((unsigned char)s.text_headers()[0][i] == b[i], "text header");
        vf::check((unsigned char)s.text_headers()[1][i] == b[3600 + i], "extended text header");
        vf::check((unsigned char)s.trailer_stanzas()[0][i] == b[6800 + 242 + i], "trailer stanza");
    }
    vf::reach("end");
}
// many text blocks
extern "C" void h_many()
{
    L l;
    l.rev = (int)vf::choose("rev", 1, 2);
    static const int N[3] = { 12, 100, 129 };
    int n = N[vf::choose("n", 0, 2)], w = (int)vf::choose("w", 0, l.rev == 1 ? 1 : 3);
    l.mark_ext = w == 1; l.mark_tr = w == 3;
    if (w < 2) l.ext = n;
    else l.trailers = n, l.ext = 1;
    go(l);
}
extern "C" void t_many() { L l; l.ext = 256; l.mark_ext = vf::choose("w", 0, 1); go(l); }
// long traces before marked or counted trailer stanzas
extern "C" void h_long()
{
    L l; l.mark_tr = vf::choose("m", 0, 1); l.trailers = 2; l.be = (int)vf::choose("be", 0, 1);
    switch (vf::choose("k", 0, 3)) {
    case 0: ns[0] = 32767; l.fmt = 5; break;
    case 1: l.fixed = 0; ns[0] = 32767, ns[1] = 9000; l.fmt = 6; break;
    case 2: l.fixed = 0; l.add = 1; ns[0] = 70000, ns[1] = 33000; l.fmt = 3; break;
    default: l.add = 2; ns[0] = 17000; l.fmt = 2;
    }
    go(l);
}
