// C12: reading any bytes as SEG-Y either gives traces or throws a standard
// exception: no memory error, no made-up data, and it always comes to an end.
#include "segy.hpp"
static unsigned char b[3600 + 3 * 3200];
// read everything; `ops` decides between header-only and full reads
static void drain(size_t size, int ops, const TMap* m = nullptr)
{
    size_t ok = 0;
    try {
        ISEGY s("a.sgy", m ? *m : CommonSEGY::default_trace_header);
        vf::check(s.text_headers().size() >= 1 && s.text_headers()[0].size() == 3200, "text header of 3200 bytes");
        for (auto& t : s.trailer_stanzas()) vf::check(t.size() == 3200, "stanza of 3200 bytes");
        vf::reach("opened");
        while (s.has_trace()) {
            vf::check(ok * 240 <= size, "reading comes to an end");
            if (ops >> (ok % 4) & 1) {
                Trace t = s.read_trace();
                double x = 0;
                for (double v : t.samples()) x = v;
                (void)x;
            } else s.read_header();
            ++ok;
        }
        vf::reach("drained");
    } catch (std::exception const&) {
        vf::reach("refused");
    }
}
static void header(bool sym)
{
    memset(b, 0, sizeof b);
    if (sym) vf::bytes("bin", b + 3200, 400);
    memset(b + 3216, 0, 8); memset(b + 3268, 0, 4); memset(b + 3296, 0, 4); memset(b + 3500, 0, 32);
    vf::put(b + 3224, 3, 2, true);
    vf::put(b + 3220, 1, 2, true);
}
static void u(size_t off, uint64_t v, int n) { vf::put(b + off, v, n, true); }
static size_t finish(size_t n) { vf_put_file("a.sgy", b, n); return n; }
// files cut anywhere in the leading part
extern "C" void h_short()
{
    static const size_t n[] = { 0, 1, 3199, 3200, 3201, 3599, 3600, 3601, 3839, 3840, 3841 };
    header(true);
    int ops = (int)vf::choose("op", 0, 1);
    drain(finish(n[vf::choose("n", 0, 10)]), ops);
}
// all bytes of the binary header and of the trace area, moderate numbers of samples
template <int REV> static void all(int lo, int hi)
{
    header(true);
    vf::bytes("code", b + 3224, 2);
    vf::assume(vf::get(b + 3224, 2, true) != 1); // IBM: h_ibm
    b[3500] = REV;
    if (REV) u(3502, vf::choose("fixed", 0, 1), 2);
    u(3220, vf::choose("ns", lo, hi), 2);
    vf::bytes("traces", b + 3600, 500);
    if (REV && !b[3503]) { // numbers of samples the trace headers announce
        static const int v[] = { 0, 1, 3, 127, 32767, -1, -120, -32768 };
        memset(b + 3954, 0, 36); memset(b + 4081, 0, 2); // the same of a second trace
        u(3600 + 114, (uint16_t)v[vf::choose("n0", 0, 7)], 2);
    }
    drain(finish(3600 + 500), (int)vf::choose("ops", 0, 1) ? 1 : 2);
}
extern "C" void h_all0() { all<0>(0, 2); }
extern "C" void h_all1() { all<1>(1, 1); }
extern "C" void h_ibm()
{
    header(true);
    u(3224, 1, 2);
    vf::bytes("traces", b + 3600, 244);
    drain(finish(3600 + 244), 1);
}
// negative numbers of samples
extern "C" void h_negative()
{
    header(false);
    b[3500] = 1; u(3224, vf::choose("f", 0, 1) ? 3 : 8, 2);
    vf::bytes("n0", b + 3600 + 114, 2);
    vf::assume(b[3600 + 114] >= 0x80);
    drain(finish(3600 + 700), (int)vf::choose("ops", 0, 3));
}
extern "C" void h_counts()
{
    static const int64_t ns[] = { 0, 1, 2, 65535 }, ens[] = { 0, 1, -1, INT32_MIN, 0x10000 };
    static const int f[] = { 3, 6, 8 };
    header(false);
    b[3500] = (unsigned char)vf::choose("rev", 0, 2);
    u(3502, vf::choose("fixed", 0, 1), 2);
    u(3220, ns[vf::choose("ns", 0, 3)], 2);
    u(3268, ens[vf::choose("ens", 0, 4)], 4);
    u(3224, f[vf::choose("f", 0, 2)], 2);
    drain(finish(3600 + 500), (int)vf::choose("ops", 0, 3));
}
extern "C" void h_add()
{
    static const int64_t add[] = { 0, 1, 2, 3, -1, -2, INT32_MIN, 0x7ffffffe, 1000000 };
    header(false);
    b[3500] = (unsigned char)vf::choose("rev", 1, 3);
    u(3502, vf::choose("fixed", 0, 1), 2);
    u(3220, vf::choose("ns", 0, 1), 2);
    u(3506, add[vf::choose("add", 0, 8)], 4);
    drain(finish(3600 + 1000), (int)vf::choose("ops", 0, 3));
}
extern "C" void h_text()
{
    static const int64_t e[] = { 0, 1, 2, 3, 4, -1, -2, 32767, -32768 }, t[] = { 0, 1, 2, 3, -1, -2, INT32_MIN, 0x7fffffff };
    header(false);
    b[3500] = 2;
    u(3502, vf::choose("fixed", 0, 1), 2);
    u(3504, e[vf::choose("ext", 0, 8)], 2);
    u(3528, t[vf::choose("tr", 0, 7)], 4);
    u(3512, vf::choose("nt", 0, 1), 8);
    if (vf::choose("mark", 0, 1)) { memcpy(b + 3600, "((SEG: EndText))", 16); memcpy(b + 3600 + 3200 + 242, "((SEG: EndText))", 16); }
    drain(finish(3600 + 3200 + 242 + 3200), 1);
}
extern "C" void h_offset()
{
    static const int64_t o[] = { 0, 1, 3599, 3600, 3601, 3600 + 499, 3600 + 500, 3600 + 501, 1000000, INT64_MAX, INT64_MIN, -1 }, n[] = { 0, 1, 2, 3, 1000, INT64_MAX, -1, 1ll << 60 };
    header(false);
    b[3500] = 2;
    u(3502, vf::choose("fixed", 0, 1), 2);
    u(3520, (uint64_t)o[vf::choose("off", 0, 11)], 8);
    u(3512, (uint64_t)n[vf::choose("nt", 0, 7)], 8);
    u(3528, vf::choose("tr", 0, 1) ? 0xffffffffu : 0, 4);
    drain(finish(3600 + 500), (int)vf::choose("ops", 0, 1));
}
// trailer stanzas up to a marker behind traces of variable length with arbitrary headers
extern "C" void h_marked_var()
{
    header(false);
    b[3500] = 2; u(3528, 0xffffffffu, 4); u(3512, vf::choose("nt", 1, 2), 8); u(3506, vf::choose("add", 0, 1), 4);
    static const int v[] = { 0, 1, 200, 32767, -1, -32768 };
    u(3600 + 114, (uint16_t)v[vf::choose("n0", 0, 5)], 2);
    static const int64_t w[] = { 0, 1, 200, 0x7fffffff, -1, INT32_MIN };
    u(3600 + 240 + 136, w[vf::choose("n1", 0, 5)], 4);
    static const int64_t a[] = { 0, 1, 2, 65535 };
    u(3600 + 240 + 156, a[vf::choose("a", 0, 3)], 2);
    drain(finish(3600 + 3 * 3200), 2);
}
// mapping without a sample count, or with one held as floating point
extern "C" void h_map()
{
    header(false);
    b[3500] = 1;
    vf::bytes("traces", b + 3600, 300);
    TMap m = { { "MYHEADER", { { 0, { vf::choose("name", 0, 1) ? "SAMP_NUM" : "OTHER", vf::choose("ty", 0, 1) ? VT::ieee_single : VT::uint8_t } } } } };
    drain(finish(3600 + 300), (int)vf::choose("ops", 0, 3), &m);
}
// sorted reading of arbitrary bytes
extern "C" void h_sorted()
{
    header(false);
    b[3500] = (unsigned char)vf::choose("rev", 0, 1);
    vf::bytes("f", b + 3600, 12);
    size_t cut = vf::choose("cut", 0, 4) * 60;
    vf_put_file("a.sgy", b, 3600 + 242 + cut);
    try {
        ISEGYSorted1D s("a.sgy", "FFID");
        size_t n = 0;
        while (s.has_trace()) { vf::check(n * 240 + 3600 <= 3842 + cut, "reading comes to an end"); s.read_trace(); ++n; }
        for (auto& k : s.get_keys()) s.get_traces(k);
        vf::reach("drained");
    } catch (std::exception const&) { vf::reach("refused"); }
}
