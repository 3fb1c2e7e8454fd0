// C05: a trace header read from a SEG-Y file holds, for every entry of the trace
// header mapping, the value its bytes represent.
#include "hdr.hpp"
static Img<3600 + 2 * (3 * 240 + 8)> f;
// default mapping, main header only; all 240 bytes symbolic, two traces
template <bool BE> static void def(int rev)
{
    f.base(BE, 3, 1);
    f.b[3500] = rev; f.u(3502, 1, 2);
    f.sym("h0", 3600, 240);
    f.sym("h1", 3600 + 242, 240);
    f.save("a.sgy", 3600 + 2 * 242);
    ISEGY s("a.sgy");
    Trace t = s.read_trace();
    check_header(t.header(), std_map(), f.b + 3600, 1, BE);
    Trace::Header h = s.read_header();
    check_header(h, std_map(), f.b + 3842, 1, BE);
    vf::check(!s.has_trace(), "both traces were read");
    vf::reach("end");
}
extern "C" void h_default_be() { def<true>(1); }
extern "C" void h_default_le() { def<false>(0); }
extern "C" void h_default_rev2() { def<true>(2); }
// default mapping with one or two additional headers (the second one has no mapping and is skipped)
template <bool BE> static void add(int n)
{
    f.base(BE, 3, 1);
    f.b[3500] = 2; f.u(3502, 1, 2); f.u(3506, n, 4);
    size_t tl = 240 * (1 + n) + 2;
    f.sym("h0", 3600, 240 * (1 + n));
    f.sym("h1", 3600 + tl, 240 * (1 + n));
    // doubles: NaN payloads are not part of the claim
    for (int t = 0; t < 2; ++t)
        for (int o = 32; o <= 168; o += 8)
            if (o != 136 && o != 152) vf::assume((vf::get(f.b + 3600 + t * tl + 240 + o, 8, BE) >> 52 & 0x7ff) != 0x7ff);
    f.save("a.sgy", 3600 + 2 * tl);
    ISEGY s("a.sgy");
    Trace::Header h = s.read_header();
    check_header(h, std_map(), f.b + 3600, 1 + n, BE);
    Trace t = s.read_trace();
    check_header(t.header(), std_map(), f.b + 3600 + tl, 1 + n, BE);
    vf::check(!s.has_trace(), "both traces were read");
    vf::reach("end");
}
extern "C" void h_add1_be() { add<true>(1); }
extern "C" void h_add1_le() { add<false>(1); }
extern "C" void h_add2_be() { add<true>(2); }
extern "C" void h_add2_le() { add<false>(2); }
// caller's mapping: a word of every type at any offset, next to two fixed words
template <int T> static void custom(bool all)
{
    const TypeInfo& i = types[T];
    bool be = vf::choose("be", 0, 1);
    int off;
    int last = 240 - i.n;
    if (all) off = (int)vf::choose("off", 0, last);
    else { static const int o[] = { 0, 1, 7, 114, 115 }; int k = (int)vf::choose("k", 0, 5); off = k < 5 ? o[k] : last; }
    HMap m;
    m[off] = { "W", i.t };
    if (off >= 2) m[off - 2] = { "A", VT::int16_t };
    if (off + i.n + 3 <= 240) m[off + i.n] = { "B", VT::uint24_t };
    f.base(be, 3, 1);
    f.sym("h", 3600, 240);
    f.save("a.sgy", 3600 + 242);
    TMap mm = { { "MYHEADER", m } };
    ISEGY s("a.sgy", mm);
    Trace t = s.read_trace();
    check_header(t.header(), mm, f.b + 3600, 1, be);
    vf::reach("end");
}
#define H(T, N) \
    extern "C" void h_custom_##N() { custom<T>(false); } \
    extern "C" void t_custom_##N() { custom<T>(true); }
H(0, int8) H(1, uint8) H(2, int16) H(3, uint16) H(4, int24) H(5, uint24) H(6, int32) H(7, uint32) H(8, int64) H(9, uint64) H(10, ibm) H(11, single) H(12, dbl)
// the same name in two headers: the additional header's word is the one reported; words of both maps are present
extern "C" void h_custom_two()
{
    bool be = vf::choose("be", 0, 1);
    f.base(be, 3, 1);
    f.b[3500] = 2; f.u(3502, 1, 2); f.u(3506, 2, 4);
    f.sym("h", 3600, 720);
    f.save("a.sgy", 3600 + 722);
    TMap mm = { { "FIRST000", { { 4, { "X", VT::int32_t } }, { 8, { "Y", VT::uint16_t } } } },
                { "SECOND00", { { 0, { "X", VT::int64_t } }, { 232, { "Z", VT::int64_t } } } },
                { "THIRD000", { { 3, { "Y", VT::uint8_t } }, { 100, { "Q", VT::uint64_t } } } } };
    ISEGY s("a.sgy", mm);
    Trace t = s.read_trace();
    check_header(t.header(), mm, f.b + 3600, 3, be);
    vf::reach("end");
}
