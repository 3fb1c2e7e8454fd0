// C11: parameters that can not describe a SEG-Y file are refused with an
// exception, and exactly those: valid ones are accepted.
#include "hdr.hpp"
static Img<3600 + 3200> f;
template <class F> static int outcome(F fn) // 0 accepted, 1 sedaman::Exception, 2 other standard exception
{
    try { fn(); } catch (Exception const& e) { vf::check(e.what()[0] != 0, "exception has a message"); return 1; } catch (std::exception const&) { return 2; }
    return 0;
}
static const int fmts[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
static bool good_fmt(int c) { bool r = false; for (int x : fmts) r |= c == x; return r; }
// format code: any 16-bit value
extern "C" void h_read_format()
{
    f.base(vf::choose("be", 0, 1), 1, 1);
    int16_t c = vf::sym<int16_t>("code");
    f.u(3224, (uint16_t)c, 2);
    f.save("a.sgy", 3600);
    int r = outcome([] { ISEGY s("a.sgy"); });
    vf::check(r == (good_fmt(c) ? 0 : 1), "reader refuses exactly the unsupported format codes");
    CommonSEGY::BinaryHeader o = {};
    o.format_code = c;
    f.u(3224, 1, 2);
    f.save("a.sgy", 3600);
    r = outcome([&] { ISEGY s("a.sgy", o); });
    vf::check(r == (good_fmt(c) ? 0 : 1), "reader with a given binary header refuses exactly the unsupported format codes");
    vf::reach("end");
}
template <int R> static int make(CommonSEGY::BinaryHeader b, std::vector<std::string> t = {}, std::vector<std::string> tr = {}, TMap m = CommonSEGY::default_trace_header)
{
    return outcome([&] {
        if (R == 0) OSEGYRev0 o("o.sgy", t.empty() ? "" : t[0], b, m);
        if (R == 1) OSEGYRev1 o("o.sgy", t, b, m);
        if (R == 2) OSEGYRev2 o("o.sgy", t, b, tr, m);
    });
}
template <int R> static void wformat()
{
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1;
    b.format_code = vf::sym<int16_t>("code");
    vf::check(make<R>(b) == (good_fmt(b.format_code) || !b.format_code ? 0 : 1), "writer refuses exactly the unsupported format codes");
    vf::reach("end");
}
template <int R> static void wendian()
{
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    b.endianness = vf::sym<int32_t>("e");
    bool ok = b.endianness == 0 || b.endianness == 0x01020304 || b.endianness == 0x04030201;
    vf::check(make<R>(b) == (ok ? 0 : 1), "writer refuses unknown byte orders");
    vf::reach("end");
}
extern "C" void h_read_endian()
{
    f.base(true, 3, 1);
    f.sym("e", 3296, 4);
    uint32_t e = (uint32_t)f.g(3296, 4);
    if (e == 0x04030201) { f.be = false; f.u(3224, 3, 2); }
    f.save("a.sgy", 3600);
    int r = outcome([] { ISEGY s("a.sgy"); });
    vf::check(r == (e == 0 || e == 0x01020304 || e == 0x04030201 ? 0 : 1), "reader refuses unknown byte orders");
    vf::reach("end");
}
// text headers of a wrong size
static const int sizes[] = { 1, 80, 3199, 3200, 3201, 6400 };
template <int R> static void text()
{
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    int n = R ? (int)vf::choose("n", 1, 3) : 1, bad = (int)vf::choose("bad", 0, n - 1), sz = sizes[vf::choose("sz", 0, 5)];
    std::vector<std::string> t(n, std::string(3200, ' '));
    t[bad] = std::string(sz, ' ');
    vf::check(make<R>(b, t) == (sz == 3200 ? 0 : 1), "text header of a wrong size is refused");
    vf::reach("end");
}
extern "C" void h_trailer()
{
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    int n = (int)vf::choose("n", 1, 3), bad = (int)vf::choose("bad", 0, n - 1), sz = sizes[vf::choose("sz", 0, 5)];
    std::vector<std::string> t(n, std::string(3200, ' '));
    t[bad] = std::string(sz, ' ');
    vf::check(make<2>(b, {}, t) == (sz == 3200 ? 0 : 1), "trailer stanza of a wrong size is refused");
    vf::check(make<2>(b, {}, std::vector<std::string>(1, "")) == 1, "empty trailer stanza is refused");
    vf::reach("end");
}
#define RR(N) \
    extern "C" void h_format##N() { wformat<N>(); } \
    extern "C" void h_endian##N() { wendian<N>(); } \
    extern "C" void h_text##N() { text<N>(); }
RR(0) RR(1) RR(2)
// trace header mapping: any two words at any offsets, in any of the maps, seen by a reader or a writer
template <int T> static void mapping(int t2, int t3)
{
    uint32_t o1 = vf::sym<uint32_t>("o1"), o2 = vf::sym<uint32_t>("o2");
    vf::assume(o1 < o2);
    const TypeInfo &a = types[T], &b = types[t2], &c = types[t3];
    bool three = t3 >= 0 && vf::choose("three", 0, 1);
    uint32_t o3 = 0;
    HMap m;
    m[o1] = { "A", a.t };
    m[o2] = { "B", b.t };
    bool ok = (uint64_t)o1 + a.n <= o2 && (uint64_t)o2 + b.n <= 240;
    if (three) {
        o3 = vf::sym<uint32_t>("o3");
        vf::assume(o2 < o3);
        m[o3] = { "C", c.t };
        ok = (uint64_t)o1 + a.n <= o2 && (uint64_t)o2 + b.n <= o3 && (uint64_t)o3 + c.n <= 240;
    }
    TMap mm = { { "MYHEADER", m } };
    if (vf::choose("second", 0, 1)) mm.insert(mm.begin(), { "FIRST000", { { 0, { "X", VT::int32_t } } } });
    f.base(true, 3, 1);
    f.save("a.sgy", 3600);
    int r = outcome([&] { ISEGY s("a.sgy", mm); });
    vf::check(r == (ok ? 0 : 1), "mapping is refused exactly when words overlap or leave the header");
    vf::reach("end");
}
#define M(T, N) extern "C" void h_map_##N() { mapping<T>((int)vf::choose("t2", 0, 12), T < 12 ? T + 1 : 0); }
M(0, int8) M(1, uint8) M(2, int16) M(3, uint16) M(4, int24) M(5, uint24) M(6, int32) M(7, uint32) M(8, int64) M(9, uint64) M(10, ibm) M(11, single) M(12, dbl)
// a single word
template <int R> static void single()
{
    const TypeInfo& a = types[vf::choose("t", 0, 12)];
    uint32_t o = vf::sym<uint32_t>("o");
    HMap m;
    m[o] = { "A", a.t };
    TMap mm = { { "MYHEADER", m } };
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    vf::check(make<R>(b, {}, {}, mm) == ((uint64_t)o + a.n <= 240 ? 0 : 1), "word that leaves the header is refused");
    vf::reach("end");
}
extern "C" void h_single0() { single<0>(); }
extern "C" void h_single1() { single<1>(); }
extern "C" void h_single2() { single<2>(); }
// names of the maps, number of maps
extern "C" void h_names()
{
    int n = (int)vf::choose("len", 0, 10), k = (int)vf::choose("k", 0, 1);
    TMap mm = { { "MYHEADER", {} }, { "MYHEADER", { { 4, { "Q", VT::int32_t } } } } };
    mm[k].first = std::string(n, 'N');
    f.base(true, 3, 1);
    f.save("a.sgy", 3600);
    vf::check(outcome([&] { ISEGY s("a.sgy", mm); }) == (n == 8 ? 0 : 1), "reader: header name of other than 8 bytes is refused");
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    vf::check(make<0>(b, {}, {}, mm) == (n == 8 ? 0 : 1), "writer: header name of other than 8 bytes is refused");
    vf::reach("end");
}
extern "C" void h_count()
{
    int n = (int)vf::choose("maps", 1, 4);
    TMap mm;
    for (int i = 0; i < n; ++i) mm.push_back({ "MYHEADER", {} });
    CommonSEGY::BinaryHeader b = {};
    b.samp_per_tr = 1; b.samp_int = 1; b.fixed_tr_length = 1; b.format_code = 5;
    b.SEGY_rev_major_ver = vf::sym<uint8_t>("rev");
    b.max_num_add_tr_headers = vf::sym<int32_t>("add");
    bool ok = b.SEGY_rev_major_ver < 2 || b.max_num_add_tr_headers == 0 || b.max_num_add_tr_headers == n - 1;
    vf::check(make<2>(b, {}, {}, mm) == (ok ? 0 : 1), "writer: number of mappings must fit the number of additional headers");
    f.base(true, 3, 1);
    f.save("a.sgy", 3600);
    vf::assume(b.max_num_add_tr_headers >= 0 && b.max_num_add_tr_headers < 100);
    vf::check(outcome([&] { ISEGY s("a.sgy", b, mm); }) == (ok ? 0 : 1), "reader: number of mappings must fit the number of additional headers");
    vf::reach("end");
}
// reader: trailer stanzas up to a marker need the number of traces
extern "C" void h_trailers_unknown()
{
    f.base(true, 3, 1);
    f.b[3500] = 2; f.u(3502, vf::choose("fixed", 0, 1), 2); f.u(3528, 0xffffffffu, 4);
    memset(f.b + 3600, ' ', 3200);
    memcpy(f.b + 3600, "((SEG: EndText))", 16);
    f.save("a.sgy");
    vf::check(outcome([] { ISEGY s("a.sgy"); }) == 1, "end of trace data unknown");
    vf::reach("end");
}
extern "C" void h_no_file() { vf::check(outcome([] { ISEGY s("nosuch.sgy"); }) != 0, "no such file"); vf::check(outcome([] { ISEGYSorted1D s("nosuch.sgy", "FFID"); }) != 0, "no such file"); vf::reach("end"); }
// a trace whose number of samples is not the expected one is refused, and nothing of it that counts as a trace is left
template <int R> static void count()
{
    static const int fm[] = { 3, 8, 6 };
    CommonSEGY::BinaryHeader b = {};
    b.format_code = fm[vf::choose("f", 0, 2)]; b.samp_int = 1; b.samp_per_tr = (int16_t)vf::choose("n", 1, 3); b.fixed_tr_length = 1; b.SEGY_rev_major_ver = R;
    int n = (int)vf::choose("got", 0, 5);
    int r = outcome([&] {
        auto w = [&](OSEGY& o) { Trace t({ { "SAMP_NUM", (int64_t)n } }, std::vector<double>(n, 1.0)); o.write_trace(t); };
        if (R == 0) { OSEGYRev0 o("o.sgy", "", b); w(o); }
        if (R == 1) { OSEGYRev1 o("o.sgy", {}, b); w(o); }
        if (R == 2) { OSEGYRev2 o("o.sgy", {}, b); w(o); }
    });
    vf::check((r == 0) == (n == b.samp_per_tr), "fixed length: trace of another length is refused");
    vf::reach("end");
}
template <int R> static void countv()
{
    CommonSEGY::BinaryHeader b = {};
    b.format_code = 3; b.samp_int = 1; b.SEGY_rev_major_ver = R;
    int n = (int)vf::choose("got", 0, 3), hn = (int)vf::choose("hdr", -1, 3);
    int r = outcome([&] {
        auto w = [&](OSEGY& o) { UMap h; if (hn >= 0) h["SAMP_NUM"] = (int64_t)hn; Trace t(h, std::vector<double>(n, 1.0)); o.write_trace(t); };
        if (R == 1) { OSEGYRev1 o("o.sgy", {}, b); w(o); }
        if (R == 2) { OSEGYRev2 o("o.sgy", {}, b); w(o); }
    });
    vf::check((r == 0) == (n == hn), "variable length: trace whose header tells another length is refused");
    vf::reach("end");
}
extern "C" void h_count0() { count<0>(); }
extern "C" void h_count1() { count<1>(); }
extern "C" void h_count2() { count<2>(); }
extern "C" void h_countv1() { countv<1>(); }
extern "C" void h_countv2() { countv<2>(); }
// sorting by a word the traces do not have
extern "C" void h_sort_key()
{
    f.base(true, 3, 1);
    f.save("a.sgy", 3600 + 242);
    vf::check(outcome([] { ISEGYSorted1D s("a.sgy", "NO_SUCH_WORD"); }) == 1, "unknown sort key");
    vf::check(outcome([] { ISEGYSorted1D s("a.sgy", "FFID"); }) == 0, "known sort key");
    vf::reach("end");
}
