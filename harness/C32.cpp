// C32: a SEG-D writer refuses headers, maps and traces it cannot store; a refused trace
// leaves the file as it was, and writing goes on.
#include "segd.hpp"
#include <exception>
static bool makes(GH1 const& g, GH2 const& h, std::vector<std::vector<CSH>> c = {}, std::vector<std::shared_ptr<AGH>> a = {},
    std::vector<std::vector<char>> d = {}, std::vector<std::vector<char>> l = {}, std::vector<XMap> m = {})
{
    try {
        OSEGDRev2_1 o("o", g, h, c, a, d, l, m);
        return true;
    } catch (Exception&) {
        return false;
    }
}
// numbers of scan types and channel sets
extern "C" void h_sets()
{
    int S = (int)vf::choose("S", 0, 2), A = (int)vf::choose("A", 0, 2), N = (int)vf::choose("N", 0, 2), x = (int)vf::choose("x", 0, 1);
    GH1 g = w_gh1(8058, S, N);
    GH2 h = w_gh2();
    if (x) g.channel_sets_per_scan_type = 165, h.ext_ch_sets_per_scan_type = (uint16_t)N;
    std::vector<std::vector<CSH>> c(A);
    bool ok = A == S;
    for (int i = 0; i < A; ++i) {
        int B = (int)vf::choose(i ? "B1" : "B0", 0, 2);
        ok &= B == N;
        for (int j = 0; j < B; ++j) c[i].push_back(w_set(i + 1, j + 1, 1));
    }
    bool made = makes(g, h, c);
    vf::check(made == ok, "accepted exactly when the numbers of channel sets agree");
    if (made) vf::check_eq(vf_file_size("o"), (size_t)(64 + 32 * A * N), "size of the file");
    vf::reach("end");
}
// extended and external blocks
extern "C" void h_blocks()
{
    static const int SZ[4] = { 32, 0, 31, 33 };
    int kind = (int)vf::choose("kind", 0, 1), want = (int)vf::choose("want", 0, 2), have = (int)vf::choose("have", 0, 2), x = (int)vf::choose("x", 0, 1);
    GH1 g = w_gh1(8058, 0, 0);
    GH2 h = w_gh2();
    (kind ? g.external_hdr_blocks : g.extended_hdr_blocks) = x ? 165 : want;
    if (x) (kind ? h.external_hdr_blocks : h.extended_hdr_blocks) = (uint32_t)want;
    std::vector<std::vector<char>> b;
    bool ok = want == have;
    for (int i = 0; i < have; ++i) {
        int s = SZ[vf::choose(i ? "s1" : "s0", 0, 3)];
        ok &= s == 32;
        b.push_back(std::vector<char>(s));
    }
    bool made = kind ? makes(g, h, {}, {}, {}, b) : makes(g, h, {}, {}, b);
    vf::check(made == ok, "accepted exactly when blocks have the right number and size");
    vf::reach("end");
}
// revision, format and number of additional blocks
extern "C" void h_general()
{
    int k = (int)vf::choose("k", 0, 2);
    GH1 g = w_gh1(8058, 0, 0);
    GH2 h = w_gh2();
    bool ok = true;
    std::vector<std::shared_ptr<AGH>> a;
    if (k == 0) {
        h.segd_rev_major = vf::sym<uint8_t>("major");
        ok = h.segd_rev_major < 3;
    } else if (k == 1) {
        int f = (int)vf::choose("f", 0, 14);
        ok = f < 14;
        g.format_code = ok ? FMT[f] : vf::sym<int>("code");
        if (!ok) for (int x : FMT) vf::assume(g.format_code != x);
    } else {
        int want = (int)vf::choose("want", 0, 3), have = (int)vf::choose("have", 0, 2);
        for (int i = 0; i < have; ++i) { auto x = std::make_shared<GHN>(); *x = {}; x->gen_hdr_block_num = (uint8_t)(3 + i); a.push_back(x); }
        g.add_gen_hdr_blocks = want;
        ok = want == have + 1;
    }
    vf::check(makes(g, h, {}, a) == ok, "accepted exactly when it can be stored");
    vf::reach("end");
}
// blocks of revision 3
extern "C" void h_kind()
{
    GH1 g = w_gh1(8058, 0, 0, 1);
    std::vector<std::shared_ptr<AGH>> a;
    switch (vf::choose("k", 0, 3)) {
    case 0: { auto x = std::make_shared<CommonSEGD::GeneralHeaderVes>(); x->gen_hdr_block_type = 0x10; a.push_back(x); break; }
    case 1: { auto x = std::make_shared<CommonSEGD::GeneralHeaderVib>(); x->gen_hdr_block_type = 0x15; a.push_back(x); break; }
    case 2: { auto x = std::make_shared<CommonSEGD::GeneralHeaderPos1>(); x->gen_hdr_block_type = 0x50; a.push_back(x); break; }
    default: { auto x = std::make_shared<CommonSEGD::GeneralHeaderMeas>(); x->gen_hdr_block_type = 0x61; a.push_back(x); }
    }
    vf::check(!makes(g, w_gh2(), {}, a), "blocks of revision 3 are refused");
    vf::reach("end");
}
// maps of extensions: inside the block, without overlaps
static const VT TY[13] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t, VT::uint64_t, VT::ieee_single, VT::ieee_double, VT::ibm };
static const int SZ[13] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 8, 4 };
extern "C" void h_maps()
{
    int k = (int)vf::choose("t", 0, 12), b = (int)vf::choose("b", 0, 1);
    uint32_t o = vf::sym<uint32_t>("o");
    std::vector<XMap> m(2);
    m[b][o] = { "A", TY[k] };
    bool ok = (uint64_t)o + SZ[k] <= 32;
    if (vf::choose("two", 0, 1)) {
        vf::assume(o != 10);
        m[b][10] = { "B", VT::int32_t };
        ok &= ((uint64_t)o + SZ[k] <= 10) | (o >= 14);
    }
    vf::check(makes(w_gh1(8058, 0, 0), w_gh2(), {}, {}, {}, {}, m) == ok, "accepted exactly when words lie in the block and do not overlap");
    vf::reach("end");
}
// a trace more than the channel sets have
extern "C" void h_many()
{
    int a = (int)vf::choose("a", 0, 2), b = (int)vf::choose("b", 0, 2);
    std::vector<std::vector<CSH>> c(1);
    c[0].push_back(w_set(1, 1, a));
    c[0].push_back(w_set(1, 2, b));
    Trace t(UMap { { "CHAN", (int64_t)1 } }, { 1, 2 });
    {
        OSEGDRev2_1 o("o", w_gh1(8038, 1, 2), w_gh2(), c);
        for (int i = 0; i < a + b; ++i) o.write_trace(t);
        for (int i = 0; i < 2; ++i) {
            bool thrown = false;
            try { o.write_trace(t); } catch (Exception&) { thrown = true; }
            vf::check(thrown, "refused");
        }
    }
    vf::check_eq(vf_file_size("o"), (size_t)(64 + 64 + 28 * (a + b)), "size of the file");
    vf::reach("end");
}
// traces that cannot be stored, among others that can
extern "C" void h_refused()
{
    std::vector<std::vector<CSH>> c(2);
    for (int s = 1; s < 3; ++s) for (int k = 1; k < 3; ++k) c[s - 1].push_back(w_set(s, k, 1));
    bool maps = vf::choose("maps", 0, 1);
    std::vector<XMap> m;
    if (maps) {
        m.resize(2);
        m[0][0] = { "A", VT::int32_t };
        m[0][4] = { "F", VT::ieee_single };
        m[1][8] = { "B", VT::uint8_t };
    }
    unsigned char v[4];
    vf::bytes("v", v, 4);
    UMap good { { "FFID", (int64_t)17 }, { "TR_HDR_EXT", (int64_t)(maps ? 2 : 1) } };
    good["CHAN"] = (int64_t)5;
    if (maps) good["A"] = (int64_t)v[1], good["B"] = (int64_t)v[2], good["F"] = 1.5;
    else good["R_LINE"] = (int64_t)v[1];
    UMap bad = good;
    int which = (int)vf::choose("bad", 0, 9);
    switch (which) {
    case 0: case 1: case 2: { // no such scan type or channel set
        int64_t n = vf::sym<int64_t>("n");
        vf::assume((n < 1) | (n > 2));
        bad[which == 0 ? "SCAN_TYPE_NUM" : "CH_SET_NUM"] = n;
        if (which == 2) bad["SCAN_TYPE_NUM"] = (int64_t)2;
        break;
    }
    case 3: if (!maps) { bad["SAMP_NUM"] = 1.0; break; } bad.erase("A"); break;
    case 4: if (!maps) { bad["SENSOR_TYPE"] = 1.0; break; } bad.erase("B"); break;
    case 5: if (!maps) { bad["R_POINT_IDX"] = 1.0; break; } bad["TR_HDR_EXT"] = (int64_t)3; break;
    case 6: if (!maps) { bad["CHAN"] = 1.0; break; } bad["A"] = 2.0; break;
    case 7: if (!maps) { bad["FFID"] = 1.0; break; } bad["F"] = (int64_t)2; break;
    case 8: bad["FIRST_TIMING_WORD"] = (int64_t)1; break;
    case 9: bad["TRACE_EDIT"] = 1.0; break;
    }
    int before = (int)vf::choose("before", 0, 1), times = (int)vf::choose("times", 1, 2);
    Trace g(good, { 3 }), b(bad, { 4, 5 });
    {
        OSEGDRev2_1 o("o", w_gh1(8038, 2, 2), w_gh2(), c, {}, {}, {}, m);
        if (before) o.write_trace(g);
        for (int i = 0; i < times; ++i) {
            bool thrown = false;
            try { o.write_trace(b); } catch (std::exception&) { thrown = true; }
            vf::check(thrown, "refused");
        }
        for (int i = before; i < 4; ++i) o.write_trace(g); // all announced traces have their place
        bool thrown = false;
        try { o.write_trace(g); } catch (std::exception&) { thrown = true; }
        vf::check(thrown, "more traces than announced are refused");
    }
    size_t ext = maps ? 64 : 32, one = 20 + ext + 4, head = 64 + 4 * 32;
    vf::check_eq(vf_file_size("o"), head + one * 4, "nothing of a refused trace is in the file");
    const unsigned char* d = vf_file_data("o") + head;
    for (int i = 0; i < 4; ++i, d += one) {
        vf::check((d[0] == 0) & (d[1] == 0x17) & (d[4] == 0) & (d[5] == 5), "header");
        vf::check_eq(maps ? vf::get(d + 20, 4, true) : vf::get(d + 20, 3, true), (uint64_t)v[1], "extension");
        vf::check_eq(vf::get(d + 20 + ext, 4, true), (uint64_t)3, "sample");
    }
    vf::reach("end");
}
