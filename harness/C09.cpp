// C09: a SEG-Y writer lays the file out as text header, binary header, extended
// text headers, traces in the order written, trailer stanzas - nothing else - and
// the binary header announces that layout.
#include "segy.hpp"
#include "ebcdic.hpp"
static std::string block(const char* nm)
{
    std::string s(3200, 'q');
    if (!nm) return s;
    char n2[4] = { nm[0], nm[1], 'z', 0 };
    vf::bytes(nm, &s[0], 12);
    vf::bytes(n2, &s[3190], 10);
    return s;
}
static void check_block(const unsigned char* p, const std::string& s, const char* msg)
{
    for (int i = 0; i < 3200; ++i)
        if (i < 16 || i >= 3186 || i % 64 == 0) vf::check_eq(p[i], (unsigned char)s[i], msg);
}
struct W { int rev, ext = 0, trailers = 0, fixed = 1, add = 0, nt = 2, fmt = 3, be = 1; bool own_text = true, extns = false; size_t ns[4] = { 1, 1, 1, 1 }; };
static int16_t sv[4][4];
static int32_t ff[4];
static const TMap m3 = { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } }, { "SEG00001", { { 0, { "A1", VT::int64_t } } } }, { "SEG00002", { { 4, { "A2", VT::int64_t } } } } };
static void go(const W& w)
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = w.fmt; bh.samp_int = 2000; bh.fixed_tr_length = w.fixed; bh.endianness = w.be ? 0 : 0x01020304;
    bh.SEGY_rev_major_ver = w.rev; bh.max_num_add_tr_headers = w.add;
    bool fix = w.fixed || !w.rev;
    if (fix) { if (w.extns) bh.ext_samp_per_tr = w.ns[0]; else bh.samp_per_tr = w.ns[0]; }
    std::vector<std::string> texts, trailers;
    if (w.own_text) for (int i = 0; i <= w.ext; ++i) { char n[] = "t0"; n[1] += i % 10; texts.push_back(block(i < 3 || i > w.ext - 2 ? n : nullptr)); texts.back()[64] = (char)i; }
    for (int i = 0; i < w.trailers; ++i) { char n[] = "r0"; n[1] += i % 10; trailers.push_back(block(i < 3 || i > w.trailers - 3 ? n : nullptr)); trailers.back()[64] = (char)i; }
    TMap map(m3.begin(), m3.begin() + 1 + w.add);
    auto write = [&](OSEGY& o) {
        for (int i = 0; i < w.nt; ++i) {
            char n[] = "f0"; n[1] += i;
            ff[i] = vf::sym<int32_t>(n);
            size_t ns = fix ? w.ns[0] : w.ns[i];
            std::vector<double> v;
            for (size_t k = 0; k < ns; ++k) { char sn[] = "s00"; sn[1] += i; sn[2] += k; sv[i][k] = vf::sym<int16_t>(sn); v.push_back(sv[i][k]); }
            UMap h;
            h["FFID"] = (int64_t)ff[i]; h["SAMP_NUM"] = (int64_t)ns; h["A1"] = (int64_t)ff[i] + 1; h["A2"] = (int64_t)ff[i] + 2;
            Trace t(h, v);
            o.write_trace(t);
        }
    };
    if (w.rev == 0) { OSEGYRev0 o("o.sgy", texts.empty() ? std::string() : texts[0], bh, map); write(o); }
    else if (w.rev == 1) { OSEGYRev1 o("o.sgy", texts, bh, map); write(o); }
    else { OSEGYRev2 o("o.sgy", texts, bh, trailers, map); write(o); }
    size_t p = 3600 + 3200 * w.ext, sz = vf_file_size("o.sgy"), want = p;
    for (int i = 0; i < w.nt; ++i) want += 240 * (1 + w.add) + 2 * (fix ? w.ns[0] : w.ns[i]);
    vf::check(sz == want + 3200 * w.trailers, "size of the file");
    const unsigned char* d = vf_file_data("o.sgy");
    if (w.own_text) {
        check_block(d, texts[0], "text header first");
        for (int i = 0; i < w.ext; ++i) check_block(d + 3600 + 3200 * i, texts[i + 1], "extended text headers after the binary header");
    }
    for (int i = 0; i < w.nt; ++i) {
        size_t ns = fix ? w.ns[0] : w.ns[i];
        vf::check_eq(vf::get(d + p + 8, 4, w.be), (uint32_t)ff[i], "trace header in the order written");
        if (w.add > 0) vf::check_eq(vf::get(d + p + 240, 8, w.be), (uint64_t)((int64_t)ff[i] + 1), "first additional header");
        if (w.add > 1) vf::check_eq(vf::get(d + p + 484, 8, w.be), (uint64_t)((int64_t)ff[i] + 2), "second additional header");
        p += 240 * (1 + w.add);
        for (size_t k = 0; k < ns; ++k) vf::check_eq(vf::get(d + p + 2 * k, 2, w.be), (uint16_t)sv[i][k], "samples after the header");
        p += 2 * ns;
    }
    for (int i = 0; i < w.trailers; ++i) check_block(d + p + 3200 * i, trailers[i], "trailer stanzas after the last trace");
    if (w.rev) vf::check(vf::get(d + 3504, 2, w.be) == (unsigned)w.ext, "number of extended text headers in the binary header");
    vf::check(d[3500] == w.rev, "revision in the binary header");
    vf::check(vf::get(d + 3502, 2, w.be) == (unsigned)w.fixed, "fixed length flag");
    if (w.rev > 1) {
        vf::check(vf::get(d + 3528, 4, w.be) == (unsigned)w.trailers, "number of trailer stanzas in the binary header");
        vf::check(vf::get(d + 3506, 4, w.be) == (unsigned)w.add, "number of additional headers in the binary header");
    }
    unsigned char le[4] = { 4, 3, 2, 1 };
    if (!w.be) vf::check(!memcmp(d + 3296, le, 4), "byte order marker");
    else vf::check(vf::get(d + 3296, 4, true) == 0 || vf::get(d + 3296, 4, true) == 0x01020304, "byte order marker");
    vf::reach("end");
}
extern "C" void h_rev0() { W w { 0 }; w.fixed = (int)vf::choose("fx", 0, 1); w.be = (int)vf::choose("be", 0, 1); w.nt = (int)vf::choose("nt", 0, 3); w.ns[0] = vf::choose("n", 1, 3); go(w); }
extern "C" void h_rev1() { W w { 1 }; w.be = (int)vf::choose("be", 0, 1); w.nt = (int)vf::choose("nt", 0, 2); w.ext = (int)vf::choose("ext", 0, 2); w.ns[0] = vf::choose("n", 0, 2); go(w); }
extern "C" void h_rev1_var() { W w { 1 }; w.fixed = 0; w.be = (int)vf::choose("be", 0, 1); w.nt = 3; w.ext = (int)vf::choose("ext", 0, 1); w.ns[0] = vf::choose("n0", 0, 3); w.ns[1] = vf::choose("n1", 0, 3); w.ns[2] = 2; go(w); }
static void rev2(bool fixed)
{
    W w { 2 };
    w.fixed = fixed; w.be = (int)vf::choose("be", 0, 1); w.nt = (int)vf::choose("nt", 0, 2); w.ext = (int)vf::choose("ext", 0, 2); w.trailers = (int)vf::choose("tr", 0, 2); w.add = (int)vf::choose("add", 0, 2);
    w.ns[0] = vf::choose("n0", 1, 2); w.ns[1] = 3;
    if (fixed) w.extns = vf::choose("extns", 0, 1);
    go(w);
}
extern "C" void h_rev2() { rev2(true); }
extern "C" void h_rev2_var() { rev2(false); }
// default text header: 40 lines of 80 characters, EBCDIC in revision 0
template <int R> static void deflt()
{
    W w { R };
    w.own_text = false;
    if (R == 2) w.trailers = (int)vf::choose("tr", 0, 1);
    go(w);
    const unsigned char* d = vf_file_data("o.sgy");
    char line[81] = {};
    static const char blank[81] = "                                                                                ";
    for (int l = 0; l < 40; ++l) {
        for (int i = 0; i < 80; ++i) line[i] = R == 0 ? ebcdic_ascii[d[80 * l + i]] : d[80 * l + i];
        vf::check(line[0] == 'C' && line[1] == (l < 9 ? ' ' : '0' + (l + 1) / 10) && line[2] == '0' + (l + 1) % 10 && line[3] == ' ', "line numbers of the default text header");
        for (int i = 0; i < 80; ++i) vf::check(line[i] >= 32 && line[i] < 127, "default text header is printable");
        if (l == 38) vf::check(!memcmp(line + 4, R == 0 ? "             " : R == 1 ? "SEG Y REV1   " : "SEG-Y_REV2.0 ", 13), "revision in the default text header");
        if (l == 39) vf::check(!memcmp(line + 4, R == 0 ? "END " : "END TEXTUAL HEADER ", R == 0 ? 4 : 19), "last line of the default text header");
    }
}
extern "C" void h_default_text0() { deflt<0>(); }
extern "C" void h_default_text1() { deflt<1>(); }
extern "C" void h_default_text2() { deflt<2>(); }
// revision is set when the caller's header leaves it 0
template <int R> static void rev_set()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 3; bh.samp_int = 1; bh.samp_per_tr = 1; bh.fixed_tr_length = 1;
    if (R == 1) OSEGYRev1 o("o.sgy", {}, bh);
    if (R == 2) OSEGYRev2 o("o.sgy", {}, bh);
    vf::check(vf_file_size("o.sgy") == 3600 && vf_file_data("o.sgy")[3500] == R, "revision of the writer");
    vf::reach("end");
}
extern "C" void h_rev_set1() { rev_set<1>(); }
extern "C" void h_rev_set2() { rev_set<2>(); }
// many text blocks
extern "C" void h_many_blocks()
{
    W w { (int)vf::choose("rev", 1, 2) };
    static const int N[3] = { 12, 100, 129 };
    int n = N[vf::choose("n", 0, 2)];
    if (w.rev > 1 && vf::choose("tr", 0, 1)) w.trailers = n, w.ext = 1;
    else w.ext = n;
    w.be = (int)vf::choose("be", 0, 1);
    go(w);
}
// many traces and long traces, any value at the end
static void many(int rev, int nt, int ns)
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 3; bh.samp_int = 2000; bh.SEGY_rev_major_ver = rev;
    bool fix = !rev || vf::choose("fx", 0, 1);
    bh.fixed_tr_length = rev && fix;
    if (fix) bh.samp_per_tr = ns;
    auto len = [&](int i) { return (size_t)(fix ? ns : i == nt - 1 ? ns : i % 4); };
    int16_t v = vf::sym<int16_t>("v");
    int32_t q = vf::sym<int32_t>("q");
    {
        TMap map(m3.begin(), m3.begin() + 1);
        auto write = [&](OSEGY& o) {
            for (int i = 0; i < nt; ++i) {
                std::vector<double> x(len(i));
                for (size_t k = 0; k < x.size(); ++k) x[k] = (double)((i * 7 + (int)k) % 30011 - 15000);
                if (i == nt - 1 && x.size()) x.back() = v;
                Trace t(UMap { { "FFID", (int64_t)(i == nt - 1 ? q : 3 * i) }, { "SAMP_NUM", (int64_t)len(i) } }, x);
                o.write_trace(t);
            }
        };
        if (rev == 0) { OSEGYRev0 o("o.sgy", std::string(), bh, map); write(o); }
        else if (rev == 1) { OSEGYRev1 o("o.sgy", {}, bh, map); write(o); }
        else { OSEGYRev2 o("o.sgy", {}, bh, {}, map); write(o); }
    }
    size_t p = 3600, want = p;
    for (int i = 0; i < nt; ++i) want += 240 + 2 * len(i);
    vf::check(vf_file_size("o.sgy") == want, "size of the file");
    const unsigned char* d = vf_file_data("o.sgy");
    bool bad = false;
    for (int i = 0; i < nt; ++i) {
        if (i == nt - 1) vf::check_eq(vf::get(d + p + 8, 4, true), (uint64_t)(uint32_t)q, "last trace header");
        else bad |= vf::get(d + p + 8, 4, true) != (uint64_t)3 * i;
        p += 240;
        for (size_t k = 0; k < len(i); ++k, p += 2) {
            if (i == nt - 1 && k == len(i) - 1) vf::check_eq(vf::get(d + p, 2, true), (uint64_t)(uint16_t)v, "last sample");
            else bad |= vf::get(d + p, 2, true) != (uint64_t)(uint16_t)(int16_t)((i * 7 + (int)k) % 30011 - 15000);
        }
    }
    vf::check(!bad, "traces in the order written");
    vf::reach("end");
}
extern "C" void h_many() { many((int)vf::choose("rev", 0, 2), vf::choose("nt", 0, 1) ? 300 : 256, 2); }
extern "C" void h_long() { static const int N[3] = { 257, 1001, 32767 }; many((int)vf::choose("rev", 0, 2), 2, N[vf::choose("n", 0, 2)]); }
extern "C" void t_many() { many((int)vf::choose("rev", 0, 2), 1100, 3); }
