// C10: what is written with a SEG-Y writer is what a reader of that file returns:
// text headers, binary header, trace headers, samples and trailer stanzas.
#include "hdr.hpp"
#include "binhdr.hpp"
static std::string block(const char* nm)
{
    std::string s(3200, 'q');
    char n2[4] = { nm[0], nm[1], 'z', 0 };
    vf::bytes(nm, &s[0], 12);
    vf::bytes(n2, &s[3190], 10);
    return s;
}
static void same_block(const std::string& a, const std::string& s, const char* msg)
{
    vf::check(a.size() == 3200, msg);
    for (int i = 0; i < 3200; ++i)
        if (i < 16 || i >= 3186 || i % 64 == 0) vf::check_eq((unsigned char)a[i], (unsigned char)s[i], msg);
}
// a value the format represents, made of symbolic bytes
static double value(const char* nm, int fmt)
{
    unsigned char r[8];
    vf::bytes(nm, r, bps(fmt));
    if (fmt == 1) { r[0] = (r[0] & 0x80) | 0x41; r[1] = (r[1] & 0x0f) | 0x80; }
    if (fmt == 5) vf::assume((vf::get(r, 4, true) >> 23 & 0xff) != 0xff);
    if (fmt == 6) vf::assume((vf::get(r, 8, true) >> 52 & 0x7ff) != 0x7ff);
    if (fmt == 9 || fmt == 12) { // 53 significant bits
        for (int i = 5; i < 8; ++i) r[i] = 0;
        uint64_t w = vf::get(r, 8, true);
        return fmt == 9 ? (double)(int64_t)w : (double)(w >> 1) * 2;
    }
    return decode(r, fmt, true);
}
struct P { int rev, fmt, be = 1, fixed = 1, ext = 0, trailers = 0, add = 0, nt = 2; size_t ns[3] = { 2, 2, 2 }; bool words = false; bool sorted = false; };
static unsigned char raw[3][480];
static void go(const P& p)
{
    bool fix = p.fixed || !p.rev;
    CommonSEGY::BinaryHeader bh;
    memset(&bh, 0, sizeof bh);
    if (p.words) bin_fields(bh, [&](auto& v, int, const char* n) { if (n[0] != 'e' && n[1] != 'a') vf::bytes(n, &v, sizeof v); });
    bh.format_code = p.fmt; bh.samp_int = 2000; bh.samp_per_tr = p.ns[0]; bh.fixed_tr_length = p.fixed; bh.endianness = p.be ? 0 : 0x01020304;
    bh.SEGY_rev_major_ver = p.rev; bh.SEGY_rev_minor_ver = 0; bh.max_num_add_tr_headers = p.add;
    std::vector<std::string> texts, trailers;
    for (int i = 0; i <= p.ext; ++i) { char n[] = "t0"; n[1] += i; texts.push_back(block(n)); }
    for (int i = 0; i < p.trailers; ++i) { char n[] = "r0"; n[1] += i; trailers.push_back(block(n)); }
    const TMap& map = std_map();
    std::vector<Trace> traces;
    for (int i = 0; i < p.nt; ++i) {
        size_t ns = fix ? p.ns[0] : p.ns[i];
        std::vector<double> v;
        for (size_t k = 0; k < ns; ++k) { char sn[] = "s00"; sn[1] += i; sn[2] += k; v.push_back(p.fmt == 1 && k != (size_t)i ? (double)k - 0.5 : value(sn, p.fmt)); }
        char n[] = "h0"; n[1] += i;
        if (p.words) vf::bytes(n, raw[i], 240); else vf::bytes(n, raw[i] + 4, 8);
        UMap h;
        for (auto& e : map[0].second) {
            const TypeInfo& ti = info(e.second.second);
            h[e.second.first] = vf::sext(vf::get(raw[i] + e.first, ti.n, true), 8 * ti.n);
        }
        h["SAMP_NUM"] = (int64_t)ns;
        if (p.add) { h["SOU_X"] = value(n, 6); h["FFID"] = vf::sym<int64_t>("ffid"); h["CDP_Y"] = (double)vf::sym<int32_t>("cdpy"); }
        traces.push_back(Trace(h, v));
    }
    auto write = [&](OSEGY& o) { for (auto& t : traces) o.write_trace(t); };
    if (p.rev == 0) { OSEGYRev0 o("o.sgy", texts[0], bh); write(o); }
    else if (p.rev == 1) { OSEGYRev1 o("o.sgy", texts, bh); write(o); }
    else { OSEGYRev2 o("o.sgy", texts, bh, trailers); write(o); }
    ISEGY s("o.sgy");
    vf::check(s.text_headers().size() == texts.size(), "number of text headers");
    for (size_t i = 0; i < texts.size(); ++i) same_block(s.text_headers()[i], texts[i], "text header");
    vf::check(s.trailer_stanzas().size() == trailers.size(), "number of trailer stanzas");
    for (size_t i = 0; i < trailers.size(); ++i) same_block(s.trailer_stanzas()[i], trailers[i], "trailer stanza");
    CommonSEGY::BinaryHeader g = s.binary_header();
    bh.ext_text_headers_num = p.ext; bh.num_of_trailer_stanza = p.trailers;
    std::vector<uint64_t> got;
    bin_fields(g, [&](auto v, int, const char*) { got.push_back(vf::bits(v)); });
    if (p.rev > 1) bin_fields_rev2(g, [&](auto v, int, const char*) { got.push_back(vf::bits(v)); });
    size_t q = 0;
    bin_fields(bh, [&](auto v, int, const char* n) { vf::check_eq(got[q++], vf::bits(v), n); });
    if (p.rev > 1) bin_fields_rev2(bh, [&](auto v, int, const char* n) { vf::check_eq(got[q++], vf::bits(v), n); });
    for (int i = 0; i < p.nt; ++i) {
        vf::check(s.has_trace(), "has_trace");
        Trace t = s.read_trace();
        size_t ns = fix ? p.ns[0] : p.ns[i];
        vf::check(t.samples().size() == ns, "number of samples");
        for (size_t k = 0; k < ns; ++k) vf::check_eqd(t.samples()[k], traces[i].samples()[k], "sample");
        for (int j = 0; j < (p.add ? 2 : 1); ++j)
            for (auto& e : map[j].second) {
                auto w = traces[i].header().get(e.second.first), r = t.header().get(e.second.first);
                vf::check(r.has_value(), "header word is present");
                bool both = p.add && !j; // names the additional header also has are reported from there
                if (both) { bool dup = false; for (auto& x : map[1].second) dup |= x.second.first == e.second.first; if (dup) continue; }
                const char* nm = e.second.first.c_str();
                if (!w) { vf::check(r->index() ? std::get<double>(*r) == 0 : std::get<int64_t>(*r) == 0, nm); continue; }
                if (w->index() == r->index()) {
                    if (w->index()) vf::check_eqd(std::get<double>(*r), std::get<double>(*w), nm);
                    else vf::check_eq(std::get<int64_t>(*r), std::get<int64_t>(*w), nm);
                } else if (r->index()) vf::check_eqd(std::get<double>(*r), (double)std::get<int64_t>(*w), nm);
            }
    }
    vf::check(!s.has_trace(), "no other traces");
    vf::reach("end");
}
#define F(N) \
    extern "C" void h_rev0_f##N() { P p { 0, N }; p.be = (int)vf::choose("be", 0, 1); p.fixed = 0; go(p); } \
    extern "C" void h_rev1_f##N() { P p { 1, N }; p.be = (int)vf::choose("be", 0, 1); p.ns[1] = 1; p.fixed = (int)vf::choose("fx", 0, 1); go(p); } \
    extern "C" void h_rev2_f##N() { P p { 2, N }; p.be = (int)vf::choose("be", 0, 1); p.ns[1] = 1; p.fixed = (int)vf::choose("fx", 0, 1); p.trailers = 1; p.ext = 1; go(p); }
F(1) F(2) F(3) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(15) F(16)
extern "C" void h_words0() { P p { 0, 3 }; p.words = true; p.be = (int)vf::choose("be", 0, 1); go(p); }
extern "C" void h_words1() { P p { 1, 3 }; p.words = true; p.be = (int)vf::choose("be", 0, 1); p.ext = 2; go(p); }
extern "C" void h_words2() { P p { 2, 3 }; p.words = true; p.be = (int)vf::choose("be", 0, 1); p.ext = 1; p.trailers = 2; go(p); }
extern "C" void h_add() { P p { 2, 3 }; p.add = 1; p.nt = 2; p.ns[1] = 3; p.fixed = (int)vf::choose("fx", 0, 1); p.be = (int)vf::choose("be", 0, 1); p.trailers = (int)vf::choose("tr", 0, 1); go(p); }
// many traces and long ones, with any value in the last of them
static void many(int nt, int ns, int fmt, bool fixed = false)
{
    int rev = (int)vf::choose("rev", 0, 2);
    bool be = vf::choose("be", 0, 1), fix = !rev || fixed || vf::choose("fx", 0, 1);
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = fmt; bh.samp_int = 2000; bh.samp_per_tr = ns; bh.fixed_tr_length = rev && fix; bh.endianness = be ? 0 : 0x01020304; bh.SEGY_rev_major_ver = rev;
    auto len = [&](int i) { return fix || i == nt - 1 ? ns : i % 3; };
    double last = value("v", fmt);
    int32_t q = vf::sym<int32_t>("q");
    auto val = [&](int i, int k) { return i == nt - 1 && k == ns - 1 ? last : (double)((i * 11 + k) % 121); };
    {
        auto write = [&](OSEGY& o) {
            for (int i = 0; i < nt; ++i) {
                std::vector<double> x(len(i));
                for (int k = 0; k < len(i); ++k) x[k] = val(i, k);
                Trace t(UMap { { "FFID", (int64_t)(i == nt - 1 ? q : i) }, { "SAMP_NUM", (int64_t)len(i) } }, x);
                o.write_trace(t);
            }
        };
        if (rev == 0) { OSEGYRev0 o("o.sgy", std::string(3200, 'a'), bh); write(o); }
        else if (rev == 1) { OSEGYRev1 o("o.sgy", { std::string(3200, 'a'), std::string(3200, 'b') }, bh); write(o); }
        else { OSEGYRev2 o("o.sgy", { std::string(3200, 'a') }, bh, { std::string(3200, 'c') }); write(o); }
    }
    ISEGY s("o.sgy");
    bool bad = false;
    for (int i = 0; i < nt; ++i) {
        if (!s.has_trace()) { vf::check(false, "has_trace"); return; }
        Trace t = s.read_trace();
        if (t.samples().size() != (size_t)len(i)) { vf::check(false, "number of samples"); return; }
        int64_t f = std::get<int64_t>(*t.header().get("FFID"));
        if (i == nt - 1) vf::check_eq(f, (int64_t)q, "FFID");
        else bad |= f != i;
        for (int k = 0; k < len(i); ++k) {
            if (i == nt - 1 && k == ns - 1) vf::check_eqd(t.samples()[k], last, "last sample");
            else bad |= t.samples()[k] != val(i, k);
        }
    }
    vf::check(!bad, "all the traces");
    vf::check(!s.has_trace(), "no other traces");
    vf::reach("end");
}
extern "C" void h_many() { many(260, 1, vf::choose("f", 0, 1) ? 3 : 1); }
extern "C" void h_long() { static const int F[4] = { 1, 2, 6, 7 }; many(2, vf::choose("n", 0, 1) ? 1025 : 257, F[vf::choose("f", 0, 3)]); }
// more samples than a signed 16-bit number holds
extern "C" void h_longest() { many(2, vf::choose("n", 0, 1) ? 65535 : 32768, vf::choose("f", 0, 1) ? 7 : 8, true); }
