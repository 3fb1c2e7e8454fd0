// C17: Trace and Trace::Header hold exactly what they were given; copies are
// independent of the original, moves carry the contents over.
#include "segy.hpp"
static const char* names[] = { "FFID", "CHAN", "A", "TRC_SEQ_LINE" };
static Value val(const char* nm, bool dbl) { return dbl ? Value((double)vf::sym<int32_t>(nm)) : Value(vf::sym<int64_t>(nm)); }
static void same(const std::optional<Value>& g, const Value& w, const char* msg)
{
    vf::check(g.has_value() && g->index() == w.index(), msg);
    if (w.index()) vf::check_eqd(std::get<double>(*g), std::get<double>(w), msg);
    else vf::check_eq(std::get<int64_t>(*g), std::get<int64_t>(w), msg);
}
static UMap make(int n, Value* v)
{
    UMap m;
    for (int i = 0; i < n; ++i) { char nm[] = "v0"; nm[1] += i; v[i] = val(nm, i % 2); m[names[i]] = v[i]; }
    return m;
}
static void check_hdr(Trace::Header const& h, int n, Value* v)
{
    for (int i = 0; i < 4; ++i) {
        if (i < n) same(h.get(names[i]), v[i], "value of a key");
        else vf::check(!h.get(names[i]), "absent key");
    }
    vf::check(!h.get(""), "absent key");
    std::vector<std::string> k = h.keys();
    vf::check(k.size() == (size_t)n, "keys of the header");
    for (int i = 0; i < n; ++i) { int c = 0; for (auto& s : k) c += s == names[i]; vf::check(c == 1, "every key once"); }
}
static void check_smp(const std::vector<double>& g, const std::vector<double>& w)
{
    vf::check(g.size() == w.size(), "number of samples");
    for (size_t i = 0; i < w.size(); ++i) vf::check_eqd(g[i], w[i], "sample");
}
static std::vector<double> smp(const char* p, int n)
{
    std::vector<double> s;
    for (int i = 0; i < n; ++i) { char nm[] = "s0"; nm[0] = *p; nm[1] += i; uint64_t b = vf::sym<uint64_t>(nm); double d; memcpy(&d, &b, 8); vf::assume((b >> 52 & 0x7ff) != 0x7ff); s.push_back(d); }
    return s;
}
extern "C" void h_header()
{
    int n = (int)vf::choose("n", 0, 4);
    Value v[4], w[4];
    Trace::Header h(make(n, v));
    check_hdr(h, n, v);
    // set: replace or add
    int k = (int)vf::choose("k", 0, 3);
    Value nv = val("nv", vf::choose("d", 0, 1));
    h.set(names[k], nv);
    for (int i = 0; i < n; ++i) w[i] = v[i];
    if (k < n) { w[k] = nv; check_hdr(h, n, w); }
    else if (k == n) { w[k] = nv; check_hdr(h, n + 1, w); }
    else { same(h.get(names[k]), nv, "added key"); vf::check(h.keys().size() == (size_t)n + 1, "one more key"); for (int i = 0; i < n; ++i) same(h.get(names[i]), v[i], "other keys unchanged"); }
    vf::reach("end");
}
extern "C" void h_header_copy()
{
    int n = (int)vf::choose("n", 0, 3);
    Value v[4], w[4], z[4];
    Trace::Header a(make(n, v));
    Trace::Header c(a);
    UMap om; z[0] = val("z", false); om[names[0]] = z[0];
    Trace::Header d(om);
    d = a;
    Trace::Header e(om);
    e = e;
    check_hdr(e, 1, z);
    check_hdr(a, n, v); check_hdr(c, n, v); check_hdr(d, n, v);
    for (int i = 0; i < n; ++i) w[i] = v[i];
    Value nv = val("nv", false);
    a.set(names[n], nv); w[n] = nv;
    check_hdr(a, n + 1, w); check_hdr(c, n, v); check_hdr(d, n, v); // copies are independent
    c.set(names[n], val("cv", true));
    check_hdr(a, n + 1, w); check_hdr(d, n, v);
    Trace::Header m(std::move(a));
    check_hdr(m, n + 1, w);
    d = std::move(m);
    check_hdr(d, n + 1, w);
    vf::reach("end");
}
extern "C" void h_trace()
{
    int n = (int)vf::choose("n", 0, 3), k = (int)vf::choose("k", 0, 3);
    Value v[4], w[4], z[4];
    std::vector<double> s = smp("s", k), s2 = smp("q", 2);
    Trace a(make(n, v), s);
    check_hdr(a.header(), n, v); check_hdr(a.header_const(), n, v); check_smp(a.samples(), s);
    Trace c(a);
    UMap om; z[0] = val("z", false); om[names[0]] = z[0];
    Trace d(om, s2);
    check_hdr(d.header(), 1, z); check_smp(d.samples(), s2);
    d = a;
    Trace e(om, s2);
    e = e;
    check_hdr(e.header(), 1, z); check_smp(e.samples(), s2);
    for (int i = 0; i < n; ++i) w[i] = v[i];
    Value nv = val("nv", true);
    a.header().set(names[n], nv); w[n] = nv;
    check_hdr(a.header_const(), n + 1, w); check_smp(a.samples(), s);
    check_hdr(c.header(), n, v); check_smp(c.samples(), s); check_hdr(d.header(), n, v); check_smp(d.samples(), s);
    Trace m(std::move(a));
    check_hdr(m.header(), n + 1, w); check_smp(m.samples(), s);
    e = std::move(m);
    check_hdr(e.header(), n + 1, w); check_smp(e.samples(), s);
    { std::vector<Trace> vec; vec.push_back(c); vec.push_back(e); vec.push_back(d); check_hdr(vec[0].header(), n, v); check_hdr(vec[1].header(), n + 1, w); check_smp(vec[2].samples(), s); }
    check_hdr(e.header(), n + 1, w); check_smp(e.samples(), s);
    vf::reach("end");
}
