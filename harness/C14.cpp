// C14: sorted reading delivers every trace of the file exactly once, ordered by the
// key word, traces of equal key in file order; lookups by key give those same traces.
#include "segy.hpp"
#include <cmath>
static unsigned char b[3600 + 300 * 250];
static size_t pos[300];
static int nsamp[300];
// nt traces, key word 4 bytes at 8 (default mapping FFID) or at 100 as the given type
static void file(int nt, bool var, const unsigned char* key, int kn, int koff, bool be = true)
{
    memset(b, 0, 3600 + nt * 250);
    vf::put(b + 3216, 1000, 2, be); vf::put(b + 3220, 1, 2, be); vf::put(b + 3224, 3, 2, be);
    if (!be) { b[3296] = 4; b[3297] = 3; b[3298] = 2; b[3299] = 1; }
    b[3500] = var ? 1 : 0;
    size_t p = 3600;
    for (int i = 0; i < nt; ++i) {
        pos[i] = p;
        nsamp[i] = var ? 1 + i % 2 : 1;
        vf::put(b + p + 4, 100 + i, 4, be); // TRC_SEQ_SGY
        vf::put(b + p + 114, nsamp[i], 2, be);
        memcpy(b + p + koff, key + i * kn, kn);
        for (int k = 0; k < nsamp[i]; ++k) vf::put(b + p + 240 + 2 * k, 100 * i + k, 2, be);
        p += 240 + 2 * nsamp[i];
    }
    vf_put_file("a.sgy", b, p);
}
static int seq(Trace::Header const& h) { return (int)vf::pick(std::get<int64_t>(*h.get("TRC_SEQ_SGY"))) - 100; }
static void check_trace(Trace& t, int i)
{
    vf::check((int)t.samples().size() == nsamp[i], "samples belong to the header");
    for (int k = 0; k < nsamp[i]; ++k) vf::check(t.samples()[k] == 100 * i + k, "samples belong to the header");
}
template <class K> static void order(const std::vector<K>& key, ISEGYSorted1D& s, Value (*val)(K))
{
    int nt = (int)key.size();
    int ops = (int)vf::choose("ops", 0, 3);
    std::vector<int> out;
    while (s.has_trace()) {
        vf::check((int)out.size() < nt, "not more traces than in the file");
        int i;
        if (ops >> (out.size() % 2) & 1) { Trace t = s.read_trace(); i = seq(t.header()); vf::check(i >= 0 && i < nt, "trace of the file"); check_trace(t, i); }
        else i = seq(s.read_header());
        vf::check(i >= 0 && i < nt, "trace of the file");
        out.push_back(i);
    }
    vf::check((int)out.size() == nt, "every trace is delivered");
    for (int i = 0; i + 1 < nt; ++i) {
        vf::check(key[out[i]] <= key[out[i + 1]], "ordered by key");
        vf::check(!(key[out[i]] == key[out[i + 1]]) || out[i] < out[i + 1], "equal keys in file order");
    }
    for (int i = 0; i < nt; ++i) for (int j = i + 1; j < nt; ++j) vf::check(out[i] != out[j], "no trace twice");
    // keys
    std::vector<Value> ks = s.get_keys();
    std::vector<K> u;
    for (int i = 0; i < nt; ++i) if (!i || !(key[out[i]] == key[out[i - 1]])) u.push_back(key[out[i]]);
    vf::check(ks.size() == u.size(), "one key per value");
    for (size_t i = 0; i < u.size(); ++i) vf::check(ks[i] == val(u[i]), "keys in increasing order");
}
// lookups: all traces of a key in file order, at most max_num, nothing for an absent key; also between iterations
template <class K> static void lookup(const std::vector<K>& key, ISEGYSorted1D& s, Value (*val)(K), K probe, uint64_t max)
{
    std::vector<int> want;
    for (int i = 0; i < (int)key.size(); ++i) if (key[i] == probe && want.size() < max) want.push_back(i);
    std::vector<Trace::Header> h = s.get_headers(val(probe), max);
    std::vector<Trace> t = s.get_traces(val(probe), max);
    vf::check(h.size() == want.size() && t.size() == want.size(), "number of traces of a key");
    for (size_t i = 0; i < want.size(); ++i) {
        vf::check(seq(h[i]) == want[i], "headers of a key in file order");
        vf::check(seq(t[i].header()) == want[i], "traces of a key in file order");
        check_trace(t[i], want[i]);
    }
}
static Value iv(int64_t k) { return k; }
static Value dv(double k) { return k; }
template <int NT> static void ints(bool var, bool be = true)
{
    static unsigned char k[20];
    vf::bytes("k", k, 4 * NT);
    file(NT, var, k, 4, 8, be);
    std::vector<int64_t> key;
    for (int i = 0; i < NT; ++i) key.push_back(vf::sext(vf::get(k + 4 * i, 4, be), 32));
    ISEGYSorted1D s("a.sgy", "FFID");
    order<int64_t>(key, s, iv);
    vf::reach("end");
}
extern "C" void h_int3() { ints<3>(false); }
extern "C" void h_int3_le() { ints<3>(false, false); }
extern "C" void h_int3_var() { ints<3>(true); }
extern "C" void h_int4() { ints<4>(false); }
extern "C" void t_int5() { ints<5>(true); }
extern "C" void h_lookup()
{
    static unsigned char k[12];
    vf::bytes("k", k, 12);
    file(3, true, k, 4, 8);
    std::vector<int64_t> key;
    for (int i = 0; i < 3; ++i) key.push_back(vf::sext(vf::get(k + 4 * i, 4, true), 32));
    ISEGYSorted1D s("a.sgy", "FFID");
    lookup<int64_t>(key, s, iv, vf::sym<int32_t>("probe"), vf::choose("max", 0, 4));
    order<int64_t>(key, s, iv); // lookups do not disturb the iteration
    vf::reach("end");
}
// lookup in the middle of an iteration
extern "C" void h_lookup_between()
{
    static unsigned char k[12];
    for (int i = 0; i < 3; ++i) vf::put(k + 4 * i, vf::choose(i == 0 ? "k0" : i == 1 ? "k1" : "k2", 0, 2), 4, true);
    file(3, true, k, 4, 8);
    std::vector<int64_t> key;
    for (int i = 0; i < 3; ++i) key.push_back(vf::get(k + 4 * i, 4, true));
    ISEGYSorted1D s("a.sgy", "FFID");
    std::vector<int> out;
    while (s.has_trace()) {
        vf::check(out.size() < 3, "not more traces than in the file");
        lookup<int64_t>(key, s, iv, out.size(), 100000);
        Trace t = s.read_trace();
        check_trace(t, seq(t.header()));
        out.push_back(seq(t.header()));
    }
    vf::check(out.size() == 3, "every trace is delivered");
    for (int i = 0; i < 2; ++i) vf::check(key[out[i]] < key[out[i + 1]] || (key[out[i]] == key[out[i + 1]] && out[i] < out[i + 1]), "ordered by key, equal keys in file order");
    vf::reach("end");
}
// floating point keys
extern "C" void h_double()
{
    static unsigned char k[12];
    std::vector<double> key;
    vf::bytes("k", k, 12);
    for (int i = 0; i < 3; ++i) { vf::assume((vf::get(k + 4 * i, 4, true) >> 23 & 0xff) != 0xff); key.push_back(decode(k + 4 * i, 5, true)); }
    file(3, false, k, 4, 100);
    TMap m = { { "MYHEADER", { { 4, { "TRC_SEQ_SGY", VT::int32_t } }, { 100, { "KEY", VT::ieee_single } } } } };
    ISEGYSorted1D s("a.sgy", "KEY", m);
    if (vf::choose("lk", 0, 1)) lookup<double>(key, s, dv, key[1], 5);
    order<double>(key, s, dv);
    vf::reach("end");
}
extern "C" void h_wide() // 64-bit keys
{
    static unsigned char k[24];
    std::vector<int64_t> key;
    vf::bytes("k", k, 24);
    for (int i = 0; i < 3; ++i) key.push_back((int64_t)vf::get(k + 8 * i, 8, true));
    file(3, false, k, 8, 100);
    TMap m = { { "MYHEADER", { { 4, { "TRC_SEQ_SGY", VT::int32_t } }, { 100, { "KEY", VT::int64_t } } } } };
    ISEGYSorted1D s("a.sgy", "KEY", m);
    order<int64_t>(key, s, iv);
    vf::reach("end");
}
extern "C" void h_none()
{
    file(0, false, b, 0, 8);
    ISEGYSorted1D s("a.sgy", "FFID");
    vf::check(!s.has_trace() && s.get_keys().empty() && s.get_headers(Value((int64_t)0)).empty() && s.get_traces(Value((int64_t)0)).empty(), "no traces");
    vf::reach("end");
}
// with a given binary header
extern "C" void h_over()
{
    static unsigned char k[12];
    vf::bytes("k", k, 12);
    file(3, false, k, 4, 8);
    vf::put(b + 3220, 9, 2, true); vf::put(b + 3224, 6, 2, true);
    vf_put_file("a.sgy", b, 3600 + 3 * 242);
    CommonSEGY::BinaryHeader o = {};
    o.format_code = 3; o.samp_per_tr = 1;
    std::vector<int64_t> key;
    for (int i = 0; i < 3; ++i) key.push_back(vf::sext(vf::get(k + 4 * i, 4, true), 32));
    ISEGYSorted1D s("a.sgy", "FFID", o);
    order<int64_t>(key, s, iv);
    vf::reach("end");
}
// many traces: keys spread over negative and positive values, some equal; one is any value
static void many(int nt, int at, int mod)
{
    static unsigned char k[4 * 300];
    std::vector<int64_t> key;
    for (int i = 0; i < nt; ++i) vf::put(k + 4 * i, (uint32_t)(i * 37 % mod - mod / 2) * 1000003u, 4, true);
    vf::bytes("k", k + 4 * at, 4);
    for (int i = 0; i < nt; ++i) key.push_back(vf::sext(vf::get(k + 4 * i, 4, true), 32));
    file(nt, true, k, 4, 8);
    ISEGYSorted1D s("a.sgy", "FFID");
    lookup<int64_t>(key, s, iv, key[at], nt / 3);
    lookup<int64_t>(key, s, iv, key[nt - 1], 100000);
    order<int64_t>(key, s, iv);
    vf::reach("end");
}
extern "C" void h_many() { many(20, vf::choose("at", 0, 1) ? 19 : 7, vf::choose("mod", 0, 1) ? 17 : 4); }
extern "C" void t_many() { many(60, vf::choose("at", 0, 1) ? 59 : 20, vf::choose("mod", 0, 1) ? 47 : 5); }
// all keys equal: file order
extern "C" void h_equal()
{
    static unsigned char k[4 * 300];
    int nt = vf::choose("n", 0, 1) ? 257 : 120;
    vf::bytes("k", k, 4);
    for (int i = 1; i < nt; ++i) memcpy(k + 4 * i, k, 4);
    file(nt, true, k, 4, 8);
    int64_t key = vf::sext(vf::get(k, 4, true), 32);
    ISEGYSorted1D s("a.sgy", "FFID");
    bool bad = false;
    for (int i = 0; i < nt; ++i) {
        if (!s.has_trace()) { vf::check(false, "every trace is delivered"); return; }
        bad |= seq(s.read_header()) != i;
    }
    vf::check(!bad && !s.has_trace(), "traces of one key in file order");
    vf::check(s.get_keys().size() == 1, "one key per value");
    auto h = s.get_headers(iv(key));
    vf::check(h.size() == (size_t)nt, "all the traces of a key");
    for (int i = 0; i < nt; ++i) bad |= seq(h[i]) != i;
    auto t = s.get_traces(iv(key), nt - 1);
    vf::check(t.size() == (size_t)nt - 1, "as many traces of a key as asked for");
    for (int i = 0; i < nt - 1; ++i) bad |= seq(t[i].header()) != i;
    vf::check(!bad, "traces of a key in file order");
    vf::reach("end");
}
