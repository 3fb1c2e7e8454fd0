// C36: a failing read or write, or a file that can not be opened, is reported by an
// exception; traces before the failure are intact, and the program never ends.
#include "segd.hpp"
#include "segy.hpp"
constexpr size_t NONE = (size_t)-1;
constexpr int T = 3;
// the writers: traces of S bytes, the first at `head`; file is made by mk()
template <class MK> static void writing(const char* name, size_t head, size_t S, size_t hdr, size_t tail, MK mk, Trace* t, const std::vector<unsigned char>& want)
{
    size_t w = vf::sym<uint16_t>("w");
    vf::assume(w <= head + T * S + tail);
    bool again = vf::choose("again", 0, 1);
    vf_faults(w, NONE);
    int ok = 0;
    bool made = false;
    try {
        auto o = mk();
        made = true;
        bool failed = false;
        for (int i = 0; i < T; ++i) {
            bool fine = true;
            try { o->write_trace(t[i]); } catch (std::exception const&) { fine = false; }
            vf::check(!fine || !failed, "no trace is accepted after a failure");
            vf::check(fine == (w >= head + S * (i + 1)) || failed, "a trace is accepted if and only if it could be stored");
            ok += fine;
            if (!fine && !failed) {
                failed = true;
                if (again) vf_faults(NONE, NONE); // there is room again, but a part is missing
            }
        }
    } catch (std::exception const&) {
        vf::check(!made, "only the constructor or write_trace fails");
        vf::check(w < head, "constructor fails only if the headers can not be stored");
    }
    vf_faults(NONE, NONE);
    if (!made) { vf::reach("end"); return; }
    size_t n = vf_file_size(name), k = head + S * ok;
    vf::check(!ok || n >= k, "accepted traces are in the file");
    const unsigned char* d = vf_file_data(name);
    for (size_t i = head; ok && i < k; ++i) {
        size_t q = (i - head) % S;
        if ((q >= hdr + 8 && q < S - 8) || (hdr == 20 && q > 16 && q < 20)) continue; // ends of the samples; the extended file number is optional
        vf::check_eq((uint64_t)d[i], (uint64_t)want[i], "accepted traces are intact");
    }
    vf::reach("end");
}
static void segy_w(int rev, int tail)
{
    CommonSEGY::BinaryHeader bh = {};
    constexpr int N = 4100; // more than a stream buffers
    bh.format_code = 3; bh.samp_int = 2000; bh.SEGY_rev_major_ver = rev; bh.samp_per_tr = N; bh.fixed_tr_length = rev > 0;
    std::vector<std::string> tr(tail, std::string(3200, 'z'));
    std::vector<Trace> t;
    std::vector<unsigned char> want(3600);
    for (int i = 0; i < T; ++i) {
        std::vector<double> s(N);
        for (int k = 0; k < N; ++k) s[k] = 7 * i + k;
        char nm[] = "f0"; nm[1] += i;
        int32_t f = vf::sym<int32_t>(nm);
        t.emplace_back(UMap { { "FFID", (int64_t)f } }, s);
        size_t at = want.size();
        want.resize(at + 240 + 2 * N);
        vf::put(&want[at + 8], (uint32_t)f, 4, true);
        for (int k = 0; k < N; ++k) vf::put(&want[at + 240 + 2 * k], 7 * i + k, 2, true);
    }
    TMap m = { { "SEG00000", { { 8, { "FFID", VT::int32_t } } } } };
    auto mk = [&]() -> std::unique_ptr<OSEGY> {
        if (rev == 0) return std::make_unique<OSEGYRev0>("o", std::string(3200, 'a'), bh, m);
        if (rev == 1) return std::make_unique<OSEGYRev1>("o", std::vector<std::string> { std::string(3200, 'a') }, bh, m);
        return std::make_unique<OSEGYRev2>("o", std::vector<std::string> { std::string(3200, 'a') }, bh, tr, m);
    };
    writing("o", 3600, 240 + 2 * N, 240, 3200 * tail, mk, &t[0], want);
}
extern "C" void h_segy_write() { segy_w((int)vf::choose("rev", 0, 2), 0); }
extern "C" void h_segy_trailer() { segy_w(2, (int)vf::choose("tail", 1, 3)); }
extern "C" void h_segd_write()
{
    constexpr int N = 2100; // more than a stream buffers
    GH1 g = w_gh1(8058, 1, 1);
    GH2 h = w_gh2();
    std::vector<std::vector<CSH>> sets { { w_set(1, 1, T) } };
    std::vector<Trace> t;
    size_t S = 20 + 4 * N;
    std::vector<unsigned char> want(96 + S * T);
    for (int i = 0; i < T; ++i) {
        std::vector<double> s(N);
        for (int k = 0; k < N; ++k) s[k] = 0.5 * k;
        char nm[] = "e0"; nm[1] += i;
        uint8_t e = vf::sym<uint8_t>(nm);
        t.emplace_back(UMap { { "FFID", (int64_t)4711 }, { "SCAN_TYPE_NUM", (int64_t)1 }, { "CH_SET_NUM", (int64_t)1 }, { "CHAN", (int64_t)(i + 1) }, { "TRACE_EDIT", (int64_t)e } }, s);
        unsigned char* p = &want[96 + S * i];
        bcd(p, 0, 4, 4711), bcd(p, 4, 2, 1), bcd(p, 6, 2, 1), bcd(p, 8, 4, i + 1);
        p[11] = e;
        for (int k = 0; k < N; ++k) { float x = 0.5f * k; uint32_t u; memcpy(&u, &x, 4); vf::put(p + 20 + 4 * k, u, 4, true); }
    }
    auto mk = [&]() { return std::make_unique<OSEGDRev2_1>("o", g, h, sets); };
    writing("o", 96, S, 20, 0, mk, &t[0], want);
}
// the readers: what is returned was stored before the place of the failure
template <class R> static void reading(size_t r, size_t head, size_t S, R get)
{
    // get(): one trace, false at the end; checks the trace
    int n = 0, bad = 0;
    for (; n + bad < T + 2;) {
        bool more = true;
        try { more = get(n, r); } catch (std::exception const&) { ++bad; continue; }
        if (!more) break;
        vf::check(!bad, "nothing is read after a failure");
        ++n;
    }
    vf::check(n == T || bad, "a trace that can not be read is reported");
    vf::check(n <= T, "number of traces");
    size_t k = r < head ? 0 : (r - head) / S;
    vf::check((size_t)n <= k, "no trace from beyond the failure");
}
static void segy_r(bool sorted, bool hdr_only)
{
    constexpr int N = 20, S = 240 + 2 * N;
    static Img<3600 + T * S> f;
    f.base(true, 3, N);
    int v[T];
    static const int K[T] = { 7, 3, 5 };
    for (int i = 0; i < T; ++i) {
        size_t p = 3600 + i * S;
        f.u(p + 8, K[i], 4);
        f.u(p + 114, N, 2);
        char nm[] = "v0"; nm[1] += i;
        for (int k = 0; k < N; ++k) f.u(p + 240 + 2 * k, 100 * i + k, 2);
        int16_t x = vf::sym<int16_t>(nm);
        f.u(p + 240 + 2 * (N - 1), (uint16_t)x, 2);
        v[i] = x;
    }
    f.save("a");
    size_t r = vf::sym<uint16_t>("r");
    vf::assume(r <= sizeof f.b);
    vf_faults(NONE, r);
    TMap m = { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } } };
    if (!sorted) {
        std::unique_ptr<ISEGY> in;
        try { in = std::make_unique<ISEGY>("a", m); } catch (std::exception const&) { }
        vf::check(!!in == (r >= 3600), "opening fails if the headers can not be read");
        if (in) reading(r, 3600, S, [&](int i, size_t) {
            if (!in->has_trace()) return false;
            if (hdr_only) {
                auto h = in->read_header();
                auto q = h.get("FFID");
                vf::check(q && std::get<int64_t>(*q) == K[i], "header of a trace");
                vf::check(3600 + (size_t)S * i + 240 <= r, "header from before the failure");
                return true;
            }
            Trace t = in->read_trace();
            auto q = t.header().get("FFID");
            vf::check(q && std::get<int64_t>(*q) == K[i], "header of a trace");
            vf::check(t.samples().size() == N && t.samples()[N - 1] == v[i] && t.samples()[0] == 100 * i, "samples of a trace");
            return true;
        });
    } else {
        std::unique_ptr<ISEGYSorted1D> in;
        try { in = std::make_unique<ISEGYSorted1D>("a", "FFID", m); } catch (std::exception const&) { }
        vf::check(!in || r >= 3600 + (T - 1) * S + 240, "opening fails if keys can not be read");
        vf::check(in || r < sizeof f.b, "a good file is opened");
        if (in) {
            int bad = 0, n = 0;
            static const int O[T] = { 1, 2, 0 };
            for (int k = 0; k < T && in->has_trace(); ++k) {
                try {
                    Trace t = in->read_trace();
                    vf::check(!bad, "nothing is read after a failure");
                    int i = O[k];
                    auto q = t.header().get("FFID");
                    vf::check(q && std::get<int64_t>(*q) == K[i], "header of a trace");
                    vf::check(t.samples().size() == N && t.samples()[N - 1] == v[i], "samples of a trace");
                    vf::check(3600 + (size_t)S * (i + 1) <= r, "no trace from beyond the failure");
                    ++n;
                } catch (std::exception const&) { ++bad; }
            }
            vf::check(n == T || bad, "a trace that can not be read is reported");
        }
    }
    vf_faults(NONE, NONE);
    vf::reach("end");
}
extern "C" void h_segy_read() { segy_r(false, false); }
extern "C" void h_segy_sorted() { segy_r(true, false); }
static void segd_r(int major, int trailers)
{
    constexpr int N = 12, S = 20 + 32 + 4 * N;
    static Gd<32 + 64 + 32 + 96 + T * S + 64> f;
    f.n = 0;
    f.gh1(8058, major == 3 ? 2 : 1, 1, 1);
    f.gh2(major, 0, trailers);
    if (major == 3) f.gh3();
    if (major == 3) f.set3(1, 1, T, N); else f.set2(1, 1, T);
    size_t head = f.n;
    float v[T];
    for (int i = 0; i < T; ++i) {
        f.trc(1, 1, i + 1, 1);
        f.ext(major, N);
        unsigned char* p = f.at(4 * N);
        for (int k = 0; k < N; ++k) { float x = 0.5f * k; uint32_t u; memcpy(&u, &x, 4); vf::put(p + 4 * k, u, 4, true); }
        char nm[] = "v0"; nm[1] += i;
        uint32_t u = vf::sym<uint32_t>(nm) & 0xbfffffff;
        vf::put(p + 4 * (N - 1), u, 4, true);
        memcpy(&v[i], &u, 4);
    }
    for (int i = 0; i < trailers; ++i) f.at(32);
    f.save("a");
    size_t r = vf::sym<uint16_t>("r");
    vf::assume(r <= f.n);
    vf_faults(NONE, r);
    std::unique_ptr<ISEGD> in;
    try { in = std::make_unique<ISEGD>("a"); } catch (std::exception const&) { }
    vf::check(in || r < f.n, "a good file is opened");
    vf::check(!in || r >= head, "opening fails if the headers can not be read");
    if (in) {
        int n = 0, bad = 0;
        for (int tries = 0; tries < T + 2; ++tries) {
            try {
                if (!in->has_trace()) break;
                Trace t = in->read_trace();
                vf::check(!bad, "nothing is read after a failure");
                vf::check(n < T && head + (size_t)S * (n + 1) <= r, "no trace from beyond the failure");
                vf::check(wi(t.header(), "CHAN") == n + 1, "header of a trace");
                vf::check(t.samples().size() == N && t.samples()[N - 1] == v[n] && t.samples()[1] == 0.5, "samples of a trace");
                ++n;
            } catch (std::exception const&) { ++bad; }
        }
        vf::check(n == T || bad, "a trace that can not be read is reported");
    }
    vf_faults(NONE, NONE);
    vf::reach("end");
}
extern "C" void h_segd_read() { int mj = (int)vf::choose("major", 1, 3); segd_r(mj, mj > 1 ? (int)vf::choose("tr", 0, 2) : 0); }
// files that are not there or can not be made
extern "C" void h_open()
{
    int k = (int)vf::choose("k", 0, 7);
    bool dir = vf::choose("dir", 0, 1);
    std::string n = dir ? "nosuch/x" : "absent";
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 3;
    bool ok = true;
    try {
        switch (k) {
        case 0: { ISEGY a(n); break; }
        case 1: { ISEGYSorted1D a(n, "FFID"); break; }
        case 2: { ISEGD a(n); break; }
        case 3: { OSEGYRev0 a(n, std::string(3200, 'a'), bh); break; }
        case 4: { OSEGYRev1 a(n, {}, bh); break; }
        case 5: { OSEGYRev2 a(n, {}, bh); break; }
        case 6: { OSEGYRev2 a(n, {}, bh, { std::string(3200, 'z') }); break; }
        case 7: { OSEGDRev2_1 a(n, w_gh1(8058, 0, 0), w_gh2(), {}); break; }
        }
    } catch (std::exception const&) { ok = false; }
    vf::check(ok == (!dir && k > 2), "a file that can not be opened is reported");
    vf::reach("end");
}
