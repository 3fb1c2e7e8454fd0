// C35: a trace a SEG-Y writer refuses leaves nothing in the file, and the traces
// before and after it are stored as if it had never been given.
#include "segy.hpp"
static const TMap map2 = { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 114, { "SAMP_NUM", VT::int16_t } }, { 116, { "SAMP_INT", VT::int16_t } } } }, { "SEG00001", { { 0, { "A1", VT::int64_t } } } } };
enum { fixed, variable, taken }; // taken: layout from the first trace
// kinds of traces: 0 good, others are refused
static bool refused(int kind, int mode, bool first)
{
    switch (kind) {
    case 0: return false;
    case 1: case 2: return true; // one sample too few, one too many
    case 3: case 4: return mode == variable || mode == taken; // SAMP_NUM missing, of a wrong type
    default: return mode == taken && first; // interval missing, zero, too great
    }
}
static void go(int rev, int mode, int add, int trailers, int nt, int kinds)
{
    CommonSEGY::BinaryHeader bh = {};
    constexpr int N = 2;
    if (mode != taken) {
        bh.format_code = 3; bh.samp_int = 2000; bh.SEGY_rev_major_ver = rev; bh.max_num_add_tr_headers = add;
        bh.fixed_tr_length = mode == fixed && rev;
        bh.samp_per_tr = mode == fixed ? N : 0;
    }
    int fmt = mode != taken ? 3 : rev ? 5 : 1, B = bps(fmt);
    std::vector<std::string> tr(trailers, std::string(3200, 'z'));
    TMap map(map2.begin(), map2.begin() + 1 + add);
    int good[5], ng = 0, kind[5];
    int32_t ff[5];
    int16_t v[5][4];
    auto write = [&](OSEGY& o) {
        for (int i = 0; i < nt; ++i) {
            char kn[] = "k0", fn[] = "f0", vn[] = "v0";
            kn[1] += i, fn[1] += i, vn[1] += i;
            kind[i] = (int)vf::choose(kn, 0, kinds);
            ff[i] = vf::sym<int32_t>(fn);
            vf::bytes(vn, v[i], sizeof v[i]);
            for (auto& x : v[i]) x = fmt == 1 ? 16 + i : x;
            bool var = mode == variable || (mode == taken && rev && ng);
            int n = var ? i % 2 + 1 : N; // announced
            int have = kind[i] == 1 ? n - 1 : kind[i] == 2 ? n + 1 : n;
            if (mode == taken && !rev && ng && kind[i] >= 3) kind[i] = 0; // only the number of samples counts
            UMap h { { "FFID", (int64_t)ff[i] }, { "SAMP_NUM", (int64_t)n }, { "SAMP_INT", (int64_t)2000 }, { "A1", (int64_t)i } };
            if (kind[i] == 3) h.erase("SAMP_NUM");
            if (kind[i] == 4) h["SAMP_NUM"] = (double)n;
            if (kind[i] == 5) h.erase("SAMP_INT");
            if (kind[i] == 6) h["SAMP_INT"] = (int64_t)0;
            if (kind[i] == 7) h["SAMP_INT"] = 40000.0;
            std::vector<double> s;
            for (int k = 0; k < have; ++k) s.push_back(v[i][k]);
            Trace t(h, s);
            bool ok = true;
            try { o.write_trace(t); } catch (std::exception const&) { ok = false; }
            vf::check(ok == !refused(kind[i], mode, !ng), "refused exactly when there is a fault");
            if (ok) good[ng++] = i;
        }
    };
    if (rev == 0) { OSEGYRev0 o("o.sgy", std::string(3200, 'a'), bh, map); write(o); }
    else if (rev == 1) { OSEGYRev1 o("o.sgy", { std::string(3200, 'a') }, bh, map); write(o); }
    else { OSEGYRev2 o("o.sgy", { std::string(3200, 'a') }, bh, tr, map); write(o); }
    size_t p = 3600, want = 3600 + 3200 * trailers;
    auto len = [&](int g) { int i = good[g]; return mode == variable || (mode == taken && rev && g) ? i % 2 + 1 : N; };
    for (int g = 0; g < ng; ++g) want += 240 * (1 + add) + B * len(g);
    vf::check_eq(vf_file_size("o.sgy"), want, "size of the file: the traces that were accepted and nothing else");
    const unsigned char* d = vf_file_data("o.sgy");
    for (int g = 0; g < ng; ++g) {
        int i = good[g];
        vf::check_eq(vf::get(d + p + 8, 4, true), (uint64_t)(uint32_t)ff[i], "header of an accepted trace");
        if (add) vf::check_eq(vf::get(d + p + 240, 8, true), (uint64_t)i, "additional header of an accepted trace");
        p += 240 * (1 + add);
        for (int k = 0; k < len(g); ++k) vf::check(decode(d + p + B * k, fmt, true) == v[i][k], "sample of an accepted trace");
        p += B * len(g);
    }
    for (int i = 0; i < 3200 * trailers; i += 100) vf::check(d[p + i] == 'z', "trailer stanzas after the last accepted trace");
    if (mode == taken) {
        vf::check_eq(vf::get(d + 3220, 2, true), (uint64_t)(ng ? N : 0), "number of samples in the binary header");
        vf::check_eq(vf::get(d + 3216, 2, true), (uint64_t)(ng ? 2000 : 0), "interval in the binary header");
    }
    vf::reach("end");
}
extern "C" void h_rev0() { int m = (int)vf::choose("m", 0, 1); go(0, m ? taken : fixed, 0, 0, 3, m ? 7 : 4); }
extern "C" void h_rev1() { int m = (int)vf::choose("m", 0, 2); go(1, m, 0, 0, 3, m == taken ? 7 : 4); }
extern "C" void h_rev2() { int m = (int)vf::choose("m", 0, 2); go(2, m, 0, 1, 3, m == taken ? 7 : 4); }
extern "C" void h_rev2_add() { go(2, (int)vf::choose("m", 0, 1), 1, (int)vf::choose("tr", 0, 1), 3, 4); }
extern "C" void t_four() { int m = (int)vf::choose("m", 0, 2), r = (int)vf::choose("r", 1, 2); go(r, m, 0, 0, 4, m == taken ? 7 : 4); }
