// C25: SEG-D trace header extensions are read with the caller's maps.
#include "segd.hpp"
static int size_of(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int64_t: case VT::uint64_t: case VT::ieee_double: return 8;
    default: return 4;
    }
}
static void want(const Trace::Header& h, const char* k, VT t, const unsigned char* p)
{
    uint64_t v = vf::get(p, size_of(t), true);
    switch (t) {
    case VT::int8_t: return vf::check_eq((uint64_t)wi(h, k), (uint64_t)vf::sext(v, 8), k);
    case VT::int16_t: return vf::check_eq((uint64_t)wi(h, k), (uint64_t)vf::sext(v, 16), k);
    case VT::int24_t: return vf::check_eq((uint64_t)wi(h, k), (uint64_t)vf::sext(v, 24), k);
    case VT::int32_t: return vf::check_eq((uint64_t)wi(h, k), (uint64_t)vf::sext(v, 32), k);
    case VT::ibm: {
        int e = (int)vf::pick((uint64_t)(v >> 24 & 0x7f));
        double r = __builtin_ldexp((double)(uint32_t)(v & 0xffffff), 4 * (e - 64) - 24);
        return vf::check(wd(h, k) == (v >> 31 ? -r : r), k);
    }
    case VT::ieee_single: {
        uint32_t w = (uint32_t)v;
        float f;
        memcpy(&f, &w, 4);
        return vf::check_eqd(wd(h, k), (double)f, k);
    }
    case VT::ieee_double: return vf::check_eq(vf::bits(wd(h, k)), v, k);
    default: return vf::check_eq((uint64_t)wi(h, k), v, k);
    }
}
// free: the exponent of an IBM number is free (split by value), else it is 0x43
static void no_nan(VT t, unsigned char* p, bool free = false)
{
    if (t == VT::ibm && !free) p[0] = (p[0] & 0x80) | 0x43;
    if (t != VT::ieee_single) return;
    uint32_t w = (uint32_t)vf::get(p, 4, true);
    float f;
    memcpy(&f, &w, 4);
    vf::assume(f == f);
}
struct W { int ext; unsigned off; VT t; };
static const char* const NAMES[4] = { "AA", "BB", "CC", "DD" };
// maps: one per extension, with the words w; next: extensions in the file
static void go(int major, int ext, size_t nmaps, const W* w, int nw, bool free = false)
{
    static Gd<96 + 96 + 2 * (20 + 96 + 4)> f;
    f.n = 0;
    f.gh1(8058, major < 3 ? 1 : 2, 1, 1);
    f.gh2(major);
    if (major > 2) f.gh3();
    if (major < 3) f.set2(1, 1, 2);
    else f.set3(1, 1, 2, 1);
    unsigned char* e[2];
    for (int i = 0; i < 2; ++i) {
        f.trc(1, 1, 1, ext);
        e[i] = f.at(32 * ext);
        vf::bytes(i ? "e1" : "e0", e[i], 32 * ext);
        for (int k = 0; k < nw; ++k) if (w[k].ext < ext) no_nan(w[k].t, e[i] + 32 * w[k].ext + w[k].off, free && i == 1);
        f.at(4);
    }
    f.save("a");
    std::vector<XMap> maps(nmaps);
    for (int k = 0; k < nw; ++k) maps[w[k].ext][w[k].off] = { NAMES[k], w[k].t };
    ISEGD g("a", maps);
    for (int i = 0; i < 2; ++i) {
        Trace r = g.read_trace();
        size_t n = 9;
        for (int k = 0; k < nw; ++k) {
            if (w[k].ext < ext) want(r.header(), NAMES[k], w[k].t, e[i] + 32 * w[k].ext + w[k].off), ++n;
            else vf::check(!r.header().get(NAMES[k]), "no word of an extension that is not there");
        }
        vf::check_eq(r.header().keys().size(), n, "no other words");
        vf::check_eq(r.samples().size(), (size_t)1, "number of samples");
    }
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
static VT type(const char* n) { return (VT)vf::choose(n, 0, 12); }
// one word of each type at the first, a middle and the last offset, in the first or second extension
static void one(bool all)
{
    VT t = type("type");
    unsigned room = 32 - size_of(t), off;
    if (all) off = (unsigned)vf::choose("off", 0, 31);
    else { int k = (int)vf::choose("k", 0, 3); off = k == 0 ? 0 : k == 1 ? 5 : k == 2 ? room / 2 : room; }
    if (off > room) off = room;
    W w = { (int)vf::choose("ext", 0, 1), off, t };
    go((int)vf::choose("major", 2, 3), 2, 2, &w, 1);
}
extern "C" void h_one() { one(false); }
extern "C" void t_one() { one(true); }
// neighbouring words of any two types
extern "C" void h_two()
{
    VT a = type("a"), b = type("b");
    W w[2] = { { 0, 3, a }, { 0, 3u + size_of(a), b } };
    go(2, 1, 1, w, 2);
}
// IBM numbers with any exponent
extern "C" void h_ibm()
{
    W w = { 0, (unsigned)vf::choose("off", 0, 1) * 28, VT::ibm };
    go(2, 1, 1, &w, 1, true);
}
// fewer or more extensions than maps
extern "C" void h_maps()
{
    int ext = (int)vf::choose("ext", 0, 3);
    size_t maps = (size_t)vf::choose("maps", 1, 3);
    W w[3] = { { 0, 4, VT::int16_t }, { 1, 0, VT::uint32_t }, { 2, 30, VT::uint16_t } };
    // without SAMP_NUM the number of samples comes from the channel set
    go((int)vf::choose("major", 1, 3), ext, maps, w, (int)maps);
}
// the caller's map may name SAMP_NUM and so gives the number of samples
extern "C" void h_samps()
{
    static Gd<96 + 96 + 20 + 32 + 4 * 3> f;
    f.n = 0;
    unsigned n = (unsigned)vf::choose("n", 0, 3);
    f.gh1(8058, 1, 1, 1);
    f.gh2(2);
    f.set2(1, 1, 1);
    f.trc(1, 1, 1, 1);
    unsigned char* e = f.at(32);
    vf::bytes("e", e, 32);
    vf::put(e + 11, n, 3, true);
    f.at(4 * n);
    f.save("a");
    ISEGD g("a", { XMap { { 11, { "SAMP_NUM", VT::uint24_t } } } });
    Trace r = g.read_trace();
    vf::check_eq((uint64_t)wi(r.header(), "SAMP_NUM"), (uint64_t)n, "SAMP_NUM");
    vf::check_eq(r.samples().size(), (size_t)n, "number of samples");
    vf::check(!g.has_trace() && !g.has_record(), "whole file read");
    vf::reach("end");
}
// words that overlap or leave the extension are refused
static void bad_map(VT a, VT b, unsigned x, unsigned y)
{
    bool bad = y + size_of(b) > 32 || x + size_of(a) > y;
    Gd<32> f;
    f.gh1(8058, 0, 0, 0);
    f.save("a");
    bool ok = true;
    try {
        ISEGD g("a", { XMap { { x, { "AA", a } }, { y, { "BB", b } } } });
    } catch (Exception&) {
        ok = false;
    }
    vf::check(ok == !bad, "a map is accepted exactly when its words lie apart in 32 bytes");
    vf::reach("end");
}
// either side of the limits
extern "C" void h_bad_map()
{
    VT a = type("a"), b = type("b");
    if (vf::choose("end", 0, 1)) bad_map(a, b, 0, 32 - size_of(b) + (unsigned)vf::choose("over", 0, 1));
    else bad_map(a, b, 6, 6 + (unsigned)size_of(a) - (size_of(a) > 1 ? (unsigned)vf::choose("gap", 0, 1) : 0));
}
extern "C" void t_bad_map()
{
    VT a = type("a"), b = type("b");
    unsigned x = (unsigned)vf::choose("x", 0, 33);
    bad_map(a, b, x, x + (unsigned)vf::choose("d", 1, 9));
}
// the library's own maps
extern "C" void h_sercel()
{
    auto& maps = vf::choose("which", 0, 2) == 0 ? CommonSEGD::sercel_408 : vf::choose("w2", 0, 1) ? CommonSEGD::sercel_428 : CommonSEGD::sercel_428xl;
    static Gd<96 + 96 + 20 + 32 * 8 + 64> f;
    f.n = 0;
    f.gh1(8058, 1, 1, 1);
    f.gh2(2);
    f.set2(1, 1, 1);
    int ext = (int)maps.size();
    vf::check(ext > 0 && ext <= 8, "extensions of the map");
    f.trc(1, 1, 1, ext);
    unsigned char* e = f.at(32 * ext);
    vf::bytes("e", e, 32 * ext);
    // place of the words
    for (int i = 0; i < ext; ++i)
        for (auto& p : maps[i]) {
            no_nan(p.second.second, e + 32 * i + p.first);
            if (p.second.first == "SAMP_NUM") vf::put(e + 32 * i + p.first, 1, size_of(p.second.second), true);
        }
    f.at(4);
    f.save("a");
    ISEGD g("a", maps);
    Trace r = g.read_trace();
    for (int i = 0; i < ext; ++i)
        for (auto& p : maps[i]) {
            vf::check(p.first + size_of(p.second.second) <= 32, "word inside the extension");
            want(r.header(), p.second.first.c_str(), p.second.second, e + 32 * i + p.first);
        }
    vf::reach("end");
}
