// helpers to build SEG-Y files byte by byte (independent of the code under test)
#pragma once
#include "vf.hpp"
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Trace.hpp"
#include <map>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
using namespace sedaman;
using VT = Trace::Header::ValueType;
using HMap = std::map<uint32_t, std::pair<std::string, VT>>;
using TMap = std::vector<std::pair<std::string, HMap>>;
using Value = Trace::Header::Value;
using UMap = std::unordered_map<std::string, Value>;
inline int bps(int fmt)
{
    switch (fmt) {
    case 3: case 11: return 2;
    case 6: case 9: case 12: return 8;
    case 7: case 15: return 3;
    case 8: case 16: return 1;
    default: return 4;
    }
}
template <size_t N> struct Img { // a file image
    unsigned char b[N] = {};
    bool be = true;
    void u(size_t off, uint64_t v, int n) { vf::put(b + off, v, n, be); }
    void sym(const char* name, size_t off, size_t n) { vf::bytes(name, b + off, n); }
    uint64_t g(size_t off, int n) const { return vf::get(b + off, n, be); }
    void text(size_t off, char c) { memset(b + off, c, 3200); }
    void base(bool big, int fmt, unsigned ns)
    {
        be = big;
        memset(b, ' ', 3200);
        u(3200 + 16, 1000, 2);
        u(3200 + 20, ns, 2);
        u(3200 + 24, fmt, 2);
        if (!be) u(3200 + 96, 0x01020304, 4);
    }
    void save(const char* name, size_t n = N) { vf_put_file(name, b, n); }
};
// value a sample of the given format represents, as an exact double
// (integers of 64 bits: rounded to nearest, as conversion to double does)
inline double decode(const unsigned char* p, int fmt, bool be)
{
    int n = bps(fmt);
    uint64_t v = vf::get(p, n, be);
    switch (fmt) {
    case 1: {
        int e = (int)vf::pick((uint64_t)(v >> 24 & 0x7f));
        double m = (double)(uint32_t)(v & 0xffffff);
        double r = __builtin_ldexp(m, 4 * (e - 64) - 24);
        return v >> 31 ? -r : r;
    }
    case 5: { uint32_t w = (uint32_t)v; float f; memcpy(&f, &w, 4); return f; }
    case 6: { double d; memcpy(&d, &v, 8); return d; }
    case 2: return (double)(int32_t)v;
    case 3: return (double)(int16_t)v;
    case 7: return (double)(int32_t)vf::sext(v, 24);
    case 8: return (double)(int8_t)v;
    case 9: return (double)(int64_t)v;
    case 12: return (double)v;
    default: return (double)(uint32_t)v; // 10, 11, 15, 16
    }
}
inline bool is_nan(double d) { return d != d; }
inline bool same_value(double a, double b) { return a == b || (is_nan(a) && is_nan(b)); }
