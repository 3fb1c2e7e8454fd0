#pragma once
#include "stdmap.hpp"
struct TypeInfo { VT t; int n; bool sgn, fl; int fmt; };
static const TypeInfo types[] = {
    { VT::int8_t, 1, true, false, 0 }, { VT::uint8_t, 1, false, false, 0 }, { VT::int16_t, 2, true, false, 0 }, { VT::uint16_t, 2, false, false, 0 },
    { VT::int24_t, 3, true, false, 0 }, { VT::uint24_t, 3, false, false, 0 }, { VT::int32_t, 4, true, false, 0 }, { VT::uint32_t, 4, false, false, 0 },
    { VT::int64_t, 8, true, false, 0 }, { VT::uint64_t, 8, false, false, 0 }, { VT::ibm, 4, true, true, 1 }, { VT::ieee_single, 4, true, true, 5 }, { VT::ieee_double, 8, true, true, 6 },
};
inline const TypeInfo& info(VT t) { for (auto& i : types) if (i.t == t) return i; return types[0]; }
// does `v` hold what the bytes at p mean for type t?
inline void check_value(const std::optional<Value>& v, const unsigned char* p, VT t, bool be, const char* msg)
{
    const TypeInfo& i = info(t);
    vf::check(v.has_value(), msg);
    if (i.fl) {
        vf::check(std::holds_alternative<double>(*v), msg);
        double d = std::get<double>(*v), e = decode(p, i.fmt, be);
        if (i.fmt == 1) vf::check(d == e, msg);
        else if (is_nan(e)) vf::check(is_nan(d), msg);
        else vf::check_eqd(d, e, msg);
    } else {
        vf::check(std::holds_alternative<int64_t>(*v), msg);
        uint64_t w = vf::get(p, i.n, be);
        int64_t e = i.sgn ? vf::sext(w, 8 * i.n) : (int64_t)w;
        vf::check_eq(std::get<int64_t>(*v), e, msg);
    }
}
// the whole header of one trace: hdrs[k] points at the k-th 240-byte header in the file
inline void check_header(Trace::Header const& h, const TMap& m, const unsigned char* first, int nhdr, bool be)
{
    std::map<std::string, std::pair<const unsigned char*, VT>> want;
    for (int k = 0; k < nhdr && k < (int)m.size(); ++k)
        for (auto& p : m[k].second) want[p.second.first] = { first + 240 * k + p.first, p.second.second };
    for (auto& w : want) check_value(h.get(w.first), w.second.first, w.second.second, be, w.first.c_str());
    vf::check(h.keys().size() == want.size(), "no other header words");
}
