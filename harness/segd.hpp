// helpers to build SEG-D files byte by byte (independent of the code under test)
#pragma once
#include "vf.hpp"
#include "CommonSEGD.hpp"
#include "Exception.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
#include "Trace.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
using namespace sedaman;
using VT = Trace::Header::ValueType;
using XMap = std::map<uint32_t, std::pair<std::string, VT>>;
using Value = Trace::Header::Value;
using UMap = std::unordered_map<std::string, Value>;
using GH1 = CommonSEGD::GeneralHeader;
using GH2 = CommonSEGD::GeneralHeader2;
using GH3 = CommonSEGD::GeneralHeader3;
using GHN = CommonSEGD::GeneralHeaderN;
using CSH = CommonSEGD::ChannelSetHeader;
using AGH = CommonSEGD::AdditionalGeneralHeader;
// formats of samples and bits per sample
constexpr int FMT[14] = { 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080 };
inline int bits_of(int fmt)
{
    switch (fmt) {
    case 8015: return 20;
    case 8022: case 8042: return 8;
    case 8024: case 8044: return 16;
    case 8036: case 9036: return 24;
    case 8080: case 9080: return 64;
    default: return 32;
    }
}
inline size_t bytes_of(int fmt, size_t n) { return fmt == 8015 ? (n + 3) / 4 * 10 : n * bits_of(fmt) / 8; }
// number made of half bytes first..first+n-1 (half byte 0 is the high half of p[0])
inline uint64_t dec(const unsigned char* p, int first, int n)
{
    uint64_t r = 0;
    for (int i = first; i < first + n; ++i)
        r = r * 10 + (i % 2 ? p[i / 2] & 15u : p[i / 2] >> 4);
    return r;
}
inline void bcd(unsigned char* p, int first, int n, uint64_t v)
{
    for (int i = first + n - 1; i >= first; --i, v /= 10)
        p[i / 2] = i % 2 ? (p[i / 2] & 0xf0) | v % 10 : (p[i / 2] & 15) | v % 10 << 4;
}
template <size_t N> struct Gd { // a file image, written front to back
    unsigned char b[N] = {};
    size_t n = 0;
    unsigned char* at(size_t k) { unsigned char* p = b + n; n += k; return p; }
    unsigned char* gh1(int fmt, int add, int scans, int sets, int skew = 0, int extd = 0, int extl = 0)
    {
        unsigned char* p = at(32);
        bcd(p, 0, 4, 1234);
        bcd(p, 4, 4, fmt);
        p[10] = 0x20;
        p[11] = (unsigned char)(add << 4);
        p[22] = 0x20;
        bcd(p, 54, 2, scans);
        bcd(p, 56, 2, sets);
        bcd(p, 58, 2, skew);
        bcd(p, 60, 2, extd);
        bcd(p, 62, 2, extl);
        return p;
    }
    unsigned char* gh2(int major, int minor = 0, unsigned trailers = 0)
    {
        unsigned char* p = at(32);
        p[10] = (unsigned char)major;
        p[11] = (unsigned char)minor;
        if (major < 3) vf::put(p + 12, trailers, 2, true);
        else vf::put(p + 12, trailers, 4, true);
        p[major < 3 ? 18 : 31] = 2;
        return p;
    }
    unsigned char* gh3()
    {
        unsigned char* p = at(32);
        p[31] = 3;
        return p;
    }
    // channel set of a revision below 3; descale in units of 2^-10
    unsigned char* set2(int scan, int set, int chans, int descale = 0)
    {
        unsigned char* p = at(32);
        bcd(p, 0, 2, scan);
        if (set > 99) p[1] = 0xff, vf::put(p + 26, set, 2, true);
        else bcd(p, 2, 2, set);
        vf::put(p + 6, descale < 0 ? 0x8000 | -descale : descale, 2, true);
        bcd(p, 16, 4, chans);
        p[10] = 0x10;
        return p;
    }
    unsigned char* set3(int scan, int set, int chans, unsigned samps, float descale = 0)
    {
        unsigned char* p = at(96);
        bcd(p, 0, 2, scan);
        vf::put(p + 1, set, 2, true);
        p[3] = 0x10;
        vf::put(p + 12, samps, 4, true);
        uint32_t w;
        memcpy(&w, &descale, 4);
        vf::put(p + 16, w, 4, true);
        vf::put(p + 20, chans, 3, true);
        return p;
    }
    unsigned char* trc(int scan, int set, int chan, int ext)
    {
        unsigned char* p = at(20);
        bcd(p, 0, 4, 1234);
        bcd(p, 4, 2, scan);
        if (set > 99) p[3] = 0xff, vf::put(p + 15, set, 2, true);
        else bcd(p, 6, 2, set);
        bcd(p, 8, 4, chan);
        p[9] = (unsigned char)ext;
        return p;
    }
    // standard extension with the number of samples
    unsigned char* ext(int major, unsigned samps)
    {
        unsigned char* p = at(32);
        if (major < 3) vf::put(p + 7, samps, 3, true);
        else vf::put(p + 24, samps, 4, true);
        return p;
    }
    void save(const char* name) { vf_put_file(name, b, n); }
};
inline int64_t wi(const Trace::Header& h, const char* k)
{
    auto v = h.get(k);
    vf::check(v && std::holds_alternative<int64_t>(*v), "integer word present");
    return std::get<int64_t>(*v);
}
inline double wd(const Trace::Header& h, const char* k)
{
    auto v = h.get(k);
    vf::check(v && std::holds_alternative<double>(*v), "floating point word present");
    return std::get<double>(*v);
}
// value of sample i of a trace, times 2^k; exponents are split by value
inline double sample_of(int fmt, const unsigned char* p, size_t i, int k)
{
    auto sm = [&](uint64_t v, int bits, int ebits, int base) { // sign, exponent, fraction
        int fb = bits - 1 - ebits;
        int e = (int)vf::pick(v >> fb & ((1u << ebits) - 1));
        double r = __builtin_ldexp((double)(uint32_t)(v & ((1u << fb) - 1)), base * e - fb + k);
        return v >> (bits - 1) & 1 ? -r : r;
    };
    auto be = [&](int n) { return vf::get(p + n * i, n, true); };
    auto le = [&](int n) { return vf::get(p + n * i, n, false); };
    auto flt = [&](uint64_t v) { uint32_t w = (uint32_t)v; float f; memcpy(&f, &w, 4); return (double)f; };
    auto dbl = [&](uint64_t v) { double d; memcpy(&d, &v, 8); return d; };
    double s = __builtin_ldexp(1.0, k);
    switch (fmt) {
    case 8015: {
        const unsigned char* q = p + i / 4 * 10;
        int j = (int)(i % 4), e = (int)vf::pick((uint64_t)(j % 2 ? q[j / 2] & 15 : q[j / 2] >> 4));
        return __builtin_ldexp((double)(int16_t)vf::get(q + 2 + 2 * j, 2, true), e - 15 + k);
    }
    case 8022: return sm(be(1), 8, 3, 1);
    case 8024: return sm(be(2), 16, 3, 1);
    case 8042: return sm(be(1), 8, 2, 4);
    case 8044: return sm(be(2), 16, 2, 4);
    case 8036: return __builtin_ldexp((double)(int32_t)vf::sext(be(3), 24), k);
    case 9036: return __builtin_ldexp((double)(int32_t)vf::sext(le(3), 24), k);
    case 8038: return __builtin_ldexp((double)(int32_t)be(4), k);
    case 9038: return __builtin_ldexp((double)(int32_t)le(4), k);
    case 8048: {
        uint64_t v = be(4);
        int e = (int)vf::pick(v >> 24 & 0x7f);
        double r = __builtin_ldexp((double)(uint32_t)(v & 0xffffff), 4 * (e - 64) - 24 + k);
        return v >> 31 ? -r : r;
    }
    case 8058: return flt(be(4)) * s;
    case 9058: return flt(le(4)) * s;
    case 8080: return dbl(be(8)) * s;
    default: return dbl(le(8)) * s;
    }
}
// ---- for writers
inline GH1 w_gh1(int fmt, int scans, int sets, int add = 0)
{
    GH1 g = {};
    g.file_number = 4711;
    g.format_code = fmt;
    g.gen_const = 123456789012LL;
    g.year = 97;
    g.add_gen_hdr_blocks = 1 + add;
    g.day = 365;
    g.hour = 21;
    g.minute = 43;
    g.second = 56;
    g.manufac_code = 78;
    g.manufac_num = 9876;
    g.bytes_per_scan = 543210;
    g.base_scan_int = 2.0;
    g.polarity = 7;
    g.scans_per_block = 96;
    g.record_type = 8;
    g.record_length = 321;
    g.scan_types_per_record = scans;
    g.channel_sets_per_scan_type = sets;
    return g;
}
inline GH2 w_gh2(int major = 2)
{
    GH2 g = {};
    g.segd_rev_major = (uint8_t)major;
    g.segd_rev_minor = 1;
    g.gen_hdr_block_num = 2;
    return g;
}
inline CSH w_set(int scan, int set, int chans, double descale = 0)
{
    return CSH(scan, (uint16_t)set, 1, 0, 8190, descale, (uint32_t)chans, 1, 3, 125, 72, 5, 18, 50, 60, 0, 0, 0, 1, 1, 0, 1);
}
// what the first general header must look like
inline void want_gh1(unsigned char* p, const GH1& g, bool ext_len)
{
    memset(p, 0, 32);
    if (g.file_number > 9999) p[0] = p[1] = 0xff;
    else bcd(p, 0, 4, g.file_number);
    bcd(p, 4, 4, g.format_code);
    bcd(p, 8, 12, g.gen_const);
    bcd(p, 20, 2, g.year);
    p[11] = (unsigned char)(g.add_gen_hdr_blocks << 4);
    bcd(p, 23, 3, g.day);
    bcd(p, 26, 2, g.hour);
    bcd(p, 28, 2, g.minute);
    bcd(p, 30, 2, g.second);
    bcd(p, 32, 2, g.manufac_code);
    bcd(p, 34, 4, g.manufac_num);
    bcd(p, 38, 6, g.bytes_per_scan);
    bcd(p, 46, 1, g.polarity);
    bcd(p, 50, 1, g.record_type);
    if (ext_len) p[25] = (p[25] & 0xf0) | 15, p[26] = 0xff;
    else bcd(p, 51, 3, g.record_length);
    const int at[5] = { 54, 56, 58, 60, 62 };
    const int v[5] = { g.scan_types_per_record, g.channel_sets_per_scan_type, g.skew_blocks, g.extended_hdr_blocks, g.external_hdr_blocks };
    for (int i = 0; i < 5; ++i) {
        if (v[i] > 99) p[at[i] / 2] = 0xff;
        else bcd(p, at[i], 2, v[i]);
    }
}
