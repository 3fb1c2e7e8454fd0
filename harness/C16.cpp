// C16: BCD and binary conversions are exact inverses: digits in, the same digits
// out, neighbouring half bytes untouched, the position advanced past whole bytes.
#include "vf.hpp"
#include "util.hpp"
using namespace sedaman;
static uint64_t p10(int n) { uint64_t r = 1; while (n--) r *= 10; return r; }
// decode: symbolic digits in any place
// (up to four neighbouring digits arbitrary, the others fixed, at every place)
template <class T> static void from(int maxn)
{
    int n = (int)vf::choose("n", 1, maxn);
    bool skip = vf::choose("skip", 0, 1);
    int w = n > 4 ? (int)vf::choose("w", 0, n - 4) : 0;
    unsigned char b[10];
    vf::bytes("b", b, 10);
    T want = 0;
    for (int i = 0; i < n; ++i) {
        int h = i + skip;
        unsigned char& c = b[1 + h / 2];
        if (i < w || i >= w + 4) {
            unsigned k = (i * 7 + 3) % 10;
            c = h % 2 ? (c & 0xf0) | k : (c & 15) | k << 4;
            want = want * 10 + k;
            continue;
        }
        unsigned d = h % 2 ? c & 15 : c >> 4;
        vf::assume(d < 10);
        want = want * 10 + d;
    }
    char const* p = (char const*)b + 1;
    T v = from_bcd<T>(&p, skip, n);
    vf::check_eq((uint64_t)v, (uint64_t)want, "decimal value of the half bytes");
    vf::check(p == (char const*)b + 1 + (n + skip) / 2, "position after the number");
    vf::reach("end");
}
extern "C" void h_from_u8() { from<uint8_t>(2); }
extern "C" void h_from_u16() { from<uint16_t>(4); }
extern "C" void h_from_int() { from<int>(9); }
extern "C" void h_from_u32() { from<uint32_t>(9); }
extern "C" void h_from_u64() { from<uint64_t>(12); }
// encode: value below 10^n; half bytes of others stay as they were
template <class T> static void enc(T val, int n, bool skip)
{
    unsigned char b[10], o[10];
    vf::bytes("b", b, 10);
    int last = n + skip; // half bytes used
    if (skip) b[1] &= 0xf0;
    memcpy(o, b, 10);
    char* p = (char*)b + 1;
    to_bcd<T>(&p, val, skip, n);
    uint64_t v = (uint64_t)val;
    for (int i = n - 1; i >= 0; --i) {
        int h = i + skip;
        unsigned d = h % 2 ? b[1 + h / 2] & 15 : b[1 + h / 2] >> 4;
        vf::check_eq(d, (unsigned)(v % 10), "decimal digit");
        v /= 10;
    }
    if (skip) vf::check_eq(b[1] & 0xf0, o[1] & 0xf0, "first half byte is kept");
    vf::check_eq(b[0], o[0], "byte before is kept");
    for (int i = 1 + (last + 1) / 2; i < 10; ++i) vf::check_eq(b[i], o[i], "bytes after are kept");
    vf::check(p == (char*)b + 1 + last / 2, "position after the number");
    char const* q = (char const*)b + 1;
    vf::check_eq((uint64_t)from_bcd<T>(&q, skip, n), (uint64_t)val, "reads back");
    vf::reach("end");
}
template <class T, int MAXN> static void small()
{
    int n = (int)vf::choose("n", 1, MAXN);
    bool skip = vf::choose("skip", 0, 1);
    T v = vf::sym<T>("v");
    vf::assume(v >= 0 && (uint64_t)v < p10(n));
    enc<T>((T)vf::pick((uint64_t)v), n, skip);
}
extern "C" void h_to_u8() { small<uint8_t, 2>(); }
extern "C" void h_to_u16() { small<uint16_t, 3>(); }
extern "C" void h_to_int() { small<int, 2>(); }
extern "C" void h_to_u64() { small<uint64_t, 2>(); }
extern "C" void t_to_u16() { small<uint16_t, 4>(); }
// long numbers: two arbitrary digits at arbitrary places, the others given
template <class T> static void wide(int lo, int hi)
{
    int n = (int)vf::choose("n", lo, hi), i = (int)vf::choose("i", 0, 3), d = (int)vf::choose("d", 0, 9), e = (int)vf::choose("e", 0, 4);
    bool skip = vf::choose("skip", 0, 1);
    static const int place[] = { 0, 1, 5, 11 };
    int k = place[i] < n ? place[i] : n - 1;
    uint64_t v = 0;
    for (int j = n - 1; j >= 0; --j) v = v * 10 + (j == k ? d : j == n - 1 ? 2 * e : (j * 7 + e) % 10);
    enc<T>((T)v, n, skip);
}
extern "C" void h_wide_u32() { wide<uint32_t>(4, 9); }
extern "C" void h_wide_u64() { wide<uint64_t>(9, 12); }
extern "C" void h_wide_int() { wide<int>(4, 8); }
extern "C" void h_wide_u16() { wide<uint16_t>(4, 4); }
// raw numbers
template <class T> static void raw()
{
    char b[12];
    T v = vf::sym<T>("v");
    memset(b, 0x55, 12);
    char* p = b + 1;
    write<T>(&p, v);
    vf::check(p == b + 1 + sizeof(T) && b[0] == 0x55 && b[1 + sizeof(T)] == 0x55, "position after the number");
    char const* q = b + 1;
    T r = read<T>(&q);
    vf::check(q == b + 1 + sizeof(T), "position after the number");
    vf::check_eq(vf::bits(r), vf::bits(v), "reads back");
    uint64_t w = vf::bits(v), s = 0;
    for (size_t i = 0; i < sizeof(T); ++i) s = s << 8 | (w >> (8 * i) & 0xff);
    vf::check_eq(vf::bits(swap(v)), s, "bytes reversed");
    vf::check_eq(vf::bits(swap(swap(v))), w, "reversed twice");
    vf::reach("end");
}
extern "C" void h_raw() { raw<uint8_t>(); raw<int8_t>(); raw<uint16_t>(); raw<int16_t>(); raw<uint32_t>(); raw<int32_t>(); raw<uint64_t>(); raw<int64_t>(); }
// smallest integer that is not less
extern "C" void h_ceil()
{
    int32_t i = vf::sym<int32_t>("i");
    vf::assume(i > -4000000 && i < 4000000);
    float f = (float)i / 4; // exact
    int32_t c = sedaman::ceil(f);
    vf::check((int64_t)c * 4 >= i && (int64_t)(c - 1) * 4 < i, "ceiling");
    vf::reach("end");
}
