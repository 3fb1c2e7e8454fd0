// C15: the text header conversions are code page 037 and its inverse, byte by byte
#include "segy.hpp"
#include "ebcdic.hpp"
extern "C" void h_to_ascii()
{
    std::string s(24, 0), o;
    vf::bytes("s", &s[0], s.size());
    o = s;
    CommonSEGY::ebcdic_to_ascii(s);
    vf::check(s.size() == 24, "length is kept");
    for (int i = 0; i < 24; ++i) vf::check_eq((unsigned char)s[i], ebcdic_ascii[(unsigned char)o[i]], "EBCDIC to ASCII");
    CommonSEGY::ascii_to_ebcdic(s);
    vf::check(s.size() == 24, "length is kept");
    for (int i = 0; i < 24; ++i) vf::check_eq((unsigned char)s[i], (unsigned char)o[i], "EBCDIC to ASCII and back");
    vf::reach("end");
}
extern "C" void h_to_ebcdic()
{
    std::string s(24, 0), o;
    vf::bytes("s", &s[0], s.size());
    o = s;
    CommonSEGY::ascii_to_ebcdic(s);
    vf::check(s.size() == 24, "length is kept");
    for (int i = 0; i < 24; ++i) vf::check_eq(ebcdic_ascii[(unsigned char)s[i]], (unsigned char)o[i], "ASCII to EBCDIC");
    CommonSEGY::ebcdic_to_ascii(s);
    vf::check(s.size() == 24, "length is kept");
    for (int i = 0; i < 24; ++i) vf::check_eq((unsigned char)s[i], (unsigned char)o[i], "ASCII to EBCDIC and back");
    vf::reach("end");
}
// every byte value, one by one, and a whole text header
extern "C" void h_each()
{
    unsigned char c = vf::sym<unsigned char>("c");
    std::string s(1, (char)vf::pick(c));
    CommonSEGY::ebcdic_to_ascii(s);
    vf::check(s.size() == 1 && (unsigned char)s[0] == ebcdic_ascii[vf::pick(c)], "EBCDIC to ASCII");
    CommonSEGY::ascii_to_ebcdic(s);
    vf::check(s.size() == 1 && (unsigned char)s[0] == vf::pick(c), "back to EBCDIC");
    vf::reach("end");
}
extern "C" void h_lengths()
{
    static const int lens[] = { 0, 1, 2, 15, 16, 80, 3199, 3200, 6400 };
    int n = lens[vf::choose("n", 0, 8)];
    std::string s(n, 'A'), o;
    if (n) { vf::bytes("f", &s[0], 1); vf::bytes("m", &s[n / 2], 1); vf::bytes("l", &s[n - 1], 1); }
    o = s;
    CommonSEGY::ebcdic_to_ascii(s);
    vf::check(s.size() == (size_t)n, "length is kept");
    if (n) {
        vf::check_eq((unsigned char)s[0], ebcdic_ascii[(unsigned char)o[0]], "first");
        vf::check_eq((unsigned char)s[n / 2], ebcdic_ascii[(unsigned char)o[n / 2]], "middle");
        vf::check_eq((unsigned char)s[n - 1], ebcdic_ascii[(unsigned char)o[n - 1]], "last");
    }
    CommonSEGY::ascii_to_ebcdic(s);
    for (int i = 0; i < n; ++i) vf::check(s[i] == o[i], "round trip");
    vf::reach("end");
}
