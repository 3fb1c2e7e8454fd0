// C22: channel set descriptors of SEG-D are reported field by field.
#include "segd.hpp"
static uint64_t be(const unsigned char* p, int n) { return vf::get(p, n, true); }
#define U(field, v) vf::check_eq((uint64_t)h.field, (uint64_t)(v), #field)
static void same2(CSH h, const unsigned char* p)
{
    U(scan_type_number, dec(p, 0, 2));
    U(channel_set_number, dec(p, 2, 2));
    U(channel_set_start_time, be(p + 2, 2) * 2);
    U(channel_set_end_time, be(p + 4, 2) * 2);
    double d = (double)(uint16_t)(be(p + 6, 2) & 0x7fff) / 1024;
    vf::check_eqd(h.descale_multiplier, p[6] & 0x80 ? -d : d, "descale_multiplier");
    U(number_of_channels, dec(p, 16, 4));
    U(channel_type, p[10] >> 4);
    U(subscans_per_ch_set, 1u << (p[11] >> 4));
    U(channel_gain, p[11] & 15);
    U(alias_filter_freq, dec(p, 24, 4));
    U(alias_filter_slope, dec(p, 28, 4));
    U(low_cut_filter_freq, dec(p, 32, 4));
    U(low_cut_filter_slope, dec(p, 36, 4));
    U(first_notch_filter, dec(p, 40, 4));
    U(second_notch_filter, dec(p, 44, 4));
    U(third_notch_filter, dec(p, 48, 4));
    U(ext_ch_set_num, be(p + 26, 2));
    U(ext_hdr_flag, (p[28] >> 4) & 15);
    U(trc_hdr_ext, p[28] & 15);
    U(vert_stack, p[29]);
    U(streamer_no, p[30]);
    U(array_forming, p[31]);
    vf::check(!h.number_of_samples() && !h.samp_int() && !h.filter_phase() && !h.physical_unit() && !h.filter_delay() && !h.description(), "fields of revision 3 absent");
}
static void same3(CSH h, const unsigned char* p)
{
    U(scan_type_number, dec(p, 0, 2));
    U(channel_set_number, be(p + 1, 2));
    U(channel_type, p[3]);
    U(channel_set_start_time, be(p + 4, 4));
    U(channel_set_end_time, be(p + 8, 4));
    uint32_t w = (uint32_t)be(p + 16, 4);
    float d;
    memcpy(&d, &w, 4);
    vf::check_eqd(h.descale_multiplier, (double)d, "descale_multiplier");
    U(number_of_channels, be(p + 20, 3));
    U(array_forming, p[26]);
    U(trc_hdr_ext, p[27]);
    U(ext_hdr_flag, (p[28] >> 4) & 15);
    U(channel_gain, p[28] & 15);
    U(vert_stack, p[29]);
    U(streamer_no, p[30]);
    U(alias_filter_freq, be(p + 32, 4));
    U(low_cut_filter_freq, be(p + 36, 4));
    U(alias_filter_slope, be(p + 40, 4));
    U(low_cut_filter_slope, be(p + 44, 4));
    U(first_notch_filter, be(p + 48, 4));
    U(second_notch_filter, be(p + 52, 4));
    U(third_notch_filter, be(p + 56, 4));
    vf::check(h.number_of_samples() && h.samp_int() && h.filter_phase() && h.physical_unit() && h.filter_delay() && h.description(), "fields of revision 3 present");
    vf::check_eq((uint64_t)*h.number_of_samples(), be(p + 12, 4), "number_of_samples");
    vf::check_eq((uint64_t)*h.samp_int(), be(p + 23, 3), "samp_int");
    vf::check_eq((uint64_t)*h.filter_phase(), (uint64_t)p[60], "filter_phase");
    vf::check_eq((uint64_t)*h.physical_unit(), (uint64_t)p[61], "physical_unit");
    vf::check_eq((uint64_t)*h.filter_delay(), be(p + 64, 4), "filter_delay");
    auto t = *h.description();
    for (int i = 0; i < 27; ++i) vf::check_eq((uint64_t)(unsigned char)t[i], (uint64_t)p[68 + i], "description");
}
static void flags(unsigned char* p, int major, bool small)
{
    if (major < 3) {
        if (small) p[11] = (p[11] & 15) | 0x30; // else the number of subscans is split by value
    } else {
        uint32_t w = (uint32_t)be(p + 16, 4);
        float d;
        memcpy(&d, &w, 4);
        vf::assume(d == d);
    }
}
// major 0: no general header 2 at all
template <int S, int C> static void sets(int major, bool ext, bool small)
{
    int size = major < 3 ? 32 : 96;
    Gd<96 + S * C * 96> f;
    unsigned char* g1 = f.gh1(8058, major == 0 ? 0 : major < 3 ? 1 : 2, S, C);
    if (major) {
        unsigned char* q = f.gh2(major);
        if (ext) {
            g1[28] = 0xff;
            vf::put(q + 3, C, 2, true);
        } else vf::put(q + 3, 77, 2, true);
    }
    if (major > 2) f.gh3();
    unsigned char* p = f.at(S * C * size);
    vf::bytes("s", p, S * C * size);
    for (int i = 0; i < S * C; ++i) flags(p + i * size, major, small);
    f.save("a");
    ISEGD g("a");
    auto& v = g.channel_set_headers();
    vf::check_eq(v.size(), (size_t)S, "number of scan types");
    uint64_t total = 0;
    for (int i = 0; i < S; ++i) {
        vf::check_eq(v[i].size(), (size_t)C, "number of channel sets");
        for (int j = 0; j < C; ++j) {
            unsigned char* q = p + (i * C + j) * size;
            if (major < 3) same2(v[i][j], q);
            else same3(v[i][j], q);
            total += v[i][j].number_of_channels;
        }
    }
    if (S * C == 1) vf::check(g.has_trace() == (total != 0), "traces expected when a channel set has channels");
    vf::check(!g.has_record(), "whole file read");
    vf::reach("end");
}
extern "C" void h_one() { int m = (int)vf::choose("major", 0, 3); sets<1, 1>(m, m && vf::choose("ext", 0, 1), false); }
extern "C" void h_two_sets() { int m = (int)vf::choose("major", 0, 3); sets<1, 2>(m, m && vf::choose("ext", 0, 1), true); }
extern "C" void h_two_types() { sets<2, 1>((int)vf::choose("major", 0, 3), false, true); }
extern "C" void h_four() { int m = (int)vf::choose("major", 1, 3); sets<2, 2>(m, vf::choose("ext", 0, 1), true); }
extern "C" void t_nine() { int m = (int)vf::choose("major", 1, 3); sets<3, 3>(m, vf::choose("ext", 0, 1), true); }
extern "C" void t_two_free() { sets<1, 2>((int)vf::choose("major", 0, 2), false, false); }
