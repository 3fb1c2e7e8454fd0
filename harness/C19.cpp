// C19: general header block 1 of SEG-D is reported field by field.
#include "segd.hpp"
static void same(const unsigned char* p, const GH1& h)
{
    vf::check_eq((uint64_t)h.file_number, dec(p, 0, 4), "file number");
    vf::check_eq((uint64_t)h.format_code, dec(p, 4, 4), "format code");
    vf::check_eq((uint64_t)h.gen_const, dec(p, 8, 12), "general constants");
    vf::check_eq((uint64_t)h.year, dec(p, 20, 2), "year");
    vf::check_eq((uint64_t)h.add_gen_hdr_blocks, (uint64_t)(p[11] >> 4), "number of additional blocks");
    vf::check_eq((uint64_t)h.day, dec(p, 23, 3), "day");
    vf::check_eq((uint64_t)h.hour, dec(p, 26, 2), "hour");
    vf::check_eq((uint64_t)h.minute, dec(p, 28, 2), "minute");
    vf::check_eq((uint64_t)h.second, dec(p, 30, 2), "second");
    vf::check_eq((uint64_t)h.manufac_code, dec(p, 32, 2), "manufacturer's code");
    vf::check_eq((uint64_t)h.manufac_num, dec(p, 34, 4), "manufacturer's serial number");
    vf::check_eq((uint64_t)h.bytes_per_scan, dec(p, 38, 6), "bytes per scan");
    vf::check_eqd(h.base_scan_int, (double)p[22] / 16, "base scan interval");
    vf::check_eq((uint64_t)h.polarity, (uint64_t)(p[23] >> 4), "polarity");
    int e = (int)vf::pick((uint64_t)(p[23] & 15));
    vf::check_eq((uint64_t)h.scans_per_block, (uint64_t)p[24] << e, "scans per block");
    vf::check_eq((uint64_t)h.record_type, (uint64_t)(p[25] >> 4), "record type");
    vf::check_eq((uint64_t)h.record_length, dec(p, 51, 3), "record length");
    vf::check_eq((uint64_t)h.scan_types_per_record, dec(p, 54, 2), "scan types per record");
    vf::check_eq((uint64_t)h.channel_sets_per_scan_type, dec(p, 56, 2), "channel sets per scan type");
    vf::check_eq((uint64_t)h.skew_blocks, dec(p, 58, 2), "skew blocks");
    vf::check_eq((uint64_t)h.extended_hdr_blocks, dec(p, 60, 2), "extended header blocks");
    vf::check_eq((uint64_t)h.external_hdr_blocks, dec(p, 62, 2), "external header blocks");
}
static void fill(unsigned char* p)
{
    static const unsigned char d[32] = { 0x12, 0x34, 0x80, 0x58, 0x91, 0x82, 0x73, 0x64, 0x55, 0x46, 0x21, 0x03, 0x65, 0x13, 0x47, 0x59,
        0x20, 0x76, 0x54, 0x00, 0x31, 0x96, 0x20, 0x51, 0x9c, 0x84, 0x09, 0, 0, 0, 0, 0 };
    memcpy(p, d, 32);
}
// two neighbouring bytes arbitrary, at every place
extern "C" void h_pairs()
{
    Gd<32> f;
    unsigned char* p = f.at(32);
    fill(p);
    int k = (int)vf::choose("k", 0, 29);
    if (k == 1 || k == 2 || k == 3 || (k >= 10 && k <= 11) || k == 26 || k == 29) vf::reach("skipped"), k = 0;
    unsigned char v[2];
    vf::bytes("v", v, 2);
    if (k == 27) v[0] = 0; // no scan types here
    if (k == 28) p[28] = v[0], p[29] = v[1];
    else p[k] = v[0], p[k + 1] = v[1];
    p[27] = 0;
    f.save("a");
    ISEGD g("a");
    same(p, g.general_header());
    vf::check(!g.general_header2() && !g.general_header3() && g.general_headerN().empty(), "no other general header");
    vf::check(!g.has_trace(), "no trace");
    vf::reach("end");
}
// the fields next to fixed ones
extern "C" void h_rest()
{
    Gd<32 * 16> f;
    unsigned char* p = f.at(32);
    fill(p);
    vf::bytes("f", p, 2); // file number
    vf::bytes("y", p + 10, 1); // year
    unsigned char day;
    vf::bytes("d", &day, 1);
    p[11] = day & 15;
    vf::bytes("d2", p + 12, 1);
    f.save("a");
    ISEGD g("a");
    same(p, g.general_header());
    vf::reach("end");
}
extern "C" void h_record()
{
    Gd<32> f;
    unsigned char* p = f.at(32);
    fill(p);
    vf::bytes("r", p + 25, 2);
    f.save("a");
    ISEGD g("a");
    same(p, g.general_header());
    vf::reach("end");
}
// every sample format is accepted, any other code refused
extern "C" void h_format()
{
    Gd<32> f;
    unsigned char* p = f.at(32);
    fill(p);
    vf::bytes("v", p + 2, 2);
    f.save("a");
    uint64_t code = dec(p, 4, 4);
    bool known = false;
    for (int c : FMT) known |= code == (uint64_t)c;
    bool ok = true;
    try {
        ISEGD g("a");
        same(p, g.general_header());
    } catch (Exception&) {
        ok = false;
    }
    vf::check(ok == known, "the format codes of the standard, and only those, are accepted");
    vf::reach("end");
}
// counts of blocks that follow
extern "C" void h_counts()
{
    int scans = (int)vf::choose("scans", 0, 3), sets = (int)vf::choose("sets", 0, 2), skew = (int)vf::choose("skew", 0, 2);
    int extd = (int)vf::choose("extd", 0, 2), extl = (int)vf::choose("extl", 0, 2);
    Gd<32 * (1 + 3 * 4 + 4)> f;
    unsigned char* p = f.gh1(8058, 0, scans, sets, skew, extd, extl);
    for (int s = 0; s < scans; ++s) {
        for (int c = 0; c < sets; ++c) f.set2(s + 1, c + 1, 0);
        f.at(32 * skew);
    }
    f.at(32 * (extd + extl));
    f.save("a");
    ISEGD g("a");
    same(p, g.general_header());
    vf::check_eq(g.extended_headers().size(), (size_t)extd, "number of extended header blocks");
    vf::check_eq(g.external_headers().size(), (size_t)extl, "number of external header blocks");
    vf::check_eq(g.channel_set_headers().size(), (size_t)scans, "number of scan types");
    for (auto& v : g.channel_set_headers()) vf::check_eq(v.size(), (size_t)sets, "number of channel sets");
    vf::check(!g.has_record(), "whole file read");
    vf::reach("end");
}
