// C29: a SEG-D writer stores the caller's headers field by field: general headers 1,
// 2 and N, channel sets, skew, extended and external blocks, in this order and size.
#include "segd.hpp"
static const unsigned char* data(size_t want) { vf::check_eq(vf_file_size("o"), want, "size of the file"); return vf_file_data("o"); }
static void same(const unsigned char* d, const unsigned char* w, int n, const char* m) { for (int i = 0; i < n; ++i) vf::check_eq((uint64_t)d[i], (uint64_t)w[i], m); }
// scans_per_block: mantissa and exponent are the writer's choice
static uint64_t scans(const unsigned char* p) { return (uint64_t)p[24] << (p[23] & 15); }
static void check1(const unsigned char* d, const GH1& g, bool ext_len)
{
    unsigned char w[32];
    want_gh1(w, g, ext_len);
    for (int i = 0; i < 32; ++i) {
        if (i == 22) vf::check(d[22] / 16.0 == g.base_scan_int, "base scan interval");
        else if (i == 23) vf::check_eq((uint64_t)(d[23] & 0xf0), (uint64_t)w[23], "polarity");
        else if (i == 24) vf::check_eq(scans(d), (uint64_t)g.scans_per_block, "scans per block");
        else vf::check_eq((uint64_t)d[i], (uint64_t)w[i], "general header 1");
    }
}
// every decimal field: smallest, greatest and mixed digits, the others as given
extern "C" void h_decimal()
{
    GH1 g = w_gh1(8058, 0, 0);
    GH2 h = w_gh2();
    static const long long mx[] = { 9999, 999999999999LL, 99, 999, 99, 99, 99, 99, 9999, 999999, 9, 9, 999 };
    int k = (int)vf::choose("k", 0, 12), v = (int)vf::choose("v", 0, 4);
    long long m = mx[k], x = v == 0 ? 0 : v == 1 ? m : v == 2 ? 1 : v == 3 ? (m + 1) / 10 % (m + 1) : 203040506070LL % (m + 1);
    switch (k) {
    case 0: g.file_number = (int)x; break;
    case 1: g.gen_const = x; break;
    case 2: g.year = (int)x; break;
    case 3: g.day = (int)x; break;
    case 4: g.hour = (int)x; break;
    case 5: g.minute = (int)x; break;
    case 6: g.second = (int)x; break;
    case 7: g.manufac_code = (int)x; break;
    case 8: g.manufac_num = (int)x; break;
    case 9: g.bytes_per_scan = (long)x; break;
    case 10: g.polarity = (int)x; break;
    case 11: g.record_type = (int)x; break;
    case 12: g.record_length = (int)x; break;
    }
    { OSEGDRev2_1 o("o", g, h, {}); }
    check1(data(64), g, false);
    vf::reach("end");
}
// file number beyond four digits, extended record length, scan interval, scans per block
extern "C" void h_special()
{
    GH1 g = w_gh1(8058, 0, 0);
    GH2 h = w_gh2();
    static const int F[3] = { 9999, 10000, 123456 };
    g.file_number = F[vf::choose("f", 0, 2)];
    h.expanded_file_num = (uint32_t)g.file_number;
    bool x = vf::choose("x", 0, 1);
    if (x) h.ext_record_len = 70000;
    unsigned char q = vf::sym<unsigned char>("q");
    g.base_scan_int = q / 16.0;
    static const long S[8] = { 0, 1, 255, 256, 510, 1024, 192 << 5, 255l << 15 };
    g.scans_per_block = S[vf::choose("s", 0, 7)];
    { OSEGDRev2_1 o("o", g, h, {}); }
    const unsigned char* d = data(64);
    check1(d, g, x);
    vf::check_eq(vf::get(d + 32, 3, true), (uint64_t)h.expanded_file_num, "expanded file number");
    vf::check_eq(vf::get(d + 46, 3, true), (uint64_t)h.ext_record_len, "extended record length");
    vf::reach("end");
}
// a line or point number: 24 bits and a sign before the point, 16 bits after it
static double number(unsigned char* p, bool neg)
{
    p[0] &= 0x7f;
    uint64_t m = vf::get(p, 5, true);
    double d = (double)m / 65536;
    if (!neg) return d;
    vf::put(p, 0 - m, 5, true);
    return -d;
}
// general header 2 and blocks N: all values
static void blocks(int n)
{
    GH1 g = w_gh1(8058, 0, 0, n);
    GH2 h = {};
    unsigned char w[32] = {};
    vf::bytes("h", w, 32);
    w[9] = w[17] = w[19] = 0;
    for (int i = 22; i < 32; ++i) w[i] = 0;
    w[10] = (unsigned char)vf::choose("major", 0, 2);
    // either kind of record length
    if (vf::choose("len", 0, 1)) w[14] = 0x01;
    else w[14] = w[15] = w[16] = 0;
    h.expanded_file_num = (uint32_t)vf::get(w, 3, true);
    h.ext_ch_sets_per_scan_type = (uint16_t)vf::get(w + 3, 2, true);
    h.extended_hdr_blocks = (uint32_t)vf::get(w + 5, 2, true);
    h.external_hdr_blocks = (uint32_t)vf::get(w + 7, 2, true);
    h.segd_rev_major = w[10];
    h.segd_rev_minor = w[11];
    h.gen_trailer_num_of_blocks = (uint32_t)vf::get(w + 12, 2, true);
    h.ext_record_len = (uint32_t)vf::get(w + 14, 3, true);
    h.gen_hdr_block_num = w[18];
    h.sequence_number = (uint16_t)vf::get(w + 20, 2, true);
    std::vector<std::shared_ptr<AGH>> add;
    unsigned char b[3][32] = {};
    int neg = n ? (int)vf::choose("neg", 0, 3) : 0;
    bool back = n > 1 && vf::choose("back", 0, 1);
    for (int i = 0; i < n; ++i) {
        char nm[3] = { 'b', char('0' + i), 0 };
        vf::bytes(nm, b[i], 20);
        b[i][18] = (unsigned char)(3 + i);
        auto x = std::make_shared<GHN>();
        x->expanded_file_number = (uint32_t)vf::get(b[i], 3, true);
        x->sou_line_num = number(b[i] + 3, i ? 0 : neg & 1);
        x->sou_point_num = number(b[i] + 8, i ? 1 : neg >> 1);
        x->sou_point_index = b[i][13];
        x->phase_control = b[i][14];
        x->type_vibrator = b[i][15];
        x->phase_angle = (int16_t)vf::get(b[i] + 16, 2, true);
        x->gen_hdr_block_num = b[i][18];
        x->sou_set_num = b[i][19];
        add.insert(back ? add.begin() : add.end(), x);
    }
    { OSEGDRev2_1 o("o", g, h, {}, add); }
    const unsigned char* d = data(64 + 32 * n);
    check1(d, g, w[14] != 0);
    same(d + 32, w, 32, "general header 2");
    for (int i = 0; i < n; ++i) same(d + 64 + 32 * i, b[i], 32, "general header N, in order of block numbers");
    vf::reach("end");
}
extern "C" void h_gh2() { blocks(0); }
extern "C" void h_ghn() { blocks((int)vf::choose("n", 1, 2)); }
extern "C" void t_ghn() { blocks(3); }
// channel sets: decimal fields at their limits, the others any value
static CSH set(unsigned char* w, const char* nm, int scan, int setn, int k, int v)
{
    vf::bytes(nm, w, 32);
    bcd(w, 0, 2, scan);
    if (setn > 99) w[1] = 0xff;
    else bcd(w, 2, 2, setn);
    static const int mx[] = { 9999, 9, 9, 9999, 9999, 9999, 9999, 9999, 9999, 9999 };
    static const int at[] = { 16, 20, 23, 24, 28, 32, 36, 40, 44, 48 };
    int x[10], df[] = { 0, 1, 3, 125, 72, 5, 18, 50, 60, 400 };
    for (int i = 0; i < 10; ++i) {
        x[i] = i != k ? df[i] : v == 0 ? 0 : v == 1 ? mx[i] : 5678 % (mx[i] + 1);
        bcd(w, at[i], mx[i] == 9 ? 1 : 4, x[i]);
    }
    int e = (int)vf::choose("e", 0, 9);
    w[10] &= 0xf0;
    w[11] = (unsigned char)(e << 4 | (w[11] & 15));
    // a descale exponent of minus zero is plus zero
    uint16_t m = (uint16_t)(vf::get(w + 6, 2, true) & 0x7fff);
    bool neg = w[6] & 0x80;
    double ds = (double)(m & 0x7fff) / 1024;
    vf::assume(!(neg & (m == 0)));
    return CSH(scan, (uint16_t)setn, (uint8_t)x[1], (uint32_t)vf::get(w + 2, 2, true) * 2, (uint32_t)vf::get(w + 4, 2, true) * 2, neg ? -ds : ds, (uint32_t)x[0], 1 << e, (uint8_t)x[2],
        x[3], x[4], x[5], x[6], x[7], x[8], x[9], (uint16_t)vf::get(w + 26, 2, true), (w[28] >> 4) & 15, w[28] & 15, w[29], w[30], w[31]);
}
extern "C" void h_set()
{
    unsigned char w[32];
    GH1 g = w_gh1(8058, 1, 1);
    GH2 h = w_gh2((int)vf::choose("major", 1, 2));
    std::vector<std::vector<CSH>> c(1);
    int k = (int)vf::choose("k", 0, 9), v = (int)vf::choose("v", 0, 2);
    c[0].push_back(set(w, "c", 1, 1, k, v));
    { OSEGDRev2_1 o("o", g, h, c); }
    const unsigned char* d = data(96);
    check1(d, g, false);
    same(d + 64, w, 32, "channel set");
    vf::reach("end");
}
extern "C" void h_set_number()
{
    unsigned char w[32];
    GH1 g = w_gh1(8058, 1, 1);
    GH2 h = w_gh2();
    static const int N[5] = { 0, 9, 99, 100, 60000 };
    int scan = (int)vf::choose("scan", 0, 2) * 49, n = N[vf::choose("n", 0, 4)];
    std::vector<std::vector<CSH>> c(1);
    c[0].push_back(set(w, "c", scan, n, 0, 0));
    { OSEGDRev2_1 o("o", g, h, c); }
    same(data(96) + 64, w, 32, "channel set");
    vf::reach("end");
}
// the whole layout
static void layout(int scans, int sets, int skew, int extd, int extl, int ext)
{
    GH1 g = w_gh1(8058, scans, sets, 1);
    GH2 h = w_gh2();
    g.skew_blocks = skew;
    g.extended_hdr_blocks = extd;
    g.external_hdr_blocks = extl;
    if (ext & 1) g.channel_sets_per_scan_type = 165, h.ext_ch_sets_per_scan_type = (uint16_t)sets;
    if (ext & 2) g.extended_hdr_blocks = 165, h.extended_hdr_blocks = (uint32_t)extd;
    if (ext & 4) g.external_hdr_blocks = 165, h.external_hdr_blocks = (uint32_t)extl;
    std::vector<std::vector<CSH>> c(scans);
    for (int s = 0; s < scans; ++s)
        for (int k = 0; k < sets; ++k) {
            c[s].push_back(w_set(s + 1, k + 1, 10 * s + k));
            if (k > 98) c[s].back().ext_ch_set_num = (uint16_t)(k + 1);
        }
    auto x = std::make_shared<GHN>();
    *x = {};
    x->gen_hdr_block_num = 3;
    std::vector<std::vector<char>> a(extd, std::vector<char>(32)), b(extl, std::vector<char>(32));
    auto some = [](int i, int n) { return n < 5 || i == 0 || i > n - 3; }; // of many blocks the first and the last two
    auto other = [](std::vector<char>& v, int i) { for (int j = 0; j < 32; ++j) v[j] = (char)(i * 7 + j); };
    for (int i = 0; i < extd; ++i) if (!some(i, extd)) other(a[i], i); else { char n[3] = { 'a', char('0' + i % 10), 0 }; vf::bytes(n, a[i].data(), 32); }
    for (int i = 0; i < extl; ++i) if (!some(i, extl)) other(b[i], i + 1); else { char n[3] = { 'l', char('0' + i % 10), 0 }; vf::bytes(n, b[i].data(), 32); }
    { OSEGDRev2_1 o("o", g, h, c, { x }, a, b); }
    const unsigned char* d = data(96 + 32 * (scans * (sets + skew) + extd + extl));
    check1(d, g, false);
    vf::check_eq(vf::get(d + 35, 2, true), (uint64_t)h.ext_ch_sets_per_scan_type, "extended number of channel sets");
    vf::check_eq(vf::get(d + 37, 2, true), (uint64_t)h.extended_hdr_blocks, "extended number of extended header blocks");
    vf::check_eq(vf::get(d + 39, 2, true), (uint64_t)h.external_hdr_blocks, "extended number of external header blocks");
    vf::check(d[64 + 18] == 3, "general header N");
    d += 96;
    for (int s = 0; s < scans; ++s) {
        for (int k = 0; k < sets; ++k, d += 32) vf::check(dec(d, 0, 2) == (uint64_t)s + 1 && (k > 98 ? d[1] == 0xff && vf::get(d + 26, 2, true) == (uint64_t)k + 1 : dec(d, 2, 2) == (uint64_t)k + 1) && dec(d, 16, 4) == (uint64_t)(10 * s + k), "channel sets in order");
        bool zero = true;
        for (int i = 0; i < 32 * skew; ++i) zero &= !d[i];
        vf::check(zero, "skew blocks are empty");
        d += 32 * skew;
    }
    for (auto& v : a) { same(d, (unsigned char*)v.data(), 32, "extended header"); d += 32; }
    for (auto& v : b) { same(d, (unsigned char*)v.data(), 32, "external header"); d += 32; }
    vf::reach("end");
}
extern "C" void h_layout() { layout((int)vf::choose("scans", 0, 2), (int)vf::choose("sets", 0, 2), (int)vf::choose("skew", 0, 1), (int)vf::choose("extd", 0, 2), (int)vf::choose("extl", 0, 2), 0); }
extern "C" void h_ext() { layout((int)vf::choose("scans", 1, 2), (int)vf::choose("sets", 1, 2), 0, (int)vf::choose("extd", 0, 2), (int)vf::choose("extl", 0, 2), (int)vf::choose("ext", 1, 7)); }
extern "C" void t_layout() { layout((int)vf::choose("scans", 0, 3), (int)vf::choose("sets", 0, 3), (int)vf::choose("skew", 0, 3), (int)vf::choose("extd", 0, 3), (int)vf::choose("extl", 0, 3), 0); }
// one of the counts great
extern "C" void h_many()
{
    int k = (int)vf::choose("k", 0, 4);
    bool x = k != 0 && k != 2 && vf::choose("x", 0, 1);
    int n = x ? (vf::choose("n", 0, 1) ? 300 : 100) : (vf::choose("n", 0, 1) ? 99 : 10);
    layout(k == 0 ? n : 1, k == 1 ? n : 1, k == 2 ? n : 0, k == 3 ? n : 1, k == 4 ? n : 1, !x ? 0 : k == 1 ? 1 : k == 3 ? 2 : 4);
}
