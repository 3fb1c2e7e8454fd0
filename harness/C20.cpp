// C20: general header blocks 2, 3 and N of SEG-D are reported field by field.
#include "segd.hpp"
static uint64_t be(const unsigned char* p, int n) { return vf::get(p, n, true); }
// revision 0, 1, 2: block 2 and blocks N
static void rev12(int add)
{
    int major = (int)vf::choose("major", 0, 2);
    Gd<32 * 5> f;
    f.gh1(8058, add, 0, 0);
    unsigned char* p = f.at(32);
    vf::bytes("g2", p, 32);
    p[10] = (unsigned char)major;
    unsigned char* q = f.at(32 * (add - 1));
    vf::bytes("gn", q, 32 * (add - 1));
    for (int i = 1; i < add - 1; ++i)
        for (int j = 0; j < i; ++j) vf::assume(q[32 * i + 18] != q[32 * j + 18]);
    f.save("a");
    ISEGD g("a");
    auto o = g.general_header2();
    vf::check(o.has_value(), "block 2 present");
    vf::check_eq((uint64_t)o->expanded_file_num, be(p, 3), "expanded file number");
    vf::check_eq((uint64_t)o->ext_ch_sets_per_scan_type, be(p + 3, 2), "extended channel sets per scan type");
    vf::check_eq((uint64_t)o->extended_hdr_blocks, be(p + 5, 2), "extended header blocks");
    vf::check_eq((uint64_t)o->external_hdr_blocks, be(p + 7, 2), "external header blocks");
    vf::check_eq((uint64_t)o->segd_rev_major, (uint64_t)p[10], "revision");
    vf::check_eq((uint64_t)o->segd_rev_minor, (uint64_t)p[11], "minor revision");
    vf::check_eq((uint64_t)o->gen_trailer_num_of_blocks, be(p + 12, 2), "general trailer blocks");
    vf::check_eq((uint64_t)o->ext_record_len, be(p + 14, 3), "extended record length");
    vf::check_eq((uint64_t)o->gen_hdr_block_num, (uint64_t)p[18], "block number");
    vf::check_eq((uint64_t)o->sequence_number, be(p + 20, 2), "sequence number");
    vf::check(!g.general_header3(), "no block 3 before revision 3");
    auto v = g.general_headerN();
    vf::check_eq(v.size(), (size_t)(add - 1), "number of blocks N");
    for (size_t k = 1; k < v.size(); ++k) vf::check(v[k - 1].gen_hdr_block_num < v[k].gen_hdr_block_num, "blocks ordered by number");
    for (int i = 0; i < add - 1; ++i) {
        unsigned char* s = q + 32 * i;
        bool found = false;
        for (auto& h : v)
            if (h.gen_hdr_block_num == s[18]) {
                found = true;
                vf::check_eq((uint64_t)h.expanded_file_number, be(s, 3), "N: expanded file number");
                vf::check_eqd(h.sou_line_num, (double)(int32_t)vf::sext(be(s + 3, 3), 24) + (double)(uint16_t)be(s + 6, 2) / 65536., "N: source line");
                vf::check_eqd(h.sou_point_num, (double)(int32_t)vf::sext(be(s + 8, 3), 24) + (double)(uint16_t)be(s + 11, 2) / 65536., "N: source point");
                vf::check_eq((uint64_t)h.sou_point_index, (uint64_t)s[13], "N: source point index");
                vf::check_eq((uint64_t)h.phase_control, (uint64_t)s[14], "N: phase control");
                vf::check_eq((uint64_t)h.type_vibrator, (uint64_t)s[15], "N: type of vibrator");
                vf::check_eq((int64_t)h.phase_angle, vf::sext(be(s + 16, 2), 16), "N: phase angle");
                vf::check_eq((uint64_t)h.sou_set_num, (uint64_t)s[19], "N: source set");
                vf::check_eq((uint64_t)h.type(), (uint64_t)s[18], "N: type");
            }
        vf::check(found, "block N present");
    }
    vf::check(!g.has_record() && !g.has_trace(), "whole file read");
    vf::reach("end");
}
extern "C" void h_two() { rev12(1); }
extern "C" void h_three() { rev12(2); }
extern "C" void h_four() { rev12(3); }
extern "C" void t_five() { rev12(4); }
// revision 3
extern "C" void h_rev3()
{
    Gd<32 * 3> f;
    f.gh1(8058, (int)vf::choose("add", 1, 2), 0, 0);
    unsigned char* p = f.at(32);
    vf::bytes("g2", p, 32);
    p[10] = (unsigned char)vf::choose("major", 3, 4);
    unsigned char* q = f.at(32);
    vf::bytes("g3", q, 32);
    f.save("a");
    ISEGD g("a");
    auto o = g.general_header2();
    vf::check(o.has_value(), "block 2 present");
    vf::check_eq((uint64_t)o->expanded_file_num, be(p, 3), "expanded file number");
    vf::check_eq((uint64_t)o->ext_ch_sets_per_scan_type, be(p + 3, 2), "extended channel sets per scan type");
    vf::check_eq((uint64_t)o->extended_hdr_blocks, be(p + 5, 3), "extended header blocks");
    vf::check_eq((uint64_t)o->extended_skew_blocks, be(p + 8, 2), "extended skew blocks");
    vf::check_eq((uint64_t)o->segd_rev_major, (uint64_t)p[10], "revision");
    vf::check_eq((uint64_t)o->segd_rev_minor, (uint64_t)p[11], "minor revision");
    vf::check_eq((uint64_t)o->gen_trailer_num_of_blocks, be(p + 12, 4), "general trailer blocks");
    vf::check_eq((uint64_t)o->ext_record_len, be(p + 16, 4), "extended record length");
    vf::check_eq((uint64_t)o->record_set_number, be(p + 20, 2), "record set number");
    vf::check_eq((uint64_t)o->ext_num_add_blks_in_gen_hdr, be(p + 22, 2), "extended number of additional blocks");
    vf::check_eq((uint64_t)o->dominant_sampling_int, be(p + 24, 3), "dominant sampling interval");
    vf::check_eq((uint64_t)o->external_hdr_blocks, be(p + 27, 3), "external header blocks");
    vf::check_eq((uint64_t)o->gen_hdr_block_num, (uint64_t)p[31], "block number");
    auto t = g.general_header3();
    vf::check(t.has_value(), "block 3 present");
    vf::check_eq((uint64_t)t->time_zero, be(q, 8), "time zero");
    vf::check_eq((uint64_t)t->record_size, be(q + 8, 8), "record size");
    vf::check_eq((uint64_t)t->data_size, be(q + 16, 8), "data size");
    vf::check_eq((uint64_t)t->header_size, be(q + 24, 4), "header size");
    vf::check_eq((uint64_t)t->extd_rec_mode, (uint64_t)q[28], "extended recording mode");
    vf::check_eq((uint64_t)t->rel_time_mode, (uint64_t)q[29], "relative time mode");
    vf::check_eq((uint64_t)t->gen_hdr_block_num, (uint64_t)q[31], "block 3 number");
    vf::check(g.general_headerN().empty(), "no blocks N");
    vf::check(!g.has_record() && !g.has_trace(), "whole file read");
    vf::reach("end");
}
