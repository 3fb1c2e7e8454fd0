// C21: additional general header blocks of SEG-D rev 3 are reported by type.
#include "segd.hpp"
static uint64_t be(const unsigned char* p, int n) { return vf::get(p, n, true); }
#define U(field, off, len) vf::check_eq((uint64_t)h.field, be(p + off, len), name)
#define C(field, off) for (size_t i_ = 0; i_ < sizeof(h.field); ++i_) vf::check_eq((uint64_t)(unsigned char)h.field[i_], (uint64_t)p[off + i_], name)
#define D(field, digit, len) vf::check_eq((uint64_t)h.field, dec(p, digit, len), name)
#define TAG U(gen_hdr_block_type, 31, 1); vf::check_eq((uint64_t)h.type(), (uint64_t)p[31], name); static_assert(true)
template <class H> static void src(const H& h, const unsigned char* p, const char* name)
{
    U(expanded_file_number, 0, 3);
    vf::check_eqd(h.sou_line_num, (double)(int32_t)vf::sext(be(p + 3, 3), 24) + (double)(uint16_t)be(p + 6, 2) / 65536., name);
    vf::check_eqd(h.sou_point_num, (double)(int32_t)vf::sext(be(p + 8, 3), 24) + (double)(uint16_t)be(p + 11, 2) / 65536., name);
    U(sou_point_index, 13, 1);
    U(source_id, 18, 1);
    U(source_set_num, 19, 1);
    U(reshoot_idx, 20, 1);
    U(group_idx, 21, 1);
    U(depth_idx, 22, 1);
    U(offset_crossline, 23, 2);
    U(offset_inline, 25, 2);
    U(size, 27, 2);
    U(offset_depth, 29, 2);
}
template <class H> static void one(H h, const unsigned char* p, const char* name);
#define ONE(T) template <> void one(CommonSEGD::T h, const unsigned char* p, const char* name)
ONE(GeneralHeaderVes) { C(abbr_vessel_crew_name, 0); C(vessel_crew_name, 3); TAG; static_assert(sizeof(h.abbr_vessel_crew_name) == 3 && sizeof(h.vessel_crew_name) == 28); }
ONE(GeneralHeaderSur) { C(survey_area_name, 0); TAG; static_assert(sizeof(h.survey_area_name) == 31); }
ONE(GeneralHeaderCli) { C(client_name, 0); TAG; static_assert(sizeof(h.client_name) == 31); }
ONE(GeneralHeaderJob) { C(abbr_job_id, 0); C(job_id, 5); TAG; static_assert(sizeof(h.abbr_job_id) == 5 && sizeof(h.job_id) == 26); }
ONE(GeneralHeaderLin) { C(line_abbr, 0); C(line_id, 7); TAG; static_assert(sizeof(h.line_abbr) == 7 && sizeof(h.line_id) == 24); }
ONE(GeneralHeaderVib)
{
    src(h, p, name);
    U(phase_control, 14, 1);
    U(type_vibrator, 15, 1);
    vf::check_eq((int64_t)h.phase_angle, vf::sext(be(p + 16, 2), 16), name);
    TAG;
}
ONE(GeneralHeaderExp) { src(h, p, name); U(depth, 14, 2); U(charge_length, 16, 1); U(soil_type, 17, 1); TAG; }
ONE(GeneralHeaderAir) { src(h, p, name); U(depth, 14, 2); U(air_pressure, 16, 2); TAG; }
ONE(GeneralHeaderWat) { src(h, p, name); U(depth, 14, 2); U(air_pressure, 16, 2); TAG; }
ONE(GeneralHeaderEle) { src(h, p, name); U(source_type, 14, 1); U(moment, 15, 3); TAG; }
ONE(GeneralHeaderOth) { src(h, p, name); TAG; }
ONE(GeneralHeaderAdd) { U(time, 0, 8); U(source_status, 8, 1); U(source_id, 9, 1); U(source_moving, 10, 1); C(error_description, 11); TAG; static_assert(sizeof(h.error_description) == 20); }
ONE(GeneralHeaderSaux)
{
    U(source_id, 0, 1);
    D(scan_type_num_1, 2, 2); U(ch_set_num_1, 2, 2); U(trace_num_1, 4, 3);
    D(scan_type_num_2, 14, 2); U(ch_set_num_2, 8, 2); U(trace_num_2, 10, 3);
    D(scan_type_num_3, 26, 2); U(ch_set_num_3, 14, 2); U(trace_num_3, 16, 3);
    D(scan_type_num_4, 38, 2); U(ch_set_num_4, 20, 2); U(trace_num_4, 22, 3);
    D(scan_type_num_5, 50, 2); U(ch_set_num_5, 26, 2); U(trace_num_5, 28, 3);
    TAG;
}
ONE(GeneralHeaderCoord) { C(crs, 0); TAG; static_assert(sizeof(h.crs) == 31); }
ONE(GeneralHeaderPos1) { U(time_of_position, 0, 8); U(time_of_measurement, 8, 8); U(vert_error, 16, 4); U(hor_error_semi_major, 20, 4); U(hor_error_semi_minor, 24, 4); U(hor_error_orientation, 28, 2); U(position_type, 30, 1); TAG; }
ONE(GeneralHeaderPos2) { U(crs_a_coord1, 0, 8); U(crs_a_coord2, 8, 8); U(crs_a_coord3, 16, 8); U(crs_a_crsref, 24, 2); U(pos1_valid, 26, 1); U(pos1_quality, 27, 1); TAG; }
ONE(GeneralHeaderPos3) { U(crs_b_coord1, 0, 8); U(crs_b_coord2, 8, 8); U(crs_b_coord3, 16, 8); U(crs_b_crsref, 24, 2); U(pos2_valid, 26, 1); U(pos2_quality, 27, 1); TAG; }
ONE(GeneralHeaderRel) { U(offset_east, 0, 4); U(offset_north, 4, 4); U(offset_vert, 8, 4); C(description, 12); TAG; static_assert(sizeof(h.description) == 19); }
ONE(GeneralHeaderSen) { U(instrument_test_time, 0, 8); U(sensor_sensitivity, 8, 4); U(instr_test_result, 12, 1); C(serial_number, 13); TAG; static_assert(sizeof(h.serial_number) == 18); }
ONE(GeneralHeaderSCa) { U(freq1, 0, 4); U(amp1, 4, 4); U(phase1, 8, 4); U(freq2, 12, 4); U(amp2, 16, 4); U(phase2, 20, 4); U(calib_applied, 24, 1); TAG; }
ONE(GeneralHeaderTim) { U(time_of_depl, 0, 8); U(time_of_retr, 8, 8); U(timer_offset_depl, 16, 4); U(time_offset_retr, 20, 4); U(timedrift_corr, 24, 1); U(corr_method, 25, 1); TAG; }
ONE(GeneralHeaderElSR) { U(equip_dim_x, 0, 3); U(equip_dim_y, 3, 3); U(equip_dim_z, 6, 3); U(pos_term, 9, 1); U(equip_offset_x, 10, 3); U(equip_offset_y, 13, 3); U(equip_offset_z, 16, 3); TAG; }
ONE(GeneralHeaderOri) { U(rot_x, 0, 4); U(rot_y, 4, 4); U(rot_z, 8, 4); U(ref_orientation, 12, 4); U(time_stamp, 16, 8); U(ori_type, 24, 1); U(ref_orient_valid, 25, 1); U(rot_applied, 26, 1); U(rot_north_applied, 27, 1); TAG; }
ONE(GeneralHeaderMeas) { U(timestamp, 0, 8); U(measurement_value, 8, 4); U(maximum_value, 12, 4); U(minimum_value, 16, 4); U(quantity_class, 20, 2); U(unit_of_measure, 22, 2); U(measurement_description, 24, 2); TAG; }
static const unsigned char TYPES[25] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f, 0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x55, 0x56, 0x60, 0x61, 0 };
template <class O> static void opt(O o, const unsigned char* p, const char* name)
{
    vf::check(o.has_value() == (p != nullptr), p ? "block present" : "no block of a type that is not in the file");
    if (p && o) one(*o, p, name);
}
// last block of each type in the file, or null
template <class F> static void all(ISEGD& g, F find)
{
    opt(g.general_header_vessel_crew_id(), find(0x10), "vessel or crew");
    opt(g.general_header_survey_name(), find(0x11), "survey area");
    opt(g.general_header_client_name(), find(0x12), "client");
    opt(g.general_header_job_id(), find(0x13), "job");
    opt(g.general_header_line_id(), find(0x14), "line");
    opt(g.general_header_vibrator_info(), find(0x15), "vibrator");
    opt(g.general_header_explosive_info(), find(0x16), "explosive");
    opt(g.general_header_airgun_info(), find(0x17), "airgun");
    opt(g.general_header_watergun_info(), find(0x18), "watergun");
    opt(g.general_header_electromagnetic_info(), find(0x19), "electromagnetic");
    opt(g.general_header_other_source_info(), find(0x1f), "other source");
    opt(g.general_header_add_source_info(), find(0x20), "additional source information");
    opt(g.general_header_sou_aux_chan_ref(), find(0x21), "source auxiliary channel reference");
    opt(g.general_header_sen_info_hdr_ext_blk(), find(0x41), "sensor information");
    opt(g.general_header_sen_calib_blk(), find(0x43), "sensor calibration");
    opt(g.general_header_time_drift_blk(), find(0x44), "time drift");
    opt(g.general_header_elemag_src_rec_desc_blk(), find(0x45), "electromagnetic source and receiver");
    opt(g.general_header_position_blk_1(), find(0x50), "position 1");
    opt(g.general_header_position_blk_2(), find(0x51), "position 2");
    opt(g.general_header_position_blk_3(), find(0x52), "position 3");
    opt(g.general_header_coord_ref_blk(), find(0x55), "coordinate reference system");
    opt(g.general_header_relative_pos_blk(), find(0x56), "relative position");
    opt(g.general_header_orient_hdr_blk(), find(0x60), "orientation");
    opt(g.general_header_measurement_blk(), find(0x61), "measurement");
}
template <int M> static void blocks(int n, const unsigned char* types, bool ext)
{
    Gd<32 * (M + 3)> f;
    f.gh1(8058, ext ? 15 : n + 2, 0, 0);
    unsigned char* p = f.gh2(3, 0);
    if (ext) vf::put(p + 22, n + 2, 2, true);
    f.gh3();
    unsigned char* q = f.at(32 * n);
    vf::bytes("blk", q, 32 * n);
    for (int i = 0; i < n; ++i) q[32 * i + 31] = types[i];
    f.save("a");
    ISEGD g("a");
    vf::check(!g.has_record() && !g.has_trace(), "whole file read");
    all(g, [&](unsigned char t) -> const unsigned char* {
        for (int i = n; i--;) if (types[i] == t) return q + 32 * i;
        return nullptr;
    });
    vf::reach("end");
}
// one block of each type (or of none of them)
extern "C" void h_one()
{
    unsigned char t = TYPES[vf::choose("type", 0, 24)];
    blocks<1>(1, &t, vf::choose("ext", 0, 1));
}
// two neighbours in the list of types, in both orders
extern "C" void h_two()
{
    int k = (int)vf::choose("k", 0, 23);
    bool sw = vf::choose("swap", 0, 1);
    unsigned char t[2] = { TYPES[k], TYPES[(k + 1) % 24] };
    if (sw) t[0] = TYPES[(k + 1) % 24], t[1] = TYPES[k];
    blocks<2>(2, t, false);
}
// every type at once; more than 15 blocks need the extended number
extern "C" void h_all() { blocks<24>(24, TYPES, true); }
extern "C" void h_twelve() { blocks<12>(12, TYPES + vf::choose("from", 0, 12), false); }
// an unknown type is skipped
extern "C" void h_unknown()
{
    unsigned char t[3] = { 0x55, vf::sym<unsigned char>("t"), 0x60 };
    for (int i = 0; i < 24; ++i) vf::assume(t[1] != TYPES[i]);
    blocks<3>(3, t, false);
}
