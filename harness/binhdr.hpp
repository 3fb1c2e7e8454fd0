#pragma once
#include "segy.hpp"
// the fields of the binary header at the standard's offsets (0-based in the 400 bytes)
template <class F> inline void bin_fields(CommonSEGY::BinaryHeader& h, F f)
{
    f(h.job_id, 0, "job_id"); f(h.line_num, 4, "line_num"); f(h.reel_num, 8, "reel_num");
    f(h.tr_per_ens, 12, "tr_per_ens"); f(h.aux_per_ens, 14, "aux_per_ens"); f(h.samp_int, 16, "samp_int");
    f(h.samp_int_orig, 18, "samp_int_orig"); f(h.samp_per_tr, 20, "samp_per_tr"); f(h.samp_per_tr_orig, 22, "samp_per_tr_orig");
    f(h.format_code, 24, "format_code"); f(h.ens_fold, 26, "ens_fold"); f(h.sort_code, 28, "sort_code");
    f(h.vert_sum_code, 30, "vert_sum_code"); f(h.sw_freq_at_start, 32, "sw_freq_at_start"); f(h.sw_freq_at_end, 34, "sw_freq_at_end");
    f(h.sw_length, 36, "sw_length"); f(h.sw_type_code, 38, "sw_type_code"); f(h.sw_ch_tr_num, 40, "sw_ch_tr_num");
    f(h.taper_at_start, 42, "taper_at_start"); f(h.taper_at_end, 44, "taper_at_end"); f(h.taper_type, 46, "taper_type");
    f(h.corr_traces, 48, "corr_traces"); f(h.bin_gain_recov, 50, "bin_gain_recov"); f(h.amp_recov_meth, 52, "amp_recov_meth");
    f(h.measure_system, 54, "measure_system"); f(h.impulse_sig_pol, 56, "impulse_sig_pol"); f(h.vib_pol_code, 58, "vib_pol_code");
    f(h.ext_tr_per_ens, 60, "ext_tr_per_ens"); f(h.ext_aux_per_ens, 64, "ext_aux_per_ens"); f(h.ext_samp_per_tr, 68, "ext_samp_per_tr");
    f(h.ext_samp_int, 72, "ext_samp_int"); f(h.ext_samp_int_orig, 80, "ext_samp_int_orig"); f(h.ext_samp_per_tr_orig, 88, "ext_samp_per_tr_orig");
    f(h.ext_ens_fold, 92, "ext_ens_fold"); f(h.SEGY_rev_major_ver, 300, "SEGY_rev_major_ver"); f(h.SEGY_rev_minor_ver, 301, "SEGY_rev_minor_ver");
    f(h.fixed_tr_length, 302, "fixed_tr_length"); f(h.ext_text_headers_num, 304, "ext_text_headers_num");
}
template <class F> inline void bin_fields_rev2(CommonSEGY::BinaryHeader& h, F f)
{
    f(h.max_num_add_tr_headers, 306, "max_num_add_tr_headers"); f(h.time_basis_code, 310, "time_basis_code");
    f(h.num_of_tr_in_file, 312, "num_of_tr_in_file"); f(h.byte_off_of_first_tr, 320, "byte_off_of_first_tr"); f(h.num_of_trailer_stanza, 328, "num_of_trailer_stanza");
}
