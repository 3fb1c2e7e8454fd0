// the trace header words of the SEG-Y standard under the library's names: written
// down here so that the library's own table is checked, not trusted
#pragma once
#include "segy.hpp"
inline const TMap& std_map()
{
    static const TMap m = {
    { "SEG00000", {
            { 0, { "TRC_SEQ_LINE", VT::int32_t } },
            { 4, { "TRC_SEQ_SGY", VT::int32_t } },
            { 8, { "FFID", VT::int32_t } },
            { 12, { "CHAN", VT::int32_t } },
            { 16, { "ESP", VT::int32_t } },
            { 20, { "ENS_NO", VT::int32_t } },
            { 24, { "SEQ_NO", VT::int32_t } },
            { 28, { "TRACE_ID", VT::int16_t } },
            { 30, { "VERT_SUM", VT::int16_t } },
            { 32, { "HOR_SUM", VT::int16_t } },
            { 34, { "DATA_USE", VT::int16_t } },
            { 36, { "OFFSET", VT::int32_t } },
            { 40, { "R_ELEV", VT::int32_t } },
            { 44, { "S_ELEV", VT::int32_t } },
            { 48, { "S_DEPTH", VT::int32_t } },
            { 52, { "R_DATUM", VT::int32_t } },
            { 56, { "S_DATUM", VT::int32_t } },
            { 60, { "S_WATER", VT::int32_t } },
            { 64, { "R_WATER", VT::int32_t } },
            { 68, { "ELEV_SCALAR", VT::int16_t } },
            { 70, { "COORD_SCALAR", VT::int16_t } },
            { 72, { "SOU_X", VT::int32_t } },
            { 76, { "SOU_Y", VT::int32_t } },
            { 80, { "REC_X", VT::int32_t } },
            { 84, { "REC_Y", VT::int32_t } },
            { 88, { "COORD_UNITS", VT::int16_t } },
            { 90, { "WEATH_VEL", VT::int16_t } },
            { 92, { "SUBWEATH_VEL", VT::int16_t } },
            { 94, { "S_UPHOLE", VT::int16_t } },
            { 96, { "R_UPHOLE", VT::int16_t } },
            { 98, { "S_STAT", VT::int16_t } },
            { 100, { "R_STAT", VT::int16_t } },
            { 102, { "TOT_STAT", VT::int16_t } },
            { 104, { "LAG_A", VT::int16_t } },
            { 106, { "LAG_B", VT::int16_t } },
            { 108, { "DELAY_TIME", VT::int16_t } },
            { 110, { "MUTE_START", VT::int16_t } },
            { 112, { "MUTE_END", VT::int16_t } },
            { 114, { "SAMP_NUM", VT::int16_t } },
            { 116, { "SAMP_INT", VT::int16_t } },
            { 118, { "GAIN_TYPE", VT::int16_t } },
            { 120, { "GAIN_CONST", VT::int16_t } },
            { 122, { "INIT_GAIN", VT::int16_t } },
            { 124, { "CORRELATED", VT::int16_t } },
            { 126, { "SW_START", VT::int16_t } },
            { 128, { "SW_END", VT::int16_t } },
            { 130, { "SW_LENGTH", VT::int16_t } },
            { 132, { "SW_TYPE", VT::int16_t } },
            { 134, { "SW_TAPER_START", VT::int16_t } },
            { 136, { "SW_TAPER_END", VT::int16_t } },
            { 138, { "TAPER_TYPE", VT::int16_t } },
            { 140, { "ALIAS_FILT_FREQ", VT::int16_t } },
            { 142, { "ALIAS_FILT_SLOPE", VT::int16_t } },
            { 144, { "NOTCH_FILT_FREQ", VT::int16_t } },
            { 146, { "NOTCH_FILT_SLOPE", VT::int16_t } },
            { 148, { "LOW_CUT_FREQ", VT::int16_t } },
            { 150, { "HIGH_CUT_FREQ", VT::int16_t } },
            { 152, { "LOW_CUT_SLOPE", VT::int16_t } },
            { 154, { "HIGH_CUT_SLOPE", VT::int16_t } },
            { 156, { "YEAR", VT::int16_t } },
            { 158, { "DAY", VT::int16_t } },
            { 160, { "HOUR", VT::int16_t } },
            { 162, { "MINUTE", VT::int16_t } },
            { 164, { "SECOND", VT::int16_t } },
            { 166, { "TIME_BASIS_CODE", VT::int16_t } },
            { 168, { "TRACE_WEIGHT", VT::int16_t } },
            { 170, { "GROUP_NUM_ROLL", VT::int16_t } },
            { 172, { "GROUP_NUM_FIRST", VT::int16_t } },
            { 174, { "GROUP_NUM_LAST", VT::int16_t } },
            { 176, { "GAP_SIZE", VT::int16_t } },
            { 178, { "OVER_TRAVEL", VT::int16_t } },
            { 180, { "CDP_X", VT::int32_t } },
            { 184, { "CDP_Y", VT::int32_t } },
            { 188, { "INLINE", VT::int32_t } },
            { 192, { "XLINE", VT::int32_t } },
            { 196, { "SP_NUM", VT::int32_t } },
            { 200, { "SP_NUM_SCALAR", VT::int16_t } },
            { 202, { "TR_VAL_UNIT", VT::int16_t } },
            { 204, { "TRANS_CONST_MANT", VT::int32_t } },
            { 208, { "TRANS_CONST_EXP", VT::int16_t } },
            { 210, { "TRANS_UNITS", VT::int16_t } },
            { 212, { "DEVICE_ID", VT::int16_t } },
            { 214, { "TIME_SCALAR", VT::int16_t } },
            { 216, { "SOURCE_TYPE", VT::int16_t } },
            { 218, { "SOU_V_DIR", VT::int16_t } },
            { 220, { "SOU_X_DIR", VT::int16_t } },
            { 222, { "SOU_I_DIR", VT::int16_t } },
            { 224, { "SOURCE_MEASUREMENT_MANT", VT::int32_t } },
            { 228, { "SOURCE_MEASUREMENT_EXP", VT::int16_t } },
            { 230, { "SOU_MEAS_UNIT", VT::int16_t } },
        } },
        { "SEG00001", {
            { 0, { "TRC_SEQ_LINE", VT::uint64_t } },
            { 8, { "TRC_SEQ_SGY", VT::uint64_t } },
            { 16, { "FFID", VT::uint64_t } },
            { 24, { "ENS_NO", VT::uint64_t } },
            { 32, { "R_ELEV", VT::ieee_double } },
            { 40, { "R_DEPTH", VT::ieee_double } },
            { 48, { "S_ELEV", VT::ieee_double } },
            { 56, { "S_DEPTH", VT::ieee_double } },
            { 64, { "R_DATUM", VT::ieee_double } },
            { 72, { "S_DATUM", VT::ieee_double } },
            { 80, { "S_WATER", VT::ieee_double } },
            { 88, { "R_WATER", VT::ieee_double } },
            { 96, { "SOU_X", VT::ieee_double } },
            { 104, { "SOU_Y", VT::ieee_double } },
            { 112, { "REC_X", VT::ieee_double } },
            { 120, { "REC_Y", VT::ieee_double } },
            { 128, { "OFFSET", VT::ieee_double } },
            { 136, { "SAMP_NUM", VT::int32_t } },
            { 140, { "NANOSECOND", VT::int32_t } },
            { 144, { "SAMP_INT", VT::ieee_double } },
            { 152, { "CABLE_NUM", VT::int32_t } },
            { 156, { "ADD_TRC_HDR_NUM", VT::int16_t } },
            { 158, { "LAST_TRC_FLAG", VT::int16_t } },
            { 160, { "CDP_X", VT::ieee_double } },
            { 168, { "CDP_Y", VT::ieee_double } },
        } },
    };
    return m;
}
