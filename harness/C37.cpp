// C37: every field of every header has a description of its own, and the predefined
// trace header maps hold the documented words
#include "segy.hpp"
#include "segd.hpp"
#include "Exception.hpp"
#include <cstring>
#include <string>
using VT = Trace::Header::ValueType;
struct Field { const char* field; const char* words[7]; };
struct Word { int ext; unsigned off; const char* name; VT type; };
// words that tell the description of a field from those of the other fields
static const Field f_BinaryHeader[] = {
    { "JOB_ID", { "job" } },
    { "LINE_NUM", { "line" } },
    { "REEL_NUM", { "reel" } },
    { "TR_PER_ENS", { "number", "data", "traces", "per", "ensemble" } },
    { "AUX_PER_ENS", { "number", "auxiliary", "traces", "per", "ensemble" } },
    { "SAMP_INT", { "sample", "interval" } },
    { "SAMP_INT_ORIG", { "sample", "interval", "original", "field", "recording" } },
    { "SAMP_PER_TR", { "number", "samples", "per", "data", "trace" } },
    { "SAMP_PER_TR_ORIG", { "number", "field" } },
    { "FORMAT_CODE", { "data", "format" } },
    { "ENS_FOLD", { "ensemble", "fold" } },
    { "SORT_CODE", { "sorting" } },
    { "VERT_SUM_CODE", { "vertical" } },
    { "SW_FREQ_AT_START", { "frequency", "start" } },
    { "SW_FREQ_AT_END", { "frequency", "end" } },
    { "SW_LENGTH", { "sweep", "length", "ms" } },
    { "SW_TYPE_CODE", { "sweep", "type" } },
    { "SW_CH_TR_NUM", { "channel" } },
    { "TAPER_AT_START", { "tapered" } },
    { "TAPER_AT_END", { "taper", "end" } },
    { "TAPER_TYPE", { "taper", "type" } },
    { "CORR_TRACES", { "correlated" } },
    { "BIN_GAIN_RECOV", { "binary" } },
    { "AMP_RECOV_METH", { "amplitude" } },
    { "MEASURE_SYSTEM", { "measure" } },
    { "IMPULSE_SIG_POL", { "impulse" } },
    { "VIB_POL_CODE", { "vibratory" } },
    { "EXT_TR_PER_ENS", { "extended", "data", "traces" } },
    { "EXT_AUX_PER_ENS", { "extended", "auxiliary" } },
    { "EXT_SAMP_PER_TR", { "extended", "number", "samples", "per", "data", "trace" } },
    { "EXT_SAMP_INT", { "extended", "sample", "interval" } },
    { "EXT_SAMP_INT_ORIG", { "extended", "field" } },
    { "EXT_SAMP_PER_TR_ORIG", { "extended", "number", "original" } },
    { "EXT_ENS_FOLD", { "extended", "fold" } },
    { "ENDIANNESS", { "integer" } },
    { "SEGY_REV_MAJOR_VER", { "major" } },
    { "SEGY_REV_MINOR_VER", { "minor" } },
    { "FIXED_TR_LENGTH", { "fixed" } },
    { "EXT_TEXT_HEADERS_NUM", { "textual" } },
    { "MAX_NUM_ADD_TR_HEADERS", { "maximum" } },
    { "TIME_BASIS_CODE", { "time" } },
    { "NUM_OF_TR_IN_FILE", { "this" } },
    { "BYTE_OFF_OF_FIRST_TR", { "offset" } },
    { "NUM_OF_TRAILER_STANZA", { "trailer" } },
};
static const Field f_GeneralHeader[] = {
    { "FILE_NUMBER", { "file" } },
    { "FORMAT_CODE", { "format", "code" } },
    { "GENERAL_CONSTANTS", { "constants" } },
    { "YEAR", { "last" } },
    { "GENERAL_HEADER_BLOCKS", { "additional" } },
    { "DAY", { "julian" } },
    { "HOUR", { "greenwich" } },
    { "MINUTE", { "minute", "hour" } },
    { "SECOND", { "second" } },
    { "MANUFACTURERS_CODE", { "manufacturer", "code" } },
    { "MANUFACTURERS_NUMBER", { "serial" } },
    { "BYTES_PER_SCAN", { "bytes" } },
    { "BASE_SCAN_INTERVAL", { "base" } },
    { "POLARITY", { "polarity" } },
    { "SCANS_PER_BLOCK", { "scans" } },
    { "RECORD_TYPE", { "record", "type" } },
    { "RECORD_LENGTH", { "from" } },
    { "SCAN_TYPES_PER_RECORD", { "types" } },
    { "CHANNEL_SETS_PER_SCAN_TYPE", { "channel" } },
    { "SKEW_BLOCKS", { "32" } },
    { "EXTENDED_HEADER_BLOCKS", { "extended" } },
    { "EXTERNAL_HEADER_BLOCKS", { "external" } },
};
static const Field f_GeneralHeader2[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "EXT_CH_SETS_PER_SCAN_TYPE", { "channel" } },
    { "EXTEDNDED_HEADER_BLOCKS", { "extended", "header", "blocks" } },
    { "EXTERNAL_HEADER_BLOCKS", { "external" } },
    { "EXTENDED_SKEW_BLOCKS", { "skew" } },
    { "SEGD_REVISION_MAJOR", { "major" } },
    { "SEGD_REVISION_MINOR", { "minor" } },
    { "GEN_TRAILER_NUMBER_OF_BLOCKS", { "32" } },
    { "EXTENDED_RECORD_LENGTH", { "length" } },
    { "RECORD_SET_NUMBER", { "record", "set" } },
    { "EXT_NUM_ADD_BLKS_IN_GEN_HDR", { "additional" } },
    { "DOMINANT_SAMPLING_INT", { "dominant" } },
    { "GEN_HEADER_BLOCK_NUM", { "general", "header", "block", "number" } },
};
static const Field f_GeneralHeaderN[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "index" } },
    { "PHASE_CONTROL", { "control" } },
    { "TYPE_VIBRATOR", { "type" } },
    { "PHASE_ANGLE", { "angle" } },
    { "GEN_HEADER_BLOCK_NUM", { "general" } },
    { "SOURCE_SET_NUMBER", { "set" } },
};
static const Field f_GeneralHeader3[] = {
    { "TIME_ZERO", { "zero" } },
    { "RECORD_SIZE", { "seg" } },
    { "DATA_SIZE", { "and" } },
    { "HEADER_SIZE", { "total", "size", "headers", "this", "record", "bytes" } },
    { "EXTD_REC_MODE", { "extended" } },
    { "REL_TIME_MODE", { "if" } },
    { "GEN_HEADER_BLOCK_NUM", { "general" } },
};
static const Field f_GeneralHeaderVes[] = {
    { "ABBR_VESSEL_OR_CREW_NAME", { "abbreviated" } },
    { "VESSEL_OR_CREW_NAME", { "vessel", "or", "crew", "name" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderSur[] = {
    { "SURVEY_ARE_NAME", { "survey" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderCli[] = {
    { "CLIENT_NAME", { "client" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderJob[] = {
    { "ABBR_JOB_ID", { "abbr" } },
    { "JOB_ID", { "job", "identification" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderLin[] = {
    { "LINE_ABBR", { "abbreviation" } },
    { "LINE_ID", { "identification" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderVib[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "PHASE_CONTROL", { "control" } },
    { "TYPE_VIBRATOR", { "vibrator" } },
    { "PHASE_ANGLE", { "angle" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "re" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderExp[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "DEPTH", { "depth" } },
    { "CHARGE_LENGTH", { "charge" } },
    { "SOIL_TYPE", { "soil" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "re" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderAir[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "DEPTH", { "depth" } },
    { "AIR_PRESSURE", { "air" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "shoot" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderWat[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "DEPTH", { "depth" } },
    { "AIR_PRESSURE", { "air" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "shoot" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderEle[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "SOURCE_TYPE", { "source", "type" } },
    { "MOMENT", { "moment" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "re" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderOth[] = {
    { "EXPANDED_FILE_NUMBER", { "expanded" } },
    { "SOURCE_LINE_NUMBER", { "source", "line" } },
    { "SOURCE_POINT_NUMBER", { "point", "number" } },
    { "SOURCE_POINT_INDEX", { "source", "index" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_SET_NUM", { "no" } },
    { "RESHOOT_INDEX", { "re" } },
    { "GROUP_INDEX", { "group" } },
    { "DEPTH_INDEX", { "depth", "index" } },
    { "OFFSET_CROSSLINE", { "cross" } },
    { "OFFSET_INLINE", { "offset", "line" } },
    { "SIZE", { "size" } },
    { "OFFSET_DEPTH", { "offset", "depth" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderAdd[] = {
    { "TIME", { "time" } },
    { "SOURCCE_STATUS", { "status" } },
    { "SOURCE_ID", { "id" } },
    { "SOURCE_MOVING", { "moving" } },
    { "ERROR_DESCRIPTION", { "error" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderSaux[] = {
    { "SOURCE_ID", { "source" } },
    { "SCAN_TYPE_NUM_1", { "scan", "1" } },
    { "CH_SET_NUM_1", { "channel", "1" } },
    { "TRACE_NUM_1", { "trace", "1" } },
    { "SCAN_TYPE_NUM_2", { "scan", "2" } },
    { "CH_SET_NUM_2", { "channel", "2" } },
    { "TRACE_NUM_2", { "trace", "2" } },
    { "SCAN_TYPE_NUM_3", { "scan", "3" } },
    { "CH_SET_NUM_3", { "channel", "3" } },
    { "TRACE_NUM_3", { "trace", "3" } },
    { "SCAN_TYPE_NUM_4", { "scan", "4" } },
    { "CH_SET_NUM_4", { "channel", "4" } },
    { "TRACE_NUM_4", { "trace", "4" } },
    { "SCAN_TYPE_NUM_5", { "scan", "5" } },
    { "CH_SET_NUM_5", { "channel", "5" } },
    { "TRACE_NUM_5", { "trace", "5" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderCoord[] = {
    { "COORD_REF_SYS", { "coordinate" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderPos1[] = {
    { "TIME_OF_POSITION", { "time", "position" } },
    { "TIME_OF_MEASUREMENT", { "measurement" } },
    { "VERTICAL_ERROR", { "vertical" } },
    { "HOR_ERR_SEMI_MAJOR", { "major" } },
    { "HOR_ERR_SEMI_MINOR", { "minor" } },
    { "HOR_ERR_ORIENTATION", { "orientation" } },
    { "POSITION_TYPE", { "position", "type" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderPos2[] = {
    { "CRS_A_COORD1", { "coord", "tuple", "1", "crs", "coord", "1" } },
    { "CRS_A_COORD2", { "2" } },
    { "CRS_A_COORD3", { "3" } },
    { "CRS_A_CRSREF", { "crsref" } },
    { "POS1_VALID", { "valid" } },
    { "POS1_QUALITY", { "quality" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderPos3[] = {
    { "CRS_B_COORD1", { "coord", "1" } },
    { "CRS_B_COORD2", { "coord", "tuple", "2", "crs", "b", "coord", "2" } },
    { "CRS_B_COORD3", { "3" } },
    { "CRS_B_CRSREF", { "crsref" } },
    { "POS2_VALID", { "valid" } },
    { "POS2_QUALITY", { "quality" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderRel[] = {
    { "OFFSET_EAST", { "easting" } },
    { "OFFSET_NORTH", { "northing" } },
    { "OFFSET_VERT", { "vertical" } },
    { "DESCRIPTION", { "description" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderSen[] = {
    { "INSTRUMENT_TEST_TIME", { "instrument" } },
    { "SENSOR_SENSITIVITY", { "sensor" } },
    { "INSTR_TEST_RESULT", { "result" } },
    { "SERIAL_NUMBER", { "serial" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderSCa[] = {
    { "FREQUENCY_1", { "frequency", "1" } },
    { "AMPLITUDE_1", { "amplitude", "1" } },
    { "PHASE_1", { "phase", "1" } },
    { "FREQUENCY_2", { "frequency", "2" } },
    { "AMPLITUDE_2", { "amplitude", "2" } },
    { "PHASE_2", { "phase", "2" } },
    { "ALIBRATION_APPLIED", { "calibration" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderTim[] = {
    { "TIME_OF_DEPLOYMENT", { "time", "deployment" } },
    { "TIME_OF_RETRIEVAL", { "time", "retrieval" } },
    { "TIMER_OFFSET_DEPLOYMENT", { "timer" } },
    { "TIME_OFFSET_RETRIEVAL", { "offset", "retrieval" } },
    { "TIMEDRIFT_CORRECTED", { "timedrift" } },
    { "CORRECTION_METHOD", { "correction" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderElSR[] = {
    { "EQUIPMENT_DIMENTION_X", { "dimension", "x" } },
    { "EQUIPMENT_DIMENTION_Y", { "dimension", "y" } },
    { "EQUIPMENT_DIMENTION_Z", { "dimension", "z" } },
    { "POSITIVE_TERMINAL", { "positive" } },
    { "EQUIPMENT_OFFSET_X", { "offset", "x" } },
    { "EQUIPMENT_OFFSET_Y", { "offset", "y" } },
    { "EQUIPMENT_OFFSET_Z", { "offset", "z" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderOri[] = {
    { "ROTATION_X_AXIS", { "rotation", "x", "axis" } },
    { "ROTATION_Y_AXIS", { "rotation", "y" } },
    { "ROTATION_Z_AXIS", { "z" } },
    { "REFERENCE_ORIENT", { "reference" } },
    { "TIME_STAMP", { "time" } },
    { "ORIENT_TYPE", { "orientation", "type" } },
    { "REF_ORIENT_VALID", { "valid" } },
    { "ROTATION_APPLIED", { "rotation", "applied" } },
    { "ROT_NORTH_APPLIED", { "north" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_GeneralHeaderMeas[] = {
    { "TIMESTAMP", { "timestamp" } },
    { "MEASUREMENT_VALUE", { "measurement", "value" } },
    { "MAXIMUM_VALUE", { "maximum" } },
    { "MINIMUM_VALUE", { "minimum" } },
    { "QUANTITY_CLASS", { "quantity" } },
    { "UNIT_OF_MEASURE", { "unit" } },
    { "MEASUREMENT_DESCRIPTION", { "description" } },
    { "GEN_HEADER_TYPE", { "general" } },
};
static const Field f_ChannelSetHeader[] = {
    { "SCAN_TYPE_NUMBER", { "scan", "type" } },
    { "CHANNEL_SET_NUMBER", { "channel", "set", "number" } },
    { "CHANNEL_TYPE", { "channel", "type" } },
    { "CHANNEL_SET_START_TIME", { "start" } },
    { "CHANNEL_SET_END_TIME", { "end", "time" } },
    { "DESCALE_MULTIPLIER", { "descale" } },
    { "NUMBER_OF_CHANNELS", { "channels" } },
    { "SUBSCANS_PER_CH_SET", { "subscans" } },
    { "CHANNEL_GAIN", { "gain" } },
    { "ALIAS_FILTER_FREQ", { "alias", "frequency" } },
    { "ALIAS_FILTER_SLOPE", { "alias", "slope" } },
    { "LOW_CUT_FILTER_FREQ", { "low", "frequency" } },
    { "LOW_CUT_FILTER_SLOPE", { "low", "slope" } },
    { "FIRST_NOTCH_FILTER", { "first" } },
    { "SECOND_NOTCH_FILTER", { "second" } },
    { "THIRD_NOTCH_FILTER", { "third" } },
    { "EXT_CH_SET_NUM", { "extended", "channel" } },
    { "EXT_HDR_FLAG", { "flag" } },
    { "TRC_HDR_EXT", { "trace" } },
    { "VERT_STACK", { "stack" } },
    { "STREAMER_NO", { "streamer" } },
    { "ARRAY_FORMING", { "array" } },
    { "NUMBER_OF_SAMPLES", { "samples" } },
    { "SAMPLE_INTERVAL", { "interval" } },
    { "FILTER_PHASE", { "phase" } },
    { "PHYSICAL_UNIT", { "physical" } },
    { "FILTER_DELAY", { "delay" } },
    { "DESCRIPTION", { "description" } },
};
static const Word w_sercel_428xl[] = {
    { 0, 0, "R_LINE", VT::uint24_t },
    { 0, 3, "R_POINT", VT::uint24_t },
    { 0, 6, "R_POINT_IDX", VT::uint8_t },
    { 0, 7, "SAMP_NUM", VT::uint24_t },
    { 0, 20, "SENSOR_TYPE", VT::uint8_t },
    { 1, 0, "REC_X", VT::ieee_double },
    { 1, 8, "REC_Y", VT::ieee_double },
    { 1, 16, "R_ELEV", VT::ieee_single },
    { 1, 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
    { 1, 28, "TRACE_NUMBER", VT::uint32_t },
    { 2, 0, "RESIST_LOW_LIMIT", VT::ieee_single },
    { 2, 4, "RESIST_HIGH_LIMIT", VT::ieee_single },
    { 2, 8, "RESIST_VALUE", VT::ieee_single },
    { 2, 12, "TILT_LIMIT", VT::ieee_single },
    { 2, 16, "TILT_VALUE", VT::ieee_single },
    { 2, 20, "RESIST_ERROR", VT::uint8_t },
    { 2, 21, "TILT_ERROR", VT::uint8_t },
    { 3, 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
    { 3, 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
    { 3, 8, "CAPACIT_VALUE", VT::ieee_single },
    { 3, 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
    { 3, 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
    { 3, 20, "CUT_OFF_VALUE", VT::ieee_single },
    { 3, 24, "CAPACIT_ERROR", VT::uint8_t },
    { 3, 25, "CUT_OFF_ERROR", VT::uint8_t },
    { 4, 0, "LEAKAGE_LIMIT", VT::ieee_single },
    { 4, 4, "LEAKAGE_VALUE", VT::ieee_single },
    { 4, 24, "LEAKAGE_ERROR", VT::uint8_t },
    { 5, 0, "UNIT_TYPE", VT::uint8_t },
    { 5, 1, "UNIT_SERIAL_NUM", VT::uint24_t },
    { 5, 4, "CHANNEL_NUM", VT::uint8_t },
    { 5, 8, "FDU_ASS_TYPE", VT::uint8_t },
    { 5, 9, "FDU_ASS_SERIAL", VT::uint24_t },
    { 5, 12, "FDU_ASS_LOC", VT::uint8_t },
    { 5, 16, "FDU_UNIT_TYPE", VT::uint8_t },
    { 5, 17, "CHANNEL_TYPE", VT::uint8_t },
    { 5, 20, "SENSOR_SENSITIVITY", VT::ieee_single },
    { 6, 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
    { 6, 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
    { 6, 4, "CHAN_GAIN_SCALE", VT::uint8_t },
    { 6, 5, "CHAN_FILTER", VT::uint8_t },
    { 6, 6, "CHAN_DATA_ERROR", VT::uint8_t },
    { 6, 7, "CHAN_EDIT_STATUS", VT::uint8_t },
    { 6, 8, "SAMP_TO_V_CONV", VT::ieee_single },
    { 6, 12, "NUM_OF_STACKS_NOISY", VT::uint8_t },
    { 6, 13, "NUM_OF_STACKS_LOW", VT::uint8_t },
    { 6, 14, "CHAN_TYPE_ID", VT::uint8_t },
    { 6, 15, "CHAN_PROCESS", VT::uint8_t },
    { 6, 16, "TRC_MAX_VALUE", VT::ieee_single },
    { 6, 20, "TRC_MAX_TIME", VT::uint32_t },
    { 6, 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
};
static const Word w_sercel_428[] = {
    { 0, 0, "R_LINE", VT::uint24_t },
    { 0, 3, "R_POINT", VT::uint24_t },
    { 0, 6, "R_POINT_IDX", VT::uint8_t },
    { 0, 7, "SAMP_NUM", VT::uint24_t },
    { 0, 20, "SENSOR_TYPE", VT::uint8_t },
    { 1, 0, "REC_X", VT::ieee_double },
    { 1, 8, "REC_Y", VT::ieee_double },
    { 1, 16, "R_ELEV", VT::ieee_single },
    { 1, 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
    { 1, 28, "TRACE_NUMBER", VT::uint32_t },
    { 2, 0, "DC_OFFSET", VT::ieee_single },
    { 3, 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
    { 3, 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
    { 3, 8, "CAPACIT_VALUE", VT::ieee_single },
    { 3, 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
    { 3, 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
    { 3, 20, "CUT_OFF_VALUE", VT::ieee_single },
    { 3, 24, "CAPACIT_ERROR", VT::uint8_t },
    { 3, 25, "CUT_OFF_ERROR", VT::uint8_t },
    { 4, 0, "LEAKAGE_LIMIT", VT::ieee_single },
    { 4, 4, "LEAKAGE_VALUE", VT::ieee_single },
    { 4, 24, "LEAKAGE_ERROR", VT::uint8_t },
    { 5, 0, "UNIT_TYPE", VT::uint8_t },
    { 5, 1, "UNIT_SERIAL_NUM", VT::uint24_t },
    { 5, 4, "CHANNEL_NUM", VT::uint8_t },
    { 5, 8, "FDU_ASS_TYPE", VT::uint8_t },
    { 5, 9, "FDU_ASS_SERIAL", VT::uint24_t },
    { 5, 12, "FDU_ASS_LOC", VT::uint8_t },
    { 5, 16, "FDU_UNIT_TYPE", VT::uint8_t },
    { 5, 20, "SENSOR_SENSITIVITY", VT::ieee_single },
    { 5, 24, "EXT_UNIT_SERIAL", VT::uint32_t },
    { 5, 28, "EXT_FDU_ASS_SERIAL", VT::uint32_t },
    { 6, 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
    { 6, 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
    { 6, 4, "CHAN_GAIN_SCALE", VT::uint8_t },
    { 6, 5, "CHAN_FILTER", VT::uint8_t },
    { 6, 6, "CHAN_DATA_ERROR", VT::uint8_t },
    { 6, 7, "CHAN_EDIT_STATUS", VT::uint8_t },
    { 6, 8, "SAMP_TO_V_CONV", VT::ieee_single },
    { 6, 13, "REMOVED_OFFSET", VT::uint8_t },
    { 6, 14, "CHAN_TYPE_ID", VT::uint8_t },
    { 6, 15, "CHAN_PROCESS", VT::uint8_t },
    { 6, 16, "ANAL_LOW_CUR_FILT", VT::ieee_single },
    { 6, 20, "DIG_LOW_CUT_FILT", VT::ieee_single },
    { 6, 24, "NUM_OF_EDITIONS", VT::uint32_t },
    { 6, 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
};
static const Word w_sercel_408[] = {
    { 0, 0, "R_LINE", VT::uint24_t },
    { 0, 3, "R_POINT", VT::uint24_t },
    { 0, 6, "R_POINT_IDX", VT::uint8_t },
    { 0, 7, "SAMP_NUM", VT::uint24_t },
    { 0, 20, "SENSOR_TYPE", VT::uint8_t },
    { 1, 0, "REC_X", VT::ieee_double },
    { 1, 8, "REC_Y", VT::ieee_double },
    { 1, 16, "R_ELEV", VT::ieee_single },
    { 1, 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
    { 2, 0, "DC_OFFSET", VT::ieee_single },
    { 3, 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
    { 3, 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
    { 3, 8, "CAPACIT_VALUE", VT::ieee_single },
    { 3, 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
    { 3, 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
    { 3, 20, "CUT_OFF_VALUE", VT::ieee_single },
    { 3, 24, "CAPACIT_ERROR", VT::uint8_t },
    { 3, 25, "CUT_OFF_ERROR", VT::uint8_t },
    { 4, 0, "LEAKAGE_LIMIT", VT::ieee_single },
    { 4, 4, "LEAKAGE_VALUE", VT::ieee_single },
    { 4, 24, "LEAKAGE_ERROR", VT::uint8_t },
    { 5, 0, "UNIT_TYPE", VT::uint8_t },
    { 5, 1, "UNIT_SERIAL_NUM", VT::uint24_t },
    { 5, 4, "CHANNEL_NUM", VT::uint8_t },
    { 5, 8, "FDU_ASS_TYPE", VT::uint8_t },
    { 5, 9, "FDU_ASS_SERIAL", VT::uint24_t },
    { 5, 12, "FDU_ASS_LOC", VT::uint8_t },
    { 5, 16, "FDU_UNIT_TYPE", VT::uint8_t },
    { 5, 17, "CHANNEL_TYPE", VT::uint8_t },
    { 5, 20, "SENSOR_SENSITIVITY", VT::ieee_single },
    { 6, 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
    { 6, 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
    { 6, 4, "CHAN_GAIN_SCALE", VT::uint8_t },
    { 6, 5, "CHAN_FILTER", VT::uint8_t },
    { 6, 6, "CHAN_DATA_ERROR", VT::uint8_t },
    { 6, 7, "CHAN_EDIT_STATUS", VT::uint8_t },
    { 6, 8, "SAMP_TO_V_CONV", VT::ieee_single },
    { 6, 14, "CHAN_TYPE_ID", VT::uint8_t },
    { 6, 15, "CHAN_PROCESS", VT::uint8_t },
    { 6, 16, "TRC_MAX_VALUE", VT::ieee_single },
    { 6, 20, "TRC_MAX_TIME", VT::uint32_t },
    { 6, 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
    { 6, 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
};

static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
static bool contains(const char* text, const char* word)
{
    for (; *text; ++text) {
        int i = 0;
        while (word[i] && text[i] && low(text[i]) == word[i]) ++i;
        if (!word[i]) return true;
    }
    return false;
}
static bool same(const char* a, const char* b)
{
    while (*a && *a == *b) { ++a; ++b; }
    return *a == *b;
}
template <class H, size_t N> static void names(const Field (&f)[N], typename H::Name last)
{
    vf::check((size_t)last + 1 == N, "the fields of the header");
    int32_t n = vf::sym<int32_t>("n");
    vf::assume(n >= 0 && n < (int32_t)N);
    char const* s = H::name_as_string((typename H::Name)n); // any field
    int k = vf::pick(n);
    vf::check(s != nullptr && *s != 0, "a field has a description");
    for (const char* w : f[k].words)
        if (w) vf::check(contains(s, w), "the description is that of the field");
    for (int o = 0; o < (int)N; ++o)
        if (o != k) vf::check(!same(s, H::name_as_string((typename H::Name)o)), "no two fields have one description");
    vf::reach("end");
}
extern "C" void h_BinaryHeader() { names<CommonSEGY::BinaryHeader>(f_BinaryHeader, CommonSEGY::BinaryHeader::Name::NUM_OF_TRAILER_STANZA); }
extern "C" void h_GeneralHeader() { names<CommonSEGD::GeneralHeader>(f_GeneralHeader, CommonSEGD::GeneralHeader::Name::EXTERNAL_HEADER_BLOCKS); }
extern "C" void h_GeneralHeader2() { names<CommonSEGD::GeneralHeader2>(f_GeneralHeader2, CommonSEGD::GeneralHeader2::Name::GEN_HEADER_BLOCK_NUM); }
extern "C" void h_GeneralHeaderN() { names<CommonSEGD::GeneralHeaderN>(f_GeneralHeaderN, CommonSEGD::GeneralHeaderN::Name::SOURCE_SET_NUMBER); }
extern "C" void h_GeneralHeader3() { names<CommonSEGD::GeneralHeader3>(f_GeneralHeader3, CommonSEGD::GeneralHeader3::Name::GEN_HEADER_BLOCK_NUM); }
extern "C" void h_GeneralHeaderVes() { names<CommonSEGD::GeneralHeaderVes>(f_GeneralHeaderVes, CommonSEGD::GeneralHeaderVes::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderSur() { names<CommonSEGD::GeneralHeaderSur>(f_GeneralHeaderSur, CommonSEGD::GeneralHeaderSur::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderCli() { names<CommonSEGD::GeneralHeaderCli>(f_GeneralHeaderCli, CommonSEGD::GeneralHeaderCli::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderJob() { names<CommonSEGD::GeneralHeaderJob>(f_GeneralHeaderJob, CommonSEGD::GeneralHeaderJob::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderLin() { names<CommonSEGD::GeneralHeaderLin>(f_GeneralHeaderLin, CommonSEGD::GeneralHeaderLin::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderVib() { names<CommonSEGD::GeneralHeaderVib>(f_GeneralHeaderVib, CommonSEGD::GeneralHeaderVib::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderExp() { names<CommonSEGD::GeneralHeaderExp>(f_GeneralHeaderExp, CommonSEGD::GeneralHeaderExp::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderAir() { names<CommonSEGD::GeneralHeaderAir>(f_GeneralHeaderAir, CommonSEGD::GeneralHeaderAir::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderWat() { names<CommonSEGD::GeneralHeaderWat>(f_GeneralHeaderWat, CommonSEGD::GeneralHeaderWat::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderEle() { names<CommonSEGD::GeneralHeaderEle>(f_GeneralHeaderEle, CommonSEGD::GeneralHeaderEle::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderOth() { names<CommonSEGD::GeneralHeaderOth>(f_GeneralHeaderOth, CommonSEGD::GeneralHeaderOth::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderAdd() { names<CommonSEGD::GeneralHeaderAdd>(f_GeneralHeaderAdd, CommonSEGD::GeneralHeaderAdd::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderSaux() { names<CommonSEGD::GeneralHeaderSaux>(f_GeneralHeaderSaux, CommonSEGD::GeneralHeaderSaux::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderCoord() { names<CommonSEGD::GeneralHeaderCoord>(f_GeneralHeaderCoord, CommonSEGD::GeneralHeaderCoord::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderPos1() { names<CommonSEGD::GeneralHeaderPos1>(f_GeneralHeaderPos1, CommonSEGD::GeneralHeaderPos1::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderPos2() { names<CommonSEGD::GeneralHeaderPos2>(f_GeneralHeaderPos2, CommonSEGD::GeneralHeaderPos2::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderPos3() { names<CommonSEGD::GeneralHeaderPos3>(f_GeneralHeaderPos3, CommonSEGD::GeneralHeaderPos3::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderRel() { names<CommonSEGD::GeneralHeaderRel>(f_GeneralHeaderRel, CommonSEGD::GeneralHeaderRel::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderSen() { names<CommonSEGD::GeneralHeaderSen>(f_GeneralHeaderSen, CommonSEGD::GeneralHeaderSen::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderSCa() { names<CommonSEGD::GeneralHeaderSCa>(f_GeneralHeaderSCa, CommonSEGD::GeneralHeaderSCa::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderTim() { names<CommonSEGD::GeneralHeaderTim>(f_GeneralHeaderTim, CommonSEGD::GeneralHeaderTim::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderElSR() { names<CommonSEGD::GeneralHeaderElSR>(f_GeneralHeaderElSR, CommonSEGD::GeneralHeaderElSR::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderOri() { names<CommonSEGD::GeneralHeaderOri>(f_GeneralHeaderOri, CommonSEGD::GeneralHeaderOri::Name::GEN_HEADER_TYPE); }
extern "C" void h_GeneralHeaderMeas() { names<CommonSEGD::GeneralHeaderMeas>(f_GeneralHeaderMeas, CommonSEGD::GeneralHeaderMeas::Name::GEN_HEADER_TYPE); }
extern "C" void h_ChannelSetHeader() { names<CommonSEGD::ChannelSetHeader>(f_ChannelSetHeader, CommonSEGD::ChannelSetHeader::Name::DESCRIPTION); }
// every word of the default SEG-Y trace header mapping is described
extern "C" void h_segy_words()
{
    int k = 0;
    int want = (int)vf::choose("k", 0, 7);
    for (auto& part : CommonSEGY::default_trace_header)
        for (auto& w : part.second) {
            if (k++ % 8 != want) continue;
            auto it = CommonSEGY::trace_header_description.find(w.second.first);
            vf::check(it != CommonSEGY::trace_header_description.end() && !it->second.empty(), "a word of the default mapping has a description");
        }
    vf::check(k >= 91 + 2, "all words of the default mapping");
    vf::reach("end");
}
// the predefined SEG-D extension maps
template <size_t N> static void preset(std::vector<std::map<uint32_t, std::pair<std::string, VT>>> const& m, const Word (&w)[N], int exts)
{
    vf::check(m.size() == (size_t)exts, "one map for each extension");
    size_t total = 0;
    for (auto& e : m) total += e.size();
    vf::check(total == N, "no other words");
    int k = (int)vf::choose("k", 0, (int)N - 1);
    auto it = m[w[k].ext].find(w[k].off);
    vf::check(it != m[w[k].ext].end(), "a word is at its place");
    vf::check(it->second.first == w[k].name, "a word has its name");
    vf::check(it->second.second == w[k].type, "a word has its type");
    vf::reach("end");
}
extern "C" void h_sercel_428xl() { preset(CommonSEGD::sercel_428xl, w_sercel_428xl, 7); }
extern "C" void h_sercel_428() { preset(CommonSEGD::sercel_428, w_sercel_428, 7); }
extern "C" void h_sercel_408() { preset(CommonSEGD::sercel_408, w_sercel_408, 7); }
// an exception tells where and what, and so do its copies
extern "C" void h_exception()
{
    static const unsigned long long lines[] = { 0, 7, 10, 99, 4294967295ull, 4294967296ull, 18446744073709551615ull };
    static const char* text[] = { "0", "7", "10", "99", "4294967295", "4294967296", "18446744073709551615" };
    int l = (int)vf::choose("line", 0, 6), len = (int)vf::choose("len", 0, 20);
    std::string file("some/file.cpp"), msg((size_t)len, 'm');
    if (len) { vf::bytes("msg", &msg[0], (size_t)len); }
    for (char& c : msg) vf::assume(c != 0);
    std::string want = file + " " + text[l] + " " + msg;
    bool moved = vf::choose("form", 0, 1);
    try {
        if (moved) throw Exception(std::string(file), lines[l], std::string(msg));
        throw Exception(file, lines[l], msg);
    } catch (std::exception const& e) {
        vf::check(std::strlen(e.what()) == want.size(), "length of the text");
        for (size_t i = 0; i < want.size(); ++i) vf::check_eq((unsigned char)e.what()[i], (unsigned char)want[i], "the text of an exception");
        Exception const* p = dynamic_cast<Exception const*>(&e);
        vf::check(p != nullptr, "the type of an exception");
        {
            Exception copy(*p);
            Exception other(std::move(copy));
            vf::check(std::strlen(other.what()) == want.size(), "length of a copy");
            for (size_t i = 0; i < want.size(); ++i) vf::check_eq((unsigned char)other.what()[i], (unsigned char)want[i], "the text of a copy");
        }
        for (size_t i = 0; i < want.size(); ++i) vf::check_eq((unsigned char)e.what()[i], (unsigned char)want[i], "the text after copying");
    }
    vf::reach("end");
}
