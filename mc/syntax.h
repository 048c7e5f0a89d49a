// Building and checking NAL units from explored element values.
#pragma once
#include "compare.h"
#include "explore.h"

using m::Enc; using m::Dec;
namespace H = h264nal;

// A NAL unit under construction: header byte(s) followed by an encoded payload.
struct Built { Bytes raw; bool rejected = false, soft = false, undef = false; uint32_t unimpl = 0; std::vector<uint32_t> marks; };

template <class F> Built build(Explorer& x, const Bytes& hdr, F f, bool want_marks = false) {
  Enc e(&x); Built b;
  if (want_marks) e.marks = &b.marks;
  for (auto c : hdr) e.w.put(c, 8);
  try { f(e); } catch (m::Reject&) { e.w.align1(); }
  if (e.w.nb & 7) e.w.align1();
  b.raw = e.w.b; b.rejected = e.rejected; b.soft = e.soft; b.undef = e.undef; b.unimpl = e.unimpl;
  return b;
}
static inline uint8_t hdrbyte(uint32_t ref_idc, uint32_t type) { return (uint8_t)(ref_idc << 5 | type); }

static inline std::unique_ptr<ImplNal> impl_parse(const Bytes& escaped, ImplSession* s, H::ParsingOptions po = H::ParsingOptions()) {
  return H::H264NalUnitParser::ParseNalUnit(escaped.data(), escaped.size(), s, po);
}
static inline void count_outcome(Ctx& c, const m::Nal& n) {
  if (n.undef) c.add(C_UNDEF); else if (n.soft) c.add(C_SOFT);
  else if (n.readable && n.parsed) c.add(C_ACC); else c.add(C_REJ);
}
// Feeds the units, in order, to a fresh session of the model and of the
// implementation; compares every unit and the final session.
static inline void feed(Ctx& c, const std::vector<Bytes>& units, bool session_too = true, m::Nal* last_out = nullptr) {
  m::Session ms; ImplSession is; bool undef = false;
  for (size_t i = 0; i < units.size(); ++i) {
    m::Nal x = m::dec_nal(units[i].data(), units[i].size(), ms);
    Bytes esc = m::escape(units[i]);
    auto n = impl_parse(esc, &is);
    std::string d = undef ? std::string() : cmp_unit(x, n.get());
    if (!d.empty()) c.fail("unit %zu of %zu (%s): %s", i + 1, units.size(), hex(units[i].data(), std::min<size_t>(units[i].size(), 200)).c_str(), d.c_str());
    if (x.undef) undef = true;
    if (x.soft && n && impl_parsed(*n) != x.parsed) undef = true;  // model and code may now hold different sets
    if (i + 1 == units.size()) { count_outcome(c, x); if (last_out) *last_out = std::move(x); }
  }
  if (session_too && !undef) {
    View a, b; v_session(a, ms); v_session(b, is);
    if (a != b) c.fail("session after the units: %s", a.diff(b).c_str());
  }
}
static inline Bytes cat(const std::vector<Bytes>& u) { Bytes o; for (auto& b : u) { o.push_back(0); o.push_back(0); o.push_back(0); o.push_back(1); Bytes e = m::escape(b); o.insert(o.end(), e.begin(), e.end()); } return o; }

// ------------------------------------------------------------ baselines
typedef std::map<std::string, int64_t> Fix;
static inline Base mkbase(const char* n, bool rich, Fix f, std::map<std::string, std::vector<int64_t>> seq = {}) {
  Base b; b.name = n; b.rich = rich; b.fix = f; b.seq = seq; return b;
}
static inline Fix operator+(Fix a, const Fix& b) { for (auto& k : b) a[k.first] = k.second; return a; }

static const Fix kSpsRichFix = {
  {"forbidden_zero_bit", 0}, {"seq_parameter_set_id", 5}, {"chroma_format_idc", 1}, {"separate_colour_plane_flag", 0},
  {"num_ref_frames_in_pic_order_cnt_cycle", 3}, {"pic_width_in_mbs_minus1", 21}, {"pic_height_in_map_units_minus1", 17},
  {"frame_crop_left_offset", 3}, {"frame_crop_right_offset", 5}, {"frame_crop_top_offset", 2}, {"frame_crop_bottom_offset", 7},
  {"cpb_cnt_minus1", 2}, {"frame_cropping_flag", 1}, {"seq_scaling_matrix_present_flag", 0}, {"vui_parameters_present_flag", 0},
  {"bit_depth_luma_minus8", 2}, {"bit_depth_chroma_minus8", 3}, {"num_units_in_tick", 1001}, {"time_scale", 60000},
};
static const Fix kVuiOn = {
  {"vui_parameters_present_flag", 1}, {"aspect_ratio_info_present_flag", 1}, {"aspect_ratio_idc", 255}, {"overscan_info_present_flag", 1},
  {"video_signal_type_present_flag", 1}, {"colour_description_present_flag", 1}, {"chroma_loc_info_present_flag", 1},
  {"timing_info_present_flag", 1}, {"nal_hrd_parameters_present_flag", 1}, {"vcl_hrd_parameters_present_flag", 1}, {"bitstream_restriction_flag", 1},
};
static const Fix kVuiMin = {{"vui_parameters_present_flag", 1}, {"num_units_in_tick", 1}, {"time_scale", 2}};

static inline std::vector<int64_t> profiles_core() { return {66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 0, 144, 255}; }
static const char* const kVuiNames[] = {
  "aspect_ratio_info_present_flag", "aspect_ratio_idc", "sar_width", "sar_height", "overscan_info_present_flag", "overscan_appropriate_flag",
  "video_signal_type_present_flag", "video_format", "video_full_range_flag", "colour_description_present_flag", "colour_primaries",
  "transfer_characteristics", "matrix_coefficients", "chroma_loc_info_present_flag", "chroma_sample_loc_type_top_field",
  "chroma_sample_loc_type_bottom_field", "timing_info_present_flag", "num_units_in_tick", "time_scale", "fixed_frame_rate_flag",
  "nal_hrd_parameters_present_flag", "vcl_hrd_parameters_present_flag", "low_delay_hrd_flag", "pic_struct_present_flag",
  "bitstream_restriction_flag", "motion_vectors_over_pic_boundaries_flag", "max_bytes_per_pic_denom", "max_bits_per_mb_denom",
  "log2_max_mv_length_horizontal", "log2_max_mv_length_vertical", "max_num_reorder_frames", "max_dec_frame_buffering",
  "cpb_cnt_minus1", "bit_rate_scale", "cpb_size_scale", "bit_rate_value_minus1", "cpb_size_value_minus1", "cbr_flag",
  "initial_cpb_removal_delay_length_minus1", "cpb_removal_delay_length_minus1", "dpb_output_delay_length_minus1", "time_offset_length"};
static const char* const kSpsNames[] = {
  "profile_idc", "constraint_set0_flag", "constraint_set1_flag", "constraint_set2_flag", "constraint_set3_flag", "constraint_set4_flag",
  "constraint_set5_flag", "reserved_zero_2bits", "level_idc", "seq_parameter_set_id", "chroma_format_idc", "separate_colour_plane_flag",
  "bit_depth_luma_minus8", "bit_depth_chroma_minus8", "qpprime_y_zero_transform_bypass_flag", "seq_scaling_matrix_present_flag",
  "seq_scaling_list_present_flag", "delta_scale", "log2_max_frame_num_minus4", "pic_order_cnt_type", "log2_max_pic_order_cnt_lsb_minus4",
  "delta_pic_order_always_zero_flag", "offset_for_non_ref_pic", "offset_for_top_to_bottom_field", "num_ref_frames_in_pic_order_cnt_cycle",
  "offset_for_ref_frame", "max_num_ref_frames", "gaps_in_frame_num_value_allowed_flag", "pic_width_in_mbs_minus1",
  "pic_height_in_map_units_minus1", "frame_mbs_only_flag", "mb_adaptive_frame_field_flag", "direct_8x8_inference_flag",
  "frame_cropping_flag", "frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset", "frame_crop_bottom_offset",
  "vui_parameters_present_flag"};
static inline void freeze(Space& s, const char* const* n, size_t k, int c = 99) { for (size_t i = 0; i < k; ++i) s.cost[n[i]] = c; }
#define FREEZE(s, a) freeze(s, a, sizeof(a) / sizeof(a[0]))

static const Fix kPpsRichFix = {
  {"pic_parameter_set_id", 7}, {"seq_parameter_set_id", 5}, {"num_slice_groups_minus1", 0}, {"pic_size_in_map_units_minus1", 12},
  {"num_ref_idx_l0_default_active_minus1", 2}, {"num_ref_idx_l1_default_active_minus1", 1}, {"weighted_bipred_idc", 2}, {"more_rbsp_data", 0},
};
