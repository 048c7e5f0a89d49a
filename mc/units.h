// Alphabets of NAL units for histories.
#pragma once
// ------------------------------------------------------------------ units
template <class F> static void once(Ctx& c, const Fix& f, const std::map<std::string, std::vector<int64_t>>& seq, F body) {
  Space z; z.budget = 0; Base b = mkbase("unit", false, f, seq); Explorer x(c, b, z, body); x.run_once();
}
static Bytes u_sps(Ctx& c, Fix f) { Bytes r; once(c, Fix{{"profile_idc", 66}, {"frame_mbs_only_flag", 1}} + f, {}, [&](Explorer& x) { m::Sps s; r = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }).raw; }); return r; }
static Bytes u_pps(Ctx& c, Fix f) { Bytes r; once(c, f, {}, [&](Explorer& x) { m::Pps s; r = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }).raw; }); return r; }
static Bytes u_sub(Ctx& c, Fix f) { Bytes r; once(c, Fix{{"profile_idc", 83}, {"frame_mbs_only_flag", 1}, {"svc_vui_parameters_present_flag", 0}} + f, {}, [&](Explorer& x) { m::Subset s; r = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); }).raw; }); return r; }
// a slice unit whose tail is fixed bits: what they mean depends on the sets in force
static Bytes u_slice(uint8_t hdr, uint32_t type, uint32_t pps, int tail) {
  m::BitW w; w.put(hdr, 8); if ((hdr & 31) == 20) w.put(hdr & 0x20 ? 0xc10007 : 0x800007, 24);
  w.ue(3 + tail); w.ue(type); w.ue(pps);
  static const uint64_t t[] = {0x5a3c96e1b7d24f83ull, 0x96c3a5f10e7d2b48ull, 0x7fffb5d6ab5ad6b5ull, 0xb6db6db6db6db6dbull};
  w.put(t[tail & 3], 64); w.put(t[(tail + 1) & 3], 64); w.align1();
  return w.b;
}
struct U { std::string name; Bytes b; };
static Fix kA = {{"log2_max_frame_num_minus4", 0}, {"pic_order_cnt_type", 0}, {"log2_max_pic_order_cnt_lsb_minus4", 1}, {"max_num_ref_frames", 2}};
static Fix kB = {{"log2_max_frame_num_minus4", 5}, {"pic_order_cnt_type", 1}, {"offset_for_non_ref_pic", -3}, {"frame_mbs_only_flag", 0}, {"pic_width_in_mbs_minus1", 10}};
static Fix kC = {{"profile_idc", 100}, {"log2_max_frame_num_minus4", 9}, {"pic_order_cnt_type", 2}, {"bit_depth_luma_minus8", 4}};
static Fix id(int i) { return Fix{{"seq_parameter_set_id", i}}; }
static Fix ppid(int p, int s) { return Fix{{"pic_parameter_set_id", p}, {"seq_parameter_set_id", s}}; }
static std::vector<U> session_units(Ctx& c, bool big) {
  std::vector<U> v; auto add = [&](const char* n, Bytes b) { v.push_back({n, b}); };
  auto cut = [](Bytes b, size_t drop) { b.resize(b.size() > drop ? b.size() - drop : 1); return b; };
  Fix pf = {{"bottom_field_pic_order_in_frame_present_flag", 1}, {"redundant_pic_cnt_present_flag", 1}, {"num_ref_idx_l0_default_active_minus1", 1}};
  Fix pg = {{"weighted_pred_flag", 1}, {"deblocking_filter_control_present_flag", 1}, {"entropy_coding_mode_flag", 1}};
  Fix xa = {{"extended_spatial_scalability_idc", 0}}, xb = {{"extended_spatial_scalability_idc", 2}, {"inter_layer_deblocking_filter_control_present_flag", 1}, {"slice_header_restriction_flag", 1}};
  add("sps0A", u_sps(c, kA)); add("sps0B", u_sps(c, kB)); add("sps1A", u_sps(c, kA + id(1)));
  add("sps0 bad crop", u_sps(c, kC + Fix{{"frame_cropping_flag", 1}, {"frame_crop_left_offset", 4}, {"frame_crop_right_offset", 4}}));
  add("sps0 cut", cut(u_sps(c, kC + Fix{{"vui_parameters_present_flag", 1}, {"timing_info_present_flag", 1}, {"num_units_in_tick", 1}, {"time_scale", 50}}), 4));
  add("pps0->0", u_pps(c, ppid(0, 0) + pf)); add("pps0->1", u_pps(c, ppid(0, 1) + pg)); add("pps1->0", u_pps(c, ppid(1, 0) + pg));
  add("pps0 cut", cut(u_pps(c, ppid(0, 1) + pg + Fix{{"chroma_qp_index_offset", 11}}), 2)); add("pps0 bad", u_pps(c, ppid(0, 1) + Fix{{"num_slice_groups_minus1", 8}}));
  add("sub0A", u_sub(c, kA + xa)); add("sub0B", u_sub(c, kB + xb)); add("sub1C", u_sub(c, kC + xb + id(1))); add("sub0 cut", cut(u_sub(c, kC + xb), 3));
  add("slice1 p0", u_slice(0x21, 5, 0, 0)); add("slice5 p0", u_slice(0x65, 7, 0, 1)); add("slice1 p1", u_slice(0x01, 6, 1, 2));
  add("svc slice p0", u_slice(0x74, 0, 0, 3)); add("svc slice p1", u_slice(0x54, 2, 1, 0));
  add("prefix", Bytes{0x6e, 0xc0, 0x00, 0x07, 0x10}); add("sei", Bytes{0x06, 0x05, 0x02, 0x11, 0x22, 0x80}); add("aud", Bytes{0x09, 0xf0});
  add("sps ext", Bytes{0x0d, 0xa0, 0x80}); add("ref idc 0 sps1B", [&] { Bytes b = u_sps(c, kB + id(1)); b[0] = 0x07; return b; }());
  add("unreadable", Bytes{0x14, 0x01, 0x02}); add("empty sps", Bytes{0x67});
  if (big) {
    add("sps0C", u_sps(c, kC)); add("sps1B", u_sps(c, kB + id(1))); add("pps1->1", u_pps(c, ppid(1, 1) + pf)); add("sub1A", u_sub(c, kA + xa + id(1))); add("pps255->31", u_pps(c, ppid(255, 31)));
    add("sps31C", u_sps(c, kC + id(31))); add("slice1 p255", u_slice(0x61, 2, 255, 1)); add("slice20 p255", u_slice(0x34, 1, 255, 1));
    add("partition A", u_slice(0x62, 2, 0, 1)); add("aux slice", u_slice(0x13, 2, 0, 1)); add("sps id 32", u_sps(c, kC + id(32))); add("pps id 256", u_pps(c, ppid(256, 0)));
    add("mvc subset", u_sub(c, kC + Fix{{"profile_idc", 118}}));
  }
  return v;
}
