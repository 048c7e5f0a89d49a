// Structural products: every combination of the elements that decide which other elements a parameter set has.
// All other values vary with the combination (half of them at the ends of their range), for several assignments (salts).
struct Product {
  Base b; Space s;
  Product(const char* name, const Fix& f, uint64_t salt) { b = mkbase(name, true, f); s.budget = 0; s.only_listed = true; s.shard_depth = 4; s.vary = salt; s.max_occ = 1000000; }
  void free(const char* n, std::vector<int64_t> v) { s.cost[n] = 0; s.cands[n] = v; b.fix[n] = v[0]; }
  template <size_t N> void flags(const char* const (&n)[N]) { for (auto x : n) free(x, {0, 1}); }
  void go(Ctx& c, uint64_t salt, const std::function<void(Explorer&)>& body) { Explorer e(c, b, s, body); e.salt = salt; e.go(); }
};
static void sps_values(Space& s) {
  s.rich["pic_width_in_mbs_minus1"] = {0, 1, 10, 21, 44, 119, 1055}; s.rich["pic_height_in_map_units_minus1"] = {0, 1, 8, 17, 35, 67, 131};
  for (auto n : {"frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset", "frame_crop_bottom_offset"}) s.rich[n] = {0, 1, 2, 3};
  s.rich["num_ref_frames_in_pic_order_cnt_cycle"] = {0, 1, 2, 5}; s.rich["delta_scale"] = {0, 0, 0, 1, -1, 4, -3, -8, 9, 127, -128};
  s.rich["cpb_cnt_minus1"] = {0, 1, 2, 3}; s.rich["num_units_in_tick"] = {1, 1001, 0x7fffffff, 0xffffffffll, 65536}; s.rich["time_scale"] = {1, 2, 60000, 0x80000000ll, 0xffffffffll}; s.rich["aspect_ratio_idc"] = {0, 1, 16, 254, 255, 255}; s.rich["video_format"] = {0, 2, 5, 7};
}
static const char* const kVuiFlags[] = {"aspect_ratio_info_present_flag", "overscan_info_present_flag", "video_signal_type_present_flag", "colour_description_present_flag", "chroma_loc_info_present_flag", "timing_info_present_flag", "nal_hrd_parameters_present_flag", "vcl_hrd_parameters_present_flag", "bitstream_restriction_flag", "pic_struct_present_flag"};
static const char* const kSpsFlags[] = {"separate_colour_plane_flag", "seq_scaling_matrix_present_flag", "delta_pic_order_always_zero_flag", "gaps_in_frame_num_value_allowed_flag", "frame_mbs_only_flag", "mb_adaptive_frame_field_flag", "frame_cropping_flag", "vui_parameters_present_flag"};
static void sps_product(Ctx& c, uint64_t salts, const std::function<void(Explorer&)>& body, const std::vector<int64_t>& high, const std::vector<int64_t>& low) {
  for (uint64_t salt = 1; salt <= salts; ++salt) for (int lo = 0; lo < 2; ++lo) { auto& pr = lo ? low : high; if (pr.empty()) continue;
    Product p(lo ? "product, profiles without chroma format" : "product, profiles with chroma format", Fix{{"svc_vui_parameters_present_flag", 0}, {"additional_extension2_flag", 0}, {"more_rbsp_data", 0}}, salt); sps_values(p.s);
    p.free("profile_idc", pr); p.free("chroma_format_idc", {0, 1, 2, 3}); p.free("pic_order_cnt_type", {0, 1, 2}); p.flags(kSpsFlags); p.go(c, salt, body); }
}
static void vui_product(Ctx& c, uint64_t salts, const std::function<void(Explorer&)>& body) {
  for (uint64_t salt = 1; salt <= salts; ++salt) { Product p("product, VUI", kSpsRichFix + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}, {"vui_parameters_present_flag", 1}}, salt); sps_values(p.s); for (auto n : {"num_units_in_tick", "time_scale", "cpb_cnt_minus1"}) p.b.fix.erase(n);
    if (salt % 8 == 0) p.s.rich["cpb_cnt_minus1"] = {0, 31, 15, 30}; p.flags(kVuiFlags); p.go(c, salt, body); }
}
static void pps_product(Ctx& c, uint64_t salts, const std::function<void(Explorer&)>& body) {
  static const char* const fl[] = {"entropy_coding_mode_flag", "bottom_field_pic_order_in_frame_present_flag", "weighted_pred_flag", "deblocking_filter_control_present_flag", "constrained_intra_pred_flag", "redundant_pic_cnt_present_flag", "transform_8x8_mode_flag", "pic_scaling_matrix_present_flag"};
  for (uint64_t salt = 1; salt <= salts; ++salt) for (int more = 0; more < 2; ++more) { Product p(more ? "product, with the optional part" : "product", Fix{{"more_rbsp_data", more}}, salt); p.flags(fl); p.free("weighted_bipred_idc", {0, 1, 2}); p.free("num_slice_groups_minus1", {0, (int64_t)(1 + salt % 7)}); p.free("slice_group_map_type", {0, 1, 2, 3, 4, 5, 6});
    p.s.rich["delta_scale"] = {0, 0, 0, 1, -1, 4, -3, -8, 9, 127, -128}; p.s.rich["pic_size_in_map_units_minus1"] = {0, 1, 5, 23, 98}; p.s.rich["slice_group_id"] = {0, 1}; p.go(c, salt * 2 + more, body); }
}
// every pair of cropping offsets of a small picture, in every chroma format and coding mode
static void crop_grid(Ctx& c, const std::function<void(Explorer&)>& body) {
  std::vector<int64_t> v; for (int i = 0; i <= 33; ++i) v.push_back(i);
  for (int axis = 0; axis < 2; ++axis) { Product p(axis ? "vertical cropping" : "horizontal cropping", Fix{{"profile_idc", 244}, {"pic_order_cnt_type", 2}, {"seq_scaling_matrix_present_flag", 0}, {"vui_parameters_present_flag", 0}, {"frame_cropping_flag", 1}, {"more_rbsp_data", 0}}, 3 + axis);
    p.s.rich["pic_width_in_mbs_minus1"] = p.s.rich["pic_height_in_map_units_minus1"] = {2, 9, 44};
    p.free("chroma_format_idc", {0, 1, 2, 3}); for (auto n : {"separate_colour_plane_flag", "frame_mbs_only_flag", "mb_adaptive_frame_field_flag"}) p.free(n, {0, 1});
    p.free(axis ? "pic_height_in_map_units_minus1" : "pic_width_in_mbs_minus1", {0, 1}); for (auto n : {"frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset", "frame_crop_bottom_offset"}) p.s.rich[n] = {0, 1};
    p.free(axis ? "frame_crop_top_offset" : "frame_crop_left_offset", v); p.free(axis ? "frame_crop_bottom_offset" : "frame_crop_right_offset", v); p.go(c, 77 + axis, body); }
}
