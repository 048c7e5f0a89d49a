// ============================================================ C10 slice headers
struct SliceSet { Bytes sps, pps, slice; bool soft, undef, rejected; uint32_t unimpl; };
static SliceSet slice_build(Explorer& x, m::Slice& s) {
  m::Session ms; auto sp = std::make_shared<m::Sps>(); auto pp = std::make_shared<m::Pps>();
  Built a = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, *sp); });
  // the slice model is run under the decoded sets, so an unusable set is a missing set
  if (!a.rejected) ms.sps[sp->seq_parameter_set_id] = sp;
  Built b = build(x, {0x68}, [&](Enc& e) { m::pps(e, *pp, 1); });
  if (!b.rejected) ms.pps[pp->pic_parameter_set_id] = pp;
  uint32_t idr = (uint32_t)x.pick("x_idr", 'u', 0, 1, true, {});
  uint32_t ref = (uint32_t)x.pick("x_nal_ref_idc", 'u', 0, 3, true, {});
  Built d = build(x, {hdrbyte(ref, idr ? 5 : 1)}, [&](Enc& e) { m::slice(e, s, ref, idr ? 5 : 1, ms); });
  return {a.raw, b.raw, d.raw, a.soft || b.soft || d.soft, a.undef || b.undef || d.undef, d.rejected, d.unimpl};
}
static void slice_body(Explorer& x, bool direct) {
  m::Slice s; SliceSet t = slice_build(x, s);
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(cat({t.sps, t.pps, t.slice}), "slice base=%s%s", x.base.name, x.devtext.c_str())) return;
  m::Nal n; feed(c, {t.sps, t.pps, t.slice}, false, &n);
  if (n.parsed == t.rejected) c.broken("model: enc/dec disagree on acceptance");
  if (n.parsed) { View a, d; v_slice(a, s); v_slice(d, *n.p.slice); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
  if (direct) {
    ImplSession is; impl_parse(m::escape(t.sps), &is); impl_parse(m::escape(t.pps), &is);
    Bytes esc = m::escape(Bytes(t.slice.begin() + 1, t.slice.end()));
    auto r = H::H264SliceHeaderParser::ParseSliceHeader(esc.data(), esc.size(), t.slice[0] >> 5 & 3, t.slice[0] & 31, &is);
    if (!t.soft && (r != nullptr) == t.rejected) c.fail("ParseSliceHeader: %s", r ? "malformed header accepted" : "valid header rejected");
    if (r && !t.rejected) { View a, d; v_slice(a, s); v_slice(d, *r); if (a != d) c.fail("ParseSliceHeader: %s", a.diff(d).c_str()); }
  }
}
static const char* const kSliceSpsNames[] = {"separate_colour_plane_flag", "chroma_format_idc", "log2_max_frame_num_minus4", "pic_order_cnt_type",
  "log2_max_pic_order_cnt_lsb_minus4", "delta_pic_order_always_zero_flag", "frame_mbs_only_flag", "bit_depth_luma_minus8",
  "pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1"};
static const char* const kSlicePpsNames[] = {"entropy_coding_mode_flag", "bottom_field_pic_order_in_frame_present_flag", "num_slice_groups_minus1",
  "slice_group_map_type", "slice_group_change_rate_minus1", "num_ref_idx_l0_default_active_minus1", "num_ref_idx_l1_default_active_minus1",
  "weighted_pred_flag", "weighted_bipred_idc", "deblocking_filter_control_present_flag", "redundant_pic_cnt_present_flag"};
static const char* const kSliceNames[] = {"first_mb_in_slice", "slice_type", "colour_plane_id", "frame_num", "field_pic_flag", "bottom_field_flag", "idr_pic_id",
  "pic_order_cnt_lsb", "delta_pic_order_cnt_bottom", "delta_pic_order_cnt", "redundant_pic_cnt", "direct_spatial_mv_pred_flag",
  "num_ref_idx_active_override_flag", "num_ref_idx_l0_active_minus1", "num_ref_idx_l1_active_minus1", "cabac_init_idc", "slice_qp_delta",
  "sp_for_switch_flag", "slice_qs_delta", "disable_deblocking_filter_idc", "slice_alpha_c0_offset_div2", "slice_beta_offset_div2", "slice_group_change_cycle",
  "ref_pic_list_modification_flag_l0", "ref_pic_list_modification_flag_l1", "modification_of_pic_nums_idc", "abs_diff_pic_num_minus1", "long_term_pic_num",
  "luma_log2_weight_denom", "chroma_log2_weight_denom", "luma_weight_l0_flag", "luma_weight_l0", "luma_offset_l0", "chroma_weight_l0_flag", "chroma_weight_l0", "chroma_offset_l0",
  "luma_weight_l1_flag", "luma_weight_l1", "luma_offset_l1", "chroma_weight_l1_flag", "chroma_weight_l1", "chroma_offset_l1",
  "no_output_of_prior_pics_flag", "long_term_reference_flag", "adaptive_ref_pic_marking_mode_flag", "memory_management_control_operation",
  "difference_of_pic_nums_minus1", "long_term_frame_idx", "max_long_term_frame_idx_plus1"};
static const Fix kSliceSps = {{"profile_idc", 244}, {"seq_parameter_set_id", 3}, {"chroma_format_idc", 1}, {"seq_scaling_matrix_present_flag", 0}, {"vui_parameters_present_flag", 0}, {"frame_cropping_flag", 0},
  {"num_ref_frames_in_pic_order_cnt_cycle", 0}, {"pic_width_in_mbs_minus1", 10}, {"pic_height_in_map_units_minus1", 8}, {"bit_depth_luma_minus8", 0}, {"separate_colour_plane_flag", 0}};
static const Fix kSlicePps = {{"pic_parameter_set_id", 9}, {"num_slice_groups_minus1", 0}, {"slice_group_change_rate_minus1", 6}, {"more_rbsp_data", 0}, {"num_ref_idx_l0_default_active_minus1", 1}, {"num_ref_idx_l1_default_active_minus1", 2}, {"weighted_bipred_idc", 0}};
static std::vector<Base> slice_bases() {
  std::vector<Base> v;
  std::map<std::string, std::vector<int64_t>> seq0 = {{"modification_of_pic_nums_idc", {3}}};
  std::map<std::string, std::vector<int64_t>> seqr = {{"modification_of_pic_nums_idc", {0, 1, 2, 3}}, {"memory_management_control_operation", {1, 2, 3, 4, 5, 6, 0}}};
  v.push_back(mkbase("min", false, kSliceSps + kSlicePps + Fix{{"frame_mbs_only_flag", 1}}, seq0));
  v.push_back(mkbase("minfield", false, kSliceSps + kSlicePps + Fix{{"frame_mbs_only_flag", 0}, {"pic_order_cnt_type", 1}, {"bottom_field_pic_order_in_frame_present_flag", 1}}, seq0));
  v.push_back(mkbase("richP", true, kSliceSps + kSlicePps + Fix{{"slice_type", 0}, {"x_nal_ref_idc", 2}, {"x_idr", 0}, {"frame_mbs_only_flag", 0}, {"field_pic_flag", 1}, {"pic_order_cnt_type", 0}, {"weighted_pred_flag", 1},
     {"entropy_coding_mode_flag", 1}, {"num_ref_idx_active_override_flag", 1}, {"num_ref_idx_l0_active_minus1", 3}, {"deblocking_filter_control_present_flag", 1}, {"redundant_pic_cnt_present_flag", 1}, {"disable_deblocking_filter_idc", 2},
     {"ref_pic_list_modification_flag_l0", 1}, {"adaptive_ref_pic_marking_mode_flag", 1}, {"luma_weight_l0_flag", 1}, {"chroma_weight_l0_flag", 1}}, seqr));
  v.push_back(mkbase("richB", true, kSliceSps + kSlicePps + Fix{{"slice_type", 6}, {"x_nal_ref_idc", 1}, {"x_idr", 0}, {"frame_mbs_only_flag", 1}, {"pic_order_cnt_type", 1}, {"delta_pic_order_always_zero_flag", 0}, {"weighted_bipred_idc", 1},
     {"bottom_field_pic_order_in_frame_present_flag", 1}, {"entropy_coding_mode_flag", 1}, {"num_ref_idx_active_override_flag", 1}, {"num_ref_idx_l0_active_minus1", 1}, {"num_ref_idx_l1_active_minus1", 2}, {"deblocking_filter_control_present_flag", 1}, {"disable_deblocking_filter_idc", 0},
     {"ref_pic_list_modification_flag_l0", 1}, {"ref_pic_list_modification_flag_l1", 1}, {"adaptive_ref_pic_marking_mode_flag", 1},
     {"num_slice_groups_minus1", 2}, {"slice_group_map_type", 4}, {"slice_group_change_cycle", 5}}, seqr));
  v.push_back(mkbase("richIDR", true, kSliceSps + kSlicePps + Fix{{"slice_type", 7}, {"x_nal_ref_idc", 3}, {"x_idr", 1}, {"chroma_format_idc", 3}, {"separate_colour_plane_flag", 1}, {"colour_plane_id", 1}, {"frame_mbs_only_flag", 0}, {"field_pic_flag", 0}, {"pic_order_cnt_type", 0},
     {"log2_max_frame_num_minus4", 9}, {"log2_max_pic_order_cnt_lsb_minus4", 12}, {"bottom_field_pic_order_in_frame_present_flag", 1}, {"deblocking_filter_control_present_flag", 1}, {"disable_deblocking_filter_idc", 0},
     {"num_slice_groups_minus1", 1}, {"slice_group_map_type", 3}, {"slice_group_change_cycle", 2}}, seqr));
  v.push_back(mkbase("richSP", true, kSliceSps + kSlicePps + Fix{{"profile_idc", 88}, {"slice_type", 3}, {"x_nal_ref_idc", 1}, {"x_idr", 0}, {"frame_mbs_only_flag", 1}, {"pic_order_cnt_type", 2}, {"weighted_pred_flag", 1}, {"num_ref_idx_active_override_flag", 0},
     {"num_ref_idx_l0_default_active_minus1", 4}, {"luma_weight_l0_flag", 1}, {"chroma_weight_l0_flag", 0}, {"ref_pic_list_modification_flag_l0", 0}, {"adaptive_ref_pic_marking_mode_flag", 0}, {"deblocking_filter_control_present_flag", 0}}, seqr));
  return v;
}
static Space slice_space(int budget, bool wide) {
  Space s; s.budget = budget; s.wide = wide; s.only_listed = true; s.max_occ = 3;
  freeze(s, kSliceSpsNames, sizeof kSliceSpsNames / sizeof *kSliceSpsNames, 1);
  freeze(s, kSlicePpsNames, sizeof kSlicePpsNames / sizeof *kSlicePpsNames, 1);
  freeze(s, kSliceNames, sizeof kSliceNames / sizeof *kSliceNames, 1);
  s.cost["pic_parameter_set_id"] = 1; s.cost["seq_parameter_set_id"] = 1; s.cost["x_idr"] = 1; s.cost["x_nal_ref_idc"] = 1;
  auto& k = s.cands;
  k["slice_type"] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
  k["pic_parameter_set_id"] = {0, 9, 255, 256}; k["seq_parameter_set_id"] = {0, 3, 31};
  k["x_nal_ref_idc"] = {0, 1, 3}; k["x_idr"] = {0, 1};
  k["pic_width_in_mbs_minus1"] = {0, 1, 119, 1055}; k["pic_height_in_map_units_minus1"] = {0, 67, 131};
  k["slice_group_change_rate_minus1"] = {0, 1, 8, 98, 7919, 139263};
  k["num_slice_groups_minus1"] = {0, 1, 7}; k["slice_group_map_type"] = {0, 1, 2, 3, 4, 5};
  k["num_ref_idx_l0_default_active_minus1"] = k["num_ref_idx_l1_default_active_minus1"] = {0, 1, 31};
  k["num_ref_idx_l0_active_minus1"] = k["num_ref_idx_l1_active_minus1"] = {0, 1, 15, 31, 32};
  k["log2_max_frame_num_minus4"] = k["log2_max_pic_order_cnt_lsb_minus4"] = {0, 1, 4, 12};
  k["bit_depth_luma_minus8"] = {0, 6}; k["chroma_format_idc"] = {0, 1, 2, 3};
  k["first_mb_in_slice"] = {0, 1, 139263, 139264}; k["idr_pic_id"] = {0, 1, 65535, 65536}; k["redundant_pic_cnt"] = {0, 1, 127, 128};
  k["frame_num"] = {}; s.cands.erase("frame_num");
  k["modification_of_pic_nums_idc"] = {0, 1, 2, 3, 4}; k["memory_management_control_operation"] = {0, 1, 2, 3, 4, 5, 6, 7};
  k["abs_diff_pic_num_minus1"] = {0, 1, 131071}; k["long_term_pic_num"] = {0, 31}; k["difference_of_pic_nums_minus1"] = {0, 131071};
  k["long_term_frame_idx"] = {0, 15}; k["max_long_term_frame_idx_plus1"] = {0, 16};
  for (auto n : {"luma_weight_l0", "luma_offset_l0", "chroma_weight_l0", "chroma_offset_l0", "luma_weight_l1", "luma_offset_l1", "chroma_weight_l1", "chroma_offset_l1"}) k[n] = {0, -128, 127};
  k["luma_log2_weight_denom"] = k["chroma_log2_weight_denom"] = {0, 1, 7, 8};
  k["delta_pic_order_cnt"] = k["delta_pic_order_cnt_bottom"] = {0, 1, -1, m::SEMAX, -m::SEMAX};
  k["slice_qp_delta"] = {0, 51, -51, 52, -52, 87, 88, -87, -88}; k["slice_qs_delta"] = {0, 51, -51};
  k["slice_alpha_c0_offset_div2"] = k["slice_beta_offset_div2"] = {0, 6, -6};
  k["cabac_init_idc"] = {0, 2, 3}; k["disable_deblocking_filter_idc"] = {0, 1, 2, 3};
  for (auto& n : {"pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1"}) { s.wcands[n] = {0, 1, 2, 3, 7, 14, 15, 16, 31, 63, 64, 119, 127, 128, 255, 511, 1023, 1054, 1055}; }
  return s;
}
// long lists of commands: N list modifications, N memory management commands
static const int kLong[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 35, 63, 64, 65, 66, 67, 70, 127, 128, 129, 255, 256, 257, 300, 1025};
static std::map<std::string, std::vector<int64_t>> long_seq(int nm, int nc, int kind) {
  std::vector<int64_t> a, b; for (int i = 0; i < nm; ++i) a.push_back(kind < 3 ? kind : i % 3); a.push_back(3);
  for (int i = 0; i < nc; ++i) b.push_back(kind < 6 ? kind + 1 : 1 + i % 6); b.push_back(0);
  return {{"modification_of_pic_nums_idc", a}, {"memory_management_control_operation", b}};
}
template <class F> static void long_lists(Ctx& c, const std::vector<Base>& bases, F body) {
  for (auto& b0 : bases) { if (!b0.rich) continue; for (int N : kLong) for (int kind = 0; kind < 7; ++kind) for (int which = 0; which < 3; ++which) {
    Base b = b0; b.seq = long_seq(which == 1 ? 1 : N, which == 0 ? 1 : N, kind); Space z; z.budget = 0; Explorer e(c, b, z, body); e.salt = (uint64_t)N * 64 + kind * 4 + which; e.go(); } }
}
// every combination of the conditions that decide which elements a slice header has; all other values vary with the combination
static void slice_product(Ctx& c, const std::function<void(Explorer&)>& body, uint64_t salts, bool front = true) {
  struct Cl { const char* name; std::vector<int64_t> types, types2; std::vector<const char*> free; };
  std::vector<Cl> cl = {{"intra slices", {2, 9}, {7, 4}, {}}, {"P and SP slices", {5, 3}, {0, 8}, {"weighted_pred_flag", "num_ref_idx_active_override_flag", "ref_pic_list_modification_flag_l0"}}, {"B slices", {1}, {6}, {"weighted_bipred_idc", "num_ref_idx_active_override_flag", "ref_pic_list_modification_flag_l0", "ref_pic_list_modification_flag_l1"}}};
  for (uint64_t salt = 1; salt <= salts; ++salt) for (auto& k : cl) {
    if (salt > 1) std::swap(k.types, k.types2);
    Base b = mkbase(k.name, true, kSliceSps + kSlicePps + Fix{{"slice_type", k.types[0]}, {"x_nal_ref_idc", 2}, {"x_idr", 0}, {"frame_mbs_only_flag", 1}, {"pic_order_cnt_type", 0}, {"delta_pic_order_always_zero_flag", 0}, {"bottom_field_pic_order_in_frame_present_flag", 0}, {"redundant_pic_cnt_present_flag", 0}, {"entropy_coding_mode_flag", 0}, {"deblocking_filter_control_present_flag", 0}, {"disable_deblocking_filter_idc", 0}, {"slice_group_map_type", 3},
      {"field_pic_flag", 0}, {"bottom_field_flag", 0}, {"weighted_pred_flag", 0}, {"num_ref_idx_active_override_flag", 0}, {"num_ref_idx_l0_active_minus1", 0}, {"num_ref_idx_l1_active_minus1", 1}, {"ref_pic_list_modification_flag_l0", 0}, {"ref_pic_list_modification_flag_l1", 0}, {"adaptive_ref_pic_marking_mode_flag", 0}}); b.fix.erase("bit_depth_luma_minus8"); b.fix.erase("pic_height_in_map_units_minus1"); b.fix["more_rbsp_data"] = salt % 2 == 0; b.fix["pic_scaling_matrix_present_flag"] = 0; if (salt > 2) { b.fix.erase("num_ref_idx_l0_default_active_minus1"); b.fix.erase("num_ref_idx_l0_active_minus1"); }
    Space s; s.budget = 0; s.only_listed = true; s.shard_depth = 6; s.vary = salt; s.max_occ = 1000000; auto fr = [&](const char* n, std::vector<int64_t> v) { s.cost[n] = 0; s.cands[n] = v; };
    fr("slice_type", k.types); for (auto n : k.free) fr(n, {0, 1}); if (k.types.size() == 1) fr("weighted_bipred_idc", {0, 1, 2});
    fr("chroma_format_idc", c.thorough ? std::vector<int64_t>{0, 1, 2, 3} : std::vector<int64_t>{0, 1, 3}); for (auto n : {"separate_colour_plane_flag", "delta_pic_order_always_zero_flag", "frame_mbs_only_flag", "entropy_coding_mode_flag", "bottom_field_pic_order_in_frame_present_flag", "deblocking_filter_control_present_flag", "redundant_pic_cnt_present_flag", "x_idr", "field_pic_flag", "bottom_field_flag", "adaptive_ref_pic_marking_mode_flag"}) fr(n, {0, 1});
    fr("pic_order_cnt_type", {0, 1, 2}); fr("num_slice_groups_minus1", {0, 2}); fr("slice_group_map_type", {2, 3, 4, 5}); fr("x_nal_ref_idc", {0, 2}); fr("disable_deblocking_filter_idc", {0, 1, 2});
    s.rich["slice_group_change_cycle"] = {0, 1, 2}; s.rich["pic_height_in_map_units_minus1"] = {0, 1, 4, 8, 20, 35, 63, 131};
    // the elements before the slice type dependent part vary instead of being combined
    if (!front) { for (auto n : {"separate_colour_plane_flag", "delta_pic_order_always_zero_flag", "frame_mbs_only_flag", "bottom_field_pic_order_in_frame_present_flag", "redundant_pic_cnt_present_flag", "field_pic_flag", "bottom_field_flag", "pic_order_cnt_type"}) { s.cost.erase(n); s.cands.erase(n); b.fix.erase(n); } }
    Explorer e(c, b, s, body); e.salt = salt; e.go(); }
}
static void c10(Ctx& c) {
  slice_product(c, [](Explorer& x) { slice_body(x, false); }, c.thorough ? 6 : 2);
  for (auto& b : slice_bases()) {
    Space w = slice_space(1, true); w.wide_limit = c.thorough ? 150000 : 4200;
    Explorer(c, b, w, [](Explorer& x) { slice_body(x, true); }).go();
    // slice type, reference idc and unit type free; every pair (triple) of other deviations
    Space s = slice_space(b.rich ? 2 : 3, false); if (c.thorough) s.budget++;
    s.cost["slice_type"] = 0; s.cost["x_idr"] = 0;
    if (!b.rich || c.thorough) s.cost["x_nal_ref_idc"] = 0;
    s.cands["slice_type"] = b.rich ? std::vector<int64_t>{0, 1, 2, 3, 4} : std::vector<int64_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    s.cands["x_nal_ref_idc"] = {0, 1};
    s.max_occ = 2;
    if (!b.rich && !c.thorough) { s.budget = 2; }
    Explorer(c, b, s, [](Explorer& x) { slice_body(x, false); }).go();
    Space s3 = slice_space(3, false); s3.max_occ = 1; s3.cands["slice_type"] = {0, 1, 2, 3, 4};
    for (auto n : {"abs_diff_pic_num_minus1", "long_term_pic_num", "difference_of_pic_nums_minus1", "long_term_frame_idx", "max_long_term_frame_idx_plus1", "luma_weight_l0", "luma_offset_l0", "chroma_weight_l0", "chroma_offset_l0",
                   "luma_weight_l1", "luma_offset_l1", "chroma_weight_l1", "chroma_offset_l1"}) s3.cost[n] = 99;
    if (!b.rich || c.thorough) Explorer(c, b, s3, [](Explorer& x) { slice_body(x, false); }).go();
    Space z; z.budget = 0;
    Explorer(c, b, z, [](Explorer& x) {
      m::Slice s; SliceSet t = slice_build(x, s);
      if (x.ctx.shard != 3) return;
      trunc_all(x.ctx, {t.sps, t.pps, t.slice}, "slice");
      // missing sets, in every combination
      for (int k = 0; k < 3; ++k) { std::vector<Bytes> u; if (k & 1) u.push_back(t.sps); if (k & 2) u.push_back(t.pps); u.push_back(t.slice);
        if (x.ctx.begin(cat(u), "slice base=%s with sets %d", x.base.name, k)) feed(x.ctx, u); }
    }).go();
  }
  // exact slice_group_change_cycle widths: picture sizes x change rates
  Base b = mkbase("cycle", false, kSliceSps + kSlicePps + Fix{{"frame_mbs_only_flag", 1}, {"num_slice_groups_minus1", 1}, {"slice_group_map_type", 3}, {"slice_qp_delta", -3}, {"slice_group_change_cycle", 1}}, {{"modification_of_pic_nums_idc", {3}}});
  Space s; s.budget = 0; s.only_listed = true;
  for (auto n : {"pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1", "slice_group_change_rate_minus1", "slice_group_map_type"}) s.cost[n] = 0;
  for (int i = 0; i < (c.thorough ? 130 : 40); ++i) s.cands["pic_width_in_mbs_minus1"].push_back(i);
  s.cands["pic_height_in_map_units_minus1"] = {0, 1, 2, 3, 4, 7, 15, 16, 62, 63, 64}; s.cands["slice_group_map_type"] = {4, 5};
  for (int i = 0; i < (c.thorough ? 130 : 36); ++i) s.cands["slice_group_change_rate_minus1"].push_back(i);
  for (int i : {63, 64, 127, 128, 255, 1023, 1024, 2047, 4095, 4096, 139263}) s.cands["slice_group_change_rate_minus1"].push_back(i);
  Explorer(c, b, s, [](Explorer& x) { slice_body(x, false); }).go();
  long_lists(c, slice_bases(), [](Explorer& x) { slice_body(x, true); });
}

// ============================================================ C12 scalable slice headers
struct SvcSet { Bytes subset, pps, slice; bool soft, undef, rejected; uint32_t unimpl; };
static SvcSet svc_build(Explorer& x, m::SvcSlice& s) {
  m::Session ms; auto sp = std::make_shared<m::Subset>(); auto pp = std::make_shared<m::Pps>();
  Built a = build(x, {0x6f}, [&](Enc& e) { m::subset(e, *sp); });
  if (!a.rejected) ms.subset[sp->seq_parameter_set_data->seq_parameter_set_id] = sp;
  Built b = build(x, {0x68}, [&](Enc& e) { m::pps(e, *pp, 1); });
  if (!b.rejected) ms.pps[pp->pic_parameter_set_id] = pp;
  m::NalHdr h;
  Built d = build(x, {}, [&](Enc& e) { m::nalhdr(e, h); m::svcslice(e, s, h, ms); });
  return {a.raw, b.raw, d.raw, a.soft || b.soft || d.soft, a.undef || b.undef || d.undef, d.rejected, d.unimpl};
}
static void svc_body(Explorer& x) {
  m::SvcSlice s; SvcSet t = svc_build(x, s);
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(cat({t.subset, t.pps, t.slice}), "svc slice base=%s%s", x.base.name, x.devtext.c_str())) return;
  m::Nal n; feed(c, {t.subset, t.pps, t.slice}, false, &n);
  if (t.undef) return;
  if (n.parsed == t.rejected) c.broken("model: enc/dec disagree on acceptance");
  if (n.parsed) { View a, d; v_svcslice(a, s); v_svcslice(d, *n.p.svcslice); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
}
static const char* const kSvcNames[] = {"base_pred_weight_table_flag", "store_ref_base_pic_flag", "ref_layer_dq_id", "disable_inter_layer_deblocking_filter_idc",
  "inter_layer_slice_alpha_c0_offset_div2", "inter_layer_slice_beta_offset_div2", "constrained_intra_resampling_flag", "ref_layer_chroma_phase_x_plus1_flag",
  "ref_layer_chroma_phase_y_plus1", "scaled_ref_layer_left_offset", "scaled_ref_layer_top_offset", "scaled_ref_layer_right_offset", "scaled_ref_layer_bottom_offset",
  "slice_skip_flag", "num_mbs_in_slice_minus1", "adaptive_base_mode_flag", "default_base_mode_flag", "adaptive_motion_prediction_flag", "default_motion_prediction_flag",
  "adaptive_residual_prediction_flag", "default_residual_prediction_flag", "tcoeff_level_prediction_flag", "scan_idx_start", "scan_idx_end",
  "inter_layer_deblocking_filter_control_present_flag", "extended_spatial_scalability_idc", "seq_tcoeff_level_prediction_flag", "adaptive_tcoeff_level_prediction_flag", "slice_header_restriction_flag",
  "idr_flag", "priority_id", "no_inter_layer_pred_flag", "dependency_id", "quality_id", "temporal_id", "use_ref_base_pic_flag", "discardable_flag", "output_flag", "reserved_three_2bits", "nal_ref_idc"};
static std::vector<Base> svc_bases() {
  std::vector<Base> v;
  Fix common = kSliceSps + kSlicePps + Fix{{"profile_idc", 83}, {"forbidden_zero_bit", 0}, {"nal_unit_type", 20}, {"svc_extension_flag", 1}, {"svc_vui_parameters_present_flag", 0}, {"additional_extension2_flag", 0}};
  std::map<std::string, std::vector<int64_t>> seq0 = {{"modification_of_pic_nums_idc", {3}}};
  std::map<std::string, std::vector<int64_t>> seqr = {{"modification_of_pic_nums_idc", {0, 2, 3}}, {"memory_management_control_operation", {1, 3, 4, 6, 0}}};
  v.push_back(mkbase("svcmin", false, common + Fix{{"frame_mbs_only_flag", 1}}, seq0));
  v.push_back(mkbase("svcminIL", false, common + Fix{{"frame_mbs_only_flag", 0}, {"profile_idc", 86}, {"no_inter_layer_pred_flag", 1}, {"slice_type", 2}, {"slice_header_restriction_flag", 1}}, seq0));
  Fix r = common + Fix{{"nal_ref_idc", 1}, {"use_ref_base_pic_flag", 0}, {"store_ref_base_pic_flag", 0}, {"quality_id", 0}, {"no_inter_layer_pred_flag", 0}, {"num_ref_idx_active_override_flag", 1}, {"num_ref_idx_l0_active_minus1", 2}, {"num_ref_idx_l1_active_minus1", 1},
    {"weighted_pred_flag", 1}, {"weighted_bipred_idc", 1}, {"base_pred_weight_table_flag", 0}, {"entropy_coding_mode_flag", 1}, {"deblocking_filter_control_present_flag", 1}, {"disable_deblocking_filter_idc", 2},
    {"inter_layer_deblocking_filter_control_present_flag", 1}, {"disable_inter_layer_deblocking_filter_idc", 3}, {"extended_spatial_scalability_idc", 2}, {"slice_skip_flag", 0}, {"adaptive_base_mode_flag", 0}, {"default_base_mode_flag", 0}, {"adaptive_motion_prediction_flag", 0},
    {"adaptive_residual_prediction_flag", 0}, {"seq_tcoeff_level_prediction_flag", 1}, {"adaptive_tcoeff_level_prediction_flag", 1}, {"slice_header_restriction_flag", 0}, {"scan_idx_start", 3}, {"scan_idx_end", 12},
    {"ref_pic_list_modification_flag_l0", 1}, {"ref_pic_list_modification_flag_l1", 1}, {"adaptive_ref_pic_marking_mode_flag", 1}, {"frame_mbs_only_flag", 0}, {"field_pic_flag", 0}, {"num_slice_groups_minus1", 1}, {"slice_group_map_type", 5}, {"slice_group_change_cycle", 3}};
  v.push_back(mkbase("svcrichP", true, r + Fix{{"slice_type", 0}, {"idr_flag", 0}, {"pic_order_cnt_type", 0}, {"bottom_field_pic_order_in_frame_present_flag", 1}}, seqr));
  v.push_back(mkbase("svcrichB", true, r + Fix{{"slice_type", 6}, {"idr_flag", 0}, {"pic_order_cnt_type", 1}, {"delta_pic_order_always_zero_flag", 0}, {"bottom_field_pic_order_in_frame_present_flag", 1}, {"redundant_pic_cnt_present_flag", 1}}, seqr));
  v.push_back(mkbase("svcrichI", true, r + Fix{{"slice_type", 7}, {"idr_flag", 1}, {"pic_order_cnt_type", 2}, {"store_ref_base_pic_flag", 1}, {"field_pic_flag", 1}, {"slice_skip_flag", 1}, {"slice_header_restriction_flag", 0}, {"chroma_format_idc", 3}, {"separate_colour_plane_flag", 1}, {"colour_plane_id", 2}}, seqr));
  return v;
}
static Space svc_space(int budget, bool wide) {
  Space s = slice_space(budget, wide);
  freeze(s, kSvcNames, sizeof kSvcNames / sizeof *kSvcNames, 1);
  auto& k = s.cands;
  k["slice_type"] = {0, 1, 2, 5, 6, 7, 10}; k["profile_idc"] = {83, 86};
  for (auto n : {"priority_id", "dependency_id", "temporal_id", "reserved_three_2bits", "discardable_flag", "output_flag"}) s.cost[n] = 99;
  k["quality_id"] = {0, 1, 15}; k["nal_ref_idc"] = {0, 1, 3}; k["scan_idx_start"] = k["scan_idx_end"] = {0, 15};
  k["ref_layer_dq_id"] = {0, 1, 127}; k["disable_inter_layer_deblocking_filter_idc"] = {0, 1, 2, 6};
  k["inter_layer_slice_alpha_c0_offset_div2"] = k["inter_layer_slice_beta_offset_div2"] = {0, 6, -6};
  for (auto n : {"scaled_ref_layer_left_offset", "scaled_ref_layer_top_offset", "scaled_ref_layer_right_offset", "scaled_ref_layer_bottom_offset"}) k[n] = {0, m::SEMAX, -m::SEMAX, -1};
  k["num_mbs_in_slice_minus1"] = {0, 139263}; k["slice_qp_delta"] = {0, 51, -51, 87, -87};
  k["disable_deblocking_filter_idc"] = {0, 1, 2, 3, 6, 7};
  s.cost["sp_for_switch_flag"] = 99;
  return s;
}
// the same for scalable slices: front and middle part, then middle and inter-layer part, the other elements varying with the combination
static void svc_product(Ctx& c, const std::function<void(Explorer&)>& body, uint64_t salts, bool all = true) {
  struct Cl { const char* name; std::vector<int64_t> types; std::vector<const char*> free; };
  std::vector<Cl> cl = {{"EI slices", {2, 7}, {}}, {"EP slices", {5, 0}, {"weighted_pred_flag", "num_ref_idx_active_override_flag", "ref_pic_list_modification_flag_l0", "base_pred_weight_table_flag"}}, {"EB slices", {6, 1}, {"weighted_bipred_idc", "num_ref_idx_active_override_flag", "base_pred_weight_table_flag"}}};
  for (uint64_t salt = 1; salt <= salts; ++salt) for (int part = all ? 0 : 1; part < 2; ++part) for (auto& k : cl) {
    Fix f = kSliceSps + kSlicePps + Fix{{"profile_idc", salt % 2 ? 83 : 86}, {"forbidden_zero_bit", 0}, {"nal_unit_type", 20}, {"svc_extension_flag", 1}, {"svc_vui_parameters_present_flag", 0}, {"additional_extension2_flag", 0}, {"slice_type", k.types[0]}, {"use_ref_base_pic_flag", 0}, {"store_ref_base_pic_flag", 0}, {"pic_scaling_matrix_present_flag", 0}, {"num_ref_idx_l0_active_minus1", 0}, {"num_ref_idx_l1_active_minus1", 1}};
    f["more_rbsp_data"] = salt % 2 == 0; f["num_slice_groups_minus1"] = 2; for (auto n : {"chroma_format_idc", "separate_colour_plane_flag", "bit_depth_luma_minus8", "pic_height_in_map_units_minus1", "weighted_bipred_idc"}) f.erase(n);
    Base b = mkbase(k.name, true, f); b.fix["x"] = part;
    Space s; s.budget = 0; s.only_listed = true; s.shard_depth = 6; s.vary = salt * 2 + part; s.max_occ = 1000000; auto fr = [&](const char* n, std::vector<int64_t> v) { s.cost[n] = 0; s.cands[n] = v; b.fix[n] = v[0]; };
    if (c.thorough) fr("slice_type", k.types); else b.fix["slice_type"] = k.types[part]; for (auto n : k.free) fr(n, {0, 1}); if (k.types[0] == 6) fr("weighted_bipred_idc", {0, 1, 2});
    fr("quality_id", {0, 1}); fr("nal_ref_idc", {0, 2}); for (auto n : {"idr_flag", "no_inter_layer_pred_flag", "adaptive_ref_pic_marking_mode_flag", "entropy_coding_mode_flag"}) fr(n, {0, 1});
    if (part == 0) { fr("chroma_format_idc", {0, 1, 3}); fr("pic_order_cnt_type", {0, 1, 2}); for (auto n : {"separate_colour_plane_flag", "delta_pic_order_always_zero_flag", "frame_mbs_only_flag", "bottom_field_pic_order_in_frame_present_flag", "redundant_pic_cnt_present_flag", "field_pic_flag", "deblocking_filter_control_present_flag"}) fr(n, {0, 1}); }
    else { fr("extended_spatial_scalability_idc", {0, 1, 2}); fr("chroma_format_idc", {0, 2}); fr("disable_inter_layer_deblocking_filter_idc", {0, 1}); for (auto n : {"inter_layer_deblocking_filter_control_present_flag", "slice_skip_flag", "adaptive_base_mode_flag", "default_base_mode_flag", "adaptive_motion_prediction_flag", "adaptive_residual_prediction_flag", "seq_tcoeff_level_prediction_flag", "adaptive_tcoeff_level_prediction_flag", "slice_header_restriction_flag"}) fr(n, {0, 1}); }
    s.rich["slice_group_change_cycle"] = {0, 1, 2}; s.rich["pic_height_in_map_units_minus1"] = {0, 1, 4, 8, 20, 35, 63, 131}; s.rich["store_ref_base_pic_flag"] = {0}; s.rich["num_slice_groups_minus1"] = {0, 2}; s.rich["slice_group_map_type"] = {1, 2, 3, 4, 5}; b.fix.erase("num_slice_groups_minus1");
    if (!all) for (auto n : {"adaptive_ref_pic_marking_mode_flag", "entropy_coding_mode_flag", "weighted_pred_flag", "num_ref_idx_active_override_flag", "ref_pic_list_modification_flag_l0", "disable_inter_layer_deblocking_filter_idc", "seq_tcoeff_level_prediction_flag", "adaptive_residual_prediction_flag"}) { s.cost.erase(n); s.cands.erase(n); b.fix.erase(n); }
    Explorer e(c, b, s, body); e.salt = salt * 2 + part; e.go(); }
}
static void c12(Ctx& c) {
  svc_product(c, svc_body, c.thorough ? 4 : 1);
  for (auto& b : svc_bases()) {
    Space w = svc_space(1, true); w.wide_limit = c.thorough ? 150000 : 4200;
    for (auto n : {"priority_id", "dependency_id", "temporal_id", "reserved_three_2bits", "discardable_flag", "output_flag"}) w.cost[n] = 1;
    Explorer(c, b, w, svc_body).go();
    Space s = svc_space(2 + (c.thorough && !b.rich), false); s.max_occ = 2;
    for (auto n : {"slice_type", "idr_flag", "no_inter_layer_pred_flag", "nal_ref_idc"}) s.cost[n] = 0;
    s.cands["slice_type"] = {0, 1, 2}; s.cands["nal_ref_idc"] = {0, 1};
    if (!b.rich || c.thorough) { s.cost["quality_id"] = 0; s.cands["quality_id"] = {0, 1}; s.cost["slice_header_restriction_flag"] = 0; }
    Explorer(c, b, s, svc_body).go();
    Space z; z.budget = 0;
    Explorer(c, b, z, [](Explorer& x) {
      m::SvcSlice s; SvcSet t = svc_build(x, s);
      if (x.ctx.shard != 3) return;
      trunc_all(x.ctx, {t.subset, t.pps, t.slice}, "svc slice");
      Bytes sps = t.subset; sps[0] = 0x67;
      for (int k = 0; k < 8; ++k) { std::vector<Bytes> u; if (k & 1) u.push_back(t.subset); if (k & 2) u.push_back(t.pps); if (k & 4) u.push_back(sps); u.push_back(t.slice);
        if (x.ctx.begin(cat(u), "svc slice base=%s with sets %d", x.base.name, k)) feed(x.ctx, u); }
    }).go();
  }
  long_lists(c, svc_bases(), svc_body);
}
