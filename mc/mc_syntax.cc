#include "syntax.h"
#include "h264_rtp_parser.h"

// ============================================================ C07 SPS
static void sps_body(Explorer& x, bool direct) {
  m::Sps s;
  Built b = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "SPS base=%s%s", x.base.name, x.devtext.c_str())) return;
  {  // the two directions of the model agree
    m::Session ms; m::Nal n = m::dec_nal(b.raw.data(), b.raw.size(), ms);
    if (!b.undef && n.parsed == b.rejected) c.broken("model: enc/dec disagree on acceptance");
    if (n.parsed && !b.undef) { View a, d; v_sps(a, s); v_sps(d, *n.p.sps); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
  }
  feed(c, {b.raw});
  if (direct) {
    Bytes pay(b.raw.begin() + 1, b.raw.end()); Bytes esc = m::escape(pay);
    auto r = H::H264SpsParser::ParseSps(esc.data(), esc.size());
    auto r2 = H::H264SpsDataParser::ParseSpsData(esc.data(), esc.size());
    if (!b.soft && !b.undef) {
      if ((r != nullptr) == b.rejected || (r2 != nullptr) == b.rejected) c.fail("ParseSps/ParseSpsData: acceptance differs from the standard");
    }
    if (r && r2 && !b.undef) {
      View a, d, d2; v_sps(a, s); if (!r->sps_data) c.fail("ParseSps without data"); v_sps(d, *r->sps_data); v_sps(d2, *r2);
      if (a != d) c.fail("ParseSps: %s", a.diff(d).c_str());
      if (a != d2) c.fail("ParseSpsData: %s", a.diff(d2).c_str());
    }
  }
}
static std::vector<Base> sps_bases() {
  std::vector<int64_t> small{3, -2, 5, 1, -7, 4, 0, 2, -1, 6, -3};
  std::vector<Base> v;
  v.push_back(mkbase("min66", false, {{"profile_idc", 66}, {"frame_mbs_only_flag", 1}}));
  v.push_back(mkbase("min100", false, {{"profile_idc", 100}}));
  v.push_back(mkbase("rich88poc1", true, kSpsRichFix + Fix{{"profile_idc", 88}, {"pic_order_cnt_type", 1}, {"frame_mbs_only_flag", 0}}));
  v.push_back(mkbase("rich110c2", true, kSpsRichFix + Fix{{"profile_idc", 110}, {"chroma_format_idc", 2}, {"pic_order_cnt_type", 0}, {"frame_mbs_only_flag", 1}}));
  v.push_back(mkbase("rich122c1il", true, kSpsRichFix + Fix{{"profile_idc", 122}, {"chroma_format_idc", 1}, {"pic_order_cnt_type", 2}, {"frame_mbs_only_flag", 0}}));
  v.push_back(mkbase("rich244c3sep", true, kSpsRichFix + Fix{{"profile_idc", 244}, {"chroma_format_idc", 3}, {"separate_colour_plane_flag", 1}, {"pic_order_cnt_type", 1}, {"frame_mbs_only_flag", 0}}));
  v.push_back(mkbase("rich44c0", true, kSpsRichFix + Fix{{"profile_idc", 44}, {"chroma_format_idc", 0}, {"pic_order_cnt_type", 0}, {"frame_mbs_only_flag", 0}}));
  v.push_back(mkbase("scaling100", true, kSpsRichFix + Fix{{"profile_idc", 100}, {"seq_scaling_matrix_present_flag", 1}, {"seq_scaling_list_present_flag", 1}}, {{"delta_scale", small}}));
  v.push_back(mkbase("scaling244c3", true, kSpsRichFix + Fix{{"profile_idc", 244}, {"chroma_format_idc", 3}, {"seq_scaling_matrix_present_flag", 1}, {"pic_order_cnt_type", 0}},
                     {{"delta_scale", small}, {"seq_scaling_list_present_flag", {1, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1}}}));
  v.push_back(mkbase("scaling100min", false, {{"profile_idc", 100}, {"seq_scaling_matrix_present_flag", 1}}));
  v.push_back(mkbase("vuirich", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}}));
  return v;
}
static Space sps_space(int budget, bool wide) {
  Space s; s.budget = budget; s.wide = wide;
  s.cands["profile_idc"] = profiles_core();
  s.cands["level_idc"] = {0, 11, 255};
  s.cands["seq_parameter_set_id"] = {0, 1, 31, 32};
  s.cands["delta_scale"] = {0, 1, -1, -8, 127, -128, 128, -129};
  s.cands["offset_for_ref_frame"] = {0, 1, -1, m::SEMAX, -m::SEMAX};
  s.cands["pic_width_in_mbs_minus1"] = {0, 1, 119, 1055, 1056};
  s.cands["pic_height_in_map_units_minus1"] = {0, 1, 67, 1055, 1056};
  s.cands["num_ref_frames_in_pic_order_cnt_cycle"] = {0, 1, 2, 255, 256};
  return s;
}
// The sequence parameter set extension, which is reached through its own entry point only.
static void spsext_body(Explorer& x) {
  m::SpsExt v; Built b = build(x, {}, [&](Enc& e) { m::spsext(e, v); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "SPS extension base=%s%s", x.base.name, x.devtext.c_str())) return;
  for (size_t k = 0; k <= b.raw.size(); ++k) {         // whole, and cut after every byte
    Bytes raw(b.raw.begin(), b.raw.begin() + k), esc = m::escape(raw); Dec d(raw.data(), raw.size()); m::SpsExt w; bool ok = true;
    try { m::spsext(d, w); } catch (m::Reject&) { ok = false; }
    auto r = H::H264SpsExtensionParser::ParseSpsExtension(esc.data(), esc.size());
    if (!(d.soft && ok) && (r != nullptr) != ok) c.fail("ParseSpsExtension, %zu of %zu bytes: %s", k, b.raw.size(), r ? "malformed structure accepted" : "valid structure rejected");
    if (r && ok) { View p, q; v_spsext(p, w); v_spsext(q, *r); if (p != q) c.fail("ParseSpsExtension: %s", p.diff(q).c_str()); if (k == b.raw.size() && !b.rejected) { View z; v_spsext(z, v); if (z != q) c.fail("ParseSpsExtension, encoded values: %s", z.diff(q).c_str()); } c.add(C_ACC); } else c.add(C_REJ);
  }
}
static std::vector<Base> spsext_bases() { return {mkbase("ext0", false, {}), mkbase("ext1", true, {{"seq_parameter_set_id", 3}, {"aux_format_idc", 1}, {"bit_depth_aux_minus8", 2}}), mkbase("ext2", false, {{"aux_format_idc", 2}, {"bit_depth_aux_minus8", 4}})}; }
#include "syntax_product.h"
static void c07(Ctx& c) {
  crop_grid(c, [](Explorer& x) { sps_body(x, false); });
  sps_product(c, c.thorough ? 600 : 60, [](Explorer& x) { sps_body(x, false); }, {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}, {66, 77, 88, 144, 0, 255});
  for (auto& b : sps_bases()) {
    bool vui = b.fix.count("aspect_ratio_idc") != 0, scal = b.fix.count("seq_scaling_list_present_flag") || b.seq.count("delta_scale");
    Space w = sps_space(1, true); if (c.thorough) w.wide_limit = 70000;
    Explorer(c, b, w, [](Explorer& x) { sps_body(x, true); }).go();
    int bud = (vui || scal) ? 2 : 3; if (c.thorough) bud++;
    Space s = sps_space(bud, false); FREEZE(s, kVuiNames);
    s.max_occ = scal ? 12 : 2;
    if (vui) { freeze(s, kVuiNames, 42, 1); s.max_occ = 2; s.budget = 2; }
    Explorer(c, b, s, [](Explorer& x) { sps_body(x, false); }).go();
  }
  for (auto& b : spsext_bases()) { Space s; s.budget = 4; Explorer(c, b, s, spsext_body).go(); Space w; w.wide = true; w.budget = 1 + c.thorough; w.wide_limit = 20000; Explorer(c, b, w, spsext_body).go(); }
}

// ============================================================ C08 VUI / HRD
static void vui_sps_body(Explorer& x) { sps_body(x, false); }
static void vui_direct_body(Explorer& x) {
  m::Vui v; Built b = build(x, {}, [&](Enc& e) { m::vui(e, v); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "VUI direct base=%s%s", x.base.name, x.devtext.c_str())) return;
  Bytes esc = m::escape(b.raw);
  auto r = H::H264VuiParametersParser::ParseVuiParameters(esc.data(), esc.size());
  if (!b.soft && (r != nullptr) == b.rejected) c.fail("ParseVuiParameters: %s", r ? "out-of-range structure accepted" : "valid structure rejected");
  if (r && !b.rejected) { View a, d; v_vui(a, v); v_vui(d, *r); if (a != d) c.fail("ParseVuiParameters: %s", a.diff(d).c_str()); c.add(C_ACC); } else c.add(C_REJ);
}
static void hrd_direct_body(Explorer& x) {
  m::Hrd v; Built b = build(x, {}, [&](Enc& e) { m::hrd(e, v); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "HRD direct base=%s%s", x.base.name, x.devtext.c_str())) return;
  Bytes esc = m::escape(b.raw);
  auto r = H::H264HrdParametersParser::ParseHrdParameters(esc.data(), esc.size());
  if (!b.soft && (r != nullptr) == b.rejected) c.fail("ParseHrdParameters: %s", r ? "out-of-range structure accepted" : "valid structure rejected");
  if (r && !b.rejected) { View a, d; v_hrd(a, v); v_hrd(d, *r); if (a != d) c.fail("ParseHrdParameters: %s", a.diff(d).c_str()); c.add(C_ACC); } else c.add(C_REJ);
}
static void trunc_all(Ctx& c, const std::vector<Bytes>& units, const char* label) {
  // the last unit cut after every byte
  const Bytes& u = units.back();
  for (size_t k = 0; k < u.size(); ++k) {
    std::vector<Bytes> v(units); v.back().resize(k);
    if (!c.begin(v.back(), "%s cut to %zu bytes", label, k)) continue;
    feed(c, v);
  }
}
static void c08(Ctx& c) {
  vui_product(c, c.thorough ? 12000 : 1200, vui_sps_body);
  Base zero = mkbase("vuimin", false, kVuiMin + Fix{{"profile_idc", 66}});
  Base rich = mkbase("vuirich", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}});
  Base rich2 = mkbase("vuirich2", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 100}, {"pic_order_cnt_type", 2}, {"aspect_ratio_idc", 1}, {"vcl_hrd_parameters_present_flag", 0}, {"cpb_cnt_minus1", 31}});
  Base rich3 = mkbase("vuirich3", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 100}, {"pic_order_cnt_type", 2}, {"aspect_ratio_idc", 14}, {"nal_hrd_parameters_present_flag", 0}, {"cpb_cnt_minus1", 0}});
  for (auto& b : {zero, rich, rich2, rich3}) {
    Space w; w.budget = 1; w.wide = true; w.wide_limit = 70000; FREEZE(w, kSpsNames); w.cost["vui_parameters_present_flag"] = 1;
    if (!c.thorough && b.name == std::string("vuirich2")) w.wide_limit = 300;
    Explorer(c, b, w, vui_sps_body).go();
    Explorer(c, b, w, vui_direct_body).go();
    Explorer(c, b, w, hrd_direct_body).go();
    Space s; s.budget = b.rich ? 3 : 4; if (c.thorough) s.budget++; s.max_occ = 2; FREEZE(s, kSpsNames); s.cost["vui_parameters_present_flag"] = 1;
    s.cands["num_units_in_tick"] = {0, 1, 0xFFFFFFFFll, 1001}; s.cands["time_scale"] = {0, 1, 0xFFFFFFFFll, 50};
    s.cands["aspect_ratio_idc"] = {0, 1, 16, 17, 254, 255};
    for (auto n : {"colour_primaries", "transfer_characteristics", "matrix_coefficients"}) s.cands[n] = {0, 255, 9};
    for (auto n : {"bit_rate_value_minus1", "cpb_size_value_minus1"}) s.cands[n] = {0, 1, 0xFFFFFFFEll};
    for (auto n : {"initial_cpb_removal_delay_length_minus1", "cpb_removal_delay_length_minus1", "dpb_output_delay_length_minus1", "time_offset_length"}) s.cands[n] = {0, 31, 24};
    for (auto n : {"bit_rate_scale", "cpb_size_scale"}) s.cands[n] = {0, 15, 6};
    s.cands["cpb_cnt_minus1"] = {0, 1, 31, 32};
    for (auto n : {"max_bytes_per_pic_denom", "max_bits_per_mb_denom", "log2_max_mv_length_horizontal", "log2_max_mv_length_vertical", "max_num_reorder_frames", "max_dec_frame_buffering"}) s.cands[n] = {0, 1, 16, 17};
    s.cands["video_format"] = {0, 5, 7}; s.cands["sar_width"] = {0, 0xFFFF, 256}; s.cands["sar_height"] = {0, 0xFFFF, 255};
    Explorer(c, b, s, vui_sps_body).go();
  }
  // every combination of the presence flags and one-bit fields of the VUI
  {
    const char* flags[] = {"aspect_ratio_info_present_flag", "overscan_info_present_flag", "video_signal_type_present_flag", "colour_description_present_flag",
      "chroma_loc_info_present_flag", "timing_info_present_flag", "nal_hrd_parameters_present_flag", "vcl_hrd_parameters_present_flag", "bitstream_restriction_flag",
      "low_delay_hrd_flag", "pic_struct_present_flag"};
    for (int base = 0; base < 2; ++base) {
      Base b = mkbase(base ? "flags1" : "flags0", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}, {"aspect_ratio_idc", base ? 255 : 3}});
      for (auto f : flags) b.fix[f] = 0;
      Space s; s.budget = 0; s.only_listed = true; for (auto f : flags) { s.cost[f] = 0; s.cands[f] = {1}; }
      Explorer(c, b, s, vui_sps_body).go();
    }
  }
  // truncation at every byte and every bit flip of complete VUI-carrying parameter sets
  for (auto& b : {zero, rich, rich2, rich3}) {
    Space s; s.budget = 0;
    Explorer(c, b, s, [](Explorer& x) {
      m::Sps sp; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, sp); });
      if (x.ctx.shard != 3) return;
      trunc_all(x.ctx, {u.raw}, "VUI SPS");
      for (size_t i = 8; i < u.raw.size() * 8; ++i) { Bytes r = u.raw; r[i >> 3] ^= 0x80 >> (i & 7); if (x.ctx.begin(r, "VUI SPS bit %zu flipped", i)) feed(x.ctx, {r}); }
    }).go();
  }
}

// ============================================================ C09 PPS
static void pps_body(Explorer& x, uint32_t cfi, int zeros) {
  m::Pps s;
  Built b = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, cfi); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  for (int z = 0; z < zeros; ++z) b.raw.push_back(0);
  if (!c.begin(b.raw, "PPS base=%s cfi=%u zeros=%d%s", x.base.name, cfi, zeros, x.devtext.c_str())) return;
  if (cfi == 1) {
    m::Session ms; m::Nal n = m::dec_nal(b.raw.data(), b.raw.size(), ms);
    if (n.parsed == b.rejected) c.broken("model: enc/dec disagree on acceptance");
    if (n.parsed) { View a, d; v_pps(a, s); v_pps(d, *n.p.pps); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
    feed(c, {b.raw});
  }
  Bytes pay(b.raw.begin() + 1, b.raw.end()); Bytes esc = m::escape(pay);
  auto r = H::H264PpsParser::ParsePps(esc.data(), esc.size(), cfi);
  if (!b.soft && (r != nullptr) == b.rejected) c.fail("ParsePps: %s", r ? "out-of-range set accepted" : "valid set rejected");
  if (r && !b.rejected) { View a, d; v_pps(a, s); v_pps(d, *r); if (a != d) c.fail("ParsePps: %s", a.diff(d).c_str()); }
  if (cfi != 1) { if (b.rejected) c.add(C_REJ); else c.add(C_ACC); }
}
static std::vector<Base> pps_bases() {
  std::vector<int64_t> small{3, -2, 5, 1, -7, 4, 0, 2, -1, 6, -3};
  std::vector<Base> v;
  v.push_back(mkbase("min", false, {}));
  v.push_back(mkbase("rich", true, kPpsRichFix));
  v.push_back(mkbase("richmore", true, kPpsRichFix + Fix{{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 1}, {"pic_scaling_matrix_present_flag", 0}}));
  for (int t = 0; t <= 6; ++t) {
    static const char* nm[] = {"map0", "map1", "map2", "map3", "map4", "map5", "map6"};
    v.push_back(mkbase(nm[t], true, kPpsRichFix + Fix{{"num_slice_groups_minus1", t == 6 ? 4 : 2 + t % 3}, {"slice_group_map_type", t}, {"more_rbsp_data", t & 1}, {"transform_8x8_mode_flag", 0}, {"pic_scaling_matrix_present_flag", 0}},
                       {{"slice_group_id", {0, 3, 1, 4, 2, 2}}}));
  }
  v.push_back(mkbase("scaling", true, kPpsRichFix + Fix{{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 1}, {"pic_scaling_matrix_present_flag", 1}, {"pic_scaling_list_present_flag", 1}}, {{"delta_scale", small}}));
  v.push_back(mkbase("scalingsparse", true, kPpsRichFix + Fix{{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 1}, {"pic_scaling_matrix_present_flag", 1}},
                     {{"delta_scale", small}, {"pic_scaling_list_present_flag", {0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 1}}}));
  v.push_back(mkbase("scaling4x4", true, kPpsRichFix + Fix{{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 0}, {"pic_scaling_matrix_present_flag", 1}, {"pic_scaling_list_present_flag", 1}}, {{"delta_scale", small}}));
  v.push_back(mkbase("scalingmin", false, {{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 1}, {"pic_scaling_matrix_present_flag", 1}}));
  return v;
}
static Space pps_space(int budget, bool wide) {
  Space s; s.budget = budget; s.wide = wide;
  s.cands["delta_scale"] = {0, 1, -1, -8, 127, -128, 128, -129};
  s.cands["pic_size_in_map_units_minus1"] = {0, 1, 5, 139264};
  s.wcands["pic_size_in_map_units_minus1"] = {};
  for (int i = 0; i < 70; ++i) s.wcands["pic_size_in_map_units_minus1"].push_back(i);
  for (int i : {98, 99, 100, 139262, 139263, 139264, 139265}) s.wcands["pic_size_in_map_units_minus1"].push_back(i);
  s.wcands["pic_size_in_map_units_minus1"].push_back(0xFFFFFFFEll); s.wcands["pic_size_in_map_units_minus1"].push_back(0x7FFFFFFFll);
  s.cands["run_length_minus1"] = s.cands["top_left"] = s.cands["bottom_right"] = s.cands["slice_group_change_rate_minus1"] = {0, 1, 1000, 139263};
  return s;
}
static void c09(Ctx& c) {
  for (uint32_t cfi = 0; cfi <= 3; ++cfi) pps_product(c, (c.thorough ? 280 : 28) * (cfi == 1 ? 2 : 1), [cfi](Explorer& x) { pps_body(x, cfi, 0); });
  for (auto& b : pps_bases()) {
    bool scal = b.fix.count("pic_scaling_matrix_present_flag") && b.fix["pic_scaling_matrix_present_flag"];
    Space w = pps_space(1, true); if (c.thorough) w.wide_limit = 70000; else w.wide_limit = 1000;
    Explorer(c, b, w, [](Explorer& x) { pps_body(x, 1, 0); }).go();
    for (uint32_t cfi : {0u, 2u, 3u}) { Space w2 = w; w2.wide_limit = 300; if (scal && (cfi == 3 || c.thorough)) Explorer(c, b, w2, [cfi](Explorer& x) { pps_body(x, cfi, 0); }).go(); }
    for (int z = 1; z <= 5; ++z) { Space s = pps_space(1, false); s.max_occ = 12; Explorer(c, b, s, [z](Explorer& x) { pps_body(x, 1, z); }).go(); }
    Space s = pps_space((scal ? 2 : 3) + c.thorough, false); s.max_occ = scal ? (c.thorough ? 8 : 6) : 2;
    Explorer(c, b, s, [](Explorer& x) { pps_body(x, 1, 0); }).go();
    for (uint32_t cfi : {0u, 2u, 3u}) { Space s2 = pps_space(cfi == 3 || c.thorough ? 2 : 1, false); s2.max_occ = scal ? (c.thorough ? 12 : 6) : 2; Explorer(c, b, s2, [cfi](Explorer& x) { pps_body(x, cfi, 0); }).go(); }
    // truncation at every byte, every bit flip, of the baseline set
    Space z; z.budget = 0;
    Explorer(c, b, z, [](Explorer& x) {
      m::Pps sp; Built u = build(x, {0x68}, [&](Enc& e) { m::pps(e, sp, 1); });
      if (x.ctx.shard != 3) return;
      trunc_all(x.ctx, {u.raw}, "PPS");
      for (size_t i = 8; i < u.raw.size() * 8; ++i) { Bytes r = u.raw; r[i >> 3] ^= 0x80 >> (i & 7); if (x.ctx.begin(r, "PPS bit %zu flipped", i)) feed(x.ctx, {r}); }
    }).go();
  }
}
#include "syntax_slices.h"
#include "syntax_misc.h"

// One property per compilation (-DRUN_Cxx), all with -DRUN_ALL.
#if defined(RUN_ALL) || defined(RUN_C07)
static Reg reg_C07(Check{"C07", c07, "model_checking", "11 baseline SPSs and the SPS extension; every pair of cropping offsets 0..33 per axis in each chroma format and coding mode; single deviations over the full range of every element (<=5000 values, else boundaries and powers of two); all combinations of 2-3 deviations over boundary values; structural product: every combination of 13+6 profiles, chroma format, order count type and the 8 presence and mode flags, with 60 assignments of the other values", "same with 3-4 deviations and full ranges up to 70000 values; ten times the assignments of the products",
     "one execution per deviation set within the budget; duplicates of the baseline value are not executed", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C08)
static Reg reg_C08(Check{"C08", c08, "model_checking", "4 baseline VUIs, all 2^11 presence-flag combinations twice, single deviations over full ranges, combinations of 2 (rich) or 4 (minimal) deviations, all byte truncations and bit flips; structural product: every combination of the 10 presence flags with 1200 assignments of the other values, half of them at the ends of their ranges", "same with one more deviation; ten times the assignments of the products",
     "one execution per deviation set within the budget", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C09)
static Reg reg_C09(Check{"C09", c09, "model_checking", "14 baseline PPSs x chroma_format_idc 0..3 x 0..5 trailing zero bytes; single deviations over full ranges; 2-3 deviations over boundary values; all byte truncations and bit flips; structural product: every combination of the 8 flags, bi-prediction mode, slice groups, map type and optional part for each chroma format, with 28 to 56 assignments of the other values", "one more deviation, ranges up to 70000; ten times the assignments of the products",
     "one execution per deviation set within the budget", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C06)
static Reg reg_C06(Check{"C06", c06, "model_checking", "all 256 first bytes x lengths 0..6 x 6 fillings; all 2^24 three-byte extensions for two first bytes and every 251st for ten more; all 256 first bytes x 13 payload bodies x sets present/absent; classification of 4160 type values", "all 2^24 extensions for all twelve first bytes", "every enumerated byte sequence once", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C10)
static Reg reg_C10(Check{"C10", c10, "model_checking", "6 baseline (SPS, PPS, slice) triples; slice type, unit type free; 2-3 deviations over boundary values of the elements and of the parameter-set fields that control them; single deviations over full ranges; change-cycle width grid; command lists of 26 lengths up to 1025; all byte truncations; missing sets; structural product: every combination of the 16 to 20 conditions that select elements (slice type class, IDR, reference, field, order count, lists, weights, markings, deblocking, groups), twice, all other values varying", "one more deviation; three times the assignments of the product, all chroma formats", "one execution per deviation set within the budget", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C11)
static Reg reg_C11(Check{"C11", c11, "model_checking", "13 baseline subset SPSs and 3 prefix units; single deviations over full ranges, 2-3 deviations over boundary values; all byte truncations; structural product of the embedded SPS (20 assignments) and of the SVC extension conditions (800 assignments)", "one more deviation; ten times the assignments of the products", "one execution per deviation set within the budget", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C12)
static Reg reg_C12(Check{"C12", c12, "model_checking", "5 baseline (subset SPS, PPS, slice extension) triples; slice type, IDR, inter-layer prediction, ref idc (and quality id) free; 2 further deviations; single deviations over full ranges; command lists of 26 lengths up to 1025; all byte truncations; missing sets; structural product: every combination of the conditions of front and middle part, and of middle and inter-layer part, all other values varying", "one more deviation; four times the assignments of the product", "one execution per deviation set within the budget", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C13)
static Reg reg_C13(Check{"C13", c13, "model_checking", "for every baseline unit: every cut (byte and bit), every bit flip, every byte value, every pair of bit flips (units up to 26 bytes), byte deletions and insertions; every cut and bit flip of every one-deviation unit; all payloads of up to 2 bytes and of 6 bytes over 6 values, 17 headers; every cut of every unit of the structural products, bit flips of a quarter of them", "pairs of flips up to 64 bytes, all 3-byte payloads, 8 bytes over 6 values; four assignments, all bit flips", "every enumerated byte sequence once, checked against the decoder model", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C19)
static Reg reg_C19(Check{"C19", c19, "model_checking", "every baseline and one-deviation unit of every payload type, all 32 unit types, with all dump options and both layouts (tokens, and line structure at levels 0 to 6), also inside single, STAP-A and FU-A packets (all fragment flags); whole-stream dumps by all four stream parsers and 32 option sets; single deviations over ranges up to 130 values; 2 deviations over the fields that control slice and SVC printing; up to 3 VUI presence flags; units of the structural products", "two-deviation corpus, ranges up to 5000; ten times the assignments of the products", "every enumerated unit is parsed and dumped in all forms", {"packet_dumps"}});
#endif
#if defined(RUN_ALL) || defined(RUN_C20)
static Reg reg_C20(Check{"C20", c20, "model_checking", "256 profiles x 64 constraint combinations; chroma format x interlacing x size x cropping boundaries, and every pair of offsets 0..33 per axis; every width, height and cropping value; 107^2 time bases; change-cycle lengths on a size x rate grid", "finer grids", "one execution per combination", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C22)
static Reg reg_C22(Check{"C22", c22, "model_checking", "every baseline and one-deviation unit, each with every byte cut and the first 160 single-bit flips; every first byte x second byte x 8 bodies; prefix and SVC slice units over all combinations of the flags selecting dec_ref_base_pic_marking; slice headers of types 1, 5, 20, 21; units of the structural products and cuts of them", "the same over the two-deviation corpus; ten times the assignments of the products", "the growth of the counter and the parsed status of every enumerated unit", {"headers needing unimplemented syntax"}});
#endif
// ------------------------------------------------------------ known findings
// F1: a PPS with an 8x8 transform and a scaling matrix that refers to a 4:4:4
// SPS is read with the list count of 4:2:0 when it comes through a session.
static bool finding_pps444() {
  Ctx c; Base b = mkbase("f1sps", false, {{"profile_idc", 244}, {"chroma_format_idc", 3}}), b2 = mkbase("f1pps", false, {{"more_rbsp_data", 1}, {"transform_8x8_mode_flag", 1}, {"pic_scaling_matrix_present_flag", 1}, {"second_chroma_qp_index_offset", 3}});
  Bytes sps, pps; Space z; z.budget = 0;
  Slot* sl = (Slot*)calloc(1, sizeof(Slot)); c.s = sl;
  Explorer x(c, b, z, [&](Explorer& x) { m::Sps s; sps = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }).raw; }); x.run_once();
  Explorer y(c, b2, z, [&](Explorer& x) { m::Pps s; pps = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 3); }).raw; }); y.run_once();
  free(sl);
  ImplSession is; impl_parse(m::escape(sps), &is); auto n = impl_parse(m::escape(pps), &is);
  if (!n || !n->nal_unit_payload || !n->nal_unit_payload->pps) return true;
  return n->nal_unit_payload->pps->second_chroma_qp_index_offset != 3 || n->nal_unit_payload->pps->pic_scaling_list_present_flag.size() != 12;
}
// F2/F3: an MVC subset SPS, and a subset SPS with svc_vui_parameters: the
// unimplemented extension is skipped without being counted.
static bool finding_subset(int64_t profile, int64_t vui) {
  Ctx c; Slot* sl = (Slot*)calloc(1, sizeof(Slot)); c.s = sl; Bytes u; Space z; z.budget = 0;
  Base b = mkbase("f2", false, {{"profile_idc", profile}, {"chroma_format_idc", 1}, {"svc_vui_parameters_present_flag", vui}});
  Explorer x(c, b, z, [&](Explorer& x) { m::Subset s; u = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); }).raw; }); x.run_once();
  free(sl);
  ImplSession is; uint32_t before = H::get_unimplemented_count(); auto n = impl_parse(m::escape(u), &is);
  return n && impl_parsed(*n) && H::get_unimplemented_count() == before;
}
static RegProbe p1({"C09", "F1", finding_pps444}), p2({"C22", "F2", [] { return finding_subset(118, 0); }}), p3({"C22", "F3", [] { return finding_subset(83, 1); }});

#ifndef MC_LIB
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
#endif
