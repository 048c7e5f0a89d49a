// ============================================================ C11 subset SPS, prefix NAL unit
static const char* const kSvcExtNames[] = {"inter_layer_deblocking_filter_control_present_flag", "extended_spatial_scalability_idc", "chroma_phase_x_plus1_flag", "chroma_phase_y_plus1",
  "seq_ref_layer_chroma_phase_x_plus1_flag", "seq_ref_layer_chroma_phase_y_plus1", "seq_scaled_ref_layer_left_offset", "seq_scaled_ref_layer_top_offset",
  "seq_scaled_ref_layer_right_offset", "seq_scaled_ref_layer_bottom_offset", "seq_tcoeff_level_prediction_flag", "adaptive_tcoeff_level_prediction_flag",
  "slice_header_restriction_flag", "svc_vui_parameters_present_flag", "additional_extension2_flag", "additional_extension2_data_flag", "more_rbsp_data"};
static void subset_body(Explorer& x) {
  m::Subset s; Built b = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "subset SPS base=%s%s", x.base.name, x.devtext.c_str())) return;
  m::Nal n; feed(c, {b.raw}, true, &n);
  if (b.undef) return;
  if (n.parsed == b.rejected) c.broken("model: enc/dec disagree on acceptance");
  if (n.parsed) { View a, d; v_subset(a, s); v_subset(d, *n.p.subset); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
  Bytes esc = m::escape(Bytes(b.raw.begin() + 1, b.raw.end()));
  auto r = H::H264SubsetSpsParser::ParseSubsetSps(esc.data(), esc.size());
  if (!b.soft && (r != nullptr) == b.rejected) c.fail("ParseSubsetSps: acceptance differs from the standard");
  if (r && !b.rejected) { View a, d; v_subset(a, s); v_subset(d, *r); if (a != d) c.fail("ParseSubsetSps: %s", a.diff(d).c_str()); }
}
static void svcext_body(Explorer& x, uint32_t cat_) {
  m::SvcExt s; Built b = build(x, {}, [&](Enc& e) { m::svcext(e, s, cat_); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "svc extension cat=%u base=%s%s", cat_, x.base.name, x.devtext.c_str())) return;
  Bytes esc = m::escape(b.raw);
  auto r = H::H264SpsSvcExtensionParser::ParseSpsSvcExtension(esc.data(), esc.size(), cat_);
  if (!r) { if (!b.soft) c.fail("ParseSpsSvcExtension: valid structure rejected"); return; }
  View a, d; v_svcext(a, s); v_svcext(d, *r); if (a != d) c.fail("ParseSpsSvcExtension: %s", a.diff(d).c_str());
  c.add(C_ACC);
}
static void prefix_body(Explorer& x) {
  m::NalHdr h; m::PrefixSvc s;
  Built b = build(x, {}, [&](Enc& e) { m::nalhdr(e, h); m::NalSvc& n = *h.nal_unit_header_svc_extension; m::prefixsvc(e, s, h.nal_ref_idc, n.use_ref_base_pic_flag, n.idr_flag); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "prefix base=%s%s", x.base.name, x.devtext.c_str())) return;
  m::Nal n; feed(c, {b.raw}, true, &n);
  if (n.parsed == b.rejected) c.broken("model: enc/dec disagree on acceptance");
  if (n.parsed) { View a, d; v_prefix(a, s); v_prefix(d, *n.p.prefix); if (a != d) c.broken("model: %s", a.diff(d).c_str()); c.add(C_VALID); }
}
static const Fix kPrefixFix = {{"forbidden_zero_bit", 0}, {"nal_unit_type", 14}, {"svc_extension_flag", 1}};
static std::vector<Base> subset_bases() {
  std::vector<Base> v = sps_bases(); int k = 0;
  for (auto& b : v) { b.fix["profile_idc"] = (k++ & 1) ? 86 : 83; b.fix["svc_vui_parameters_present_flag"] = 0; b.fix["additional_extension2_flag"] = 0; b.fix["extended_spatial_scalability_idc"] = k % 3; b.fix["seq_tcoeff_level_prediction_flag"] = k & 1; }
  Base e = mkbase("ext2", true, kSpsRichFix + Fix{{"profile_idc", 83}, {"svc_vui_parameters_present_flag", 0}, {"additional_extension2_flag", 1}, {"extended_spatial_scalability_idc", 1}}, {{"more_rbsp_data", {1, 1, 1, 0}}});
  v.push_back(e);
  v.push_back(mkbase("plain100", true, kSpsRichFix + Fix{{"profile_idc", 100}, {"additional_extension2_flag", 0}}));
  return v;
}
static std::vector<Base> prefix_bases() {
  return {mkbase("prefix0", false, kPrefixFix), mkbase("prefixref", true, kPrefixFix + Fix{{"nal_ref_idc", 2}, {"idr_flag", 1}}),
          mkbase("prefixext", true, kPrefixFix + Fix{{"nal_ref_idc", 1}, {"idr_flag", 1}, {"additional_prefix_nal_unit_extension_flag", 1}}, {{"more_rbsp_data", {1, 1, 0}}})};
}
static void c11(Ctx& c) {
  // every combination of the conditions of the base part with two profiles, then of the extension
  sps_product(c, c.thorough ? 200 : 20, subset_body, {83, 86, 100}, {66});
  for (uint64_t salt = 1; salt <= (c.thorough ? 8000u : 800u); ++salt) { Product p("product, extension", Fix{{"svc_vui_parameters_present_flag", 0}, {"additional_extension2_flag", 0}, {"more_rbsp_data", 0}, {"seq_scaling_matrix_present_flag", 0}, {"vui_parameters_present_flag", 0}, {"frame_cropping_flag", 0}}, salt); sps_values(p.s);
    p.free("profile_idc", {83, 86}); p.free("chroma_format_idc", {0, 1, 2, 3}); p.free("separate_colour_plane_flag", {0, 1}); p.free("extended_spatial_scalability_idc", {0, 1, 2, 3}); for (auto n : {"inter_layer_deblocking_filter_control_present_flag", "seq_tcoeff_level_prediction_flag", "adaptive_tcoeff_level_prediction_flag", "slice_header_restriction_flag"}) p.free(n, {0, 1}); p.go(c, salt, subset_body); }
  for (auto& b : subset_bases()) {
    bool scal = b.seq.count("delta_scale") != 0;
    Space w = sps_space(1, true); w.wide_limit = c.thorough ? 70000 : (scal ? 260 : 1100);
    w.wcands["profile_idc"] = {66, 77, 83, 86, 88, 100, 110, 122, 244, 44};
    Explorer(c, b, w, subset_body).go();
    Space s = sps_space(2 + (c.thorough && !scal), false); s.max_occ = 2; FREEZE(s, kVuiNames);
    s.cands["profile_idc"] = {66, 83, 86, 100, 244};
    if (scal) s.max_occ = 3;
    Explorer(c, b, s, subset_body).go();
    // the extension elements alone: deeper
    Space e; e.only_listed = true; e.budget = 3 + c.thorough; e.max_occ = 4; freeze(e, kSvcExtNames, sizeof kSvcExtNames / sizeof *kSvcExtNames, 1);
    for (auto n : {"chroma_format_idc", "separate_colour_plane_flag"}) e.cost[n] = 1;
    for (auto n : {"seq_scaled_ref_layer_left_offset", "seq_scaled_ref_layer_top_offset", "seq_scaled_ref_layer_right_offset", "seq_scaled_ref_layer_bottom_offset"}) e.cands[n] = {0, -1, m::SEMAX, -m::SEMAX};
    Explorer(c, b, e, subset_body).go();
    Space z; z.budget = 0;
    Explorer(c, b, z, [](Explorer& x) {
      m::Subset s; Built u = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); });
      if (x.ctx.shard != 3) return;
      trunc_all(x.ctx, {u.raw}, "subset SPS");
    }).go();
  }
  for (uint32_t k = 0; k <= 3; ++k) for (bool rich : {false, true}) {
    Base b = mkbase(rich ? "rich" : "zero", rich, {}); Space s; s.budget = 3; Explorer(c, b, s, [k](Explorer& x) { svcext_body(x, k); }).go();
    Space w; w.budget = 1; w.wide = true; Explorer(c, b, w, [k](Explorer& x) { svcext_body(x, k); }).go();
  }
  for (auto& b : prefix_bases()) {
    Space s; s.budget = 3 + c.thorough; s.max_occ = 6; s.cost["forbidden_zero_bit"] = 99; s.cost["nal_unit_type"] = 99; s.cost["svc_extension_flag"] = 99;
    s.cands["nal_ref_idc"] = {0, 1, 2, 3};
    Explorer(c, b, s, prefix_body).go();
    s.wide = true; s.budget = 1; Explorer(c, b, s, prefix_body).go();
  }
}

// ============================================================ C06 headers, dispatch, classification
static void hdr_case(Ctx& c, const Bytes& raw) {
  Bytes esc = m::escape(raw);
  m::NalHdr h; bool ok = true; Dec d(raw.data(), raw.size());
  try { m::nalhdr(d, h); } catch (m::Reject&) { ok = false; }
  auto r = H::H264NalUnitHeaderParser::ParseNalUnitHeader(esc.data(), esc.size());
  if ((r != nullptr) != ok) c.fail("ParseNalUnitHeader: %s", ok ? "readable header refused" : "unreadable header accepted");
  if (r) {
    const auto& s = *r;
    bool same = s.forbidden_zero_bit == h.forbidden_zero_bit && s.nal_ref_idc == h.nal_ref_idc && s.nal_unit_type == h.nal_unit_type &&
                s.svc_extension_flag == h.svc_extension_flag && s.avc_3d_extension_flag == h.avc_3d_extension_flag && !s.nal_unit_header_svc_extension == !h.nal_unit_header_svc_extension;
    if (same && s.nal_unit_header_svc_extension) { View a, b; v_nalsvc(a, *h.nal_unit_header_svc_extension); v_nalsvc(b, *s.nal_unit_header_svc_extension); same = a == b; }
    if (!same) { View a, b; v_hdr(a, h); v_hdr(b, s); c.fail("ParseNalUnitHeader: %s", a.diff(b).c_str()); }
    c.add(C_ACC);
  } else c.add(C_REJ);
}
static void c06(Ctx& c) {
  // every first byte, alone and followed by up to 5 bytes of several fillings
  for (int f = 0; f < 256; ++f) for (int len = 0; len <= 6; ++len) for (int fill : {0x00, 0x80, 0xff, 0x55, 0xaa, 0x81}) {
    if ((f + len) % c.nshards != c.shard) continue;
    Bytes b(len, (uint8_t)fill); if (len) b[0] = (uint8_t)f;
    if (!c.begin(b, "header bytes")) continue;
    c.add(C_STATES);
    hdr_case(c, b);
    H::NalUnitType t = H::UNSPECIFIED_NUT; m::NalHdr h; Dec d(b.data(), b.size()); bool ok = true; try { m::nalhdr(d, h); } catch (m::Reject&) { ok = false; }
    bool g = H::H264NalUnitHeaderParser::GetNalUnitType(b.data(), b.size(), t);
    if (g != ok) c.fail("GetNalUnitType returns %d", g);
    if (g && (uint32_t)t != h.nal_unit_type) c.fail("GetNalUnitType gives %u, not %u", (uint32_t)t, h.nal_unit_type);
  }
  // all 2^24 three-byte extensions for types 14 and 20 (one ref idc each in quick), 2^8 sparse ones for the others
  for (int f : {0x6e, 0x74, 0x0e, 0x14, 0x2e, 0x34, 0x4e, 0x54, 0x8e, 0x94, 0xee, 0xf4}) {
    bool full = c.thorough || f == 0x6e || f == 0x14;
    uint32_t step = full ? 1 : 251;
    for (uint32_t v = (uint32_t)c.shard * step; v < (1u << 24); v += step * c.nshards) {
      uint8_t raw[4] = {(uint8_t)f, (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
      if (!c.begin(raw, 4, "extended header")) continue;
      c.add(C_STATES); c.add(C_TRANS);
      m::NalHdr h; bool ok = true; Dec d(raw, 4); try { m::nalhdr(d, h); } catch (m::Reject&) { ok = false; }
      H::BitBuffer bb(raw, 4); auto r = H::H264NalUnitHeaderParser::ParseNalUnitHeader(&bb);
      if ((r != nullptr) != ok) c.fail("ParseNalUnitHeader: %s", ok ? "readable header refused" : "unreadable header accepted");
      if (!r) continue;
      const auto& s = *r; if (!s.nal_unit_header_svc_extension) c.fail("no extension parsed");
      const auto& e = *s.nal_unit_header_svc_extension; const auto& k = *h.nal_unit_header_svc_extension;
      if (s.nal_ref_idc != h.nal_ref_idc || s.nal_unit_type != h.nal_unit_type || s.forbidden_zero_bit != h.forbidden_zero_bit || s.svc_extension_flag != h.svc_extension_flag) c.fail("first byte decoded wrongly");
      if (e.idr_flag != k.idr_flag || e.priority_id != k.priority_id || e.no_inter_layer_pred_flag != k.no_inter_layer_pred_flag || e.dependency_id != k.dependency_id || e.quality_id != k.quality_id ||
          e.temporal_id != k.temporal_id || e.use_ref_base_pic_flag != k.use_ref_base_pic_flag || e.discardable_flag != k.discardable_flag || e.output_flag != k.output_flag || e.reserved_three_2bits != k.reserved_three_2bits)
        { View a, b; v_nalsvc(a, k); v_nalsvc(b, e); c.fail("extension: %s", a.diff(b).c_str()); }
      size_t by, bi; bb.GetCurrentOffset(&by, &bi); if (by != 4 || bi != 0) c.fail("header consumed %zu bytes %zu bits, not 4 bytes", by, bi);
    }
  }
  // dispatch: every type x ref idc x forbidden bit x body, with parameter sets present
  std::vector<Bytes> bodies; std::vector<Bytes> prelude;
  {
    Space z; z.budget = 0; Ctx c2 = c; Slot tmp; memset(&tmp, 0, sizeof tmp); c2.s = &tmp;
    auto sb = slice_bases()[2];
    Explorer(c2, sb, z, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); prelude.push_back(t.sps); prelude.push_back(t.pps); for (auto* u : {&t.sps, &t.pps, &t.slice}) bodies.push_back(Bytes(u->begin() + 1, u->end())); }).go();
    Explorer(c2, slice_bases()[4], z, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); bodies.push_back(Bytes(t.slice.begin() + 1, t.slice.end())); }).go();
    Explorer(c2, svc_bases()[2], z, [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); prelude.push_back(t.subset); bodies.push_back(Bytes(t.subset.begin() + 1, t.subset.end())); bodies.push_back(Bytes(t.slice.begin() + 1, t.slice.end())); }).go();
    bodies.push_back({}); bodies.push_back({0x80}); bodies.push_back({0x00}); bodies.push_back({0xff, 0xff, 0xff, 0xff});
    bodies.push_back({0xc0, 0x00, 0x07, 0x40}); bodies.push_back({0x80, 0x00, 0x07, 0x80}); bodies.push_back({0x00, 0x00, 0x01, 0xff});
  }
  for (int f = 0; f < 256; ++f) for (size_t k = 0; k < bodies.size(); ++k) for (int pre = 0; pre < 2; ++pre) {
    if ((f * 7 + k) % c.nshards != (size_t)c.shard) continue;
    Bytes u{(uint8_t)f}; u.insert(u.end(), bodies[k].begin(), bodies[k].end());
    std::vector<Bytes> us; if (pre) us = prelude; us.push_back(u);
    if (!c.begin(cat(us), "dispatch first byte %02x body %zu sets %d", f, k, pre)) continue;
    c.add(C_STATES); c.add(C_TRANS, us.size());
    feed(c, us);
  }
  // classification tables
  if (c.shard == 0) {
    static const char* names[32] = {"unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a", "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture",
      "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix", "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture", "coded_slice_extension",
      "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26", "unspec27", "unspec28", "unspec29", "unspec30", "unspec31"};
    ImplPayload empty;
    for (uint64_t t = 0; t < 4096 + 64; ++t) {
      uint32_t v = t < 4096 ? (uint32_t)t : (uint32_t)((1ull << (t - 4096) % 32) + ((t - 4096) >= 32 ? 0xffffffffu : 0));
      Bytes b{(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
      if (!c.begin(b, "classification of type %u", v)) continue;
      c.add(C_STATES);
      bool slice = (v >= 1 && v <= 5) || v == 19 || v == 20, rsv = (v >= 16 && v <= 18) || (v >= 21 && v <= 23), un = v >= 24 && v <= 31;
      if (H::IsSliceSegment(v) != slice) c.fail("IsSliceSegment(%u)", v);
      if (H::IsNalUnitTypeReserved(v) != rsv) c.fail("IsNalUnitTypeReserved(%u)", v);
      if (H::IsNalUnitTypeUnspecified(v) != un) c.fail("IsNalUnitTypeUnspecified(%u)", v);
      std::string n = H::NalUnitTypeToString(v), want = v < 32 ? names[v] : "unknown";
      if (n != want) c.fail("NalUnitTypeToString(%u) = %s, not %s", v, n.c_str(), want.c_str());
      if (empty.IsPayloadParsed(v) != !m::supported_type(v)) c.fail("an empty payload of type %u counts as %s", v, m::supported_type(v) ? "parsed" : "unparsed");
    }
  }
}

// ============================================================ corpora of valid sequences (used by C13, C19, C22)
struct Seq { std::string name; std::vector<Bytes> units; };
template <class F> static void collect(Ctx& c, Base b, Space sp, F f) {
  // runs an exploration on a private context; every shard sees every sequence
  Ctx c2 = c; static Slot* tmp = new Slot; memset(tmp, 0, sizeof *tmp); c2.s = tmp; c2.shard = 0; c2.nshards = 1; c2.only = 0;
  Explorer(c2, b, sp, f).go();
}
static std::vector<Seq> corpus(Ctx& c, int dev) {
  std::vector<Seq> out; Space z; z.budget = dev;
  auto nm = [](const char* k, Explorer& x) { return std::string(k) + " base=" + x.base.name + x.devtext; };
  for (auto& b : sps_bases()) { Space s = sps_space(dev, false); s.max_occ = 1; collect(c, b, s, [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); if (!x.skip && !u.rejected) out.push_back({nm("SPS", x), {u.raw}}); }); }
  for (auto& b : pps_bases()) { Space s = pps_space(dev, false); s.max_occ = 1; collect(c, b, s, [&](Explorer& x) { m::Pps s; Built u = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }); if (!x.skip && !u.rejected) out.push_back({nm("PPS", x), {u.raw}}); }); }
  for (auto& b : slice_bases()) { Space s = slice_space(dev, false); s.max_occ = 1; collect(c, b, s, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); if (!x.skip && !t.rejected) out.push_back({nm("slice", x), {t.sps, t.pps, t.slice}}); }); }
  for (auto& b : svc_bases()) { Space s = svc_space(dev, false); s.max_occ = 1; collect(c, b, s, [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); if (!x.skip && !t.rejected && !t.undef) out.push_back({nm("svc slice", x), {t.subset, t.pps, t.slice}}); }); }
  for (auto& b : subset_bases()) { if (b.seq.count("delta_scale")) continue; Space s; s.budget = dev; s.only_listed = true; freeze(s, kSvcExtNames, sizeof kSvcExtNames / sizeof *kSvcExtNames, 1); s.max_occ = 1;
    collect(c, b, s, [&](Explorer& x) { m::Subset s; Built u = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); }); if (!x.skip && !u.rejected && !u.undef) out.push_back({nm("subset", x), {u.raw}}); }); }
  for (auto& b : prefix_bases()) { Space s; s.budget = dev; s.max_occ = 1; s.cost["forbidden_zero_bit"] = 99; s.cost["nal_unit_type"] = 99; s.cost["svc_extension_flag"] = 99; collect(c, b, s, [&](Explorer& x) { m::NalHdr h; m::PrefixSvc s;
    Built u = build(x, {}, [&](Enc& e) { m::nalhdr(e, h); m::NalSvc& n = *h.nal_unit_header_svc_extension; m::prefixsvc(e, s, h.nal_ref_idc, n.use_ref_base_pic_flag, n.idr_flag); }); if (!x.skip && !u.rejected) out.push_back({nm("prefix", x), {u.raw}}); }); }
  return out;
}

// the valid units of the structural products, one assignment of the other values per salt (each unit on one shard only)
template <class F> static void products(Ctx& c, uint64_t salts, F f) {
  auto go = [&](Explorer& x, const char* k, std::vector<Bytes> us, bool bad) { if (x.skip || bad || !x.prepared()) return; f(Seq{std::string(k) + " base=" + x.base.name + x.devtext, std::move(us)}); };
  auto sps = [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); go(x, "SPS", {u.raw}, u.rejected); };
  sps_product(c, salts, sps, {100, 244}, {66}); vui_product(c, salts * 2, sps);
  pps_product(c, salts, [&](Explorer& x) { m::Pps s; Built u = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }); go(x, "PPS", {u.raw}, u.rejected); });
  slice_product(c, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); go(x, "slice", {t.sps, t.pps, t.slice}, t.rejected); }, salts, false);
  svc_product(c, [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); go(x, "svc slice", {t.subset, t.pps, t.slice}, t.rejected || t.undef); }, salts, false);
}

#include "syntax_entry.h"
// ============================================================ C13 malformed payloads
static void c13_one(Ctx& c, const std::vector<Bytes>& us, const char* what, size_t i, const Seq& q) {
  if (!c.begin(cat(us), "%s %zu of %s", what, i, q.name.c_str())) return;
  c.add(C_STATES); c.add(C_TRANS, us.size());
  feed(c, us);
}
static void c13(Ctx& c) {
  std::vector<Seq> base = corpus(c, 0), dev = corpus(c, 1);
  for (size_t k = 0; k < base.size(); ++k) {
    auto& q = base[k]; std::vector<Bytes> us = q.units; const Bytes u = us.back(); size_t n = u.size();
    for (size_t i = 0; i <= n; ++i) if ((i + k) % c.nshards == (size_t)c.shard) { us.back() = u; us.back().resize(i); c13_one(c, us, "cut at byte", i, q);
      // cut inside the byte: the rest of the byte cleared or set, with and without a stop bit
      if (i < n) for (int bit = 1; bit < 8; ++bit) { us.back() = u; us.back().resize(i + 1); uint8_t keep = (uint8_t)(0xff << (8 - bit)); us.back()[i] = u[i] & keep; c13_one(c, us, "cut at bit", i * 8 + bit, q);
        us.back()[i] = (u[i] & keep) | (0x80 >> bit); c13_one(c, us, "cut with stop bit at", i * 8 + bit, q); } }
    for (size_t i = 0; i < n * 8; ++i) if ((i + k) % c.nshards == (size_t)c.shard) { us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); c13_one(c, us, "flipped bit", i, q); }
    if (n <= 48 || c.thorough) for (size_t i = 0; i < n; ++i) if ((i + k) % c.nshards == (size_t)c.shard) for (int v = 0; v < 256; ++v) { us.back() = u; us.back()[i] = (uint8_t)v; c13_one(c, us, "replaced byte", i, q); }
    if (n <= (c.thorough ? 64u : 26u)) for (size_t i = 0; i < n * 8; ++i) if ((i + k) % c.nshards == (size_t)c.shard) for (size_t j = i + 1; j < n * 8; ++j) {
      us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); us.back()[j >> 3] ^= 0x80 >> (j & 7); c13_one(c, us, "two flipped bits", i * 10000 + j, q); }
    for (size_t i = 1; i < n; ++i) if ((i + k) % c.nshards == (size_t)c.shard) { us.back() = u; us.back().erase(us.back().begin() + i); c13_one(c, us, "deleted byte", i, q);
      for (int v : {0, 1, 3, 0x80, 0xff}) { us.back() = u; us.back().insert(us.back().begin() + i, (uint8_t)v); c13_one(c, us, "inserted byte", i, q); } }
  }
  for (size_t k = 0; k < dev.size(); ++k) if (k % c.nshards == (size_t)c.shard) {
    auto& q = dev[k]; std::vector<Bytes> us = q.units; const Bytes u = us.back();
    if (u.size() > 400 && !c.thorough) continue;
    for (size_t i = 0; i < u.size(); ++i) { us.back() = u; us.back().resize(i); c13_one(c, us, "cut at byte", i, q); }
    if (u.size() <= 60 || c.thorough) for (size_t i = 8; i < u.size() * 8; ++i) { us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); c13_one(c, us, "flipped bit", i, q); }
  }
  // structural products: every cut, and every bit flip of each 4th (each, thorough)
  uint64_t np = 0;
  products(c, c.thorough ? 4 : 1, [&](const Seq& q) { std::vector<Bytes> us = q.units; const Bytes u = us.back(); ++np;
    for (size_t i = 1; i < u.size(); ++i) { us.back().assign(u.begin(), u.begin() + i); c13_one(c, us, "cut at byte", i, q); }
    if (np % 4 == 0 || c.thorough) for (size_t i = 8; i < u.size() * 8; ++i) { us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); c13_one(c, us, "flipped bit", i, q); } });
  // all short payloads, in a session that holds one set of each kind with id 0
  std::vector<Bytes> pre; Space z; z.budget = 0;
  collect(c, mkbase("s", false, Fix{{"profile_idc", 83}, {"frame_mbs_only_flag", 1}, {"log2_max_frame_num_minus4", 0}}, {{"modification_of_pic_nums_idc", {3}}}), z, [&](Explorer& x) {
    m::Subset s; Built u = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); }); pre.push_back(u.raw); });
  collect(c, mkbase("s", false, Fix{{"profile_idc", 66}, {"frame_mbs_only_flag", 1}}), z, [&](Explorer& x) {
    m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); pre.push_back(u.raw); m::Pps p; Built v = build(x, {0x68}, [&](Enc& e) { m::pps(e, p, 1); }); pre.push_back(v.raw); });
  entry_points(c, pre);
  Seq q{"short payload", {}};
  std::vector<Bytes> heads;
  for (int f : {0x01, 0x21, 0x05, 0x65, 0x67, 0x07, 0x68, 0x6f, 0x06, 0x09, 0x6d}) heads.push_back({(uint8_t)f});
  heads.push_back({0x0e, 0xc0, 0x00, 0x07}); heads.push_back({0x6e, 0xc0, 0x00, 0x07}); heads.push_back({0x6e, 0x80, 0x00, 0x0f}); heads.push_back({0x14, 0x80, 0x00, 0x07}); heads.push_back({0x74, 0xc0, 0x00, 0x07}); heads.push_back({0x74, 0x81, 0x00, 0x07});
  for (auto& h : heads) {
    for (uint32_t v = (uint32_t)c.shard; v < 65536; v += c.nshards) { std::vector<Bytes> us(pre); Bytes u(h); u.push_back(v >> 8); u.push_back(v & 255); us.push_back(u); c13_one(c, us, "two-byte payload", v, q); }
    for (uint32_t v = (uint32_t)c.shard; v < 256; v += c.nshards) { std::vector<Bytes> us(pre); Bytes u(h); u.push_back((uint8_t)v); us.push_back(u); c13_one(c, us, "one-byte payload", v, q); }
    static const uint8_t al[] = {0x00, 0x80, 0xff, 0x5a, 0x24, 0x03};
    int L = c.thorough ? 8 : 6; uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= 6;
    for (uint64_t v = (uint64_t)c.shard; v < tot; v += c.nshards) { std::vector<Bytes> us(pre); Bytes u(h); uint64_t w = v; for (int i = 0; i < L; ++i) { u.push_back(al[w % 6]); w /= 6; } us.push_back(u); c13_one(c, us, "payload over 6 byte values", v, q); }
    if (c.thorough) for (uint32_t v = (uint32_t)c.shard; v < (1u << 24); v += c.nshards) { std::vector<Bytes> us(pre); Bytes u(h); u.push_back(v >> 16); u.push_back(v >> 8); u.push_back(v); us.push_back(u); c13_one(c, us, "three-byte payload", v, q); }
  }
}

// ============================================================ C20 derived values
static const char* expected_profile(const m::Sps& s) {
  switch (s.profile_idc) {
    case 66: return s.constraint_set1_flag ? "Constrained Baseline" : "Baseline";
    case 77: return "Main"; case 88: return "Extended";
    case 100: return s.constraint_set4_flag ? (s.constraint_set5_flag ? "Constrained High" : "Progressive High") : "High";
    case 110: return s.constraint_set3_flag ? "High 10 Intra" : s.constraint_set4_flag ? "Progressive High 10" : "High 10";
    case 122: return s.constraint_set3_flag ? "High 4:2:2 Intra" : "High 4:2:2";
    case 144: return s.constraint_set3_flag ? "High 4:4:4 Intra" : "High 4:4:4";
    case 244: return s.constraint_set3_flag ? "High 4:4:4 Predictive Intra" : "High 4:4:4 Predictive";
    case 44: return "CAVLC 4:4:4 Intra";
  }
  return "Unspecified";
}
static void derived_body(Explorer& x) {
  m::Sps s; Built b = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); });
  if (!x.prepared()) return;
  Ctx& c = x.ctx;
  if (!c.begin(b.raw, "derived base=%s%s", x.base.name, x.devtext.c_str())) return;
  Bytes esc = m::escape(Bytes(b.raw.begin() + 1, b.raw.end()));
  auto r = H::H264SpsParser::ParseSps(esc.data(), esc.size());
  if (b.rejected) { if (r) c.fail("set that crops the picture away, or is otherwise out of range, accepted"); c.add(C_REJ); return; }
  if (!r || !r->sps_data) c.fail("valid set rejected");
  auto& d = *r->sps_data; c.add(C_ACC);
  int w = -7, h = -7; int rc = d.getResolution(&w, &h);
  if (rc != 0 || w != s.width() || h != s.height()) c.fail("resolution %dx%d (rc %d), expected %lldx%lld", w, h, rc, (long long)s.width(), (long long)s.height());
  if (d.getChromaArrayType() != s.cat() || r->getChromaArrayType() != s.cat()) c.fail("chroma array type %u/%u, expected %u", d.getChromaArrayType(), r->getChromaArrayType(), s.cat());
  if (d.getCropUnitX() != s.cropx() || d.getCropUnitY() != s.cropy()) c.fail("crop units %d,%d, expected %lld,%lld", d.getCropUnitX(), d.getCropUnitY(), (long long)s.cropx(), (long long)s.cropy());
  if (s.chroma_format_idc >= 1 && !s.separate_colour_plane_flag) {
    int sw = s.chroma_format_idc == 3 ? 1 : 2, sh = s.chroma_format_idc == 1 ? 2 : 1;
    if (d.getSubWidthC() != sw || d.getSubHeightC() != sh) c.fail("SubWidthC/SubHeightC %d,%d, expected %d,%d", d.getSubWidthC(), d.getSubHeightC(), sw, sh);
  }
  std::string p; H::profileTypeToString(d.GetProfileType(), p); std::string p2; H::profileTypeToString(d.profile_type, p2);
  if (p != expected_profile(s) || p2 != p) c.fail("profile '%s' / '%s', expected '%s'", p.c_str(), p2.c_str(), expected_profile(s));
  if (s.vui_parameters && s.vui_parameters->timing_info_present_flag && d.vui_parameters) {
    float f = d.vui_parameters->getFramerate(); float e = (float)((double)s.vui_parameters->time_scale / (2.0 * s.vui_parameters->num_units_in_tick));
    if (f != e) c.fail("frame rate %.9g, expected %.9g", f, e);
  }
}
static void c20(Ctx& c) {
  { Base b = mkbase("profiles", true, kSpsRichFix); Space s; s.budget = 0; s.only_listed = true;
    for (auto n : {"profile_idc", "constraint_set0_flag", "constraint_set1_flag", "constraint_set2_flag", "constraint_set3_flag", "constraint_set4_flag", "constraint_set5_flag"}) s.cost[n] = 0;
    std::vector<int64_t> all; for (int i = 0; i < 256; ++i) all.push_back(i); s.cands["profile_idc"] = all;
    Explorer(c, b, s, derived_body).go(); }
  // resolution: chroma format x interlacing x size x every cropping boundary
  { Base b = mkbase("resolution", true, kSpsRichFix + Fix{{"profile_idc", 244}, {"pic_order_cnt_type", 2}}); Space s; s.budget = 0; s.only_listed = true;
    for (auto n : {"chroma_format_idc", "separate_colour_plane_flag", "frame_mbs_only_flag", "pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1", "frame_cropping_flag",
                   "frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset", "frame_crop_bottom_offset"}) s.cost[n] = 0;
    s.cands["chroma_format_idc"] = {0, 1, 2, 3}; s.cands["pic_width_in_mbs_minus1"] = {0, 1, 119, 1055}; s.cands["pic_height_in_map_units_minus1"] = {0, 67, 1055};
    if (!c.thorough) s.cands["pic_width_in_mbs_minus1"] = {0, 1055}, s.cands["pic_height_in_map_units_minus1"] = {0, 1055};
    for (auto n : {"frame_crop_left_offset", "frame_crop_top_offset"}) s.cands[n] = {0, 1, 7};
    for (auto n : {"frame_crop_right_offset", "frame_crop_bottom_offset"}) s.cands[n] = {0, 2};
    Explorer(c, b, s, derived_body).go(); }
  crop_grid(c, derived_body);
  // all picture sizes, one dimension at a time and jointly on a grid
  { Base b = mkbase("sizes", false, Fix{{"profile_idc", 100}, {"chroma_format_idc", 1}, {"frame_mbs_only_flag", 1}, {"frame_cropping_flag", 1}}); Space s; s.budget = 1; s.wide = true; s.wide_limit = 20000; s.only_listed = true;
    for (auto n : {"pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1", "frame_crop_left_offset", "frame_crop_right_offset", "frame_crop_top_offset", "frame_crop_bottom_offset"}) s.cost[n] = 1;
    s.cost["chroma_format_idc"] = 0; s.cost["frame_mbs_only_flag"] = 0; s.wcands["chroma_format_idc"] = {0, 1, 2, 3};
    Explorer(c, b, s, derived_body).go();
    Base b2 = mkbase("sizes2", false, Fix{{"profile_idc", 100}, {"chroma_format_idc", 1}, {"frame_mbs_only_flag", 0}, {"frame_cropping_flag", 1}, {"pic_width_in_mbs_minus1", 1055}, {"pic_height_in_map_units_minus1", 1055}});
    Explorer(c, b2, s, derived_body).go();
    Space g; g.budget = 0; g.only_listed = true; for (auto n : {"pic_width_in_mbs_minus1", "pic_height_in_map_units_minus1"}) { g.cost[n] = 0; for (int i = 0; i < 1056; i += c.thorough ? 3 : 11) g.cands[n].push_back(i); }
    Explorer(c, b, g, derived_body).go(); }
  { Base b = mkbase("framerate", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}}); Space s; s.budget = 0; s.only_listed = true; s.cost["num_units_in_tick"] = 0; s.cost["time_scale"] = 0;
    for (auto n : {"num_units_in_tick", "time_scale"}) { for (int64_t i = 0; i < 32; ++i) { s.cands[n].push_back(1ll << i); s.cands[n].push_back((2ll << i) - 1); s.cands[n].push_back(((1ll << i) + 1) & 0xffffffffll); } for (int64_t i : {0ll, 1001ll, 24000ll, 25ll, 50ll, 30000ll, 48000ll, 60000ll, 90000ll, 0x80000000ll, 0xfffffffell}) s.cands[n].push_back(i); }
    Explorer(c, b, s, derived_body).go(); }
  // any baseline, boundary deviations
  for (auto& b : sps_bases()) { if (b.seq.count("delta_scale")) continue; Space s = sps_space(2, false); s.max_occ = 1; FREEZE(s, kVuiNames); Explorer(c, b, s, derived_body).go(); }
  // element widths and picture size helpers
  typedef H::H264SliceHeaderParser::SliceHeaderState SH; typedef H::H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState XH;
  if (c.shard == 1) for (uint32_t v = 0; v <= 12; ++v) {
    Bytes k{(uint8_t)v}; if (!c.begin(k, "element lengths for %u", v)) continue; c.add(C_STATES);
    if (SH::getFrameNumLen(v) != v + 4 || XH::getFrameNumLen(v) != v + 4) c.fail("frame_num length");
    if (SH::getPicOrderCntLsbLen(v) != v + 4 || XH::getPicOrderCntLsbLen(v) != v + 4) c.fail("pic_order_cnt_lsb length");
    if (v <= 7) { H::H264PpsParser::PpsState p; p.num_slice_groups_minus1 = v; if (p.getSliceGroupIdLen() != m::ceillog2(v + 1)) c.fail("slice_group_id length for %u", v); }
  }
  uint32_t st = c.thorough ? 7 : 37;
  for (uint32_t w = (uint32_t)c.shard; w < 1056; w += c.nshards) for (uint32_t h = 0; h < 1056; h += (w < 40 ? 1 : st)) {
    Bytes k{(uint8_t)(w >> 8), (uint8_t)w, (uint8_t)(h >> 8), (uint8_t)h}; if (!c.begin(k, "map units %ux%u", w + 1, h + 1)) continue; c.add(C_STATES);
    m::Sps sp; sp.pic_width_in_mbs_minus1 = w; sp.pic_height_in_map_units_minus1 = h; m::Pps pp;
    if (SH::getPicWidthInMbs(w) != w + 1 || SH::getPicHeightInMapUnits(h) != h + 1 || SH::getPicSizeInMapUnits(w, h) != (w + 1) * (h + 1)) c.fail("picture size");
    if (XH::getPicWidthInMbs(w) != w + 1 || XH::getPicHeightInMapUnits(h) != h + 1 || XH::getPicSizeInMapUnits(w, h) != (w + 1) * (h + 1)) c.fail("picture size (extension)");
    uint32_t size = (w + 1) * (h + 1);
    for (uint32_t rr : {0u, 1u, 2u, 3u, 6u, 7u, 98u, size / 2, size - 1, size > 1 ? size - 2 : 0, size, 139263u}) {
      pp.slice_group_change_rate_minus1 = rr; uint32_t e = m::cyclebits(sp, pp);
      uint32_t a = SH::getSliceGroupChangeCycleLen(w, h, rr), b = XH::getSliceGroupChangeCycleLen(w, h, rr);
      if (a != e || b != e) c.fail("slice_group_change_cycle length %u/%u, expected %u (rate-1 %u)", a, b, e, rr);
      if (SH::getSliceGroupChangeRate(rr) != rr + 1) c.fail("slice group change rate");
    }
  }
}
#include "syntax_dump.h"
