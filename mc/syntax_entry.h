// Every structure parser called on its own: byte strings against the model.
struct Entry {
  std::string name;
  std::function<void(Dec&, View&)> model;
  std::function<bool(const uint8_t*, size_t, View&)> raw;      // (data, length) overload, escaped bytes
  std::function<bool(H::BitBuffer*, View&)> bits;              // reader overload, unescaped bytes
  bool position;                                               // the structure ends where its last element ends
};
static std::vector<Entry> entries(const m::Session& ms, ImplSession& is) {
  std::vector<Entry> v;
  auto nm = [](const char* f, ...) { char b[160]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return std::string(b); };
#define ENTRY(NAME, POS, MS, MCALL, CLS, FN, VIEW, ...)                                                                     \
  v.push_back({NAME, [=, &ms](Dec& d, View& o) { (void)ms; MS s; MCALL; VIEW(o, s); },                                        \
               [=, &is](const uint8_t* p, size_t n, View& o) { (void)is; auto r = H::CLS::FN(p, n __VA_ARGS__); if (r) VIEW(o, *r); return r != nullptr; }, \
               [=, &is](H::BitBuffer* bb, View& o) { (void)is; auto r = H::CLS::FN(bb __VA_ARGS__); if (r) VIEW(o, *r); return r != nullptr; }, POS});
#define COMMA ,
  for (uint32_t idr : {0u, 1u}) ENTRY(nm("dec_ref_pic_marking idr=%u", idr), true, m::Drpm, m::drpm(d, s, idr), H264DecRefPicMarkingParser, ParseDecRefPicMarking, v_drpm, COMMA idr)
  for (uint32_t t = 0; t < 10; ++t) ENTRY(nm("ref_pic_list_modification slice_type=%u", t), true, m::Rplm, m::rplm(d, s, t), H264RefPicListModificationParser, ParseRefPicListModification, v_rplm, COMMA t)
  for (uint32_t t = 0; t < 10; ++t) if (t % 5 != 2 && t % 5 != 4) for (uint32_t cat : {0u, 1u, 3u}) for (uint32_t n0 : {0u, 2u}) for (uint32_t n1 : {0u, 1u}) {
    if (t >= 5 && (n0 || n1)) continue;
    ENTRY(nm("pred_weight_table cat=%u slice_type=%u l0=%u l1=%u", cat, t, n0, n1), true, m::Pwt, m::pwt(d, s, cat, t, n0, n1), H264PredWeightTableParser, ParsePredWeightTable, v_pwt, COMMA cat COMMA t COMMA n0 COMMA n1)
  }
  ENTRY("hrd_parameters", true, m::Hrd, m::hrd(d, s), H264HrdParametersParser, ParseHrdParameters, v_hrd, )
  ENTRY("vui_parameters", true, m::Vui, m::vui(d, s), H264VuiParametersParser, ParseVuiParameters, v_vui, )
  ENTRY("seq_parameter_set_data", true, m::Sps, m::spsdata(d, s), H264SpsDataParser, ParseSpsData, v_sps, )
  ENTRY("seq_parameter_set_extension_rbsp", false, m::SpsExt, m::spsext(d, s), H264SpsExtensionParser, ParseSpsExtension, v_spsext, )
  for (uint32_t cfi = 0; cfi <= 3; ++cfi) ENTRY(nm("pic_parameter_set_rbsp cfi=%u", cfi), false, m::Pps, m::pps(d, s, cfi), H264PpsParser, ParsePps, v_pps, COMMA cfi)
  for (uint32_t cat = 0; cat <= 3; ++cat) ENTRY(nm("seq_parameter_set_svc_extension cat=%u", cat), true, m::SvcExt, m::svcext(d, s, cat), H264SpsSvcExtensionParser, ParseSpsSvcExtension, v_svcext, COMMA cat)
  ENTRY("nal_unit_header_svc_extension", true, m::NalSvc, m::nalsvc(d, s), H264NalUnitHeaderSvcExtensionParser, ParseNalUnitHeaderSvcExtension, v_nalsvc, )
  for (uint32_t ref : {0u, 1u, 3u}) for (uint32_t ub : {0u, 1u}) for (uint32_t idr : {0u, 1u})
    ENTRY(nm("prefix_nal_unit_svc ref_idc=%u use_ref_base=%u idr=%u", ref, ub, idr), false, m::PrefixSvc, m::prefixsvc(d, s, ref, ub, idr), H264PrefixNalUnitSvcParser, ParsePrefixNalUnitSvc, v_prefix, COMMA ref COMMA ub COMMA idr)
  for (uint32_t ref : {0u, 1u}) for (uint32_t t : {1u, 5u})
    ENTRY(nm("slice_header ref_idc=%u type=%u", ref, t), true, m::Slice, m::slice(d, s, ref, t, ms), H264SliceHeaderParser, ParseSliceHeader, v_slice, COMMA ref COMMA t COMMA &is)
#undef ENTRY
#undef COMMA
  return v;
}
static void entry_case(Ctx& c, const Entry& e, const Bytes& raw) {
  Dec d(raw.data(), raw.size()); View want, g1, g2; bool ok = true;
  try { e.model(d, want); } catch (m::Reject&) { ok = false; }
  c.add(C_STATES); c.add(C_TRANS, 2);
  if (d.undef) { c.add(C_UNDEF); return; }
  if (d.soft && ok) c.add(C_SOFT); else c.add(ok ? C_ACC : C_REJ);
  Bytes esc = m::escape(raw);
  bool r1 = e.raw(esc.data(), esc.size(), g1);
  H::BitBuffer bb(raw.data(), raw.size()); bool r2 = e.bits(&bb, g2);
  if (!(d.soft && ok)) {
    if (r1 != ok) c.fail("%s (data, length): %s", e.name.c_str(), ok ? "readable structure refused" : "accepted although the bytes do not hold it");
    if (r2 != ok) c.fail("%s (reader): %s", e.name.c_str(), ok ? "readable structure refused" : "accepted although the bytes do not hold it");
  }
  if (!ok) return;
  if (r1 && g1 != want) c.fail("%s (data, length): %s", e.name.c_str(), want.diff(g1).c_str());
  if (r2 && g2 != want) c.fail("%s (reader): %s", e.name.c_str(), want.diff(g2).c_str());
  if (r2 && e.position) {
    size_t by = 0, bi = 0; bb.GetCurrentOffset(&by, &bi);
    if (by * 8 + bi != d.pos) c.fail("%s: the reader stands at bit %zu after the structure, not %llu", e.name.c_str(), by * 8 + bi, (unsigned long long)d.pos);
  }
}
static void entry_points(Ctx& c, const std::vector<Bytes>& pre) {
  m::Session ms; ImplSession is;
  for (auto& u : pre) { m::dec_nal(u.data(), u.size(), ms); Bytes e = m::escape(u); impl_parse(e, &is); }
  std::vector<Entry> es = entries(ms, is);
  for (auto& e : es) {
    auto one = [&](const Bytes& b) { if (c.begin(b, "%s", e.name.c_str())) entry_case(c, e, b); };
    if (c.shard == 0) one({});
    for (uint32_t v = (uint32_t)c.shard; v < 256; v += c.nshards) one({(uint8_t)v});
    for (uint32_t v = (uint32_t)c.shard; v < 65536; v += c.nshards) one({(uint8_t)(v >> 8), (uint8_t)v});
    static const uint8_t al[] = {0x00, 0x80, 0xff, 0x5a, 0x24, 0x03};
    int L = c.thorough ? 7 : 5; uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= 6;
    for (uint64_t v = (uint64_t)c.shard; v < tot; v += c.nshards) { Bytes b; uint64_t w = v; for (int i = 0; i < L; ++i) { b.push_back(al[w % 6]); w /= 6; } one(b); }
    if (c.thorough) for (uint32_t v = (uint32_t)c.shard; v < (1u << 24); v += c.nshards * 1) { if (e.name.compare(0, 4, "pred") == 0 && (v & 3)) continue; one({(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}); }
  }
}
