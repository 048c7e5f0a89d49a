// ============================================================ C19 text dump
struct DumpEntry { int block; std::string name; std::vector<std::string> val; };
struct Dump { std::vector<std::string> blocks; std::vector<int> parent; std::vector<DumpEntry> e; std::string err; };
static std::vector<std::string> words(const std::string& t) {
  std::vector<std::string> w; std::string cur;
  for (char ch : t) { if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r') { if (!cur.empty()) w.push_back(cur), cur.clear(); } else cur += ch; }
  if (!cur.empty()) w.push_back(cur);
  return w;
}
static bool is_num(const std::string& s) { if (s.empty()) return false; size_t i = s[0] == '-'; if (i == s.size()) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static Dump parse_dump(const std::vector<std::string>& w) {
  Dump d; std::vector<int> st;
  for (size_t i = 0; i < w.size();) {
    if (w[i] == "}") { if (st.empty()) { d.err = "unbalanced }"; return d; } st.pop_back(); ++i; continue; }
    if (i + 1 < w.size() && w[i + 1] == "{") {
      // a list (only numbers and nested braces inside) or a block
      size_t j = i + 2; int depth = 1; bool list = true; std::vector<std::string> v;
      while (j < w.size() && depth > 0) { if (w[j] == "{") depth++; else if (w[j] == "}") depth--; else if (is_num(w[j])) v.push_back(w[j]); else { list = false; break; } ++j; }
      bool isblock = !list;
      if (list && v.empty() && j - (i + 2) == 1) { isblock = false; }  // "name { }": an empty list or an empty block, the same to us
      if (!isblock) { if (depth) { d.err = "unbalanced {"; return d; } d.e.push_back({st.empty() ? -1 : st.back(), w[i], v}); i = j; continue; }
      d.blocks.push_back(w[i]); d.parent.push_back(st.empty() ? -1 : st.back()); st.push_back((int)d.blocks.size() - 1); i += 2; continue;
    }
    if (w[i].size() > 1 && w[i].back() == ':') {
      DumpEntry x{st.empty() ? -1 : st.back(), w[i].substr(0, w[i].size() - 1), {}}; ++i;
      while (i < w.size() && w[i] != "}" && w[i].back() != ':' && !(i + 1 < w.size() && w[i + 1] == "{")) x.val.push_back(w[i++]);
      d.e.push_back(x); continue;
    }
    d.err = "unexpected token " + w[i]; return d;
  }
  if (!st.empty()) d.err = "unbalanced {";
  return d;
}
template <class T> static std::string dump_text(const T& t, int indent, H::ParsingOptions po) {
  char* buf = nullptr; size_t n = 0; FILE* f = open_memstream(&buf, &n); t.fdump(f, indent, po); fclose(f); std::string s(buf, n); free(buf); return s;
}
// The indented form: one entry per line, indented by two blanks per level (the first line stands where the caller is).
static std::string layout(const std::string& t, int level) {
  int depth = 0; bool first = true; size_t at = 0, no = 0;
  while (at <= t.size()) {
    size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(at, e - at); at = e + 1; ++no; size_t sp = l.find_first_not_of(' ');
    if (sp == std::string::npos) { first = false; continue; }
    std::vector<std::string> w = words(l); int o = 0, cl = 0; for (auto& x : w) { o += x == "{"; cl += x == "}"; }
    int d = depth - (w[0] == "}" ? 1 : 0);
    if (!first && (int)sp != 2 * (d + level)) return "line " + std::to_string(no) + " (" + w[0] + ") is indented by " + std::to_string(sp) + ", not " + std::to_string(2 * (d + level));
    bool ok = (w.size() == 1 && w[0] == "}") || (w[0].back() == ':' && w.size() > 1 && o == 0 && cl == 0) || (w.size() == 2 && w[1] == "{") || (w.size() > 2 && w[1] == "{" && o == cl && w.back() == "}");
    if (w[0].back() == ':') for (size_t i = 1; i < w.size(); ++i) if (w[i].back() == ':') ok = false;
    if (!ok) return "line " + std::to_string(no) + " does not hold exactly one entry: " + l;
    depth += o - cl; first = false;
  }
  return depth ? "unbalanced" : "";
}
static std::string norm_block(const std::string& n) {
  if (n == "sps" || n == "seq_parameter_set_data") return "sps_data";
  if (n == "nal_hrd_parameters" || n == "vcl_hrd_parameters") return "hrd_parameters";
  return n;
}
// The dump of an RTP packet: header and payload of the units it carries, as in the dump of those units, inside the
// entries of the packet kind.
template <class T> static void c19_rtp(Ctx& c, const char* what, const T& r, const std::vector<std::string>& want, H::ParsingOptions po) {
  std::vector<std::string> got = words(dump_text(r, -1, po));
  if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; c.fail("dump of a %s packet differs at token %zu: %s, expected %s", what, k, k < got.size() ? got[k].c_str() : "end", k < want.size() ? want[k].c_str() : "end"); }
  if (words(dump_text(r, 1, po)) != want) c.fail("one-line and indented dumps of a %s packet differ", what);
  static int turn = 0; for (int lv : {0, 3, 1 + turn++ % 7}) { std::string e = layout(dump_text(r, lv, po), lv); if (!e.empty()) c.fail("indented dump of a %s packet: %s", what, e.c_str()); }
}
static void c19_packets(Ctx& c, const std::vector<Bytes>& us, const ImplNal& n) {
  typedef std::vector<std::string> W; H::ParsingOptions po; po.add_resolution = us.size() & 1;
  auto add = [](W& a, const W& b) { a.insert(a.end(), b.begin(), b.end()); };
  auto hdr_of = [](const H::H264NalUnitHeaderParser::NalUnitHeaderState& h) { char* buf = nullptr; size_t l = 0; FILE* f = open_memstream(&buf, &l); h.fdump(f, -1); fclose(f); W w = words(std::string(buf, l)); free(buf); return w; };
  auto first = [&](const Bytes& pk) { H::BitBuffer b(pk.data(), 1); auto k = H::H264NalUnitHeaderParser::ParseNalUnitHeader(&b); if (!k) c.fail("header byte %02x not parsed", pk[0]); return hdr_of(*k); };
  auto pay_of = [&](const ImplNal& k) { char* buf = nullptr; size_t l = 0; FILE* f = open_memstream(&buf, &l); k.nal_unit_payload->fdump(f, -1, k.nal_unit_header->nal_unit_type, po); fclose(f); W w = words(std::string(buf, l)); free(buf); return w; };
  auto sess = [&](bool all) { auto s = std::make_unique<ImplSession>(); for (size_t i = 0; i + (all ? 0 : 1) < us.size(); ++i) impl_parse(m::escape(us[i]), s.get()); return s; };
  auto wrap = [&](const char* k, const W& body, const W& h) { W w{"rtp", "{"}; add(w, h); add(w, W{k, "{"}); add(w, body); add(w, W{"}", "}"}); return w; };
  Bytes e = m::escape(us.back()); uint32_t t = n.nal_unit_header->nal_unit_type; W h = hdr_of(*n.nal_unit_header), p = pay_of(n);
  if (t <= 23) {
    auto s = sess(false); W body; add(body, h); add(body, p);
    auto r = H::H264RtpParser::ParseRtp(e.data(), e.size(), s.get()); if (r) { c19_rtp(c, "single", *r, wrap("rtp_single", body, h), po); c.add(C_USER); }
    s = sess(false); auto q = H::H264RtpSingleParser::ParseRtpSingle(e.data(), e.size(), s.get()); W w{"rtp_single", "{"}; add(w, body); w.push_back("}"); if (q) c19_rtp(c, "rtp_single", *q, w, po);
  }
  {  // all units of the sequence in one STAP-A
    Bytes pk{0x78}; W sh = first(pk), body = sh; ImplSession s; bool ok = true;
    for (auto& u : us) { Bytes x = m::escape(u); if (x.size() > 65535) ok = false; auto k = impl_parse(x, &s); if (!k) { ok = false; break; } pk.push_back((uint8_t)(x.size() >> 8)); pk.push_back((uint8_t)x.size()); pk.insert(pk.end(), x.begin(), x.end()); add(body, W{"nal_unit_size:", std::to_string(x.size())}); add(body, hdr_of(*k->nal_unit_header)); add(body, pay_of(*k)); }
    if (ok) {
      ImplSession s2; auto r = H::H264RtpParser::ParseRtp(pk.data(), pk.size(), &s2); if (r) { c19_rtp(c, "STAP-A", *r, wrap("rtp_stapa", body, sh), po); c.add(C_USER); }
      ImplSession s3; auto q = H::H264RtpStapAParser::ParseRtpStapA(pk.data(), pk.size(), &s3); W w{"rtp_stapa", "{"}; add(w, body); w.push_back("}"); if (q) c19_rtp(c, "rtp_stapa", *q, w, po);
    }
  }
  if (t < 24 && t != 14 && t != 20 && t != 21) for (int f = 0; f < 8; ++f) {  // the unit as fragments, all values of the three flags
    Bytes pk{(uint8_t)((us.back()[0] & 0x60) | 28), (uint8_t)(f << 5 | t)}; pk.insert(pk.end(), e.begin() + 1, e.end());
    W sh = first(pk), body = sh;
    add(body, W{"s_bit:", std::to_string(f >> 2), "e_bit:", std::to_string(f >> 1 & 1), "r_bit:", std::to_string(f & 1), "fu_type:", std::to_string(t)}); if (f & 4) add(body, p);
    auto s = sess(false); auto r = H::H264RtpParser::ParseRtp(pk.data(), pk.size(), s.get()); if (r) { c19_rtp(c, "FU-A", *r, wrap("rtp_fua", body, sh), po); c.add(C_USER); }
    s = sess(false); auto q = H::H264RtpFuAParser::ParseRtpFuA(pk.data(), pk.size(), us.back()[0] >> 5 & 3, s.get()); W w{"rtp_fua", "{"}; add(w, body); w.push_back("}"); if (q) c19_rtp(c, "rtp_fua", *q, w, po);
  }
}
// The dump of a whole stream, by each of the four ways of parsing it: the dumps of its units, in order, with the options
// the stream was parsed with; one line per unit in the one-line form.
static void c19_stream(Ctx& c, const std::vector<Bytes>& us) {
  Bytes an = cat(us), ln; for (auto& u : us) { Bytes e = m::escape(u); for (int k = 3; k >= 0; --k) ln.push_back((uint8_t)(e.size() >> (8 * k))); ln.insert(ln.end(), e.begin(), e.end()); }
  for (int o = 0; o < 32; ++o) { H::ParsingOptions q; q.add_offset = o & 1; q.add_length = o & 2; q.add_parsed_length = o & 4; q.add_checksum = o & 8; q.add_resolution = o & 16;
    for (int how = 0; how < 4; ++how) { ImplSession s; static const char* nm[] = {"ParseBitstream", "ParseBitstream without a session", "ParseBitstreamNALULength", "ParseBitstreamNALULength without a session"};
      auto bs = how == 0 ? H::H264BitstreamParser::ParseBitstream(an.data(), an.size(), &s, q) : how == 1 ? H::H264BitstreamParser::ParseBitstream(an.data(), an.size(), q) : how == 2 ? H::H264BitstreamParser::ParseBitstreamNALULength(ln.data(), ln.size(), 4, &s, q) : H::H264BitstreamParser::ParseBitstreamNALULength(ln.data(), ln.size(), 4, q);
      if (!bs) continue;
      for (int lv : {-1, o % 3}) { std::vector<std::string> want; for (auto& n : bs->nal_units) { auto w = words(dump_text(*n, lv, q)); want.insert(want.end(), w.begin(), w.end()); } std::string t = dump_text(*bs, lv, q); auto got = words(t);
        if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; c.fail("%s with options %d: the dump of the stream differs from the dumps of its units at token %zu (%s / %s)", nm[how], o, k, k < got.size() ? got[k].c_str() : "end", k < want.size() ? want[k].c_str() : "end"); }
        if (lv < 0) { size_t nl = 0; for (char ch : t) nl += ch == '\n'; if (nl != bs->nal_units.size()) c.fail("%s with options %d: %zu lines for %zu units", nm[how], o, nl, bs->nal_units.size()); } } } }
}
typedef std::map<std::pair<std::string, int>, std::map<std::string, std::vector<std::string>>> BlockMap;  // (block name, instance) -> field -> values
static void c19_unit(Ctx& c, const std::vector<Bytes>& us, const char* label, bool options) {
  if (!c.begin(cat(us), "%s", label)) return;
  c.add(C_STATES);
  m::Session ms; ImplSession is; m::Nal x; std::unique_ptr<ImplNal> n; m::Trace tr;
  for (size_t i = 0; i < us.size(); ++i) {
    bool last = i + 1 == us.size();
    if (last) {
      static const char* top[32] = {0}; top[1] = top[5] = "slice_header"; top[7] = "sps_data"; top[8] = "pps"; top[14] = "prefix_nal_unit_svc"; top[15] = "subset_sps"; top[20] = "slice_header_in_scalable_extension";
      Dec d(us[i].data(), us[i].size()); d.tr = &tr; x = m::Nal();
      tr.e.push_back({1, "nal_unit_header", 0});
      try { m::nalhdr(d, x.hdr); x.readable = true; } catch (m::Reject&) {}
      if (x.readable) { tr.e.push_back({2, "", 0}); const char* t = top[x.hdr.nal_unit_type]; if (t) tr.e.push_back({1, t, 0}); m::dec_payload(d, x, ms); if (t) tr.e.push_back({2, "", 0}); }
    } else m::dec_nal(us[i].data(), us[i].size(), ms);
    n = impl_parse(m::escape(us[i]), &is);
  }
  if (!n) return;
  bool parsed = impl_parsed(*n) && x.parsed && !x.undef && x.readable;
  H::ParsingOptions po;
  std::vector<std::string> one = words(dump_text(*n, -1, po)), ind = words(dump_text(*n, 0, po));
  if (one != ind) { size_t k = 0; while (k < one.size() && k < ind.size() && one[k] == ind[k]) ++k; c.fail("one-line and indented dumps differ at token %zu (%s / %s)", k, k < one.size() ? one[k].c_str() : "end", k < ind.size() ? ind[k].c_str() : "end"); }
  { std::string e = layout(dump_text(*n, 0, po), 0); if (!e.empty()) c.fail("indented dump: %s", e.c_str()); }
  std::string txt = dump_text(*n, -1, po);
  if (txt.find('\n') != std::string::npos) c.fail("the one-line dump contains a line break");
  Dump d = parse_dump(one);
  if (!d.err.empty()) c.fail("dump is not well formed: %s", d.err.c_str());
  // what the dump says
  BlockMap got; { std::map<std::string, int> inst; std::vector<int> ino(d.blocks.size()); for (size_t i = 0; i < d.blocks.size(); ++i) { ino[i] = inst[d.blocks[i]]++; got[{d.blocks[i], ino[i]}]; }
    for (auto& e : d.e) { auto key = e.block < 0 ? std::make_pair(std::string(), 0) : std::make_pair(d.blocks[e.block], ino[e.block]); auto& f = got[key]; if (f.count(e.name)) c.fail("element %s is dumped twice", e.name.c_str()); f[e.name] = e.val; } }
  // what was parsed
  View v; v_nal(v, n.get());
  BlockMap st; { std::vector<std::pair<std::string, int>> stack; std::map<std::string, int> inst;
    for (auto& e : v.e) {
      if (e.kind == 1) { std::string b = norm_block(e.n); stack.push_back({b, inst[b]++}); st[stack.back()]; }
      else if (e.kind == 2) stack.pop_back();
      else { auto& f = st[stack.empty() ? std::make_pair(std::string(), 0) : stack.back()]; if (e.kind == 0) f[e.n] = {std::to_string(e.v)}; else if (e.kind == 3) f[e.n]; else f[e.n].push_back(std::to_string(e.v)); } } }
  for (auto& b : got) for (auto& f : b.second) {
    auto it = st.find(b.first); if (it == st.end()) continue;
    auto jt = it->second.find(f.first); if (jt == it->second.end()) continue;
    if (jt->second != f.second) { std::string a, g; for (auto& s : jt->second) a += " " + s; for (auto& s : f.second) g += " " + s; c.fail("%s.%s dumped as%s, parsed value is%s", b.first.first.c_str(), f.first.c_str(), g.c_str(), a.c_str()); }
  }
  // every element present in the unit must be there
  if (parsed) {
    std::vector<std::pair<std::string, int>> stack; std::map<std::string, int> inst;
    for (auto& e : tr.e) {
      if (e.kind == 1) { std::string b = norm_block(e.name); stack.push_back({b, inst[b]++}); }
      else if (e.kind == 2) stack.pop_back();
      else {
        auto b = stack.empty() ? std::make_pair(std::string(), 0) : stack.back();
        auto it = got.find(b);
        if (it == got.end() || !it->second.count(e.name)) c.fail("element %s (in %s) is present in the unit but not in the dump", e.name, b.first.c_str());
      }
    }
    c.add(C_ACC); c.add(C_VALID); c.add(C_TRANS, tr.e.size());
  } else c.add(C_REJ);
  // derived entries
  if (parsed && (x.p.sps || x.p.subset)) {
    const m::Sps& s = x.p.sps ? *x.p.sps : *x.p.subset->seq_parameter_set_data; auto& f = got[{"sps_data", 0}];
    if (f["width"] != std::vector<std::string>{std::to_string(s.width())} || f["height"] != std::vector<std::string>{std::to_string(s.height())}) c.fail("dumped resolution is wrong");
    if (f["profile"] != words(expected_profile(s))) c.fail("dumped profile name is wrong");
  }
  auto& nu = got[{"nal_unit", 0}];
  char b[64]; snprintf(b, sizeof b, "0x%08zx", n->offset); if (nu["offset"] != std::vector<std::string>{b}) c.fail("dumped offset is not %s", b);
  snprintf(b, sizeof b, "%zu", n->length); if (nu["length"] != std::vector<std::string>{b}) c.fail("dumped length is not %s", b);
  snprintf(b, sizeof b, "0x%08zx", n->parsed_length); if (nu["parsed_length"] != std::vector<std::string>{b}) c.fail("dumped parsed_length is not %s", b);
  if (n->checksum && nu["checksum"] != std::vector<std::string>{"0x" + n->checksum->GetPrintableChecksum()}) c.fail("dumped checksum differs");
  if (options) c19_packets(c, us, *n);
  if (options) c19_stream(c, us);
  if (options) for (int o = 0; o < 32; ++o) {
    H::ParsingOptions q; q.add_offset = o & 1; q.add_length = o & 2; q.add_parsed_length = o & 4; q.add_checksum = o & 8; q.add_resolution = o & 16;
    { int lv = o % 7; std::string e = layout(dump_text(*n, lv, q), lv); if (!e.empty()) c.fail("indented dump at level %d with options %d: %s", lv, o, e.c_str()); }
    Dump k = parse_dump(words(dump_text(*n, o & 1 ? -1 : 2, q)));
    std::vector<DumpEntry> want;
    for (auto& e : d.e) {
      std::string bn = e.block < 0 ? "" : d.blocks[e.block];
      if (bn == "nal_unit") { if ((e.name == "offset" && !(o & 1)) || (e.name == "length" && !(o & 2)) || (e.name == "parsed_length" && !(o & 4)) || (e.name == "checksum" && !(o & 8))) continue; }
      if (bn == "sps_data" && (e.name == "width" || e.name == "height") && !(o & 16)) continue;
      want.push_back(e);
    }
    if (k.blocks != d.blocks || k.parent != d.parent) c.fail("options %d change the structure of the dump", o);
    if (k.e.size() != want.size()) c.fail("with options %d the dump has %zu entries, expected %zu", o, k.e.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) if (k.e[i].name != want[i].name || k.e[i].val != want[i].val || k.e[i].block != want[i].block) c.fail("with options %d entry %zu is %s, expected %s", o, i, k.e[i].name.c_str(), want[i].name.c_str());
    // a unit parsed without a checksum is dumped without one and otherwise the same
    if (o == 23 || o == 31) {
      ImplSession s2; std::unique_ptr<ImplNal> n2; for (auto& u : us) n2 = impl_parse(m::escape(u), &s2, q);
      Dump k2 = parse_dump(words(dump_text(*n2, 0, q)));
      if (k2.e.size() != k.e.size()) c.fail("parsing with options %d changes the dump", o);
    }
  }
}
static void c19(Ctx& c) {
  auto run = [&](std::vector<Seq> v, bool opt) { for (size_t i = (size_t)c.shard; i < v.size(); i += c.nshards) c19_unit(c, v[i].units, v[i].name.c_str(), opt); };
  run(corpus(c, 0), true);
  run(corpus(c, 1), true);
  if (c.thorough) run(corpus(c, 2), false);
  // full ranges, one element at a time
  auto body = [&](std::vector<Bytes> us, Explorer& x, const char* k) { if (!x.prepared()) return; std::string l = std::string(k) + " base=" + x.base.name + x.devtext; c19_unit(x.ctx, us, l.c_str(), false); };
  auto W = [&](Space s) { s.wide = true; s.budget = 1; s.wide_limit = c.thorough ? 5000 : 130; return s; };
  for (auto& b : sps_bases()) Explorer(c, b, W(sps_space(1, true)), [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); body({u.raw}, x, "SPS"); }).go();
  for (auto& b : pps_bases()) Explorer(c, b, W(pps_space(1, true)), [&](Explorer& x) { m::Pps s; Built u = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }); body({u.raw}, x, "PPS"); }).go();
  for (auto& b : slice_bases()) Explorer(c, b, W(slice_space(1, true)), [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); body({t.sps, t.pps, t.slice}, x, "slice"); }).go();
  for (auto& b : svc_bases()) Explorer(c, b, W(svc_space(1, true)), [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); body({t.subset, t.pps, t.slice}, x, "svc slice"); }).go();
  // structural products
  sps_product(c, c.thorough ? 20 : 2, [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); body({u.raw}, x, "SPS"); }, {100, 244, 139}, {66});
  vui_product(c, c.thorough ? 100 : 10, [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); body({u.raw}, x, "VUI"); });
  pps_product(c, c.thorough ? 20 : 3, [&](Explorer& x) { m::Pps s; Built u = build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }); body({u.raw}, x, "PPS"); });
  slice_product(c, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); body({t.sps, t.pps, t.slice}, x, "slice"); }, c.thorough ? 20 : 2, false);
  svc_product(c, [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); body({t.subset, t.pps, t.slice}, x, "svc slice"); }, c.thorough ? 20 : 2, false);
  // the control fields in combination (what is printed depends on them)
  for (auto& b : slice_bases()) { Space s = slice_space(2, false); s.max_occ = 1; s.cost["slice_type"] = 0; s.cands["slice_type"] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; s.cost["x_idr"] = 0;
    Explorer(c, b, s, [&](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); body({t.sps, t.pps, t.slice}, x, "slice"); }).go(); if (!c.thorough && b.rich) break; }
  for (auto& b : svc_bases()) { Space s = svc_space(2, false); s.max_occ = 1; s.cost["slice_type"] = 0; s.cands["slice_type"] = {0, 1, 2}; s.cost["no_inter_layer_pred_flag"] = 0;
    Explorer(c, b, s, [&](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); body({t.subset, t.pps, t.slice}, x, "svc slice"); }).go(); if (!c.thorough && b.rich) break; }
  for (auto& b : subset_bases()) { if (b.seq.count("delta_scale")) continue; Space s; s.budget = 2; s.only_listed = true; freeze(s, kSvcExtNames, sizeof kSvcExtNames / sizeof *kSvcExtNames, 1); s.max_occ = 3; s.cost["chroma_format_idc"] = 1; s.cost["separate_colour_plane_flag"] = 1;
    Explorer(c, b, s, [&](Explorer& x) { m::Subset s; Built u = build(x, {0x6f}, [&](Enc& e) { m::subset(e, s); }); body({u.raw}, x, "subset"); }).go(); }
  // packets and units of every type, with bodies that parse or not
  for (int t = c.shard; t < 32; t += c.nshards) for (int ref = 0; ref < 4; ++ref) for (int b = 0; b < 4; ++b) {
    Bytes u{hdrbyte(ref, t)}; if (t == 14 || t == 20 || t == 21) { u.push_back(0x80); u.push_back(0x80); u.push_back(0x07); } if (b & 1) u.push_back(0x40); if (b & 2) u.push_back(0x80); c19_unit(c, {u}, "unit type sweep", true); }
  // the sequence parameter set extension, which has no unit of its own here
  for (auto& b : spsext_bases()) for (bool wide : {false, true}) { Space s; s.budget = wide ? 1 : 3; s.wide = wide; s.wide_limit = 9000; Explorer(c, b, s, [](Explorer& x) {
    m::SpsExt v; Built u = build(x, {}, [&](Enc& e) { m::spsext(e, v); }); if (!x.prepared()) return;
    if (!x.ctx.begin(u.raw, "SPS extension base=%s%s", x.base.name, x.devtext.c_str())) return;
    if (u.rejected) return;
    Bytes esc = m::escape(u.raw); auto r = H::H264SpsExtensionParser::ParseSpsExtension(esc.data(), esc.size()); if (!r) return;
    auto text = [&](int lv) { char* buf = nullptr; size_t n = 0; FILE* f = open_memstream(&buf, &n); r->fdump(f, lv); fclose(f); std::string t(buf, n); free(buf); return t; };
    Dump d = parse_dump(words(text(-1))); if (!d.err.empty() || d.blocks != std::vector<std::string>{"sps_extension"}) x.ctx.fail("dump is not well formed: %s", text(-1).c_str());
    if (words(text(-1)) != words(text(0))) x.ctx.fail("one-line and indented dumps differ");
    if (text(-1).find('\n') != std::string::npos) x.ctx.fail("the one-line dump contains a line break");
    for (int lv : {0, 2}) { std::string e = layout(text(lv), lv); if (!e.empty()) x.ctx.fail("indented dump: %s", e.c_str()); }
    Dec q(u.raw.data(), u.raw.size()); m::Trace tr; q.tr = &tr; m::SpsExt w; try { m::spsext(q, w); } catch (m::Reject&) { return; }
    View vw; v_spsext(vw, w); size_t seen = 0;
    for (auto& e : tr.e) { if (e.kind != 0) continue; bool have = false; for (auto& z : d.e) if (z.name == e.name) { have = true; ++seen; for (auto& y : vw.e) if (y.kind == 0 && y.n == z.name && z.val != std::vector<std::string>{std::to_string(y.v)}) x.ctx.fail("%s dumped as %s, parsed value is %lld", e.name, z.val.empty() ? "nothing" : z.val[0].c_str(), (long long)y.v); } if (!have) x.ctx.fail("element %s is present but not in the dump", e.name); }
    if (seen != d.e.size()) x.ctx.fail("%zu elements dumped, %zu are present", d.e.size(), seen);
    x.ctx.add(C_ACC); x.ctx.add(C_VALID); }).go(); }
  // vui presence flags
  { Base b = mkbase("vui", true, kSpsRichFix + kVuiOn + Fix{{"profile_idc", 77}, {"pic_order_cnt_type", 0}}); Space s; s.budget = 3; FREEZE(s, kSpsNames);
    for (auto n : kVuiNames) if (!strstr(n, "present_flag") && strcmp(n, "bitstream_restriction_flag") && strcmp(n, "aspect_ratio_idc")) s.cost[n] = 99; s.cands["aspect_ratio_idc"] = {1, 255};
    Explorer(c, b, s, [&](Explorer& x) { m::Sps s; Built u = build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }); body({u.raw}, x, "VUI"); }).go(); }
}

// ============================================================ C22 unsupported syntax
static void c22_unit(Ctx& c, const std::vector<Bytes>& us, const char* label) {
  if (!c.begin(cat(us), "%s", label)) return;
  c.add(C_STATES);
  m::Session ms; ImplSession is; bool undef = false;
  for (size_t i = 0; i < us.size(); ++i) {
    m::Nal x = m::dec_nal(us[i].data(), us[i].size(), ms);
    uint32_t before = H::get_unimplemented_count();
    auto n = impl_parse(m::escape(us[i]), &is);
    uint32_t after = H::get_unimplemented_count();
    if (x.undef || undef) { undef = true; c.add(C_UNDEF); continue; }
    c.add(C_TRANS);
    if (x.soft && n && !impl_parsed(*n) && x.unimpl == 0) { if (after != before) c.fail("unit %zu: counted as unimplemented although nothing unimplemented is needed", i + 1); undef = true; continue; }
    if (after - before != x.unimpl && !x.soft) c.fail("unit %zu: the count of unimplemented structures grew by %u, expected %u", i + 1, after - before, x.unimpl);
    if (x.unimpl) c.add(C_USER); 
    if ((n != nullptr) != x.readable) c.fail("unit %zu: %s", i + 1, n ? "a unit whose header needs unimplemented syntax was kept" : "a readable unit was dropped");
    if (!n) { c.add(C_REJ); continue; }
    if (!x.soft && impl_parsed(*n) != x.parsed) c.fail("unit %zu of type %u is reported as %s", i + 1, x.hdr.nal_unit_type, x.parsed ? "unparsed" : "parsed");
    if (x.unimpl && impl_parsed(*n)) c.fail("unit %zu needs unimplemented syntax but is reported as parsed", i + 1);
    View v; v_payload(v, *n->nal_unit_payload);
    if (!impl_parsed(*n) && !v.e.empty()) c.fail("unit %zu is unparsed but carries elements", i + 1);
    if (impl_parsed(*n) && m::supported_type(x.hdr.nal_unit_type) && v.e.empty()) c.fail("unit %zu is reported as parsed but carries nothing", i + 1);
    c.add(x.parsed ? C_ACC : C_REJ);
  }
}
static void c22(Ctx& c) {
  auto run = [&](const std::vector<Seq>& v) { for (size_t i = (size_t)c.shard; i < v.size(); i += c.nshards) {
    c22_unit(c, v[i].units, v[i].name.c_str());
    std::vector<Bytes> us = v[i].units; const Bytes u = us.back(); if (u.size() > 120) continue;
    for (size_t k = 0; k < u.size(); ++k) { us.back() = u; us.back().resize(k); c22_unit(c, us, (v[i].name + " cut").c_str()); }
    for (size_t k = 0; k < std::min<size_t>(u.size() * 8, 160); ++k) { us.back() = u; us.back()[k >> 3] ^= 0x80 >> (k & 7); c22_unit(c, us, (v[i].name + " bit flipped").c_str()); } } };
  run(corpus(c, 0)); run(corpus(c, 1)); if (c.thorough) run(corpus(c, 2));
  products(c, c.thorough ? 10 : 2, [&](const Seq& q) { c22_unit(c, q.units, q.name.c_str()); std::vector<Bytes> us = q.units; const Bytes u = us.back(); for (size_t k = 1; k < u.size(); k += c.thorough ? 1 : 1 + u.size() / 8) { us.back().assign(u.begin(), u.begin() + k); c22_unit(c, us, "cut"); } });
  // every unit type and reference idc, svc flag and short bodies
  for (int f = c.shard; f < 256; f += c.nshards) for (int s = 0; s < 256; s += (f & 31) == 14 || (f & 31) == 20 || (f & 31) == 21 ? 1 : 16) for (int b = 0; b < 8; ++b) {
    Bytes u{(uint8_t)f, (uint8_t)s, (uint8_t)(b & 1 ? 0x00 : 0xf0), (uint8_t)(b & 2 ? 0x07 : 0x1f), (uint8_t)(b & 4 ? 0xc0 : 0x40), 0x80}; c22_unit(c, {u}, "type sweep");
    for (size_t k = 1; k < 4; ++k) { Bytes t(u.begin(), u.begin() + k); c22_unit(c, {t}, "type sweep, short"); } }
  // prefix units and scalable slices around dec_ref_base_pic_marking(), exhaustively over the flags that select it
  for (auto& b : prefix_bases()) { Space s; s.budget = 0; s.only_listed = true; for (auto n : {"nal_ref_idc", "idr_flag", "use_ref_base_pic_flag", "store_ref_base_pic_flag", "additional_prefix_nal_unit_extension_flag", "priority_id", "discardable_flag", "svc_extension_flag"}) s.cost[n] = 0;
    Explorer(c, b, s, [&](Explorer& x) { m::NalHdr h; m::PrefixSvc p; Built u = build(x, {}, [&](Enc& e) { m::nalhdr(e, h); m::NalSvc& n = *h.nal_unit_header_svc_extension; m::prefixsvc(e, p, h.nal_ref_idc, n.use_ref_base_pic_flag, n.idr_flag); });
      if (x.prepared()) c22_unit(x.ctx, {u.raw}, (std::string("prefix") + x.devtext).c_str()); }).go(); }
  for (auto& b : svc_bases()) { Space s = svc_space(1, false); s.max_occ = 1; for (auto n : {"nal_ref_idc", "idr_flag", "use_ref_base_pic_flag", "store_ref_base_pic_flag", "slice_header_restriction_flag", "quality_id", "slice_type", "no_inter_layer_pred_flag", "svc_extension_flag"}) s.cost[n] = 0;
    s.cands["slice_type"] = {0, 1, 2}; s.cands["nal_ref_idc"] = {0, 2}; s.cands["quality_id"] = {0, 3};
    Explorer(c, b, s, [&](Explorer& x) { m::SvcSlice p; SvcSet t = svc_build(x, p); if (x.prepared()) c22_unit(x.ctx, {t.subset, t.pps, t.slice}, (std::string("svc slice") + x.devtext).c_str()); }).go(); }
  // plain slice headers inside extension units (MVC) through the slice header entry point
  for (auto& b : slice_bases()) { Space s = slice_space(1, false); s.max_occ = 1; s.cost["slice_type"] = 0; s.cands["slice_type"] = {0, 1, 2, 3, 4};
    Explorer(c, b, s, [&](Explorer& x) {
      m::Slice p; SliceSet t = slice_build(x, p); if (!x.prepared()) return;
      if (!x.ctx.begin(cat({t.sps, t.pps, t.slice}), "slice header as MVC base=%s%s", x.base.name, x.devtext.c_str())) return;
      x.ctx.add(C_STATES);
      ImplSession is; m::Session ms; impl_parse(m::escape(t.sps), &is); impl_parse(m::escape(t.pps), &is); m::dec_nal(t.sps.data(), t.sps.size(), ms); m::dec_nal(t.pps.data(), t.pps.size(), ms);
      for (uint32_t type : {20u, 21u, 1u, 5u}) {
        Bytes pay(t.slice.begin() + 1, t.slice.end()); Bytes esc = m::escape(pay);
        Dec d(pay.data(), pay.size()); m::Slice q; bool ok = true; try { m::slice(d, q, 1, type, ms); } catch (m::Reject&) { ok = false; }
        uint32_t before = H::get_unimplemented_count(); auto r = H::H264SliceHeaderParser::ParseSliceHeader(esc.data(), esc.size(), 1, type, &is); uint32_t g = H::get_unimplemented_count() - before;
        if (d.soft) continue;
        if (g != d.unimpl) c.fail("slice header of a type %u unit: count grew by %u, expected %u", type, g, d.unimpl);
        if ((r != nullptr) != ok) c.fail("slice header of a type %u unit: %s", type, r ? "accepted" : "refused");
        if (d.unimpl) x.ctx.add(C_USER);
      } }).go(); }
  // the count is cumulative and can be reset
  if (c.shard == 2) {
    Bytes u{0x15, 0x00}, ok{0x09, 0x10};
    if (c.begin(cat({u, ok, u, u}), "cumulative count")) {
      H::reset_unimplemented_count(); if (H::get_unimplemented_count() != 0) c.fail("reset leaves %u", H::get_unimplemented_count());
      Bytes st = cat({u, ok, u, u}); H::ParsingOptions po; ImplSession is; auto r = H::H264BitstreamParser::ParseBitstream(st.data(), st.size(), &is, po);
      if (H::get_unimplemented_count() != 3) c.fail("count %u after three units that need unimplemented syntax", H::get_unimplemented_count());
      if (!r || r->nal_units.size() != 1) c.fail("units with unreadable headers were kept");
      H::reset_unimplemented_count(); if (H::get_unimplemented_count() != 0) c.fail("reset leaves %u", H::get_unimplemented_count());
    }
  }
}
