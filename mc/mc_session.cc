// C14 parameter set sessions, C17 equivalence of feedings, C18 RTP, C21 accounting.
#define MC_LIB
#include "mc_syntax.cc"
#include "guard.h"
#include "h264_rtp_parser.h"

typedef H::H264BitstreamParser BP;
typedef H::H264NalUnitParser NP;

#include "units.h"
static std::string names(const std::vector<U>& al, const std::vector<int>& h) { std::string s; for (int i : h) s += (s.empty() ? "" : ", ") + al[i].name; return s; }

// ------------------------------------------------------------------ C14
// One history on both; each unit and, at the end, the sessions are compared.
// In half of the histories the caller keeps every result and several references to every set it is given.
typedef std::vector<std::shared_ptr<void>> Held;
static void hold(Held& v, const ImplSession& is) { for (int twice = 0; twice < 2; ++twice) { for (auto& x : is.sps) v.push_back(is.GetSps(x.first)); for (auto& x : is.pps) v.push_back(is.GetPps(x.first)); for (auto& x : is.subset_sps) v.push_back(is.GetSubsetSps(x.first)); } }
static void c14_history(Ctx& c, const std::vector<U>& al, const std::vector<int>& h, bool all_sessions) {
  std::vector<Bytes> us; for (int i : h) us.push_back(al[i].b);
  if (!c.begin(cat(us), "history: %s", names(al, h).c_str())) return;
  m::Session ms; ImplSession is; bool undef = false; Held held; std::vector<std::unique_ptr<ImplNal>> kept; const bool keep = (h.size() + (size_t)h[0] + (size_t)h.back()) & 1;
  for (size_t i = 0; i < us.size() && !undef; ++i) {
    m::Nal x = m::dec_nal(us[i].data(), us[i].size(), ms); Bytes esc = m::escape(us[i]);
    SessionIds before(is); auto n = impl_parse(esc, &is); c.add(C_TRANS);
    std::string d = cmp_unit(x, n.get()); if (!d.empty()) c.fail("unit %zu (%s): %s", i + 1, al[h[i]].name.c_str(), d.c_str());
if (x.undef || (x.soft && n && impl_parsed(*n) != x.parsed)) { undef = true; break; }
    bool stores = x.parsed && (x.p.sps || x.p.pps || x.p.subset);
    if (!stores && !(SessionIds(is) == before)) c.fail("unit %zu (%s) changed the parameter sets of the session", i + 1, al[h[i]].name.c_str());
    if (all_sessions || i + 1 == us.size()) { View a, b; v_session(a, ms); v_session(b, is); if (a != b) c.fail("session after unit %zu (%s): %s", i + 1, al[h[i]].name.c_str(), a.diff(b).c_str()); }
    if (i + 1 == us.size()) { std::string e = accessors(is); if (!e.empty()) c.fail("after unit %zu (%s): %s", i + 1, al[h[i]].name.c_str(), e.c_str()); }
    if (i + 1 == us.size()) count_outcome(c, x);
    if (keep) { hold(held, is); kept.push_back(std::move(n)); }
  }
  if (undef) c.add(C_UNDEF);
}
static void c14_bfs(Ctx& c, const std::vector<U>& al, int second) {
  std::map<uint64_t, std::vector<int>> seen; std::vector<std::vector<int>> q; size_t k = 0, tr = 0;
  { View v; v_session(v, m::Session()); seen[v.hash()] = {}; q.push_back({}); }
  while (k < q.size()) {
    std::vector<int> h = q[k++]; m::Session base; for (int i : h) m::dec_nal(al[i].b.data(), al[i].b.size(), base);
    if ((int)(k % c.nshards) == c.shard) c.add(C_STATES);
    for (int u = 0; u < (int)al.size(); ++u) {
      std::vector<int> h2(h); h2.push_back(u);
      m::Session s = base; m::dec_nal(al[u].b.data(), al[u].b.size(), s); View v; v_session(v, s);
      bool fresh = !seen.count(v.hash()); if (fresh) { seen[v.hash()] = h2; q.push_back(h2); }
      if ((int)(tr++ % c.nshards) != c.shard) continue;
      c14_history(c, al, h2, false);
      // every way of reaching a state is followed by every further unit
      if (second && !fresh) for (int w = 0; w < (int)al.size(); ++w) { std::vector<int> h3(h2); h3.push_back(w); c14_history(c, al, h3, false); }
    }
  }
}
static void c14_steps(Ctx& c, const std::vector<Bytes>& us, const char* label, bool keep) {
  if (!c.begin(cat(us), "%s", label)) return;
  c.add(C_STATES); m::Session ms; ImplSession is; Held held; std::vector<std::unique_ptr<ImplNal>> kept; View a, b;
  for (size_t i = 0; i < us.size(); ++i) {
    m::Nal x = m::dec_nal(us[i].data(), us[i].size(), ms); Bytes esc = m::escape(us[i]); SessionIds before(is); auto n = impl_parse(esc, &is); c.add(C_TRANS);
    std::string d = cmp_unit(x, n.get()); if (!d.empty()) c.fail("unit %zu of %zu (type %u): %s", i + 1, us.size(), us[i][0] & 31, d.c_str());
    if (x.undef || (x.soft && n && impl_parsed(*n) != x.parsed)) { c.add(C_UNDEF); return; }
    bool stores = x.parsed && (x.p.sps || x.p.pps || x.p.subset);
    if (!stores && !(SessionIds(is) == before)) c.fail("unit %zu of %zu (type %u) changed the parameter sets of the session", i + 1, us.size(), us[i][0] & 31);
    if (stores || i + 1 == us.size()) { a = View(); b = View(); v_session(a, ms); v_session(b, is); if (a != b) c.fail("session after unit %zu of %zu (type %u): %s", i + 1, us.size(), us[i][0] & 31, a.diff(b).c_str()); }
    if (i + 1 == us.size()) count_outcome(c, x);
    if (keep) { hold(held, is); kept.push_back(std::move(n)); }
  }
}
static void c14_structures(Ctx& c) {
  std::map<int, std::vector<Bytes>> bank;   // by (sequence id, picture id): sets of all kinds and slices
  auto with = [&](int s, int p) -> std::vector<Bytes>& { auto& v = bank[s << 8 | p]; if (v.empty()) v = {u_sps(c, kA + id(s)), u_sub(c, kB + id(s)), u_pps(c, ppid(p, s)), u_pps(c, ppid((p + 1) % 256, s)), u_sps(c, kC + id((s + 1) % 32)), u_slice(0x21, 7, p, 0), u_slice(0x34, 2, p, 0), u_sub(c, kC + id(s)), u_sps(c, kB + id(s)), u_pps(c, ppid(p, (s + 1) % 32)), u_slice(0x65, 7, p, 1), u_slice(0x54, 2, (p + 1) % 256, 0)}; return v; };
  uint64_t k = 0;
  auto one = [&](const Seq& q) {
    if (q.units.back().size() > 3000) return;
    m::Session s; for (auto& u : q.units) m::dec_nal(u.data(), u.size(), s);
    int si = s.sps.empty() ? s.subset.empty() ? 0 : (int)s.subset.begin()->first : (int)s.sps.begin()->first, pi = s.pps.empty() ? (int)(k % 256) : (int)s.pps.begin()->first; if (!s.pps.empty() && s.sps.empty() && s.subset.empty()) si = (int)s.pps.begin()->second->seq_parameter_set_id; if (si > 31 || pi > 255) return;
    auto& w = with(si, pi); std::vector<Bytes> us(w.begin(), w.begin() + 5); us.insert(us.end(), q.units.begin(), q.units.end()); us.insert(us.end(), w.begin() + 5, w.end()); if (k & 1) us.insert(us.end(), q.units.begin(), q.units.end());
    c14_steps(c, us, q.name.c_str(), ++k & 2); };
  uint64_t n = 0; products(c, c.thorough ? 3 : 1, [&](const Seq& q) { uint32_t t = q.units.back()[0] & 31; if ((t == 7 || t == 8) || ++n % (c.thorough ? 1 : 2) == 0) one(q); });
  uint64_t i = 0; for (auto& q : corpus(c, 1)) if (i++ % c.nshards == (uint64_t)c.shard) one(q);
}
static void c14(Ctx& c) {
  std::vector<U> al = session_units(c, false), big = session_units(c, true); big.pop_back();  // without the MVC subset SPS (known finding F2)
  c14_bfs(c, al, 1);
  c14_bfs(c, big, c.thorough);
  // all histories, without merging states
  int depth = c.thorough ? 5 : 4; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= al.size();
  for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { std::vector<int> h; uint64_t y = x; for (int i = 0; i < depth; ++i) { h.push_back((int)(y % al.size())); y /= al.size(); } c14_history(c, al, h, true); }
  // sets of every structure, in the place of, and next to, sets of the same id of the other kinds, before and after them; with slices that use them
  c14_structures(c);
  // every pair of ids
  auto seq = [&](const std::vector<Bytes>& us, const char* what, uint32_t a, uint32_t b) { if (!c.begin(cat(us), "%s %u, %u", what, a, b)) return; c.add(C_STATES); c.add(C_TRANS, us.size()); feed(c, us); };
  uint64_t idx = 0;
  for (uint32_t i = 0; i < 32; ++i) for (uint32_t j = 0; j < 32; ++j) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    seq({u_sps(c, kA + id(i)), u_sps(c, kC + id(j)), u_pps(c, ppid(0, i)), u_pps(c, ppid(1, j)), u_slice(0x21, 7, 0, 0), u_slice(0x21, 7, 1, 0)}, "SPS ids", i, j);
    seq({u_sub(c, kA + id(i)), u_sub(c, kC + id(j)), u_sps(c, kB + id(j)), u_pps(c, ppid(0, i)), u_pps(c, ppid(1, j)), u_slice(0x34, 2, 0, 0), u_slice(0x34, 2, 1, 0), u_slice(0x21, 7, 1, 0)}, "subset SPS ids", i, j); }
  Bytes s0 = u_sps(c, kA), s1 = u_sps(c, kC + id(1));
  std::vector<Bytes> pa, pb, sl; for (uint32_t i = 0; i < 256; ++i) { pa.push_back(u_pps(c, ppid(i, 0))); pb.push_back(u_pps(c, ppid(i, 1) + Fix{{"deblocking_filter_control_present_flag", 1}})); sl.push_back(u_slice(0x21, 7, i, 0)); }
  for (uint32_t i = 0; i < 256; ++i) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; for (uint32_t j = 0; j < 256; ++j) seq({s0, s1, pa[i], pb[j], sl[i], sl[j]}, "PPS ids", i, j); }
  // all ids held at once, one of them replaced or spoiled
  // subset sequence parameter sets of all ids, in both orders, and of every triple of neighbouring, distant and extreme ids
  { std::vector<Bytes> sub, pp; for (uint32_t i = 0; i < 32; ++i) { sub.push_back(u_sub(c, Fix{{"log2_max_frame_num_minus4", (int)i % 13}, {"max_num_ref_frames", (int)i / 2}, {"pic_order_cnt_type", 2}} + id(i))); pp.push_back(u_pps(c, ppid(i, i))); }
    for (int rev = 0; rev < 2; ++rev) for (uint32_t i = 0; i < 32; ++i) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; std::vector<Bytes> us; for (uint32_t k = 0; k < 32; ++k) { uint32_t x = rev ? 31 - k : (k + i) % 32; us.push_back(sub[x]); us.push_back(pp[x]); } us.push_back(u_sub(c, kB + id(i))); for (uint32_t k = 0; k < 32; ++k) us.push_back(u_slice(0x34, 2, k, 0)); seq(us, rev ? "all subset SPS ids, backwards, replaced" : "all subset SPS ids from, replaced", i, i); }
    for (uint32_t i = 0; i < 32; ++i) for (uint32_t j = 0; j < 32; ++j) for (uint32_t k : {(j + 1) % 32, (i + j) % 32, 0u, 15u, 16u, 31u}) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; seq({u_sub(c, kA + id(i)), u_sub(c, kC + id(j)), u_sub(c, kB + id(k)), pp[i], pp[j], pp[k], u_slice(0x34, 2, i, 0), u_slice(0x34, 2, j, 0), u_slice(0x34, 2, k, 0)}, "three subset SPS ids", i * 32 + j, k); seq({u_sps(c, kA + id(i)), u_sps(c, kC + id(j)), u_sps(c, kB + id(k)), pp[i], pp[j], pp[k], u_slice(0x21, 7, i, 0), u_slice(0x21, 7, j, 0), u_slice(0x21, 7, k, 0)}, "three SPS ids", i * 32 + j, k); } }
  std::vector<Bytes> all; for (uint32_t i = 0; i < 32; ++i) all.push_back(u_sps(c, Fix{{"log2_max_frame_num_minus4", (int)i % 13}, {"max_num_ref_frames", (int)i / 2}, {"pic_order_cnt_type", 2}} + id(i)));
  for (uint32_t i = 0; i < 256; ++i) all.push_back(u_pps(c, ppid(i, i % 32) + Fix{{"chroma_qp_index_offset", (int)(i % 25) - 12}}));
  for (uint32_t i = 0; i < 256; i += c.thorough ? 1 : 3) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    std::vector<Bytes> us(all); us.push_back(u_pps(c, ppid(i, (i + 7) % 32))); us.push_back(u_sps(c, kB + id(i % 32))); for (uint32_t k : {i, (i + 1) % 256, (i + 32) % 256, (i + 7) % 256}) us.push_back(sl[k]);
    seq(us, "all ids, replaced", i, 0); }
  // a set cut at any byte, or with any bit flipped, leaves the one held untouched (unless it parses)
  std::vector<std::pair<Bytes, std::string>> sets = {{u_sps(c, kC + kVuiMin), "SPS"}, {u_sps(c, kB), "SPS B"}, {u_pps(c, ppid(0, 1) + Fix{{"more_rbsp_data", 1}, {"num_slice_groups_minus1", 2}}), "PPS"}, {u_sub(c, kC + Fix{{"extended_spatial_scalability_idc", 2}}), "subset SPS"}};
  for (auto& s : sets) { std::vector<Bytes> pre = {u_sps(c, kA), u_sps(c, kA + id(1)), u_sub(c, kA), u_pps(c, ppid(0, 0)), u_pps(c, ppid(1, 0))}, post = {u_slice(0x21, 7, 0, 0), u_slice(0x34, 2, 0, 0), u_slice(0x65, 7, 1, 1)};
    for (size_t n = 1; n <= s.first.size(); ++n) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; auto us = pre; us.push_back(Bytes(s.first.begin(), s.first.begin() + n)); us.insert(us.end(), post.begin(), post.end()); seq(us, (s.second + " cut to").c_str(), (uint32_t)n, 0); }
    for (size_t b = 0; b < s.first.size() * 8; ++b) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; auto us = pre; Bytes x = s.first; x[b >> 3] ^= 0x80 >> (b & 7); us.push_back(x); us.insert(us.end(), post.begin(), post.end()); seq(us, (s.second + " bit flipped").c_str(), (uint32_t)b, 0); } }
}

// ------------------------------------------------------------------ C17
typedef std::vector<View> Result;  // one view per reported unit, then the session
static void v_unit(View& o, const ImplNal* n) { v_nal(o, n); if (n) { v_checksum(o, *n); o.s("parsed_length", n->parsed_length); } }
static Result result_of(const std::vector<const ImplNal*>& ns, const ImplSession& is) { Result r; for (auto n : ns) { View v; v_unit(v, n); r.push_back(v); } View s; v_session(s, is); r.push_back(s); return r; }
static void cmp_result(Ctx& c, const Result& want, const Result& got, const char* how) {
  if (want.size() != got.size()) c.fail("%s: %zu units, unit by unit gives %zu", how, got.size() - 1, want.size() - 1);
  for (size_t i = 0; i < want.size(); ++i) if (want[i] != got[i]) { if (i + 1 == want.size()) c.fail("%s: session differs from unit by unit: %s", how, want[i].diff(got[i]).c_str()); else c.fail("%s: unit %zu differs from unit by unit: %s", how, i + 1, want[i].diff(got[i]).c_str()); }
}
static bool annexb_safe(const Bytes& e) { if (e.empty() || e.back() == 0) return false; for (size_t i = 0; i + 2 < e.size(); ++i) if (e[i] == 0 && e[i + 1] == 0 && e[i + 2] <= 2) return false; return true; }
static void c17_seq(Ctx& c, const std::vector<Bytes>& us, const std::string& label, int widths) {
  std::vector<Bytes> es; for (auto& u : us) es.push_back(m::escape(u));
  if (!c.begin(cat(us), "%s", label.c_str())) return;
  c.add(C_STATES);
  H::ParsingOptions po; po.add_checksum = true;
  std::vector<std::unique_ptr<ImplNal>> keep; Result want;
  { ImplSession is; std::vector<const ImplNal*> ns; for (auto& e : es) { auto n = NP::ParseNalUnit(e.data(), e.size(), &is, po); if (n) { ns.push_back(n.get()); keep.push_back(std::move(n)); } } want = result_of(ns, is); }
  c.add(want.size() > 1 ? C_ACC : C_REJ);
  { ImplSession is; std::vector<const ImplNal*> ns; for (auto& u : us) { auto n = NP::ParseNalUnitUnescaped(u.data(), u.size(), &is, po); if (n) { ns.push_back(n.get()); keep.push_back(std::move(n)); } } cmp_result(c, want, result_of(ns, is), "unescaped"); c.add(C_TRANS); }
  auto stream = [&](BP::BitstreamState* b, const ImplSession& is, const char* how) { if (!b) c.fail("%s: no result", how); std::vector<const ImplNal*> ns; for (auto& n : b->nal_units) ns.push_back(n.get()); cmp_result(c, want, result_of(ns, is), how); c.add(C_TRANS); };
  auto own = [&](BP::BitstreamState* b, const char* how) { if (!b) c.fail("%s: no result", how); Result r; for (auto& n : b->nal_units) { View v; v_unit(v, n.get()); r.push_back(v); } r.push_back(want.back()); cmp_result(c, want, r, how); c.add(C_TRANS); };
  bool safe = true; for (auto& e : es) safe = safe && annexb_safe(e);
  if (safe) {
    size_t n = us.size();
    // which units get a four-byte start code: every choice for a short sequence, none or all for a long one
    const uint64_t masks = n > 12 ? 2 : 1ull << n;
    for (uint64_t mk = 0; mk < masks; ++mk) for (int lead = 0; lead < (mk == 0 ? 2 : 1); ++lead) { auto four = [&](size_t i) { return n > 12 ? mk == 1 : (mk >> i & 1) != 0; };
      Bytes b; if (lead) b.insert(b.end(), {0xff, 0x00, 0x02, 0x00}); for (size_t i = 0; i < n; ++i) { if (four(i)) b.push_back(0); b.insert(b.end(), {0, 0, 1}); b.insert(b.end(), es[i].begin(), es[i].end()); }
      ImplSession is; auto r = BP::ParseBitstream(b.data(), b.size(), &is, po); stream(r.get(), is, "Annex B");
      if (mk == 0) { auto r2 = BP::ParseBitstream(b.data(), b.size(), po); own(r2.get(), "Annex B, internal session"); }
      if (mk == 0 || mk + 1 == masks) for (size_t cut = 1; cut < n; cut += n > 12 ? n / 3 : 1) {  // two buffers, one session
        Bytes p, q; for (size_t i = 0; i < n; ++i) { Bytes& t = i < cut ? p : q; if (four(i)) t.push_back(0); t.insert(t.end(), {0, 0, 1}); t.insert(t.end(), es[i].begin(), es[i].end()); }
        ImplSession s2; auto r1 = BP::ParseBitstream(p.data(), p.size(), &s2, po), r2 = BP::ParseBitstream(q.data(), q.size(), &s2, po); std::vector<const ImplNal*> ns; for (auto& x : r1->nal_units) ns.push_back(x.get()); for (auto& x : r2->nal_units) ns.push_back(x.get());
        cmp_result(c, want, result_of(ns, s2), "Annex B, two buffers"); c.add(C_TRANS); } }
  }
  bool nonempty = true; size_t big = 0; for (auto& e : es) { nonempty = nonempty && !e.empty(); big = std::max(big, e.size()); }
  if (nonempty) for (int w = 1; w <= 8; ++w) { if (!(widths >> w & 1) || (w < 8 && (big >> (8 * w)))) continue;
    Bytes b; for (auto& e : es) { for (int k = w; k-- > 0;) b.push_back((uint8_t)((uint64_t)e.size() >> (8 * k))); b.insert(b.end(), e.begin(), e.end()); }
    ImplSession is; auto r = BP::ParseBitstreamNALULength(b.data(), b.size(), (size_t)w, &is, po); stream(r.get(), is, "length-prefixed");
    if (w == 4) { auto r2 = BP::ParseBitstreamNALULength(b.data(), b.size(), 4, po); own(r2.get(), "length-prefixed, internal session"); } }
  if (us.size() == 1 && nonempty) { ImplSession is; auto r = BP::ParseBitstreamNALULength(es[0].data(), es[0].size(), 0, &is, po); stream(r.get(), is, "width 0"); }
  bool rtp = true; for (auto& u : us) rtp = rtp && !u.empty() && (u[0] & 31) <= 23;
  if (rtp) {
    ImplSession is; std::vector<std::unique_ptr<H::H264RtpParser::RtpState>> ks; std::vector<View> vs; size_t k = 0;
    for (auto& e : es) { auto r = H::H264RtpParser::ParseRtp(e.data(), e.size(), &is); if (!r) continue; if (!r->rtp_single || !r->rtp_single->nal_unit_header || !r->rtp_single->nal_unit_payload) c.fail("RTP: single-unit packet without its unit");
      View v; v.open("nal_unit_header"); v_hdr(v, *r->rtp_single->nal_unit_header); v.close(); v.open("nal_unit_payload"); v_payload(v, *r->rtp_single->nal_unit_payload); v.close(); v.s("parsed", r->rtp_single->nal_unit_payload->IsPayloadParsed(r->rtp_single->nal_unit_header->nal_unit_type));
      vs.push_back(v); ks.push_back(std::move(r)); }
    if (vs.size() + 1 != want.size()) c.fail("RTP: %zu units, unit by unit gives %zu", vs.size(), want.size() - 1);
    for (auto& v : vs) { View w = want[k++]; w.e.resize(std::min(w.e.size(), v.e.size())); if (w != v) c.fail("RTP: unit %zu differs from unit by unit: %s", k, w.diff(v).c_str()); }
    View s; v_session(s, is); if (s != want.back()) c.fail("RTP: session differs from unit by unit: %s", want.back().diff(s).c_str()); c.add(C_TRANS);
  }
}
static void c17(Ctx& c) {
  std::vector<U> al = session_units(c, true);
  al.push_back({"escapes", Bytes{0x06, 0, 0, 3, 0, 0, 3, 0, 0, 0, 1, 0, 0, 1, 0x80}}); al.push_back({"one byte", Bytes{0x0c}}); al.push_back({"type 0", Bytes{0x00, 0x01}}); al.push_back({"type 24", Bytes{0x18, 0x01}}); al.push_back({"type 31", Bytes{0x7f, 0xff, 0x03}}); al.push_back({"forbidden bit", Bytes{0x87, 0x42, 0x00, 0x1e, 0x80}});
  uint64_t idx = 0; int n = (int)al.size();
  for (int i = 0; i < n; ++i) if (idx++ % c.nshards == (uint64_t)c.shard) c17_seq(c, {al[i].b}, al[i].name, 0x1fe);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (idx++ % c.nshards == (uint64_t)c.shard) c17_seq(c, {al[i].b, al[j].b}, al[i].name + ", " + al[j].name, 0x1fe);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (idx++ % c.nshards == (uint64_t)c.shard) c17_seq(c, {al[i].b, al[j].b, al[k].b}, al[i].name + ", " + al[j].name + ", " + al[k].name, 0x112 | 1 << (3 + (i + j) % 6));
  if (c.thorough) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) if (idx++ % c.nshards == (uint64_t)c.shard) c17_seq(c, {al[i].b, al[j].b, al[k].b, al[l].b}, al[i].name + ", " + al[j].name + ", " + al[k].name + ", " + al[l].name, 0x110);
  // longer sequences of units of different fates
  { std::vector<Bytes> fa{al[0].b, al[5].b, al[14].b, Bytes{0x09, 0xf0}, Bytes{0x67}, Bytes{0x0e}, Bytes{0x14, 0x01, 0x02}, Bytes{0x54, 0x80, 0x40, 0x02}}; uint64_t tot = 1; for (int k = 1; k <= (c.thorough ? 7 : 5); ++k) { tot *= fa.size(); if (k > 3) for (uint64_t x = 0; x < tot; ++x) if (idx++ % c.nshards == (uint64_t)c.shard) { std::vector<Bytes> us; uint64_t y = x; for (int i = 0; i < k; ++i) { us.push_back(fa[y % fa.size()]); y /= fa.size(); } c17_seq(c, us, "units of different fates", k > 5 ? 0x10 : 0x116); } } }
  for (auto& q : corpus(c, 1)) if (idx++ % c.nshards == (uint64_t)c.shard) c17_seq(c, q.units, q.name, 0x112);
  // long sequences: the alphabet over and over, in two orders, around powers of two
  for (int k : {5, 6, 7, 8, 9, 10, 12}) for (int d = -1; d <= 1; ++d) for (int step : {1, 7}) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    std::vector<Bytes> us; int N = (1 << k) + d; for (int i = 0; i < N; ++i) us.push_back(al[(size_t)i * step % n].b); c17_seq(c, us, "a sequence of " + std::to_string(N) + " units", 0x110); }
  // all short contents of a unit
  for (uint32_t f = 0; f < 256; ++f) for (uint32_t v = 0; v < 256; ++v) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; c17_seq(c, {Bytes{(uint8_t)f, (uint8_t)v}}, "two bytes", 0x112); for (uint8_t t : {0x80, 0x01, 0x03}) c17_seq(c, {Bytes{(uint8_t)f, (uint8_t)v, t}}, "three bytes", 0x112); }
  static const uint8_t es[] = {0, 1, 2, 3, 0xff}; int L = c.thorough ? 9 : 7; uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= 5;
  for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { Bytes b{0x09}; uint64_t y = x; for (int i = 0; i < L; ++i) { b.push_back(es[y % 5]); y /= 5; } if (b.back() == 0) continue; c17_seq(c, {b}, "escape patterns", 0x110); }
}

// ------------------------------------------------------------------ C18
typedef H::H264RtpParser::RtpState Rtp;
struct RtpModel {
  bool ok = false, soft = false, undef = false, leftover = false; m::NalHdr hdr; int kind = 3;  // 0 single 1 stapa 2 fua 3 header only
  std::vector<m::Nal> units; std::vector<size_t> sizes; uint32_t s = 0, e = 0, r = 0, t = 0; bool payload = false;
};
static RtpModel rtp_model(const Bytes& pk, m::Session& ms) {
  RtpModel o; Bytes raw = m::unescape(pk.data(), pk.size());
  bool stap = !pk.empty() && (pk[0] & 31) == 24; Dec d(raw.data(), raw.size());
  try { m::nalhdr(d, o.hdr); } catch (m::Reject&) { return o; }
  if (stap) {
    o.kind = 1; size_t i = 1;
    while (i < pk.size()) {
      if (pk.size() - i == 1) { if (o.units.empty()) return o; o.leftover = true; break; }
      size_t n = (size_t)pk[i] << 8 | pk[i + 1]; i += 2;
      if (n > pk.size() - i) return o;
      Bytes u = m::unescape(pk.data() + i, n); m::Nal x = m::dec_nal(u.data(), u.size(), ms);
      if (pk.size() - i - n == 1) o.leftover = true;
      if (!x.readable) return o;
      o.soft |= x.soft; o.undef |= x.undef; o.sizes.push_back(n); o.units.push_back(std::move(x)); i += n;
    }
    o.ok = true;
  } else if (o.hdr.nal_unit_type <= 23) { o.kind = 0; m::Nal x = m::dec_nal(raw.data(), raw.size(), ms); o.soft = x.soft; o.undef = x.undef; o.ok = x.readable; o.units.push_back(std::move(x)); }
  else if (o.hdr.nal_unit_type == 28) {
    o.kind = 2; if (raw.size() < 2) return o;
    o.s = raw[1] >> 7; o.e = raw[1] >> 6 & 1; o.r = raw[1] >> 5 & 1; o.t = raw[1] & 31; o.ok = true;
    if (o.s) { o.payload = true; m::Nal n; n.readable = true; n.hdr.nal_unit_type = o.t; n.hdr.nal_ref_idc = o.hdr.nal_ref_idc; Dec p(raw.data(), raw.size()); p.pos = 16;
      if (o.t == 14 || o.t == 20 || o.t == 21) o.undef = true;  // their header extension is not in the packet
      else m::dec_payload(p, n, ms);
      o.soft = n.soft; o.undef |= n.undef; o.units.push_back(std::move(n)); }
  } else o.ok = true;
  return o;
}
static void cmp_payload(Ctx& c, const m::Nal& x, const ImplPayload* p, uint32_t type, const char* what, size_t i) {
  if (!p) c.fail("%s: unit %zu without payload object", what, i);
  if (x.undef) return;
  bool ip = p->IsPayloadParsed(type); View a, b; v_payload(b, *p);
  if (x.soft && !ip) { if (!b.e.empty()) c.fail("%s: unparsed unit %zu carries elements", what, i); return; }
  if (ip != x.parsed) c.fail("%s: unit %zu (type %u) is reported as %s", what, i, type, ip ? "parsed although malformed" : "unparsed although well-formed");
  v_payload(a, x.p); if (a != b) c.fail("%s: unit %zu (type %u): %s", what, i, type, a.diff(b).c_str());
}
static void cmp_stapa(Ctx& c, const RtpModel& o, const H::H264RtpStapAParser::RtpStapAState* s, const char* what) {
  if (!s || !s->header) c.fail("%s: no aggregation packet", what);
  View a, b; v_hdr(a, o.hdr); v_hdr(b, *s->header); if (a != b) c.fail("%s: header: %s", what, a.diff(b).c_str());
  size_t n = o.units.size(); if (s->nal_unit_sizes.size() != n || s->nal_unit_headers.size() != n || s->nal_unit_payloads.size() != n) c.fail("%s: %zu sizes, %zu headers, %zu payloads, %zu units packed", what, s->nal_unit_sizes.size(), s->nal_unit_headers.size(), s->nal_unit_payloads.size(), n);
  for (size_t i = 0; i < n; ++i) {
    if (s->nal_unit_sizes[i] != o.sizes[i]) c.fail("%s: unit %zu size %zu, expected %zu", what, i, s->nal_unit_sizes[i], o.sizes[i]);
    if (o.leftover && i + 1 == n) continue;
    View x, y; v_hdr(x, o.units[i].hdr); if (!s->nal_unit_headers[i]) c.fail("%s: unit %zu without header", what, i); v_hdr(y, *s->nal_unit_headers[i]); if (x != y) c.fail("%s: unit %zu header: %s", what, i, x.diff(y).c_str());
    cmp_payload(c, o.units[i], s->nal_unit_payloads[i].get(), o.units[i].hdr.nal_unit_type, what, i);
  }
}
static void cmp_fua(Ctx& c, const RtpModel& o, const H::H264RtpFuAParser::RtpFuAState* f, const char* what) {
  if (!f || !f->header) c.fail("%s: no fragment", what);
  View a, b; v_hdr(a, o.hdr); v_hdr(b, *f->header); if (a != b) c.fail("%s: header: %s", what, a.diff(b).c_str());
  if (f->nal_ref_idc != o.hdr.nal_ref_idc || f->s_bit != o.s || f->e_bit != o.e || f->r_bit != o.r || f->fu_type != o.t) c.fail("%s: ref idc %u s %u e %u r %u type %u, expected %u %u %u %u %u", what, f->nal_ref_idc, f->s_bit, f->e_bit, f->r_bit, f->fu_type, o.hdr.nal_ref_idc, o.s, o.e, o.r, o.t);
  if (!o.payload && f->nal_unit_payload) c.fail("%s: payload parsed for a fragment that is not the first", what);
  if (o.payload) cmp_payload(c, o.units[0], f->nal_unit_payload.get(), o.t, what, 0);
}
static void c18_seq(Ctx& c, const std::vector<Bytes>& pks, const std::string& label, Guarded* g = nullptr) {
  Bytes all; for (auto& p : pks) { all.push_back((uint8_t)(p.size() >> 8)); all.push_back((uint8_t)p.size()); all.insert(all.end(), p.begin(), p.end()); }
  if (!c.begin(all, "%s (each packet preceded by its size)", label.c_str())) return;
  c.add(C_STATES);
  m::Session ms; ImplSession is; std::unique_ptr<ImplSession> alt(new ImplSession);
  for (size_t k = 0; k < pks.size(); ++k) {
    const Bytes& pk = pks[k]; c.add(C_TRANS); bool last = k + 1 == pks.size();
    RtpModel o = rtp_model(pk, ms); const uint8_t* d = g && pk.size() <= 4096 ? guarded_copy(*g, pk, true) : pk.data(); size_t n = pk.size();
    auto r = H::H264RtpParser::ParseRtp(d, n, &is);
    if (o.undef) { c.add(C_UNDEF); if (o.kind == 2 && o.ok) { if (!r || !r->rtp_fua) c.fail("packet %zu: fragment not reported", k + 1); RtpModel q; m::nalhdr(*std::make_unique<Dec>(pk.data(), 1), q.hdr); q.s = o.s; q.e = o.e; q.r = o.r; q.t = o.t; q.payload = false; if (r->rtp_fua->s_bit != o.s || r->rtp_fua->fu_type != o.t) c.fail("packet %zu: fragment header", k + 1); } return; }
    if (last) { if (!o.ok) c.add(C_REJ); else if (o.soft) c.add(C_SOFT); else c.add(C_ACC); }
    if ((r != nullptr) != o.ok && !o.leftover) c.fail("packet %zu is %s", k + 1, r ? "accepted although its header or sizes run past its data" : "rejected");
    if (r && o.ok) {
      View a, b; v_hdr(a, o.hdr); if (!r->nal_unit_header) c.fail("packet without header"); v_hdr(b, *r->nal_unit_header); if (a != b) c.fail("packet %zu header: %s", k + 1, a.diff(b).c_str());
      if ((r->rtp_single != nullptr) != (o.kind == 0) || (r->rtp_stapa != nullptr) != (o.kind == 1) || (r->rtp_fua != nullptr) != (o.kind == 2)) c.fail("packet %zu reported as the wrong kind of packet", k + 1);
      if (o.kind == 0) { View x, y; if (!r->rtp_single->nal_unit_header) c.fail("single without header"); v_hdr(x, o.hdr); v_hdr(y, *r->rtp_single->nal_unit_header); if (x != y) c.fail("packet %zu: %s", k + 1, x.diff(y).c_str()); cmp_payload(c, o.units[0], r->rtp_single->nal_unit_payload.get(), o.hdr.nal_unit_type, "single", 0); }
      if (o.kind == 1) cmp_stapa(c, o, r->rtp_stapa.get(), "STAP-A");
      if (o.kind == 2) cmp_fua(c, o, r->rtp_fua.get(), "FU-A");
    }
    if (o.leftover || o.soft) return;
    View a, b; v_session(a, ms); v_session(b, is); if (a != b) c.fail("session after packet %zu: %s", k + 1, a.diff(b).c_str());
    // the kind-specific entry points, on a session of their own with the same history
    if (o.kind == 1) { auto q = H::H264RtpStapAParser::ParseRtpStapA(d, n, alt.get()); if ((q != nullptr) != o.ok) c.fail("ParseRtpStapA: packet %zu is %s", k + 1, q ? "accepted" : "rejected"); if (q) cmp_stapa(c, o, q.get(), "ParseRtpStapA"); }
    else if (o.kind == 2) { auto q = H::H264RtpFuAParser::ParseRtpFuA(d, n, o.hdr.nal_ref_idc, alt.get()); if ((q != nullptr) != o.ok) c.fail("ParseRtpFuA: packet %zu is %s", k + 1, q ? "accepted" : "rejected"); if (q) cmp_fua(c, o, q.get(), "ParseRtpFuA"); }
    else if (o.kind == 0) { auto q = H::H264RtpSingleParser::ParseRtpSingle(d, n, alt.get()); if ((q != nullptr) != o.ok) c.fail("ParseRtpSingle: packet %zu is %s", k + 1, q ? "accepted" : "rejected"); if (q) cmp_payload(c, o.units[0], q->nal_unit_payload.get(), o.hdr.nal_unit_type, "ParseRtpSingle", 0); }
    else H::H264RtpParser::ParseRtp(d, n, alt.get());
    View e; v_session(e, *alt); if (a != e) c.fail("session after packet %zu (kind-specific entry): %s", k + 1, a.diff(e).c_str());
  }
}
static Bytes stapa(const std::vector<Bytes>& us, uint8_t hdr = 0x78) { Bytes b{hdr}; for (auto& u : us) { Bytes e = m::escape(u); b.push_back((uint8_t)(e.size() >> 8)); b.push_back((uint8_t)e.size()); b.insert(b.end(), e.begin(), e.end()); } return b; }
static Bytes fua(uint8_t ind, uint8_t fu, const Bytes& u) { Bytes e = m::escape(Bytes(u.begin() + 1, u.end())); Bytes b{ind, fu}; b.insert(b.end(), e.begin(), e.end()); return b; }
static void c18(Ctx& c) {
  Guarded g; uint64_t idx = 0; std::vector<U> al = session_units(c, false); int n = (int)al.size();
  al.push_back({"escapes", Bytes{0x06, 0, 0, 3, 0, 0, 3, 0, 0, 0, 1, 0, 0, 1, 0x80}}); al.push_back({"one byte", Bytes{0x0c}}); al.push_back({"sps0 escaped", u_sps(c, kB + Fix{{"level_idc", 0}, {"profile_idc", 0}})}); n = (int)al.size();
  Bytes s0 = u_sps(c, kA), p0 = u_pps(c, ppid(0, 0)), x0 = u_sub(c, kA); Bytes init = stapa({s0, x0, p0});
  auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  // aggregation of up to 3 (4) units in every order, followed by slices on their own
  Bytes sl = u_slice(0x21, 5, 0, 0);
  for (int i = 0; i < n; ++i) { if (mine()) c18_seq(c, {init, al[i].b}, "single " + al[i].name, &g); if (mine()) c18_seq(c, {stapa({al[i].b}), sl}, "STAP-A of " + al[i].name, &g); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!mine()) continue; std::string nm = al[i].name + ", " + al[j].name;
    c18_seq(c, {stapa({al[i].b, al[j].b}), sl}, "STAP-A of " + nm, &g); c18_seq(c, {init, stapa({al[i].b, al[j].b}), sl}, "STAP-A in a session of " + nm, &g); c18_seq(c, {m::escape(al[i].b), m::escape(al[j].b)}, "singles " + nm, &g);
    c18_seq(c, {stapa({al[i].b}), stapa({al[j].b}), sl}, "two STAP-A: " + nm, &g); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { if (!mine()) continue; std::string nm = al[i].name + ", " + al[j].name + ", " + al[k].name; c18_seq(c, {stapa({al[i].b, al[j].b, al[k].b})}, "STAP-A of " + nm); c18_seq(c, {init, stapa({al[i].b, al[j].b, al[k].b}), sl}, "STAP-A in a session of " + nm); }
  // the reference idc of the packet and of each unit in it differ
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { if (!mine()) continue; std::vector<Bytes> us{al[i].b, al[j].b, al[k].b}; int r = i + 2 * j + 3 * k; for (size_t q = 0; q < 3; ++q) us[q][0] = (uint8_t)((us[q][0] & 0x9f) | ((r >> q) % 4) << 5); c18_seq(c, {init, stapa(us, (uint8_t)(24 | (i + j + k + 1) % 4 << 5)), sl}, "STAP-A with mixed reference idcs"); }
  if (c.thorough) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) { if (!mine()) continue; c18_seq(c, {stapa({al[i].b, al[j].b, al[k].b, al[l].b})}, "STAP-A of four"); }
  // every size field value around the true one, every truncation, every header byte
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!mine()) continue; Bytes b = stapa({al[i].b, al[j].b}); size_t e0 = m::escape(al[i].b).size();
    for (size_t cut = 0; cut < b.size(); ++cut) c18_seq(c, {init, Bytes(b.begin(), b.begin() + cut), sl}, "STAP-A cut", &g);
    for (int which = 0; which < 2; ++which) { size_t at = which ? 3 + e0 : 1; size_t tv = (size_t)b[at] << 8 | b[at + 1]; std::vector<size_t> vs; for (size_t v = 0; v <= tv + 6; ++v) vs.push_back(v); for (size_t v : {255u, 256u, 257u, 0x7fffu, 0x8000u, 0xfffeu, 0xffffu}) vs.push_back(v); for (size_t k = 0; k < 16; ++k) vs.push_back(tv ^ (1u << k));
      for (size_t v : vs) { Bytes x = b; x[at] = (uint8_t)(v >> 8); x[at + 1] = (uint8_t)v; c18_seq(c, {init, x, sl}, "STAP-A size field", &g); } }
    for (int h = 0; h < 8; ++h) { Bytes x = b; x[0] = (uint8_t)(h << 5 | 24); c18_seq(c, {init, x}, "STAP-A header", &g); } }
  // units larger than 255 and up to the 16-bit limit
  for (size_t L : {254u, 255u, 256u, 257u, 511u, 512u, 4095u, 32767u, 32768u, 65534u, 65535u}) for (int after = 0; after < 2; ++after) { if (!mine()) continue; Bytes big{0x0c}; while (big.size() < L) big.push_back((uint8_t)(big.size() % 200 + 4)); std::vector<Bytes> us = {s0, big}; if (after) us.push_back(p0); c18_seq(c, {stapa(us), sl}, "STAP-A with a large unit"); if (L > 60000) continue; Bytes bs = sl; while (bs.size() < L) bs.push_back(0x5a); c18_seq(c, {init, stapa({bs, u_pps(c, ppid(1, 0))}), bs}, "STAP-A with a long slice"); }
  // aggregation of many units
  for (int k : {5, 16, 64, 255, 256, 300}) { if (!mine()) continue; std::vector<Bytes> us{s0}; for (int i = 0; i < k; ++i) us.push_back(u_pps(c, ppid(i % 256, 0))); c18_seq(c, {stapa(us), sl}, "STAP-A of many units"); }
  // fragments: every indicator ref idc, every second byte, a set of contents, all truncations of the contents
  for (int ind = 0; ind < 8; ++ind) for (int fu = 0; fu < 256; ++fu) { if (!mine()) continue;
    for (int i = 0; i < n; ++i) { if (al[i].b.size() < 2) continue; if (!c.thorough && (fu & 31) != (al[i].b[0] & 31) && i % 4) continue; Bytes b = fua((uint8_t)(ind << 5 | 28), (uint8_t)fu, al[i].b); c18_seq(c, {init, b, sl}, "FU-A of " + al[i].name, &g); if ((ind == 3 || ind == 0) && (fu & 31) == (al[i].b[0] & 31)) for (size_t cut = 0; cut < b.size(); ++cut) c18_seq(c, {init, Bytes(b.begin(), b.begin() + cut)}, "FU-A cut", &g); } }
  // complete fragmentation of a set: start, middles, end; nothing but the start fragment matters
  for (auto* u : {&s0, &p0, &x0, &sl}) for (size_t a = 2; a + 1 < u->size(); ++a) { if (!mine()) continue; uint8_t t = (*u)[0] & 31, ind = (uint8_t)(((*u)[0] & 0xe0) | 28); if (t == 20) continue; Bytes e = m::escape(*u); if (a >= e.size()) continue; Bytes f1{ind, (uint8_t)(0x80 | t)}, f2{ind, (uint8_t)(0x40 | t)}; f1.insert(f1.end(), e.begin() + 1, e.begin() + a); f2.insert(f2.end(), e.begin() + a, e.end()); c18_seq(c, {init, f1, f2, sl}, "fragmented unit", &g); }
  // packets of other kinds and all short packets
  for (uint32_t v = 0; v < 256; ++v) { if (!mine()) continue; c18_seq(c, {init, Bytes{(uint8_t)v}}, "one-byte packet", &g); for (uint32_t w = 0; w < 256; ++w) { c18_seq(c, {init, Bytes{(uint8_t)v, (uint8_t)w}}, "two-byte packet", &g); for (uint8_t t : {0x00, 0x01, 0x80, 0x67, 0xff}) c18_seq(c, {init, Bytes{(uint8_t)v, (uint8_t)w, t}}, "three-byte packet", &g); } }
  if (mine()) c18_seq(c, {init, Bytes{}}, "empty packet", &g);
  static const uint8_t ws[] = {0, 1, 2, 3, 0x67, 0x09}; int L = c.thorough ? 9 : 7; uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= 6;
  for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { Bytes b{0x78}; uint64_t y = x; for (int i = 0; i < L; ++i) { b.push_back(ws[y % 6]); y /= 6; } c18_seq(c, {b}, "STAP-A bytes", &g); }
  for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { if (!c.thorough && x % 4 != (uint64_t)c.shard % 4) continue; Bytes b{0x7c, 0x87}; uint64_t y = x; for (int i = 0; i < L; ++i) { b.push_back(ws[y % 6]); y /= 6; } c18_seq(c, {b}, "FU-A bytes", &g); }
  for (auto& q : corpus(c, c.thorough ? 1 : 0)) { if (!mine()) continue; size_t tot2 = 0; for (auto& u : q.units) tot2 += u.size(); if (tot2 > 60000) continue; c18_seq(c, {stapa(q.units)}, "STAP-A " + q.name); c18_seq(c, [&] { std::vector<Bytes> v; for (auto& u : q.units) v.push_back(m::escape(u)); return v; }(), "singles " + q.name);
    Bytes l = q.units.back(); uint32_t t = l[0] & 31; if (t != 14 && t != 20) { std::vector<Bytes> v; for (size_t i = 0; i + 1 < q.units.size(); ++i) v.push_back(m::escape(q.units[i])); v.push_back(fua((uint8_t)((l[0] & 0xe0) | 28), (uint8_t)(0x80 | t), l)); c18_seq(c, v, "FU-A " + q.name); } }
}

// ------------------------------------------------------------------ C21
static void c21_unit(Ctx& c, const ImplNal& n, const Bytes& raw, const m::Nal& x, size_t off, size_t len, const H::ParsingOptions& po, const char* how) {
  if (n.offset != off || n.length != len) c.fail("%s: offset %zu length %zu, expected %zu %zu", how, n.offset, n.length, off, len);
  if (x.parsed && !x.undef && !(x.soft && !impl_parsed(n)) && x.supported && n.parsed_length != (x.bits + 7) / 8) c.fail("%s: parsed length %zu, expected %llu (type %u)", how, n.parsed_length, (unsigned long long)(x.bits + 7) / 8, x.hdr.nal_unit_type);
  if (n.parsed_length > raw.size()) c.fail("%s: parsed length %zu of %zu bytes", how, n.parsed_length, raw.size());
  { uint32_t t = x.hdr.nal_unit_type; size_t least = t == 14 || t == 20 ? 4 : 1; if (!x.undef && t != 21 && n.parsed_length < least) c.fail("%s: parsed length %zu, but the header alone takes %zu bytes", how, n.parsed_length, least); }
  if (!po.add_checksum) { return; }
  if (!n.checksum) c.fail("%s: no checksum", how);
  char e[16]; snprintf(e, sizeof e, "%08x", m::checksum(raw.data(), raw.size())); std::string p = n.checksum->GetPrintableChecksum();
  if (p != e) c.fail("%s: checksum %s, expected %s", how, p.c_str(), e);
}
static H::ParsingOptions opts(int k) { H::ParsingOptions po; po.add_offset = k & 1; po.add_length = k >> 1 & 1; po.add_parsed_length = k >> 2 & 1; po.add_checksum = k >> 3 & 1; po.add_resolution = k >> 4 & 1; return po; }
// framing: 0 Annex B 3-byte, 1 Annex B 4-byte, 2.. length width-1
static void c21_stream(Ctx& c, const std::vector<Bytes>& us, const std::string& label, int framing, size_t lead, size_t trail, int optmask) {
  std::vector<Bytes> es; for (auto& u : us) es.push_back(m::escape(u));
  bool annexb = framing < 2; if (annexb) for (auto& e : es) if (!annexb_safe(e)) return;
  Bytes b; std::vector<size_t> off, len; int w = framing - 1; if (!annexb) { lead = 0; trail = 0; for (auto& e : es) if (e.empty() || (w < 8 && (e.size() >> (8 * w)))) return; }
  for (size_t i = 0; i < lead; ++i) b.push_back((uint8_t)(i % 3 ? 0x00 : 0x55)); if (lead && annexb && framing == 0) b.back() = 0x7f;
  for (auto& e : es) { if (annexb) { if (framing == 1) b.push_back(0); b.insert(b.end(), {0, 0, 1}); } else for (int k = w; k-- > 0;) b.push_back((uint8_t)((uint64_t)e.size() >> (8 * k))); off.push_back(b.size()); len.push_back(e.size()); b.insert(b.end(), e.begin(), e.end()); }
  for (size_t i = 0; i < trail; ++i) b.push_back(0); if (trail && !es.empty()) len.back() += trail;
  if (!c.begin(b, "%s, framing %d lead %zu trailing zeros %zu", label.c_str(), framing, lead, trail)) return;
  c.add(C_STATES);
  m::Session ms; std::vector<m::Nal> xs; std::vector<Bytes> raws; for (size_t i = 0; i < us.size(); ++i) { Bytes raw = m::unescape(b.data() + off[i], len[i]); xs.push_back(m::dec_nal(raw.data(), raw.size(), ms)); raws.push_back(raw); }
  Result first; std::string dump; bool have = false;
  for (int k = 0; k < 32; ++k) { if (k != 31 && !(optmask >> k & 1)) continue;
    H::ParsingOptions po = opts(k); ImplSession is; auto r = annexb ? BP::ParseBitstream(b.data(), b.size(), &is, po) : BP::ParseBitstreamNALULength(b.data(), b.size(), (size_t)w, &is, po);
    if (!r) c.fail("no result"); c.add(C_TRANS); size_t q = 0; Result res;
    for (size_t i = 0; i < us.size(); ++i) { if (!xs[i].readable) continue; if (q >= r->nal_units.size()) c.fail("unit %zu not reported", i + 1); auto& n = *r->nal_units[q++]; c21_unit(c, n, raws[i], xs[i], off[i], len[i], po, "unit"); View v; v_nal(v, &n); v.s("parsed_length", n.parsed_length); res.push_back(v); }
    if (q != r->nal_units.size()) c.fail("%zu units reported, %zu expected", r->nal_units.size(), q);
    View s; v_session(s, is); res.push_back(s);
    if (!have) { first = res; have = true; } else if (first != res) { for (size_t i = 0; i < res.size(); ++i) if (first[i] != res[i]) c.fail("options %d change unit %zu: %s", k, i + 1, first[i].diff(res[i]).c_str()); }
  }
}
static void c21(Ctx& c) {
  uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  std::vector<U> al = session_units(c, true); al.push_back({"escapes", Bytes{0x06, 0, 0, 3, 0, 0, 3, 0, 0, 0, 1, 0, 0, 1, 0x80}}); al.push_back({"one byte", Bytes{0x0c}}); int n = (int)al.size();
  for (int i = 0; i < n; ++i) for (int fr = 0; fr < 10; ++fr) for (size_t lead = 0; lead <= 5; ++lead) for (size_t tr = 0; tr <= 3; ++tr) if (mine()) c21_stream(c, {al[i].b}, al[i].name, fr, lead, tr, -1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int fr = 0; fr < 10; ++fr) if (mine()) c21_stream(c, {al[i].b, al[j].b}, al[i].name + ", " + al[j].name, fr, (i + j) % 6, (i * j) % 4, -1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (mine()) c21_stream(c, {al[i].b, al[j].b, al[k].b}, al[i].name + ", " + al[j].name + ", " + al[k].name, (i + j + k) % 10, i % 5, k % 4, 0);
  for (auto& q : corpus(c, 1)) for (int fr : {0, 5}) if (mine()) c21_stream(c, q.units, q.name, fr, 0, 0, c.thorough ? -1 : 1 << 7 | 1 << 23);
  if (c.thorough) for (auto& q : corpus(c, 2)) if (mine()) c21_stream(c, q.units, q.name, 1, 0, 0, 0);
  // offsets and lengths around powers of two: many leading bytes, a long unit, trailing zeros, many units
  for (int k : {6, 7, 8, 12, 15, 16, 17, 20, 24}) for (int d = -2; d <= 2; ++d) for (int fr = 0; fr < 10; ++fr) { if (k >= 20 && (d < -1 || d > 1 || (fr != 0 && fr != 1 && fr != 4 && fr != 5))) continue; if (!mine()) continue;
    size_t N = ((size_t)1 << k) + d; std::vector<Bytes> few{al[0].b, al[1].b, al[2].b}; const int om = k >= 20 ? 1 << 4 : 1 << 1 | 1 << 4 | 1 << 7;
    if (fr < 2) { c21_stream(c, few, "many leading bytes", fr, N, 0, om); c21_stream(c, few, "many trailing zeros", fr, 1, N, om); }
    Bytes u{0x0c}; for (size_t i = 1; i < N; ++i) u.push_back((uint8_t)(i % 251 + 4)); c21_stream(c, {al[0].b, u, al[1].b, al[2].b}, "a long unit", fr, 0, 0, om);
    if (k <= 12) { std::vector<Bytes> us; for (size_t i = 0; i < N; ++i) us.push_back(al[i % n].b); c21_stream(c, us, "many units", fr, 0, 0, 0); us.clear(); for (size_t i = 0; i < N; ++i) us.push_back({0x09, (uint8_t)(0x10 + i % 8 * 0x20)}); c21_stream(c, us, "many units", fr, 0, 0, 1 << 7); } }
  // checksum: all contents over a small alphabet, alignment of the length, carries
  auto sum = [&](const Bytes& raw, const char* what) { if (!c.begin(raw, "checksum, %s", what)) return; c.add(C_STATES); c.add(C_TRANS);
    H::BitBuffer bb(raw.data(), raw.size()); auto k = H::NaluChecksum::GetNaluChecksum(&bb); if (!k) c.fail("no checksum"); char e[16]; snprintf(e, sizeof e, "%08x", m::checksum(raw.data(), raw.size())); if (k->GetPrintableChecksum() != e) c.fail("checksum %s, expected %s", k->GetPrintableChecksum().c_str(), e);
    char o[64]; memset(o, 1, sizeof o); k->fdump(o, sizeof o); if (strncmp(o, e, 9)) c.fail("dumped checksum %.16s, expected %s", o, e); if (k->GetLength() != 4) c.fail("checksum length %d", k->GetLength());
    size_t a, bt; bb.GetCurrentOffset(&a, &bt); if (a || bt) c.fail("computing the checksum moves the reader to %zu.%zu", a, bt); 
    for (int n = 1; n <= 12; ++n) if (n != 2) {          // the longest whole-byte prefix that fits, terminated, and nothing beyond the buffer
      memset(o, 0x7e, sizeof o); k->fdump(o, n); size_t keep = n > 8 ? 8 : (size_t)(n - 1) / 2 * 2; if (strnlen(o, n) != keep || memcmp(o, e, keep)) c.fail("checksum dumped into %d bytes is %.12s", n, o);
      for (size_t i = (size_t)n; i < sizeof o; ++i) if (o[i] != 0x7e) c.fail("dumping the checksum into %d bytes writes byte %zu", n, i); }
    // from every bit position: the whole bytes that remain from there on
    if (raw.size() <= 5 || raw.size() == 37) for (size_t at = 0; at <= raw.size() * 8; ++at) {
      Bytes sh; for (size_t p = at; p + 8 <= raw.size() * 8; p += 8) { int v = 0; for (int j = 0; j < 8; ++j) v = v << 1 | (raw[(p + j) >> 3] >> (7 - ((p + j) & 7)) & 1); sh.push_back((uint8_t)v); }
      H::BitBuffer b2(raw.data(), raw.size()); if (at && !b2.Seek(at >> 3, at & 7)) continue;
      auto k2 = H::NaluChecksum::GetNaluChecksum(&b2); if (!k2) c.fail("no checksum from bit %zu", at); char e2[16]; snprintf(e2, sizeof e2, "%08x", m::checksum(sh.data(), sh.size())); if (k2->GetPrintableChecksum() != e2) c.fail("checksum from bit %zu is %s, expected %s", at, k2->GetPrintableChecksum().c_str(), e2);
      b2.GetCurrentOffset(&a, &bt); if (a * 8 + bt != at) c.fail("computing the checksum moves the reader from bit %zu to %zu", at, a * 8 + bt); } };
  Bytes al4{0x00, 0x01, 0x80, 0xff};
  for (size_t L = 0; L <= (c.thorough ? 11u : 9u); ++L) { uint64_t tot = 1; for (size_t i = 0; i < L; ++i) tot *= 4; for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { Bytes b; uint64_t y = x; for (size_t i = 0; i < L; ++i) { b.push_back(al4[y % 4]); y /= 4; } sum(b, "bytes over {00,01,80,ff}"); } }
  for (size_t L = 0; L <= 300; ++L) for (int f = 0; f < 5; ++f) { if (!mine()) continue; Bytes b; for (size_t i = 0; i < L; ++i) b.push_back(f == 0 ? 0xff : f == 1 ? 0x80 : f == 2 ? (uint8_t)(i * 37 + 11) : f == 3 ? (i & 3 ? 0 : 0xff) : (uint8_t)(i % 4 == 3 ? 0xff : 0)); sum(b, "long");
    for (size_t p = 0; p < L && L <= 40; ++p) for (int v : {0, 1, 0x7f, 0x80, 0xff}) { Bytes q = b; q[p] = (uint8_t)v; sum(q, "long, one byte replaced"); } }
  for (size_t L : {4095u, 4096u, 4097u, 65535u, 65536u, 65537u}) if (mine()) { Bytes b; for (size_t i = 0; i < L; ++i) b.push_back((uint8_t)(0xff - i % 7)); sum(b, "large"); }
}

#if defined(RUN_ALL) || defined(RUN_C14)
static Reg rC14(Check{"C14", c14, "model_checking", "breadth-first over all reachable session states of 26- and 39-unit alphabets (every transition replayed on the code; for the smaller one every revisiting transition followed by every unit), all unmerged histories of 4 units, sets of every structure (and every one-deviation unit) among sets of the same ids of the other kinds, in half of the histories with all results and references to the sets kept by the caller, all 32^2 SPS, 32^2 subset SPS and 256^2 PPS id pairs, six triples per pair of SPS and subset SPS ids, all ids held at once with one replaced, every cut and bit flip of a replacing set", "histories of 5 units, revisiting transitions in the larger alphabet", "unit results, the whole session and pointer identity of untouched sets after each transition", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C17)
static Reg rC17(Check{"C17", c17, "model_checking", "all sequences of up to 3 units over 45 units, of 4 and 5 units over 8 of different fates, every baseline and one-deviation unit with its sets, all 2-byte (and 3 x 3-byte) units, all 7-byte escape patterns; framings: every mix of 3/4-byte start codes, leading bytes, prefix widths 1..8 and 0, unescaped, RTP single, every split over two buffers; sequences of up to 4097 units", "sequences of 4, 9-byte escape patterns", "all framings of one sequence must give the same views, checksums, parsed lengths and session", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C18)
static Reg rC18(Check{"C18", c18, "model_checking", "single, STAP-A of up to 3 units (also with differing reference idcs), pairs of STAP-A over 29 units in two initial sessions; every truncation, every size value up to 6 beyond the true one and single-bit changes of it; large units; FU-A with all 8 indicator and 256 fragment headers and truncations; complete fragmentations; all 1- and 2-byte packets, 7-byte bodies over 6 values", "STAP-A of 4, 9-byte bodies, all contents for every FU-A header", "packet, units and session against a packet model; ParseRtp and the kind-specific entry points", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C21)
static Reg rC21(Check{"C21", c21, "model_checking", "checksum printed into buffers of 1..12 bytes and taken from every bit position; streams of up to 3 units over 41 units x 10 framings x leading bytes x trailing zeros x 32 option combinations; leading bytes, unit lengths, trailing zeros around powers of two up to 2^24, up to 4098 units; every baseline and one-deviation unit; checksum of all strings up to 9 bytes over 4 values, lengths 0..300 in 5 fillings with single replacements", "two-deviation corpus, 11-byte strings", "offset, length, parsed length, checksum of every unit; all options give the same units and session", {}});
#endif
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
