// C01 Annex B splitting, C02 length-prefixed splitting, C03 emulation prevention.
#define MC_LIB
#include "mc_syntax.cc"
#include "guard.h"

typedef H::H264BitstreamParser BP;
struct Unit { size_t start, pay, size; };

// ---------------------------------------------------------------- references
// Annex B, straight from the statement: positions of 00 00 01 with a byte after them.
static std::vector<Unit> ref_annexb(const uint8_t* d, size_t n) {
  std::vector<Unit> v;
  for (size_t i = 0; i + 3 < n; ++i) if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) { size_t s = i; if (i > 0 && d[i - 1] == 0) --s; v.push_back({s, i + 3, 0}); }
  for (size_t i = 0; i < v.size(); ++i) v[i].size = (i + 1 < v.size() ? v[i + 1].start : n) - v[i].pay;
  return v;
}
static std::vector<Unit> ref_length(const uint8_t* d, size_t n, size_t w, bool zero_ok) {
  std::vector<Unit> v; size_t i = 0;
  if (w == 0) { if (n) v.push_back({0, 0, n}); return v; }
  while (n - i >= w && i < n) {
    unsigned __int128 s = 0; for (size_t k = 0; k < w; ++k) s = s << 8 | d[i + k];
    if ((s == 0 && !zero_ok) || s > (unsigned __int128)(n - i - w)) break;
    v.push_back({i, i + w, (size_t)s}); i += w + (size_t)s;
  }
  return v;
}
static std::string list(const std::vector<Unit>& v) { std::string s; for (auto& u : v) { char b[80]; snprintf(b, sizeof b, "[%zu %zu+%zu]", u.start, u.pay, u.size); s += b; } return s; }
static void cmp_index(Ctx& c, const std::vector<Unit>& want, const std::vector<BP::NaluIndex>& got, const char* f) {
  bool ok = want.size() == got.size(); for (size_t i = 0; ok && i < want.size(); ++i) ok = want[i].start == got[i].start_offset && want[i].pay == got[i].payload_start_offset && want[i].size == got[i].payload_size;
  if (ok) return; std::vector<Unit> g; for (auto& x : got) g.push_back({x.start_offset, x.payload_start_offset, x.payload_size});
  c.fail("%s: %s, expected %s", f, list(g).substr(0, 1500).c_str(), list(want).substr(0, 1500).c_str());
}
// Units with a readable header, each with its place, header and contents (by checksum).
static void cmp_stream(Ctx& c, const uint8_t* d, const std::vector<Unit>& want, const BP::BitstreamState* got, const char* f) {
  if (!got) c.fail("%s gave no result", f);
  size_t k = 0;
  for (auto& u : want) {
    Bytes raw = m::unescape(d + u.pay, u.size); m::NalHdr h; bool readable = true;
    try { Dec dd(raw.data(), raw.size()); m::nalhdr(dd, h); } catch (m::Reject&) { readable = false; }
    if (!readable) continue;
    if (k >= got->nal_units.size()) c.fail("%s: unit at %zu+%zu is missing (%zu units reported)", f, u.pay, u.size, got->nal_units.size());
    auto& n = *got->nal_units[k++];
    if (n.offset != u.pay || n.length != u.size) c.fail("%s: unit %zu reported at %zu+%zu, expected %zu+%zu", f, k, n.offset, n.length, u.pay, u.size);
    View a, b; v_hdr(a, h); v_hdr(b, *n.nal_unit_header); if (a != b) c.fail("%s: unit %zu header: %s", f, k, a.diff(b).c_str());
    View v; v_checksum(v, n); if (v.e.empty() || (uint32_t)v.e[0].v != m::checksum(raw.data(), raw.size())) c.fail("%s: unit %zu was not parsed from its own bytes (checksum)", f, k);
  }
  if (k != got->nal_units.size()) c.fail("%s: %zu units reported, %zu expected", f, got->nal_units.size(), k);
}
static H::ParsingOptions with_checksum() { H::ParsingOptions po; po.add_checksum = true; return po; }

// ---------------------------------------------------------------- C01
static void c01_one(Ctx& c, Guarded& g, const Bytes& b, bool parse, const char* label) {
  if (!c.begin(b, "%s", label)) return;
  c.add(C_STATES); uint8_t* p = guarded_copy(g, b, true);
  auto want = ref_annexb(b.data(), b.size()); c.add(C_TRANS, 1 + want.size()); c.add(want.empty() ? C_REJ : C_ACC);
  cmp_index(c, want, BP::FindNaluIndices(p, b.size()), "FindNaluIndices");
  if (parse) { ImplSession is; auto r = BP::ParseBitstream(p, b.size(), &is, with_checksum()); cmp_stream(c, b.data(), want, r.get(), "ParseBitstream"); }
}
template <class F> static void strings(Ctx& c, const Bytes& al, size_t lo, size_t hi, F f) {
  for (size_t n = lo; n <= hi; ++n) {
    uint64_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= al.size();
    for (uint64_t x = (uint64_t)c.shard; x < tot; x += (uint64_t)c.nshards) { Bytes b(n); uint64_t y = x; for (size_t i = 0; i < n; ++i) { b[i] = al[y % al.size()]; y /= al.size(); } f(b); }
  }
}
// every sequence of up to n units of different fates: parsed, without payload, payload broken, header broken, not implemented
template <class F> static void fates(Ctx& c, size_t n, F f) {
  static const std::vector<Bytes> al{{0x09, 0xf0}, {0x67}, {0x0e}, {0x14, 0x01, 0x02}, {0x06, 0x05, 0x01, 0x80}, {0x54, 0x80, 0x40}, {0x15, 0x41, 0x42, 0x80}};
  uint64_t tot = 1; for (size_t k = 1; k <= n; ++k) { tot *= al.size(); for (uint64_t x = (uint64_t)c.shard; x < tot; x += (uint64_t)c.nshards) { std::vector<Bytes> us; uint64_t y = x; for (size_t i = 0; i < k; ++i) { us.push_back(al[y % al.size()]); y /= al.size(); } f(us, x / c.nshards); } }
}
static void c01(Ctx& c) {
  Guarded g; const bool T = true, D = c.thorough;
  strings(c, {0, 1, 0xff}, 0, D ? 17 : 15, [&](const Bytes& b) { c01_one(c, g, b, b.size() <= (D ? 15u : 14u), "bytes over {00,01,ff}"); });
  strings(c, {0, 1, 2, 3, 0x67}, 0, D ? 12 : 10, [&](const Bytes& b) { c01_one(c, g, b, true, "bytes over {00,01,02,03,67}"); });
  strings(c, {0, 1}, 14, D ? 26 : 22, [&](const Bytes& b) { c01_one(c, g, b, false, "bytes over {00,01}"); });
  fates(c, D ? 7 : 6, [&](const std::vector<Bytes>& us, uint64_t x) { Bytes b; for (size_t i = 0; i < us.size(); ++i) { if (x >> i & 1) b.push_back(0); b.insert(b.end(), {0, 0, 1}); b.insert(b.end(), us[i].begin(), us[i].end()); } c01_one(c, g, b, true, "units of different fates"); });
  // every byte value at every place around a start code
  uint64_t idx = 0;
  for (int pos = 0; pos < 9; ++pos) for (int v = 0; v < 256; ++v) for (int v2 = 0; v2 < (T ? 256 : 6); ++v2) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    for (Bytes b : {Bytes{0xff, 0x42, 0, 0, 1, 0x67, 0xaa, 0xbb, 0xcc}, Bytes{0, 0, 0, 1, 9, 0, 0, 1, 9}, Bytes{0, 0, 1, 0, 0, 1, 0, 0, 1}}) { static const uint8_t few[] = {0, 1, 2, 3, 0x80, 0xff}; b[pos] = (uint8_t)v; b[(pos + 1) % 9] = T ? (uint8_t)v2 : few[v2]; c01_one(c, g, b, true, "two bytes of a pattern replaced"); } }
  // two start codes at every pair of places in longer buffers
  for (int fill : {0xff, 0x00, 0x03, 0x02, 0x01}) for (size_t n = 8; n <= (T ? 64u : 40u); ++n) for (size_t i = 0; i + 3 <= n; ++i) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; for (size_t j = i; j + 3 <= n; ++j) for (int z = 0; z < 2; ++z) {
    Bytes b(n, (uint8_t)fill); b[i] = b[i + 1] = 0; b[i + 2] = 1; if (z && i) b[i - 1] = 0; b[j] = b[j + 1] = 0; b[j + 2] = 1; c01_one(c, g, b, false, "two start codes"); } }
  // streams of more than 2 and more than 4 gigabytes (sparse): start codes around the places where 31- and 32-bit offsets end
  { struct { size_t n; std::vector<size_t> at; } hs[] = {{((size_t)1 << 31) + 4100, {5, ((size_t)1 << 31) - 7, (size_t)1 << 31, ((size_t)1 << 31) + 4000}}, {((size_t)1 << 32) + 4100, {((size_t)1 << 31) + 1, ((size_t)1 << 32) - 9, ((size_t)1 << 32) - 1, ((size_t)1 << 32) + 77, ((size_t)1 << 32) + 4090}}};
    for (int i = 0; i < (D ? 2 : 1); ++i) { if (c.shard != 2 + i * 3) continue; auto& h = hs[i]; if (!c.begin(Bytes(), "stream of %zu bytes", h.n)) continue; c.add(C_STATES); uint8_t* p = (uint8_t*)mmap(nullptr, h.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (uint8_t*)MAP_FAILED) c.broken("mmap: %s", strerror(errno));
      std::vector<Unit> want; for (size_t a : h.at) { p[a + 2] = 1; p[a + 3] = 0x0c; want.push_back({a ? a - 1 : a, a + 3, 0}); } for (size_t k = 0; k < want.size(); ++k) want[k].size = (k + 1 < want.size() ? want[k + 1].start : h.n) - want[k].pay;
      c.add(C_TRANS, want.size()); cmp_index(c, want, BP::FindNaluIndices(p, h.n), "FindNaluIndices"); munmap(p, h.n); } }
  // sizes and counts around powers of two
  std::vector<std::pair<size_t, size_t>> big; for (size_t k : {6, 7, 8, 10, 12, 15, 16, 17}) for (int d = -2; d <= 2; ++d) big.push_back({(size_t)((1 << k) + d), 3});
  std::vector<std::pair<size_t, size_t>> sizes = big; for (size_t k : {18, 20, 22, 24}) for (int d = -1; d <= 1; ++d) sizes.push_back({(size_t)((1 << k) + d), 3});
  for (size_t k = 0; k < sizes.size(); ++k) { if (k % c.nshards != (size_t)c.shard) continue;
    size_t L = sizes[k].first; Bytes b; for (int u = 0; u < 3; ++u) { b.insert(b.end(), {0, 0, 1}); b.push_back(0x0c); for (size_t i = 1; i < L; ++i) b.push_back((uint8_t)(i % 251 + 4)); }
    if (!c.begin(b, "three units of %zu bytes", L)) continue; c.add(C_STATES); auto want = ref_annexb(b.data(), b.size()); c.add(C_TRANS, want.size());
    cmp_index(c, want, BP::FindNaluIndices(b.data(), b.size()), "FindNaluIndices"); ImplSession is; auto r = BP::ParseBitstream(b.data(), b.size(), &is, with_checksum()); cmp_stream(c, b.data(), want, r.get(), "ParseBitstream"); }
  for (size_t k = 0; k < big.size(); ++k) { if (k % c.nshards != (size_t)c.shard) continue;
    size_t N = big[k].first; Bytes b; for (size_t i = 0; i < N; ++i) { if (i & 1) b.push_back(0); b.insert(b.end(), {0, 0, 1, (uint8_t)(i % 3 ? 0x09 : 0x0a), (uint8_t)(i % 200 + 4)}); }
    if (!c.begin(b, "%zu units", N)) continue; c.add(C_STATES); auto want = ref_annexb(b.data(), b.size()); c.add(C_TRANS, want.size());
    cmp_index(c, want, BP::FindNaluIndices(b.data(), b.size()), "FindNaluIndices"); ImplSession is; auto r = BP::ParseBitstream(b.data(), b.size(), &is, with_checksum()); cmp_stream(c, b.data(), want, r.get(), "ParseBitstream");
    auto r2 = BP::ParseBitstream(b.data(), b.size(), with_checksum()); cmp_stream(c, b.data(), want, r2.get(), "ParseBitstream (own session)"); }
}

// ---------------------------------------------------------------- C02
static void c02_one(Ctx& c, Guarded& g, const Bytes& b, size_t w, const char* label) {
  if (!c.begin(b, "%s, width %zu", label, w)) return;
  c.add(C_STATES); uint8_t* p = guarded_copy(g, b, true);
  auto want = ref_length(b.data(), b.size(), w, false); c.add(C_TRANS, 1 + want.size()); c.add(want.empty() ? C_REJ : C_ACC);
  ImplSession is; auto r = BP::ParseBitstreamNALULength(p, b.size(), w, &is, with_checksum()); cmp_stream(c, b.data(), want, r.get(), "ParseBitstreamNALULength");
  if (w == 4) cmp_index(c, ref_length(b.data(), b.size(), 4, true), BP::FindNaluIndicesExplicitFraming(p, b.size()), "FindNaluIndicesExplicitFraming");
}
static void put_be(Bytes& b, uint64_t v, size_t w) { for (size_t i = w; i-- > 0;) b.push_back(i >= 8 ? 0 : (uint8_t)(v >> (8 * i))); }
static void c02(Ctx& c) {
  Guarded g; const bool T = true, D = c.thorough;
  for (size_t w = 0; w <= 8; ++w) {
    strings(c, {0, 1, 2, 3, 0xff}, 0, D ? 10 : 9, [&](const Bytes& b) { c02_one(c, g, b, w, "bytes over {00,01,02,03,ff}"); });
    strings(c, {0, 1, 4}, 8, D ? 14 : 12, [&](const Bytes& b) { c02_one(c, g, b, w, "bytes over {00,01,04}"); });
  }
  fates(c, D ? 7 : 6, [&](const std::vector<Bytes>& us, uint64_t) { for (size_t w : {1u, 2u, 3u, 4u, 8u}) { Bytes b; for (auto& u : us) { put_be(b, u.size(), w); b.insert(b.end(), u.begin(), u.end()); } c02_one(c, g, b, w, "units of different fates"); } });
  // up to three units; one size field takes every interesting value; every truncation
  uint64_t idx = 0;
  for (size_t w = 1; w <= 8; ++w) for (int u = 1; u <= 3; ++u) for (int bad = 0; bad < u; ++bad) for (int hdr = 0; hdr < 3; ++hdr) {
    if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    std::vector<uint64_t> sizes; uint64_t top = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
    for (uint64_t s = 0; s <= 40; ++s) sizes.push_back(s); for (unsigned k = 5; k < 64; ++k) for (int d = -2; d <= 2; ++d) sizes.push_back((1ull << k) + d);
    for (uint64_t s = 0; s <= 40; ++s) { sizes.push_back(~0ull - s); sizes.push_back(top - s); sizes.push_back((top >> 1) - s); sizes.push_back(0x100000000ull - s); sizes.push_back(0x100000000ull + s); }
    for (uint64_t s : sizes) { if (s > top) continue;
      Bytes b; for (int k = 0; k < u; ++k) { uint64_t n = 2 + (uint64_t)k * 3; put_be(b, k == bad ? s : n, w); static const uint8_t hs[] = {0x09, 0x0e, 0x65}; b.push_back(hs[(hdr + k) % 3]); for (uint64_t i = 1; i < n; ++i) b.push_back((uint8_t)(0x20 + i)); }
      if (s <= 40) for (size_t n = 0; n < b.size(); ++n) c02_one(c, g, Bytes(b.begin(), b.begin() + n), w, "size field, truncated");
      c02_one(c, g, b, w, "size field"); b.insert(b.end(), {0, 0, 0}); c02_one(c, g, b, w, "size field, trailing bytes"); } }
  // sizes of up to 4 gigabytes (sparse buffers), by the explicit-framing index
  for (uint64_t s : {0x7fffffffull, 0x80000000ull, 0x80000001ull, 0xfffffff0ull, 0xffffffffull, 0x40000000ull}) for (int less = 0; less < 3; ++less) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; if (!c.begin(Bytes(), "unit of %llu bytes, %d missing", (unsigned long long)s, less)) continue; c.add(C_STATES); size_t n = (size_t)s + 4 + 6 - (less == 1 ? 7 : less == 2 ? 3 : 0); uint8_t* p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (uint8_t*)MAP_FAILED) c.broken("mmap: %s", strerror(errno)); for (int i = 0; i < 4; ++i) p[i] = (uint8_t)(s >> (24 - 8 * i)); p[4] = 0x0c; if (!less) { p[s + 4 + 3] = 2; p[s + 4 + 4] = 9; }
    c.add(C_TRANS, 2); cmp_index(c, ref_length(p, n, 4, true), BP::FindNaluIndicesExplicitFraming(p, n), "FindNaluIndicesExplicitFraming"); munmap(p, n); }
  // unit sizes and counts around powers of two
  for (size_t w = 1; w <= 8; ++w) for (size_t k : {6, 7, 8, 10, 12, 15, 16, 17, 20, 24}) for (int d = -2; d <= 2; ++d) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    uint64_t L = (uint64_t)((1 << k) + d); if (k >= 20 && (d < -1 || d > 1)) continue; if (w < 8 && L >> (8 * w)) continue;
    Bytes b; for (int u = 0; u < 3; ++u) { put_be(b, L, w); b.push_back(0x0c); for (size_t i = 1; i < L; ++i) b.push_back((uint8_t)(i % 251 + 4)); }
    Bytes q; for (uint64_t u = 0; k < 20 && u < L; ++u) { put_be(q, 1 + u % 2, w); q.push_back(u % 3 ? 9 : 10); if (u % 2) q.push_back((uint8_t)(u % 200 + 4)); }
    for (auto* s : {&b, &q}) { if (s->empty()) continue; if (!c.begin(*s, "%s %llu, width %zu", s == &b ? "units of size" : "number of units", (unsigned long long)L, w)) continue; c.add(C_STATES);
      auto want = ref_length(s->data(), s->size(), w, false); c.add(C_TRANS, want.size()); ImplSession is;
      auto r = BP::ParseBitstreamNALULength(s->data(), s->size(), w, &is, with_checksum()); cmp_stream(c, s->data(), want, r.get(), "ParseBitstreamNALULength");
      auto r2 = BP::ParseBitstreamNALULength(s->data(), s->size(), w, with_checksum()); cmp_stream(c, s->data(), want, r2.get(), "ParseBitstreamNALULength (own session)");
      if (w == 4) cmp_index(c, ref_length(s->data(), s->size(), 4, true), BP::FindNaluIndicesExplicitFraming(s->data(), s->size()), "FindNaluIndicesExplicitFraming"); } }
}

// ---------------------------------------------------------------- C03
static void c03_str(Ctx& c, Guarded& g, const Bytes& b, const char* label) {
  if (!c.begin(b, "%s", label)) return;
  c.add(C_STATES); c.add(C_TRANS, b.size()); uint8_t* p = guarded_copy(g, b, true);
  Bytes want = m::unescape(b.data(), b.size()); std::vector<uint8_t> got = H::UnescapeRbsp(p, b.size());
  if (want != got) c.fail("UnescapeRbsp(%s) = %s, expected %s", hex(b).c_str(), hex(got).c_str(), hex(want).c_str());
  if (want.size() != b.size()) c.add(C_ACC); else c.add(C_REJ);
  Bytes e = m::escape(b); uint8_t* q = guarded_copy(g, e, true); std::vector<uint8_t> back = H::UnescapeRbsp(q, e.size());
  if (back != b) c.fail("the escaped form %s of %s comes back as %s", hex(e).c_str(), hex(b).c_str(), hex(back).c_str());
}
template <class A, class B, class V> static void same(Ctx& c, const char* f, const A& a, const B& b, V v) {
  if ((a != nullptr) != (b != nullptr)) c.fail("%s: %s from the escaped bytes, %s from the unescaped ones", f, a ? "accepted" : "rejected", b ? "accepted" : "rejected");
  if (!a) return; c.add(C_ACC); View x, y; v(x, *a); v(y, *b); if (x != y) c.fail("%s: escaped and unescaped bytes differ: %s", f, x.diff(y).c_str());
}
// every data/length entry point against its bit-buffer twin
static void entries(Ctx& c, const Bytes& raw, ImplSession* is) {
  Bytes esc = m::escape(raw); if (esc.size() == raw.size()) return;   // nothing escaped: nothing to compare
  const uint8_t* d = esc.data(); size_t n = esc.size();
#define BBUF H::BitBuffer bb(raw.data(), raw.size())
#define TWIN(cls, fn, v, ...) { BBUF; auto b = H::cls::fn(&bb, ##__VA_ARGS__); auto a = H::cls::fn(d, n, ##__VA_ARGS__); c.add(C_TRANS, 2); same(c, #fn, a, b, [](View& o, const auto& s) { v(o, s); }); }
  TWIN(H264HrdParametersParser, ParseHrdParameters, v_hrd)
  TWIN(H264VuiParametersParser, ParseVuiParameters, v_vui)
  TWIN(H264SpsDataParser, ParseSpsData, v_sps)
  TWIN(H264SpsExtensionParser, ParseSpsExtension, v_spsext)
  TWIN(H264PpsParser, ParsePps, v_pps, 1u)
  TWIN(H264SubsetSpsParser, ParseSubsetSps, v_subset)
  TWIN(H264SpsSvcExtensionParser, ParseSpsSvcExtension, v_svcext, 1u)
  TWIN(H264NalUnitHeaderParser, ParseNalUnitHeader, v_hdr)
  TWIN(H264NalUnitHeaderSvcExtensionParser, ParseNalUnitHeaderSvcExtension, v_nalsvc)
  for (uint32_t t = 0; t < 2; ++t) { TWIN(H264RefPicListModificationParser, ParseRefPicListModification, v_rplm, t)
    TWIN(H264PredWeightTableParser, ParsePredWeightTable, v_pwt, 1u, t, 2u, 1u)
    TWIN(H264DecRefPicMarkingParser, ParseDecRefPicMarking, v_drpm, t)
    TWIN(H264PrefixNalUnitSvcParser, ParsePrefixNalUnitSvc, v_prefix, 1u, 1u, t)
    TWIN(H264SliceHeaderParser, ParseSliceHeader, v_slice, 1u, t ? 5u : 1u, is) }
}
static void c03_units(Ctx& c, const std::vector<Bytes>& us, const char* label) {
  Bytes all = cat(us); if (!c.begin(all, "%s", label)) return;
  c.add(C_STATES); ImplSession a, b, sub; H::ParsingOptions po = with_checksum(); m::Session ms; bool undef = false;
  for (auto& u : us) {
    Bytes esc = m::escape(u); auto x = impl_parse(esc, &a, po); auto y = H::H264NalUnitParser::ParseNalUnitUnescaped(u.data(), u.size(), &b, po); c.add(C_TRANS, 2);
    View p, q; v_nal(p, x.get()); v_nal(q, y.get()); if (x && y) { v_checksum(p, *x); v_checksum(q, *y); p.s("parsed length", x->parsed_length); q.s("parsed length", y->parsed_length); }
    if (p != q) c.fail("escaped and unescaped parses of %s differ: %s", hex(u).c_str(), p.diff(q).c_str());
    m::Nal n = m::dec_nal(u.data(), u.size(), ms); std::string e = undef ? "" : cmp_unit(n, y.get()); if (n.undef || n.soft) undef = true; if (!e.empty()) c.fail("%s: %s", hex(u).c_str(), e.c_str());
    if (u.size() > 1) entries(c, Bytes(u.begin() + 1, u.end()), &a);
  }
  View p, q; v_session(p, a); v_session(q, b); if (p != q) c.fail("sessions differ: %s", p.diff(q).c_str());
}
static void c03(Ctx& c) {
  Guarded g; const bool T = true, D = c.thorough;
  strings(c, {0, 1, 2, 3, 4, 0xff}, 0, D ? 10 : 9, [&](const Bytes& b) { c03_str(c, g, b, "bytes over {00..04,ff}"); });
  strings(c, {0, 3, 1}, 9, D ? 16 : 14, [&](const Bytes& b) { c03_str(c, g, b, "bytes over {00,03,01}"); });
  strings(c, {0, 3}, 13, D ? 26 : 22, [&](const Bytes& b) { c03_str(c, g, b, "bytes over {00,03}"); });
  { Bytes al; for (int i = 0; i < 256; ++i) al.push_back((uint8_t)i); strings(c, al, 0, 2, [&](const Bytes& b) { for (Bytes pre : {Bytes{}, Bytes{0}, Bytes{0, 0}, Bytes{0, 0, 3}, Bytes{0, 0, 3, 0}, Bytes{7, 0, 0, 0}}) { Bytes x = pre; x.insert(x.end(), b.begin(), b.end()); c03_str(c, g, x, "two bytes in a context"); x.insert(x.end(), {0, 0, 3}); c03_str(c, g, x, "two bytes in a context"); } }); }
  // long buffers: an escape sequence at every place, large sizes
  uint64_t idx = 0;
  for (size_t n : {20u, 70u, 130u, 260u, 4100u, 65540u}) for (size_t i = 0; i + 3 <= n; i += n > 300 ? n / 64 : 1) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; for (int f : {0x11, 0x03, 0x00}) { Bytes b(n, (uint8_t)f); b[i] = b[i + 1] = 0; b[i + 2] = 3;
    if (!c.begin(b, "escape at %zu of %zu, fill %02x", i, n, f)) continue; c.add(C_STATES); Bytes w = m::unescape(b.data(), b.size()); if (H::UnescapeRbsp(b.data(), b.size()) != w) c.fail("UnescapeRbsp is wrong on %zu bytes", n); Bytes e = m::escape(b); if (H::UnescapeRbsp(e.data(), e.size()) != b) c.fail("escaped form of %zu bytes does not come back", n); } }
  // whole units, with runs of zero bytes put everywhere
  std::vector<Seq> v = corpus(c, 0); { auto w = corpus(c, 1); for (auto& s : w) if (m::escape(s.units.back()).size() != s.units.back().size() || T) v.push_back(s); }
  for (size_t k = (size_t)c.shard; k < v.size(); k += c.nshards) {
    c03_units(c, v[k].units, v[k].name.c_str());
    std::vector<Bytes> us = v[k].units; const Bytes u = us.back(); if (u.size() > 60) continue;
    for (size_t i = 1; i < u.size(); ++i) {
      for (auto ins : {Bytes{0, 0}, Bytes{0, 0, 3}, Bytes{0, 0, 0, 3}, Bytes{0, 0, 1}}) { us.back() = u; us.back().insert(us.back().begin() + i, ins.begin(), ins.end()); c03_units(c, us, (v[k].name + ", bytes inserted").c_str()); }
      for (int l : {0, 1, 2, 3, 4}) { if (i + 2 > u.size()) break; us.back() = u; us.back()[i] = 0; us.back()[i + 1] = 0; if (i + 2 < u.size()) us.back()[i + 2] = (uint8_t)l; c03_units(c, us, (v[k].name + ", bytes zeroed").c_str()); }
      us.back() = u; for (size_t j = i; j < u.size(); ++j) us.back()[j] = 0; c03_units(c, us, (v[k].name + ", zero tail").c_str());
    }
  }
}
#if defined(RUN_ALL) || defined(RUN_C01)
static Reg r01(Check{"C01", c01, "model_checking", "all buffers over {00,01,ff} up to 15 bytes, {00,01,02,03,67} up to 10, {00,01} up to 22; every value of two adjacent bytes in three patterns; two start codes at every pair of places of buffers of 8..64 bytes in 5 fillings; all sequences of up to 6 units of 7 fates; unit sizes and unit counts within 2 of powers of two up to 2^17, unit sizes around 2^18, 2^20, 2^22 and 2^24; the index of a sparse stream of 2^31+4100 bytes", "as quick, and a stream of 2^32+4100 bytes, alphabets up to 17/12/26 bytes", "state = buffer; transition = unit located in it", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C02)
static Reg r02(Check{"C02", c02, "model_checking", "widths 0..8 x all buffers over {00,01,02,03,ff} up to 9 bytes and over {00,01,04} of 8..12; all sequences of up to 6 units of 7 fates in 5 widths; one to three units with one size field taking values 0..40, within 2 of every power of two, within 40 of 2^32, of the field's maximum and of 2^64, at every truncation; unit sizes and counts around powers of two up to 2^17, unit sizes around 2^20 and 2^24, and by the index up to 2^32-1; buffers end at a guard page", "as quick, alphabets up to 10/14 bytes", "state = (buffer, width); transition = unit located in it", {}});
#endif
#if defined(RUN_ALL) || defined(RUN_C03)
static Reg r03(Check{"C03", c03, "model_checking", "all byte strings over {00..04,ff} up to 9 bytes, {00,01,03} up to 14, {00,03} up to 22, all two-byte strings in 6 contexts, both directions; escapes at every place of longer buffers; every baseline and one-deviation unit, with zero runs and escapes inserted or written at every place: escaped vs unescaped vs model, and 18 data/length entry points vs their bit-buffer twins", "strings up to 10/16/26 bytes", "state = byte string or unit sequence", {}});
#endif
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
