// C15 every entry point, on every enumerated input and session state, under
// AddressSanitizer and UndefinedBehaviorSanitizer (library and checker), with
// the heap use and the processor time of each call measured.
#define MC_LIB
#include "mc_syntax.cc"
#include "units.h"
#include "h264_rtp_parser.h"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sys/resource.h>
#include <sys/time.h>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:max_allocation_size_mb=2048:quarantine_size_mb=8:malloc_context_size=4:detect_stack_use_after_return=1:allocator_may_return_null=0:abort_on_error=0:detect_container_overflow=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

// heap accounting of the code under test
static size_t g_cur, g_peak, g_big; static bool g_count;
static void on_malloc(const volatile void* p, size_t n) { if (!g_count) return; g_cur += n; if (g_cur > g_peak) g_peak = g_cur; if (n > g_big) g_big = n; }
static void on_free(const volatile void* p) { if (!g_count || !p) return; size_t n = __sanitizer_get_allocated_size(p); g_cur -= n; }
static double cpu_s() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Exact {  // heap block of exactly n bytes: both ends are guarded
  uint8_t* p; size_t n; Exact(const Bytes& b) : p((uint8_t*)malloc(b.size())), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); }
};
static FILE* g_dump;  // results are printed into a memory stream that is rewound
static char* g_dbuf; static size_t g_dlen;
static void rewind_dump() { if (!g_dump) g_dump = open_memstream(&g_dbuf, &g_dlen); fflush(g_dump); rewind(g_dump); }

template <class R> static void dump1(const R& r) { for (int i : {-1, 0}) { rewind_dump(); r.fdump(g_dump, i); } }
template <class R> static void dump2(const R& r, const H::ParsingOptions& po) { for (int i : {-1, 0}) { rewind_dump(); r.fdump(g_dump, i, po); } }
static void derived(const H::H264SpsDataParser::SpsDataState& d) {
  int w, h; d.getResolution(&w, &h); d.GetProfileType(); d.getChromaArrayType();
  if (d.vui_parameters) d.vui_parameters->getFramerate();
}
static void touch(const ImplNal& n, const H::ParsingOptions& po) {
  dump2(n, po);
  if (n.checksum) { n.checksum->GetPrintableChecksum(); for (int k : {1, 2, 3, 8, 9, 32, 64}) { char* b = (char*)malloc(k); n.checksum->fdump(b, k); free(b); } }
  if (n.nal_unit_payload && n.nal_unit_payload->sps && n.nal_unit_payload->sps->sps_data) derived(*n.nal_unit_payload->sps->sps_data);
}
static H::ParsingOptions po_of(int k) { H::ParsingOptions po; po.add_offset = k & 1; po.add_length = k >> 1 & 1; po.add_parsed_length = k >> 2 & 1; po.add_checksum = k >> 3 & 1; po.add_resolution = k >> 4 & 1; return po; }

enum { E_NAL = 1, E_RAW = 2, E_ANNEXB = 4, E_LEN = 8, E_RTP = 16, E_IDX = 32, E_DIRECT = 64, E_PAYLOAD = 128, E_WIDTHS = 256, E_RTPSUB = 512 };
static const int E_UNIT = E_NAL | E_RAW | E_RTP;
static const int E_STREAM = E_ANNEXB | E_LEN | E_IDX;

static void body(const std::vector<Bytes>& pre, const Bytes& in, int what, int opt) {
  H::ParsingOptions po = po_of(opt);
  auto session = [&](ImplSession& s) { for (auto& p : pre) { Exact e(p); H::H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, &s, po); } };
  auto with = [&](auto f) { ImplSession s; session(s); Exact e(in); f(e.p, e.n, &s); };
  if (what & E_NAL) with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264NalUnitParser::ParseNalUnit(d, n, s, po); if (r) touch(*r, po); });
  if (what & E_RAW) with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264NalUnitParser::ParseNalUnitUnescaped(d, n, s, po); if (r) touch(*r, po); H::NalUnitType t; H::H264NalUnitHeaderParser::GetNalUnitType(d, n, t); });
  if (what & E_IDX) with([&](const uint8_t* d, size_t n, ImplSession*) { H::H264BitstreamParser::FindNaluIndices(d, n); H::H264BitstreamParser::FindNaluIndicesExplicitFraming(d, n); H::UnescapeRbsp(d, n); });
  if (what & E_ANNEXB) { with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264BitstreamParser::ParseBitstream(d, n, s, po); if (r) { dump2(*r, po); if (n < 100000) for (auto& u : r->nal_units) if (u) touch(*u, po); } });
    if (pre.empty() && in.size() < 100000) with([&](const uint8_t* d, size_t n, ImplSession*) { auto r = H::H264BitstreamParser::ParseBitstream(d, n, po); if (r) dump2(*r, po); }); }
  if (what & (E_LEN | E_WIDTHS)) for (size_t w : {(size_t)4, (size_t)2, (size_t)1, (size_t)0, (size_t)3, (size_t)5, (size_t)8, (size_t)9, (size_t)64, ~(size_t)0, ~(size_t)0 - 3}) {
    if (!(what & E_WIDTHS) && w != 4 && w != 1) continue;
    with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264BitstreamParser::ParseBitstreamNALULength(d, n, w, s, po); if (r) dump2(*r, po); });
    if (pre.empty() && w == 4) with([&](const uint8_t* d, size_t n, ImplSession*) { auto r = H::H264BitstreamParser::ParseBitstreamNALULength(d, n, w, po); if (r) dump2(*r, po); }); }
  if (what & E_RTP) with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264RtpParser::ParseRtp(d, n, s); if (r) dump2(*r, po); });
  if (what & E_RTPSUB) {
    with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264RtpSingleParser::ParseRtpSingle(d, n, s); if (r) dump2(*r, po); });
    with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264RtpStapAParser::ParseRtpStapA(d, n, s); if (r) dump2(*r, po); });
    for (uint32_t ref : {0u, 3u}) with([&](const uint8_t* d, size_t n, ImplSession* s) { auto r = H::H264RtpFuAParser::ParseRtpFuA(d, n, ref, s); if (r) dump2(*r, po); });
  }
  if (what & E_DIRECT) {  // the structure parsers, on the same bytes
    ImplSession s; session(s); Exact e(in); const uint8_t* d = e.p; size_t n = e.n;
    if (auto r = H::H264SpsParser::ParseSps(d, n)) dump2(*r, po);
    if (auto r = H::H264SpsDataParser::ParseSpsData(d, n)) { dump2(*r, po); derived(*r); }
    if (auto r = H::H264SpsExtensionParser::ParseSpsExtension(d, n)) dump1(*r);
    if (auto r = H::H264SubsetSpsParser::ParseSubsetSps(d, n)) dump2(*r, po);
    for (uint32_t cat = 0; cat < 4; ++cat) if (auto r = H::H264SpsSvcExtensionParser::ParseSpsSvcExtension(d, n, cat)) dump1(*r);
    for (uint32_t cfi = 0; cfi < 4; ++cfi) if (auto r = H::H264PpsParser::ParsePps(d, n, cfi)) dump1(*r);
    if (auto r = H::H264VuiParametersParser::ParseVuiParameters(d, n)) { dump1(*r); r->getFramerate(); }
    if (auto r = H::H264HrdParametersParser::ParseHrdParameters(d, n)) dump1(*r);
    for (uint32_t ref : {0u, 1u}) for (uint32_t t : {1u, 5u, 20u, 21u}) { if (auto r = H::H264SliceHeaderParser::ParseSliceHeader(d, n, ref, t, &s)) dump1(*r);
      if (auto r = H::H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(d, n, ref, t, &s)) dump1(*r); }
    for (uint32_t t = 0; t < 10; ++t) { if (auto r = H::H264RefPicListModificationParser::ParseRefPicListModification(d, n, t)) dump1(*r);
      for (uint32_t cat : {0u, 1u}) for (uint32_t k : {0u, 31u}) if (auto r = H::H264PredWeightTableParser::ParsePredWeightTable(d, n, cat, t, k, 31 - k)) dump1(*r); }
    for (uint32_t i : {0u, 1u}) { if (auto r = H::H264DecRefPicMarkingParser::ParseDecRefPicMarking(d, n, i)) dump1(*r);
      for (uint32_t ref : {0u, 1u}) for (uint32_t use : {0u, 1u}) { if (auto r = H::H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(d, n, ref, use, i)) dump1(*r);
        for (uint32_t svc : {0u, 1u}) if (auto r = H::H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(d, n, svc, ref, use, i)) dump1(*r); } }
    if (auto r = H::H264NalUnitHeaderParser::ParseNalUnitHeader(d, n)) dump1(*r);
    if (auto r = H::H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(d, n)) dump1(*r);
    static const Bytes heads[] = {{0x14, 0x80, 0, 7}, {0x74, 0xc0, 0, 7}, {0x74, 0x81, 0, 7}, {0x65}};
    for (auto& hb : heads) { auto h = H::H264NalUnitHeaderParser::ParseNalUnitHeader(hb.data(), hb.size()); if (!h) continue;
      if (auto r = H::H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(d, n, *h, &s)) dump1(*r);
      if (auto r = H::H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(d, n, *h, &s)) dump1(*r); }
    { H::BitBuffer bb(d, n); H::more_rbsp_data(&bb); H::rbsp_trailing_bits(&bb); H::BitBuffer b2(d, n); H::NaluChecksum::GetNaluChecksum(&b2); }
  }
  if (what & E_PAYLOAD) for (uint32_t t = 0; t < 32; ++t) { ImplSession s; session(s); Exact e(in); H::BitBuffer bb(e.p, e.n); auto r = H::H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, t & 1, t, &s); if (r) for (int i : {-1, 0}) { rewind_dump(); r->fdump(g_dump, i, t, po); } }
}
static void one(Ctx& c, const std::vector<Bytes>& pre, const Bytes& in, int what, int opt, const char* label, const std::string& more = "") {
  Bytes shown; for (auto& p : pre) { shown.insert(shown.end(), {0, 0, 0, 1}); shown.insert(shown.end(), p.begin(), p.end()); } if (!pre.empty()) shown.insert(shown.end(), {0, 0, 0, 1}); shown.insert(shown.end(), in.begin(), in.end());
  if (!c.begin(shown, "%s %s (entries %#x, %zu sets before, %zu bytes)", label, more.c_str(), what, pre.size(), in.size())) return;
  c.add(C_STATES); c.add(C_TRANS, __builtin_popcount(what)); c.add(C_ACC);
  size_t sz = in.size(); for (auto& p : pre) sz += p.size();
  double limit = 6 + sz * 2.5e-5;
  for (int rep = 0; rep < 3; ++rep) {
    g_cur = g_peak = (size_t)1 << 40; g_big = 0; double t0 = cpu_s();
    g_count = true; body(pre, in, what, opt); g_count = false;
    double t = cpu_s() - t0; size_t peak = g_peak - ((size_t)1 << 40); int64_t left = (int64_t)g_cur - ((int64_t)1 << 40);
    if (t > limit) c.fail("took %.1f s of processor time for %zu bytes", t, sz);
    // each byte of input may become a parsed unit or list entry, held and printed
    size_t bound = (1u << 20) + sz * 2000;
    if (peak > bound) c.fail("used %zu bytes of heap for %zu bytes of input (bound %zu; largest block %zu)", peak, sz, bound, g_big);
    if (left <= 0) break;                       // everything was given back
    if (rep == 2) c.fail("keeps %lld bytes of heap each time the same input is parsed, dumped and released", (long long)left);
  }
}
static void c15(Ctx& c) {
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); rewind_dump(); for (int i = 0; i < 200000; ++i) fputc('x', g_dump); rewind_dump();
  uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  std::vector<Seq> base = corpus(c, 0), dev = corpus(c, 1); std::vector<U> al = session_units(c, true);
  // 1. every baseline: itself, every cut, every bit flip, extreme bytes at every place, with its sets
  for (auto& q : base) {
    std::vector<Bytes> pre(q.units.begin(), q.units.end() - 1); const Bytes u = q.units.back(); Bytes pay(u.begin() + 1, u.end());
    if (mine()) one(c, pre, u, E_UNIT | E_DIRECT | E_PAYLOAD, 31, "unit", q.name);
    if (mine()) one(c, pre, pay, E_DIRECT | E_PAYLOAD | E_RTPSUB, 31, "payload", q.name);
    for (size_t i = 0; i < u.size(); ++i) { if (mine()) one(c, pre, Bytes(u.begin(), u.begin() + i), E_UNIT, 31, "cut", q.name); if (i < pay.size() && mine()) one(c, pre, Bytes(pay.begin(), pay.begin() + i), E_DIRECT, 31, "payload cut", q.name); }
    for (size_t i = 0; i < u.size() * 8; ++i) { if (!mine()) continue; Bytes b = u; b[i >> 3] ^= 0x80 >> (i & 7); one(c, pre, b, E_UNIT, (int)(i % 32), "bit flipped", q.name); }
    for (size_t i = 0; i < pay.size(); ++i) for (uint8_t v : {0x00, 0xff, 0x01, 0x80, 0x7f}) { if (!mine()) continue; Bytes b = pay; b[i] = v; one(c, pre, b, E_DIRECT, 31, "payload byte replaced", q.name); b = u; b[i + 1] = v; for (size_t k = i + 2; k < b.size() && k < i + 6; ++k) b[k] = v; one(c, pre, b, E_NAL | E_RTP, 31, "bytes replaced", q.name); }
  }
  // 2. every one-deviation unit (values in and out of range), and its cuts
  for (auto& q : dev) { if (!mine()) continue; std::vector<Bytes> pre(q.units.begin(), q.units.end() - 1); const Bytes u = q.units.back();
    one(c, pre, u, E_NAL, 31, "deviation", q.name); one(c, pre, Bytes(u.begin() + 1, u.end()), E_DIRECT, 31, "deviation payload", q.name);
    if (u.size() <= 120 || c.thorough) for (size_t i = 1; i < u.size(); ++i) one(c, pre, Bytes(u.begin(), u.begin() + i), E_RAW, 31, "deviation cut", q.name); }
  { uint64_t np = 0; products(c, c.thorough ? 2 : 1, [&](const Seq& q) { if (++np % 8 && !c.thorough) return; std::vector<Bytes> pre(q.units.begin(), q.units.end() - 1); const Bytes u = q.units.back(); one(c, pre, u, E_NAL, 31, "structural product", q.name); for (size_t i = 1; i < u.size(); i += c.thorough ? 1 : 1 + u.size() / 4) one(c, pre, Bytes(u.begin(), u.begin() + i), E_RAW, 31, "structural product, cut", q.name); }); }
  // extreme values of each single element, accepted or not
  auto wide = [&](Base b, Space s, auto mk) { s.wide_limit = c.thorough ? 5000 : 40; Explorer(c, b, s, [&](Explorer& x) { std::vector<Bytes> us = mk(x); if (!x.prepared()) return; Bytes u = us.back(); us.pop_back(); one(x.ctx, us, u, E_NAL, 31, "extreme value", std::string(x.base.name) + x.devtext); }).go(); };
  for (auto& b : sps_bases()) wide(b, sps_space(1, true), [](Explorer& x) { m::Sps s; return std::vector<Bytes>{build(x, {0x67}, [&](Enc& e) { m::spsrbsp(e, s); }).raw}; });
  for (auto& b : pps_bases()) wide(b, pps_space(1, true), [](Explorer& x) { m::Pps s; return std::vector<Bytes>{build(x, {0x68}, [&](Enc& e) { m::pps(e, s, 1); }).raw}; });
  for (auto& b : slice_bases()) wide(b, slice_space(1, true), [](Explorer& x) { m::Slice s; SliceSet t = slice_build(x, s); return std::vector<Bytes>{t.sps, t.pps, t.slice}; });
  for (auto& b : svc_bases()) wide(b, svc_space(1, true), [](Explorer& x) { m::SvcSlice s; SvcSet t = svc_build(x, s); return std::vector<Bytes>{t.subset, t.pps, t.slice}; });
  // 3. every unit in every session of one or two other units
  int n = (int)al.size();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { if (!c.thorough && (k < 14 || k > 19) && j != k) continue; if (!mine()) continue; one(c, {al[i].b, al[j].b}, al[k].b, E_NAL, 31, "history", al[i].name + ", " + al[j].name + ", " + al[k].name); }
  // 4. short units and packets, followed by long runs
  std::vector<std::vector<Bytes>> sess; sess.push_back({}); sess.push_back({al[0].b, al[5].b, al[10].b}); { for (auto& q : base) if (q.units.size() == 3 && sess.size() < 6 && (&q - &base[0]) % 5 == 0) sess.push_back({q.units[0], q.units[1]}); }
  for (uint32_t t = 0; t < 256; ++t) for (uint32_t v = 0; v < 256; v += c.thorough ? 1 : 3) { if (!mine()) continue; Bytes b{(uint8_t)t, (uint8_t)v}; one(c, {}, b, E_UNIT | E_RTPSUB | E_DIRECT, 31, "two bytes"); for (int k = 0; k < 3; ++k) b.push_back((uint8_t)(v ^ 0x5a * k)); one(c, sess[1], b, E_UNIT | E_RTPSUB, 31, "five bytes"); }
  for (uint32_t t = 0; t < 256; ++t) for (uint8_t fill : {0x00, 0xff, 0x55, 0xaa, 0x80, 0x01, 0x49, 0x92}) for (size_t len : {3u, 9u, 40u, 600u, 20000u}) for (auto& s : sess) { if (len > 600 && (t & 0x60) != 0x60) continue; if (!mine()) continue; Bytes b(len, fill); b[0] = (uint8_t)t; one(c, s, b, len > 600 ? E_RAW | E_RTP : E_UNIT, 31, "run"); if (len == 40) { for (int k = 0; k < 8; ++k) { Bytes x = b; x[1] = (uint8_t)(0x80 >> k); x[2] = (uint8_t)(fill * 3 + k); one(c, s, x, E_NAL, 31, "run after a code"); } } }
  // svc headers, all flag patterns of the second and fourth byte
  for (uint32_t f : {0x0eu, 0x6eu, 0x14u, 0x74u, 0x75u}) for (uint32_t v = 0; v < 256; ++v) for (uint32_t w : {0x07u, 0x0fu, 0xffu, 0x00u}) { if (!mine()) continue; for (uint8_t fill : {0xff, 0x5a, 0x92}) { Bytes b(24, fill); b[0] = (uint8_t)f; b[1] = (uint8_t)v; b[2] = (uint8_t)(v * 7); b[3] = (uint8_t)w; one(c, sess[1], b, E_NAL, 31, "extension header"); } }
  // 5. streams: all strings over the framing alphabet, all option combinations, all prefix widths
  static const uint8_t ab[] = {0, 1, 3, 0x67, 0xff}; int L = c.thorough ? 9 : 7;
  for (int len = 0; len <= L; ++len) { uint64_t tot = 1; for (int i = 0; i < len; ++i) tot *= 5; for (uint64_t x = 0; x < tot; ++x) { if (!mine()) continue; Bytes b; uint64_t y = x; for (int i = 0; i < len; ++i) { b.push_back(ab[y % 5]); y /= 5; } one(c, {}, b, E_STREAM | E_RTP | (len <= 5 ? E_WIDTHS | E_UNIT | E_DIRECT | E_PAYLOAD : 0), (int)(x % 32), "stream"); } }
  for (auto& q : base) { if (!mine()) continue; Bytes s = cat(q.units); for (int o = 0; o < 32; ++o) one(c, {}, s, E_STREAM | E_WIDTHS, o, "stream of units", q.name); for (size_t i = 0; i < s.size(); i += 1 + s.size() / 300) one(c, {}, Bytes(s.begin(), s.begin() + i), E_STREAM, 31, "stream cut", q.name); }
  // length prefixes at the limits of their type
  for (uint32_t p = 0; p < 256; ++p) for (int w = 1; w <= 8; ++w) { if (!mine()) continue; for (uint8_t rest : {0x00, 0xff, 0x7f, 0x80, 0x01}) { Bytes b(w, rest); b[w - 1] = (uint8_t)p; for (int k = 0; k < 5; ++k) b.push_back(0x67); one(c, {}, b, E_LEN | E_WIDTHS | E_IDX, 31, "prefix"); Bytes d{0, 0, 0, 1, 9, 0, 1, 9}; d.insert(d.end(), b.begin(), b.end()); one(c, {}, d, E_LEN | E_WIDTHS | E_IDX, 31, "prefix after units"); } }
  // STAP-A size fields and FU-A headers at their limits
  for (uint32_t hi : {0u, 1u, 0x7fu, 0x80u, 0xffu}) for (uint32_t lo = 0; lo < 256; ++lo) { if (!mine()) continue; for (int tail = 0; tail < 6; ++tail) { Bytes b{0x78, (uint8_t)hi, (uint8_t)lo}; for (int k = 0; k < tail; ++k) b.push_back((uint8_t)(0x67 + 0x11 * k)); one(c, {}, b, E_RTP | E_RTPSUB, 31, "size field"); Bytes d{0x78, 0, 2, 0x09, 0xf0, (uint8_t)hi, (uint8_t)lo}; for (int k = 0; k < tail; ++k) d.push_back((uint8_t)(0x68 - k)); one(c, sess[1], d, E_RTP | E_RTPSUB, 31, "second size field"); } }
  for (auto& u : al) for (uint32_t v = 0; v < 256; ++v) { if (!mine()) continue; Bytes b{0x7c, (uint8_t)v}; b.insert(b.end(), u.b.begin() + 1, u.b.end()); one(c, sess[1], b, E_RTP | E_RTPSUB, 31, "fragment", u.name); }
  // 6. large inputs: time and memory stay proportional
  size_t big = c.thorough ? 4u << 20 : 1u << 20; std::vector<Bytes> pats = {{0}, {0xff}, {0, 0, 1}, {0, 0, 1, 9}, {0, 0, 1, 0x67}, {0, 0, 0, 1, 0x68, 0xce}, {0, 0, 3}, {0, 0, 2, 3}, {1}, {0, 1}, {0, 0, 0, 1}, {0x78, 0, 1, 9}, {0, 1, 9}, {0, 0, 0, 1, 9}, {0xaa}, {0x80}};
  for (auto& p : pats) for (int h = 0; h < 6; ++h) { if (!mine()) continue; Bytes b; static const uint8_t hd[] = {0, 0x67, 0x68, 0x65, 0x78, 0x06}; if (h) b.push_back(hd[h]); while (b.size() < big) b.insert(b.end(), p.begin(), p.end()); b.resize(big); if (h) one(c, {}, b, h == 4 ? E_RTP | E_RTPSUB : E_NAL | E_RAW | E_RTP, h == 2 ? 0 : 31, "large input"); else for (int e : {E_ANNEXB, E_LEN, E_IDX}) one(c, {}, b, e, 31, "large input"); }
  for (auto& q : base) { if (!mine()) continue; Bytes s = cat(q.units), b; while (b.size() < big / 4) b.insert(b.end(), s.begin(), s.end()); one(c, {}, b, E_ANNEXB, 31, "large stream", q.name); Bytes u = q.units.back(); std::vector<Bytes> pre(q.units.begin(), q.units.end() - 1); Bytes x = u; while (x.size() < big / 4) x.insert(x.end(), u.begin(), u.end()); one(c, pre, x, E_NAL | E_RTP, 31, "large unit", q.name); }
}
static Reg rC15(Check{"C15", c15, "model_checking", "ASan+UBSan+assertion build; every baseline unit of every payload type with its sets: all cuts, all bit flips, extreme bytes at every place, through unit, RTP and all 20 structure entry points and both dump layouts; units of the structural products (one in eight) and cuts of them; one-deviation units and their cuts; boundary and extreme values of every single element; histories of up to 3 units over 39; all first bytes x second bytes; long runs after all first bytes in 6 sessions; all strings up to 7 bytes over 5 framing values with all widths and options; size fields at their limits; inputs of 1 MB", "strings up to 9 bytes, all 3-unit histories, ranges up to 5000, 4 MB inputs", "no sanitizer report, crash or hang; processor time, peak heap and heap left over within a linear bound", {}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
