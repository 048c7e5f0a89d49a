// Flat views of parsed structures.  The same templates read the model's
// structures and the implementation's public state structures, so a view of
// one can be compared with a view of the other, element by element.
#pragma once
#include "common.h"
#include "model.h"

#include "config.h"
#include "h264_bitstream_parser.h"
#include "h264_bitstream_parser_state.h"
#include "h264_common.h"
#include "h264_dec_ref_pic_marking_parser.h"
#include "h264_hrd_parameters_parser.h"
#include "h264_nal_unit_header_parser.h"
#include "h264_nal_unit_header_svc_extension_parser.h"
#include "h264_nal_unit_parser.h"
#include "h264_nal_unit_payload_parser.h"
#include "h264_pps_parser.h"
#include "h264_pred_weight_table_parser.h"
#include "h264_prefix_nal_unit_parser.h"
#include "h264_ref_pic_list_modification_parser.h"
#include "h264_slice_header_in_scalable_extension_parser.h"
#include "h264_slice_header_parser.h"
#include "h264_slice_layer_extension_rbsp_parser.h"
#include "h264_slice_layer_without_partitioning_rbsp_parser.h"
#include "h264_sps_extension_parser.h"
#include "h264_sps_parser.h"
#include "h264_sps_svc_extension_parser.h"
#include "h264_subset_sps_parser.h"
#include "h264_vui_parameters_parser.h"
#include "rtc_common.h"

struct View {
  struct E { const char* n; int64_t v; int kind; };  // kind 0 scalar, 1 open, 2 close, 3 vector size, 4 vector element
  std::vector<E> e;
  void clear() { e.clear(); }
  void s(const char* n, int64_t v) { e.push_back({n, v, 0}); }
  void open(const char* n) { e.push_back({n, 0, 1}); }
  void close() { e.push_back({"", 0, 2}); }
  template <class T> void vec(const char* n, const std::vector<T>& x) {
    e.push_back({n, (int64_t)x.size(), 3}); for (auto& i : x) e.push_back({n, (int64_t)i, 4});
  }
  template <class T> void vvec(const char* n, const std::vector<std::vector<T>>& x) {
    e.push_back({n, (int64_t)x.size(), 3}); for (auto& i : x) vec(n, i);
  }
  bool operator==(const View& o) const {
    if (e.size() != o.e.size()) return false;
    for (size_t i = 0; i < e.size(); ++i) if (e[i].v != o.e[i].v || e[i].kind != o.e[i].kind) return false;
    return true;
  }
  bool operator!=(const View& o) const { return !(*this == o); }
  std::string path(size_t i) const {
    std::vector<std::string> st;
    for (size_t k = 0; k <= i && k < e.size(); ++k) { if (e[k].kind == 1) st.push_back(e[k].n); else if (e[k].kind == 2 && k < i && !st.empty()) st.pop_back(); }
    std::string r; for (auto& x : st) r += x + "/";
    return r + (i < e.size() ? e[i].n : "(end)");
  }
  static std::string one(const View& v, size_t i) {
    if (i >= v.e.size()) return "(nothing)";
    char b[64]; const char* k = v.e[i].kind == 1 ? "struct present" : v.e[i].kind == 2 ? "end" : v.e[i].kind == 3 ? "size " : "";
    snprintf(b, sizeof b, "%s%lld", k, (long long)v.e[i].v); return b;
  }
  std::string diff(const View& got) const {  // *this is expected
    size_t n = std::max(e.size(), got.e.size());
    for (size_t i = 0; i < n; ++i)
      if (i >= e.size() || i >= got.e.size() || e[i].v != got.e[i].v || e[i].kind != got.e[i].kind)
        return "at " + path(i) + ": expected " + one(*this, i) + ", got " + one(got, i) + (i < got.e.size() ? std::string(" (") + got.e[i].n + ")" : "");
    return "";
  }
  uint64_t hash() const { uint64_t h = 7; for (auto& x : e) h = mix(h, (uint64_t)x.v * 8 + x.kind); return h; }
};

#define W_U(x) o.s(#x, (int64_t)(uint32_t)s.x);
#define W_I(x) o.s(#x, (int64_t)(int32_t)s.x);
#define W_VU(x) o.vec(#x, s.x);
#define W_VI(x) o.vec(#x, s.x);
#define W_VVI(x) o.vvec(#x, s.x);
#define WALK(L) L(W_U, W_I, W_VU, W_VI, W_VVI)
#define SUB(f, fn) if (s.f) { o.open(#f); fn(o, *s.f); o.close(); } else o.s("no " #f, 0);

template <class S> void v_hrd(View& o, const S& s) { WALK(HRD_FIELDS) }
template <class S> void v_vui(View& o, const S& s) { WALK(VUI_FIELDS) SUB(nal_hrd_parameters, v_hrd) SUB(vcl_hrd_parameters, v_hrd) }
template <class S> void v_sps(View& o, const S& s) { WALK(SPS_FIELDS) SUB(vui_parameters, v_vui) }
template <class S> void v_pps(View& o, const S& s) { WALK(PPS_FIELDS) }
template <class S> void v_spsext(View& o, const S& s) { WALK(SPSEXT_FIELDS) }
template <class S> void v_svcext(View& o, const S& s) { WALK(SVCEXT_FIELDS) }
template <class S> void v_subset(View& o, const S& s) { WALK(SUBSET_FIELDS) SUB(seq_parameter_set_data, v_sps) SUB(seq_parameter_set_svc_extension, v_svcext) }
template <class S> void v_nalsvc(View& o, const S& s) { WALK(NALSVC_FIELDS) }
template <class S> void v_hdr(View& o, const S& s) { WALK(NALHDR_FIELDS) SUB(nal_unit_header_svc_extension, v_nalsvc) }
template <class S> void v_prefix(View& o, const S& s) { WALK(PREFIXSVC_FIELDS) }
template <class S> void v_rplm(View& o, const S& s) { WALK(RPLM_FIELDS) }
template <class S> void v_pwt(View& o, const S& s) { WALK(PWT_FIELDS) }
template <class S> void v_drpm(View& o, const S& s) { WALK(DRPM_FIELDS) }
template <class S> void v_l1(View& o, const S& s) { if (s.slice_type % 5 == 1) o.s("num_ref_idx_l1_active_minus1", s.num_ref_idx_l1_active_minus1); }
template <class S> void v_slice(View& o, const S& s) {
  WALK(SLICE_FIELDS) v_l1(o, s); SUB(ref_pic_list_modification, v_rplm) SUB(pred_weight_table, v_pwt) SUB(dec_ref_pic_marking, v_drpm)
}
template <class S> void v_svcslice(View& o, const S& s) {
  WALK(SVCSLICE_FIELDS) v_l1(o, s); SUB(ref_pic_list_modification, v_rplm) SUB(pred_weight_table, v_pwt) SUB(dec_ref_pic_marking, v_drpm)
}

typedef h264nal::H264NalUnitParser::NalUnitState ImplNal;
typedef h264nal::H264NalUnitPayloadParser::NalUnitPayloadState ImplPayload;
typedef h264nal::H264BitstreamParserState ImplSession;
typedef h264nal::H264NalUnitHeaderParser::NalUnitHeaderState ImplHdr;

// the payload of a NAL unit, as a view; "-" entries mark what is absent
static inline void v_payload(View& o, const m::Payload& p) {
  if (p.sps) { o.open("sps"); v_sps(o, *p.sps); o.close(); }
  if (p.pps) { o.open("pps"); v_pps(o, *p.pps); o.close(); }
  if (p.subset) { o.open("subset_sps"); v_subset(o, *p.subset); o.close(); }
  if (p.slice) { o.open("slice_header"); v_slice(o, *p.slice); o.close(); }
  if (p.svcslice) { o.open("slice_header_in_scalable_extension"); v_svcslice(o, *p.svcslice); o.close(); }
  if (p.prefix) { o.open("prefix_nal_unit_svc"); v_prefix(o, *p.prefix); o.close(); }
}
static inline void v_payload(View& o, const ImplPayload& p) {
  if (p.sps && p.sps->sps_data) { o.open("sps"); v_sps(o, *p.sps->sps_data); o.close(); }
  else if (p.sps) o.s("sps without data", 1);
  if (p.pps) { o.open("pps"); v_pps(o, *p.pps); o.close(); }
  if (p.subset_sps) { o.open("subset_sps"); v_subset(o, *p.subset_sps); o.close(); }
  if (p.slice_layer_without_partitioning_rbsp) {
    if (p.slice_layer_without_partitioning_rbsp->slice_header) { o.open("slice_header"); v_slice(o, *p.slice_layer_without_partitioning_rbsp->slice_header); o.close(); }
    else o.s("slice layer without slice header", 1);
  }
  if (p.slice_layer_extension_rbsp) {
    bool any = false;
    if (p.slice_layer_extension_rbsp->slice_header) { any = true; o.open("slice_header"); v_slice(o, *p.slice_layer_extension_rbsp->slice_header); o.close(); }
    if (p.slice_layer_extension_rbsp->slice_header_in_scalable_extension) {
      any = true; o.open("slice_header_in_scalable_extension"); v_svcslice(o, *p.slice_layer_extension_rbsp->slice_header_in_scalable_extension); o.close();
    }
    if (!any) o.s("slice layer extension without slice header", 1);
  }
  if (p.prefix_nal_unit) {
    if (p.prefix_nal_unit->prefix_nal_unit_svc) { o.open("prefix_nal_unit_svc"); v_prefix(o, *p.prefix_nal_unit->prefix_nal_unit_svc); o.close(); }
    else o.s("prefix nal unit without svc part", 1);
  }
}
static inline void v_session(View& o, const m::Session& s) {
  o.s("nsps", s.sps.size()); for (auto& k : s.sps) { o.s("sps key", k.first); o.open("sps"); v_sps(o, *k.second); o.close(); }
  o.s("npps", s.pps.size()); for (auto& k : s.pps) { o.s("pps key", k.first); o.open("pps"); v_pps(o, *k.second); o.close(); }
  o.s("nsubset", s.subset.size()); for (auto& k : s.subset) { o.s("subset key", k.first); o.open("subset_sps"); v_subset(o, *k.second); o.close(); }
}
static inline void v_session(View& o, const ImplSession& s) {
  size_t n = 0; for (auto& k : s.sps) if (k.second) n++;
  o.s("nsps", n); for (auto& k : s.sps) if (k.second) { o.s("sps key", k.first); o.open("sps"); if (k.second->sps_data) v_sps(o, *k.second->sps_data); o.close(); }
  n = 0; for (auto& k : s.pps) if (k.second) n++;
  o.s("npps", n); for (auto& k : s.pps) if (k.second) { o.s("pps key", k.first); o.open("pps"); v_pps(o, *k.second); o.close(); }
  n = 0; for (auto& k : s.subset_sps) if (k.second) n++;
  o.s("nsubset", n); for (auto& k : s.subset_sps) if (k.second) { o.s("subset key", k.first); o.open("subset_sps"); v_subset(o, *k.second); o.close(); }
}
// cheap identity check of the session maps (pointer identity), for "left unchanged"
struct SessionIds {
  std::vector<const void*> p;
  explicit SessionIds(const ImplSession& s) {
    for (auto& k : s.sps) if (k.second) { p.push_back((void*)(uintptr_t)k.first); p.push_back(k.second.get()); }
    p.push_back(nullptr);
    for (auto& k : s.pps) if (k.second) { p.push_back((void*)(uintptr_t)k.first); p.push_back(k.second.get()); }
    p.push_back(nullptr);
    for (auto& k : s.subset_sps) if (k.second) { p.push_back((void*)(uintptr_t)k.first); p.push_back(k.second.get()); }
  }
  bool operator==(const SessionIds& o) const { return p == o.p; }
};

// the accessors give, for every id, the set held under that id and nothing else
static inline std::string accessors(const ImplSession& s) {
  auto one = [](const char* what, const auto& held, auto get) -> std::string {
    std::vector<uint32_t> ids{256, 257, 288, 511, 512, 65535, 65536, 65568, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu}; for (uint32_t i = 0; i < 40; ++i) ids.push_back(i); for (auto& k : held) for (uint32_t d : {0u, 1u, 32u, 64u, 128u, 256u, 65536u}) { ids.push_back(k.first + d); ids.push_back(k.first - d); }
    for (uint32_t i : ids) { auto it = held.find(i); const void* want = it == held.end() ? nullptr : it->second.get(); if (get(i).get() != want) return std::string("the accessor gives another ") + what + " than the one held under id " + std::to_string(i); }
    return ""; };
  std::string r = one("SPS", s.sps, [&](uint32_t i) { return s.GetSps(i); });
  if (r.empty()) r = one("PPS", s.pps, [&](uint32_t i) { return s.GetPps(i); });
  if (r.empty()) r = one("subset SPS", s.subset_sps, [&](uint32_t i) { return s.GetSubsetSps(i); });
  return r;
}

static inline bool impl_parsed(const ImplNal& n) {
  return n.nal_unit_header && n.nal_unit_payload && n.nal_unit_payload->IsPayloadParsed(n.nal_unit_header->nal_unit_type);
}
// whole unit (without position data)
static inline void v_nal(View& o, const ImplNal* n) {
  if (!n) { o.s("no unit", 1); return; }
  o.open("nal_unit_header"); if (n->nal_unit_header) v_hdr(o, *n->nal_unit_header); o.close();
  o.open("nal_unit_payload"); if (n->nal_unit_payload) v_payload(o, *n->nal_unit_payload); o.close();
  o.s("parsed", impl_parsed(*n));
}
static inline void v_nal(View& o, const m::Nal& n) {
  if (!n.readable) { o.s("no unit", 1); return; }
  o.open("nal_unit_header"); v_hdr(o, n.hdr); o.close();
  o.open("nal_unit_payload"); v_payload(o, n.p); o.close();
  o.s("parsed", n.parsed);
}
static inline void v_checksum(View& o, const ImplNal& n) {
  if (!n.checksum) { o.s("no checksum", 1); return; }
  std::string p = n.checksum->GetPrintableChecksum();
  o.s("checksum", (int64_t)strtoull(p.c_str(), nullptr, 16));
  o.s("checksum length", p.size());
}

// Compare one unit parsed by the implementation with the model's reading of
// the same bytes.  Returns an empty string when they agree.
static inline std::string cmp_unit(const m::Nal& x, const ImplNal* n) {
  if (x.undef) return "";
  if (!x.readable) { return n ? "a unit whose header cannot be read was reported" : ""; }
  if (!n) return "a unit with a readable header was not reported";
  if (!n->nal_unit_header) return "unit without header";
  if (!n->nal_unit_payload) return "unit without payload object";
  View a, b; v_hdr(a, x.hdr); v_hdr(b, *n->nal_unit_header);
  if (a != b) return "header: " + a.diff(b);
  bool ip = impl_parsed(*n);
  if (x.supported && x.soft && !ip) {   // a value outside the standard's range that may be refused
    View e; v_payload(e, *n->nal_unit_payload); if (!e.e.empty()) return "unparsed unit carries payload elements: " + View::one(e, 0);
    return "";
  }
  if (ip != x.parsed) return x.parsed ? "well-formed payload reported as unparsed" : "malformed payload reported as parsed";
  a.clear(); b.clear(); v_payload(a, x.p); v_payload(b, *n->nal_unit_payload);
  if (a != b) return "payload: " + a.diff(b);
  return "";
}
