// Compiled once per parser build into a shared object (see shim.h).
#include "compare.h"
#ifdef RTP_DEFINE
#include "h264_rtp_parser.h"
#endif
#include "shim.h"
namespace H = h264nal;
struct shim_session { ImplSession s; };
struct shim_result {
  std::vector<std::unique_ptr<ImplNal>> nals; std::unique_ptr<H::H264BitstreamParser::BitstreamState> bs;
#ifdef RTP_DEFINE
  std::unique_ptr<H::H264RtpParser::RtpState> rtp;
#endif
  H::ParsingOptions po; bool null = false;
};
static H::ParsingOptions opts(int k) { H::ParsingOptions po; po.add_offset = k & 1; po.add_length = k >> 1 & 1; po.add_parsed_length = k >> 2 & 1; po.add_checksum = k >> 3 & 1; po.add_resolution = k >> 4 & 1; return po; }
static shim_session* session_new() { return new shim_session; }
static void session_free(shim_session* s) { delete s; }
static uint64_t session_digest(const shim_session* s) { View v; v_session(v, s->s); return v.hash(); }
static shim_result* parse(shim_session* s, int how, const uint8_t* d, size_t n, int k) {
  shim_result* r = new shim_result; r->po = opts(k);
  switch (how) {
    case SHIM_NAL: { auto u = H::H264NalUnitParser::ParseNalUnit(d, n, &s->s, r->po); if (u) r->nals.push_back(std::move(u)); else r->null = true; break; }
    case SHIM_NAL_RAW: { auto u = H::H264NalUnitParser::ParseNalUnitUnescaped(d, n, &s->s, r->po); if (u) r->nals.push_back(std::move(u)); else r->null = true; break; }
    case SHIM_ANNEXB: r->bs = H::H264BitstreamParser::ParseBitstream(d, n, &s->s, r->po); break;
    case SHIM_ANNEXB_OWN: r->bs = H::H264BitstreamParser::ParseBitstream(d, n, r->po); break;
    case SHIM_LEN4: r->bs = H::H264BitstreamParser::ParseBitstreamNALULength(d, n, 4, &s->s, r->po); break;
#ifdef RTP_DEFINE
    case SHIM_RTP: r->rtp = H::H264RtpParser::ParseRtp(d, n, &s->s); if (!r->rtp) r->null = true; break;
#endif
  }
  return r;
}
static void v_one(View& v, const ImplNal& n) {
  v_nal(v, &n); v.s("offset", (int64_t)n.offset); v.s("length", (int64_t)n.length); v.s("parsed_length", (int64_t)n.parsed_length); v_checksum(v, n);
  if (n.checksum) { v.s("checksum length", n.checksum->GetLength()); std::string t = n.checksum->GetPrintableChecksum(); for (char ch : t) v.s("printable checksum", ch); char b[24] = {0}; n.checksum->fdump(b, sizeof b); for (char* q = b; *q; ++q) v.s("dumped checksum", *q); }
  // derived values and everything else public that the views above do not carry
  if (n.nal_unit_payload && n.nal_unit_payload->sps && n.nal_unit_payload->sps->sps_data) {
    auto& d = *n.nal_unit_payload->sps->sps_data; int w = 0, h = 0; int rc = d.getResolution(&w, &h); v.s("resolution rc", rc); v.s("width", w); v.s("height", h); v.s("profile", (int64_t)d.GetProfileType()); v.s("profile_type", (int64_t)d.profile_type); v.s("chroma array type", d.getChromaArrayType());
    if (d.vui_parameters && d.vui_parameters->timing_info_present_flag) { float f = d.vui_parameters->getFramerate(); uint32_t x; memcpy(&x, &f, 4); v.s("frame rate", x); }
  }
}
static void view(const shim_result* r, View& v) {
  v.s("null", r->null);
  for (auto& n : r->nals) v_one(v, *n);
  if (r->bs) { v.s("units", r->bs->nal_units.size()); auto& p = r->bs->parsing_options_; v.s("options", p.add_offset | p.add_length << 1 | p.add_parsed_length << 2 | p.add_checksum << 3 | p.add_resolution << 4); for (auto& n : r->bs->nal_units) v_one(v, *n); }
#ifdef RTP_DEFINE
  if (r->rtp) {
    auto& p = *r->rtp; v_hdr(v, *p.nal_unit_header);
    if (p.rtp_single) { v_hdr(v, *p.rtp_single->nal_unit_header); v_payload(v, *p.rtp_single->nal_unit_payload); }
    if (p.rtp_stapa) { v_hdr(v, *p.rtp_stapa->header); v.vec("sizes", p.rtp_stapa->nal_unit_sizes); for (size_t i = 0; i < p.rtp_stapa->nal_unit_headers.size(); ++i) { v_hdr(v, *p.rtp_stapa->nal_unit_headers[i]); v_payload(v, *p.rtp_stapa->nal_unit_payloads[i]); } }
    if (p.rtp_fua) { auto& f = *p.rtp_fua; v_hdr(v, *f.header); v.s("ref", f.nal_ref_idc); v.s("s", f.s_bit); v.s("e", f.e_bit); v.s("r", f.r_bit); v.s("t", f.fu_type); if (f.nal_unit_payload) v_payload(v, *f.nal_unit_payload); }
  }
#endif
}
static std::string dump(const shim_result* r) {
  std::string o;
#ifdef FDUMP_DEFINE
  char* p = nullptr; size_t n = 0; FILE* f = open_memstream(&p, &n);
  for (int indent : {-1, 0}) {
    for (auto& u : r->nals) u->fdump(f, indent, r->po);
    if (r->bs) r->bs->fdump(f, indent, r->po);
#ifdef RTP_DEFINE
    if (r->rtp) r->rtp->fdump(f, indent, r->po);
#endif
  }
  fclose(f); o.assign(p, n); free(p);
#endif
  for (auto& u : r->nals) if (u->checksum) o += u->checksum->GetPrintableChecksum();
  if (r->bs) for (auto& u : r->bs->nal_units) if (u->checksum) o += u->checksum->GetPrintableChecksum();
  return o;
}
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static uint64_t dump_digest(const shim_result* r) { return hstr(dump(r)); }
static uint64_t digest(const shim_result* r, int d) { View v; view(r, v); uint64_t h = v.hash(); if (d) h = mix(h, dump_digest(r)); return h; }
static char* text(const shim_result* r) {
  View v; view(r, v); std::string o; for (size_t i = 0; i < v.e.size(); ++i) { if (v.e[i].kind == 2) continue; o += v.e[i].n; if (v.e[i].kind != 1) o += "=" + std::to_string(v.e[i].v); o += "\n"; }
  o += dump(r); return strdup(o.c_str());
}
static void free_result(shim_result* r) { delete r; }
extern "C" __attribute__((visibility("default"))) const shim_api shim = {session_new, session_free, session_digest, parse, digest, dump_digest, text, free_result, [] { return (uint32_t)H::get_unimplemented_count(); }};
