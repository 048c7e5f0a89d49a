// Reference model of the H.264 syntax that h264nal supports, written from the
// standard (Rec. ITU-T H.264, 7.3/7.4/E.1/F/G) and independent of the
// implementation.  One description of the syntax is used in two directions:
//   Enc: element values come from a choice source, bits are produced
//   Dec: bits are given, element values (or a rejection) are produced
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "fields.h"

namespace m {
typedef uint32_t u32;
typedef int32_t i32;
typedef int64_t i64;
typedef uint64_t u64;
typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------ model structs
#define F_U(x) u32 x = 0;
#define F_I(x) i32 x = 0;
#define F_VU(x) std::vector<u32> x;
#define F_VI(x) std::vector<i32> x;
#define F_VVI(x) std::vector<std::vector<i32>> x;
#define FIELDS(L) L(F_U, F_I, F_VU, F_VI, F_VVI)
struct Hrd { FIELDS(HRD_FIELDS) };
struct Vui { FIELDS(VUI_FIELDS) std::unique_ptr<Hrd> nal_hrd_parameters, vcl_hrd_parameters; };
struct Sps {
  FIELDS(SPS_FIELDS)
  std::unique_ptr<Vui> vui_parameters;
  Sps() { chroma_format_idc = 1; }
  u32 cat() const { return separate_colour_plane_flag ? 0 : chroma_format_idc; }
  bool high() const {
    switch (profile_idc) {
      case 100: case 110: case 122: case 244: case 44: case 83: case 86:
      case 118: case 128: case 138: case 139: case 134: case 135: return true;
    }
    return false;
  }
  i64 cropx() const { u32 c = cat(); return (c == 1 || c == 2) ? 2 : 1; }
  i64 cropy() const { u32 c = cat(); return (c == 1 ? 2 : 1) * (2 - (i64)frame_mbs_only_flag); }
  i64 width0() const { return 16 * ((i64)pic_width_in_mbs_minus1 + 1); }
  i64 height0() const { return 16 * (2 - (i64)frame_mbs_only_flag) * ((i64)pic_height_in_map_units_minus1 + 1); }
  i64 width() const { return width0() - cropx() * ((i64)frame_crop_left_offset + frame_crop_right_offset); }
  i64 height() const { return height0() - cropy() * ((i64)frame_crop_top_offset + frame_crop_bottom_offset); }
  i64 mapunits() const { return ((i64)pic_width_in_mbs_minus1 + 1) * ((i64)pic_height_in_map_units_minus1 + 1); }
};
struct Pps { FIELDS(PPS_FIELDS) };
struct SpsExt { FIELDS(SPSEXT_FIELDS) };
struct SvcExt { FIELDS(SVCEXT_FIELDS) };
struct Subset {
  FIELDS(SUBSET_FIELDS)
  std::unique_ptr<Sps> seq_parameter_set_data;
  std::unique_ptr<SvcExt> seq_parameter_set_svc_extension;
};
struct NalSvc { FIELDS(NALSVC_FIELDS) };
struct NalHdr { FIELDS(NALHDR_FIELDS) std::unique_ptr<NalSvc> nal_unit_header_svc_extension; };
struct PrefixSvc { FIELDS(PREFIXSVC_FIELDS) };
struct Rplm { FIELDS(RPLM_FIELDS) };
struct Pwt { FIELDS(PWT_FIELDS) };
struct Drpm { FIELDS(DRPM_FIELDS) };
struct Slice {
  FIELDS(SLICE_FIELDS)
  u32 num_ref_idx_l1_active_minus1 = 0;
  std::unique_ptr<Rplm> ref_pic_list_modification;
  std::unique_ptr<Pwt> pred_weight_table;
  std::unique_ptr<Drpm> dec_ref_pic_marking;
};
struct SvcSlice {
  FIELDS(SVCSLICE_FIELDS)
  u32 num_ref_idx_l1_active_minus1 = 0;
  std::unique_ptr<Rplm> ref_pic_list_modification;
  std::unique_ptr<Pwt> pred_weight_table;
  std::unique_ptr<Drpm> dec_ref_pic_marking;
};

struct Session {
  std::map<u32, std::shared_ptr<Sps>> sps;
  std::map<u32, std::shared_ptr<Pps>> pps;
  std::map<u32, std::shared_ptr<Subset>> subset;
};

// ------------------------------------------------------------ bit plumbing
struct BitW {
  Bytes b; u32 nb = 0;  // nb: bits used
  void bit(u32 v) { if ((nb & 7) == 0) b.push_back(0); if (v) b[nb >> 3] |= 0x80 >> (nb & 7); nb++; }
  void put(u64 v, int n) { for (int i = n - 1; i >= 0; --i) bit((v >> i) & 1); }
  void ue(u64 v) { u64 x = v + 1; int n = 0; while (x >> (n + 1)) n++; put(0, n); put(x, n + 1); }
  void se(i64 v) { ue(v > 0 ? (u64)(2 * v - 1) : (u64)(-2 * v)); }
  void align1() { bit(1); while (nb & 7) bit(0); }
  void clear() { b.clear(); nb = 0; }
};

struct Reject {};

// what may be recorded while coding: one entry per element (for dump checks)
struct Trace {
  struct E { int kind; const char* name; i64 v; };  // kind 0 elem, 1 open, 2 close
  std::vector<E> e;
};

enum { SOFT = 0, HARD = 1 };

// Decoder direction
struct Dec {
  static constexpr bool enc = false;
  const uint8_t* d; u64 nbits; u64 pos = 0;
  bool soft = false;    // an element outside its legal range that need not be rejected
  bool undef = false;   // outcome not defined by the properties
  u32 unimpl = 0; bool rejected = false; u32 maxcount = 0;
  Trace* tr = nullptr;
  Dec(const uint8_t* p, size_t n) : d(p), nbits((u64)n * 8) {}
  u64 left() const { return nbits - pos; }
  u32 rb() { if (pos >= nbits) reject(); u32 v = (d[pos >> 3] >> (7 - (pos & 7))) & 1; pos++; return v; }
  [[noreturn]] void reject() { rejected = true; throw Reject(); }
  void rec(const char* n, i64 v) { if (tr) tr->e.push_back({0, n, v}); }
  void open(const char* n) { if (tr) tr->e.push_back({1, n, 0}); }
  void close() { if (tr) tr->e.push_back({2, "", 0}); }
  void u(int n, const char* name, u32& v, u64 legal_max = ~0ull, int = HARD) {
    if (left() < (u64)n) reject();
    u64 x = 0; for (int i = 0; i < n; ++i) x = x * 2 + rb();
    v = (u32)x; rec(name, v);
    if (x > legal_max) soft = true;
  }
  u64 rawue() {
    int z = 0; while (!rb()) { if (++z > 31) reject(); }
    u64 x = 1; for (int i = 0; i < z; ++i) x = x * 2 + rb();
    return x - 1;
  }
  void ue(const char* name, u32& v, u64 max, int how) {
    u64 x = rawue(); v = (u32)x; rec(name, v);
    if (x > max) { if (how == HARD) reject(); soft = true; }
  }
  void ue(const char* name, u32& v, u64 max, int how, std::initializer_list<i64>) { ue(name, v, max, how); }
  void se(const char* name, i32& v, i64 lo, i64 hi, int how) {
    u64 x = rawue(); i64 y = (x & 1) ? (i64)((x + 1) / 2) : -(i64)(x / 2);
    v = (i32)y; rec(name, v);
    if (y < lo || y > hi) { if (how == HARD) reject(); soft = true; }
  }
  void se(const char* name, i32& v, i64 lo, i64 hi, int how, std::initializer_list<i64>) { se(name, v, lo, hi, how); }
  bool more() {
    if (left() == 0) return false;
    if (!((d[pos >> 3] >> (7 - (pos & 7))) & 1)) return true;
    for (u64 p = pos + 1; p < nbits; ++p) if ((d[p >> 3] >> (7 - (p & 7))) & 1) return true;
    return false;
  }
  void trailing() {  // tolerant: anything may follow
    if (left() == 0) return;
    u64 p = pos; if (!rb()) { return; }
    while (pos & 7) { if (pos >= nbits) return; if (rb()) return; }
    (void)p;
  }
  void check(bool ok) { if (!ok) reject(); }
  void unimplemented() { unimpl++; reject(); }
  u32 lim(u32 n, u32) { return n; }
  void slicedata() {}
};

// Encoder direction; Ch supplies values: i64 pick(name, lo, hi, nbits, kind, extra)
struct Chooser {
  virtual ~Chooser() {}
  // kind: 'u' fixed width, 'e' ue, 's' se, 'm' presence of optional trailing part
  virtual i64 pick(const char* name, char kind, i64 lo, i64 hi, bool hard,
                   std::initializer_list<i64> extra) = 0;
};
struct Enc {
  static constexpr bool enc = true;
  Chooser* c; BitW w;
  bool soft = false, undef = false, rejected = false; u32 unimpl = 0;
  Trace* tr = nullptr;
  std::vector<u32>* marks = nullptr;  // bit position after each element
  explicit Enc(Chooser* ch) : c(ch) {}
  void rec(const char* n, i64 v) { if (tr) tr->e.push_back({0, n, v}); if (marks) marks->push_back(w.nb); }
  void open(const char* n) { if (tr) tr->e.push_back({1, n, 0}); }
  void close() { if (tr) tr->e.push_back({2, "", 0}); }
  void u(int n, const char* name, u32& v, u64 legal_max = ~0ull, int how = HARD) {
    (void)how;
    i64 full = (i64)(((u64)1 << n) - 1);
    i64 x = c->pick(name, 'u', 0, full, true, {});
    v = (u32)x; w.put((u64)x, n); rec(name, v);
    if ((u64)x > legal_max) soft = true;
  }
  void ue(const char* name, u32& v, u64 max, int how) { ue(name, v, max, how, {}); }
  void ue(const char* name, u32& v, u64 max, int how, std::initializer_list<i64> extra) {
    i64 x = c->pick(name, 'e', 0, (i64)max, how == HARD, extra);
    v = (u32)x; w.ue((u64)x); rec(name, v);
    if ((u64)x > max) { if (how == HARD) rejected = true; else soft = true; }
    if ((u64)x > 0xFFFFFFFEull) rejected = true;
  }
  void se(const char* name, i32& v, i64 lo, i64 hi, int how) { se(name, v, lo, hi, how, {}); }
  void se(const char* name, i32& v, i64 lo, i64 hi, int how, std::initializer_list<i64> extra) {
    i64 x = c->pick(name, 's', lo, hi, how == HARD, extra);
    v = (i32)x; w.se(x); rec(name, v);
    if (x < lo || x > hi) { if (how == HARD) rejected = true; else soft = true; }
  }
  bool more() { return c->pick("more_rbsp_data", 'm', 0, 1, true, {}) != 0; }
  void trailing() { w.align1(); }
  void check(bool ok) { if (!ok) rejected = true; }
  void unimplemented() { if (!rejected) unimpl++; rejected = true; throw Reject(); }
  [[noreturn]] void reject() { rejected = true; throw Reject(); }
  u32 lim(u32 n, u32 cap) { if (rejected) cap = 2; return n < cap ? n : cap; }
  void slicedata() { w.put(0xA5C3, 16); w.align1(); }
};

// ------------------------------------------------------------ syntax
#define U1(x) io.u(1, #x, s.x)
#define UN(n, x) io.u(n, #x, s.x)
#define UEH(x, max) io.ue(#x, s.x, max, HARD)
#define UES(x, max) io.ue(#x, s.x, max, SOFT)
#define SEH(x, lo, hi) io.se(#x, s.x, lo, hi, HARD)
#define SES(x, lo, hi) io.se(#x, s.x, lo, hi, SOFT)
static const i64 UEMAX = 0xFFFFFFFEll, SEMAX = 0x7FFFFFFFll;
#define SEF(x) io.se(#x, s.x, -SEMAX, SEMAX, SOFT)

template <class IO> void hrd(IO& io, Hrd& s) {
  UEH(cpb_cnt_minus1, 31); UN(4, bit_rate_scale); UN(4, cpb_size_scale);
  for (u32 i = 0, n = io.lim(s.cpb_cnt_minus1, 40); i <= n; ++i) {
    u32 a;
    io.ue("bit_rate_value_minus1", a, UEMAX, SOFT); s.bit_rate_value_minus1.push_back(a);
    io.ue("cpb_size_value_minus1", a, UEMAX, SOFT); s.cpb_size_value_minus1.push_back(a);
    io.u(1, "cbr_flag", a); s.cbr_flag.push_back(a);
  }
  UN(5, initial_cpb_removal_delay_length_minus1); UN(5, cpb_removal_delay_length_minus1);
  UN(5, dpb_output_delay_length_minus1); UN(5, time_offset_length);
}
template <class IO> void u32min1(IO& io, const char* name, u32& v) {
  io.u(32, name, v); io.check(v >= 1);
}
template <class IO> void vui(IO& io, Vui& s) {
  U1(aspect_ratio_info_present_flag);
  if (s.aspect_ratio_info_present_flag) {
    UN(8, aspect_ratio_idc);
    if (s.aspect_ratio_idc == 255) { UN(16, sar_width); UN(16, sar_height); }
  }
  U1(overscan_info_present_flag);
  if (s.overscan_info_present_flag) U1(overscan_appropriate_flag);
  U1(video_signal_type_present_flag);
  if (s.video_signal_type_present_flag) {
    UN(3, video_format); U1(video_full_range_flag); U1(colour_description_present_flag);
    if (s.colour_description_present_flag) {
      UN(8, colour_primaries); UN(8, transfer_characteristics); UN(8, matrix_coefficients);
    }
  }
  U1(chroma_loc_info_present_flag);
  if (s.chroma_loc_info_present_flag) {
    UEH(chroma_sample_loc_type_top_field, 5); UEH(chroma_sample_loc_type_bottom_field, 5);
  }
  U1(timing_info_present_flag);
  if (s.timing_info_present_flag) {
    u32min1(io, "num_units_in_tick", s.num_units_in_tick);
    u32min1(io, "time_scale", s.time_scale);
    U1(fixed_frame_rate_flag);
  }
  U1(nal_hrd_parameters_present_flag);
  if (s.nal_hrd_parameters_present_flag) {
    s.nal_hrd_parameters.reset(new Hrd); io.open("nal_hrd_parameters"); hrd(io, *s.nal_hrd_parameters); io.close();
  }
  U1(vcl_hrd_parameters_present_flag);
  if (s.vcl_hrd_parameters_present_flag) {
    s.vcl_hrd_parameters.reset(new Hrd); io.open("vcl_hrd_parameters"); hrd(io, *s.vcl_hrd_parameters); io.close();
  }
  if (s.nal_hrd_parameters_present_flag || s.vcl_hrd_parameters_present_flag) U1(low_delay_hrd_flag);
  U1(pic_struct_present_flag);
  U1(bitstream_restriction_flag);
  if (s.bitstream_restriction_flag) {
    U1(motion_vectors_over_pic_boundaries_flag);
    UEH(max_bytes_per_pic_denom, 16); UEH(max_bits_per_mb_denom, 16);
    UEH(log2_max_mv_length_horizontal, 16); UEH(log2_max_mv_length_vertical, 16);
    UEH(max_num_reorder_frames, 16); UEH(max_dec_frame_buffering, 16);
  }
}
template <class IO>
void scaling_list(IO& io, i32& delta_scale, std::vector<u32>& list, u32 size, std::vector<u32>& usedef, u32 idx) {
  i64 last = 8, next = 8;
  if (usedef.size() <= idx) usedef.resize(idx + 1, 0);
  usedef[idx] = 0;
  list.assign(size, 0);
  for (u32 j = 0; j < size; ++j) {
    if (next != 0) {
      io.se("delta_scale", delta_scale, -128, 127, HARD, {-last, 256 - last, 255 - last, 257 - last});
      next = (((last + delta_scale + 256) % 256) + 256) % 256;
      if (j == 0 && next == 0) usedef[idx] = 1;
    }
    last = next == 0 ? last : next;
    list[j] = (u32)last;
  }
}
template <class IO> void spsdata(IO& io, Sps& s) {
  UN(8, profile_idc); U1(constraint_set0_flag); U1(constraint_set1_flag); U1(constraint_set2_flag);
  U1(constraint_set3_flag); U1(constraint_set4_flag); U1(constraint_set5_flag); UN(2, reserved_zero_2bits);
  UN(8, level_idc); UEH(seq_parameter_set_id, 31);
  if (s.high()) {
    UEH(chroma_format_idc, 3);
    if (s.chroma_format_idc == 3) U1(separate_colour_plane_flag);
    UEH(bit_depth_luma_minus8, 6); UEH(bit_depth_chroma_minus8, 6);
    U1(qpprime_y_zero_transform_bypass_flag); U1(seq_scaling_matrix_present_flag);
    if (s.seq_scaling_matrix_present_flag) {
      for (u32 i = 0; i < (s.chroma_format_idc != 3 ? 8u : 12u); ++i) {
        u32 f; io.u(1, "seq_scaling_list_present_flag", f); s.seq_scaling_list_present_flag.push_back(f);
        if (f) {
          if (i < 6) scaling_list(io, s.delta_scale, s.ScalingList4x4, 16, s.UseDefaultScalingMatrix4x4Flag, i);
          else scaling_list(io, s.delta_scale, s.ScalingList8x8, 64, s.UseDefaultScalingMatrix8x8Flag, i - 6);
        }
      }
    }
  }
  UEH(log2_max_frame_num_minus4, 12); UEH(pic_order_cnt_type, 2);
  if (s.pic_order_cnt_type == 0) {
    UEH(log2_max_pic_order_cnt_lsb_minus4, 12);
  } else if (s.pic_order_cnt_type == 1) {
    U1(delta_pic_order_always_zero_flag); SEF(offset_for_non_ref_pic); SEF(offset_for_top_to_bottom_field);
    UEH(num_ref_frames_in_pic_order_cnt_cycle, 255);
    for (u32 i = 0, n = io.lim(s.num_ref_frames_in_pic_order_cnt_cycle, 300); i < n; ++i) {
      i32 v; io.se("offset_for_ref_frame", v, -SEMAX, SEMAX, SOFT); s.offset_for_ref_frame.push_back(v);
    }
  }
  UEH(max_num_ref_frames, 16); U1(gaps_in_frame_num_value_allowed_flag);
  UEH(pic_width_in_mbs_minus1, 1055); UEH(pic_height_in_map_units_minus1, 1055);
  U1(frame_mbs_only_flag);
  if (!s.frame_mbs_only_flag) U1(mb_adaptive_frame_field_flag);
  U1(direct_8x8_inference_flag); U1(frame_cropping_flag);
  if (s.frame_cropping_flag) {
    // legal bound per 7.4.2.1.1; the extra values straddle the exact limits
    i64 nx = s.width0() / s.cropx(), ny = s.height0() / s.cropy();
    io.ue("frame_crop_left_offset", s.frame_crop_left_offset, 16880, HARD, {nx - 1, nx});
    i64 l = s.frame_crop_left_offset;
    io.ue("frame_crop_right_offset", s.frame_crop_right_offset, 16880, HARD, {nx - 1 - l, nx - l, nx - 2 - l});
    io.ue("frame_crop_top_offset", s.frame_crop_top_offset, 16880, HARD, {ny - 1, ny});
    i64 t = s.frame_crop_top_offset;
    io.ue("frame_crop_bottom_offset", s.frame_crop_bottom_offset, 16880, HARD, {ny - 1 - t, ny - t, ny - 2 - t});
    io.check(s.width() > 0 && s.height() > 0);
  }
  U1(vui_parameters_present_flag);
  if (s.vui_parameters_present_flag) {
    s.vui_parameters.reset(new Vui); io.open("vui_parameters"); vui(io, *s.vui_parameters); io.close();
  }
}
template <class IO> void spsrbsp(IO& io, Sps& s) { spsdata(io, s); io.trailing(); }

template <class IO> void spsext(IO& io, SpsExt& s) {
  UEH(seq_parameter_set_id, 31); UES(aux_format_idc, 3);
  if (s.aux_format_idc != 0) {
    UEH(bit_depth_aux_minus8, 4); U1(alpha_incr_flag);
    int n = (int)io.lim(s.bit_depth_aux_minus8, 20) + 9;
    UN(n, alpha_opaque_value); UN(n, alpha_transparent_value);
  }
  U1(additional_extension_flag);
  io.trailing();
}

static inline u32 ceillog2(u64 n) { u32 r = 0; while (((u64)1 << r) < n) r++; return r; }

template <class IO> void pps(IO& io, Pps& s, u32 chroma_format_idc) {
  UEH(pic_parameter_set_id, 255); UEH(seq_parameter_set_id, 31); U1(entropy_coding_mode_flag);
  U1(bottom_field_pic_order_in_frame_present_flag); UEH(num_slice_groups_minus1, 7);
  if (s.num_slice_groups_minus1 > 0) {
    UEH(slice_group_map_type, 6);
    u32 a;
    if (s.slice_group_map_type == 0) {
      for (u32 i = 0, n = io.lim(s.num_slice_groups_minus1, 20); i <= n; ++i) {
        io.ue("run_length_minus1", a, 139263, SOFT); s.run_length_minus1.push_back(a);
      }
    } else if (s.slice_group_map_type == 2) {
      for (u32 i = 0, n = io.lim(s.num_slice_groups_minus1, 20); i < n; ++i) {
        io.ue("top_left", a, 139263, SOFT); s.top_left.push_back(a);
        io.ue("bottom_right", a, 139263, SOFT); s.bottom_right.push_back(a);
      }
    } else if (s.slice_group_map_type >= 3 && s.slice_group_map_type <= 5) {
      U1(slice_group_change_direction_flag); UES(slice_group_change_rate_minus1, 139263);
    } else if (s.slice_group_map_type == 6) {
      UEH(pic_size_in_map_units_minus1, 139263);
      u32 n = ceillog2((u64)s.num_slice_groups_minus1 + 1);
      for (u32 i = 0, e = io.lim(s.pic_size_in_map_units_minus1, 139300); i <= e; ++i) {
        io.u((int)(n > 20 ? 20 : n), "slice_group_id", a, s.num_slice_groups_minus1); s.slice_group_id.push_back(a);
      }
    }
  }
  UEH(num_ref_idx_l0_default_active_minus1, 31); UEH(num_ref_idx_l1_default_active_minus1, 31);
  U1(weighted_pred_flag); io.u(2, "weighted_bipred_idc", s.weighted_bipred_idc, 2);
  SES(pic_init_qp_minus26, -62, 25); SES(pic_init_qs_minus26, -26, 25); SES(chroma_qp_index_offset, -12, 12);
  U1(deblocking_filter_control_present_flag); U1(constrained_intra_pred_flag); U1(redundant_pic_cnt_present_flag);
  if (io.more()) {
    U1(transform_8x8_mode_flag); U1(pic_scaling_matrix_present_flag);
    if (s.pic_scaling_matrix_present_flag) {
      u32 n = 6 + (chroma_format_idc != 3 ? 2 : 6) * s.transform_8x8_mode_flag;
      for (u32 i = 0; i < n; ++i) {
        u32 f; io.u(1, "pic_scaling_list_present_flag", f); s.pic_scaling_list_present_flag.push_back(f);
        if (f) {
          if (i < 6) scaling_list(io, s.delta_scale, s.ScalingList4x4, 16, s.UseDefaultScalingMatrix4x4Flag, i);
          else scaling_list(io, s.delta_scale, s.ScalingList8x8, 64, s.UseDefaultScalingMatrix8x8Flag, i - 6);
        }
      }
    }
    SES(second_chroma_qp_index_offset, -12, 12);
  }
  io.trailing();
}

template <class IO> void svcext(IO& io, SvcExt& s, u32 cat) {
  U1(inter_layer_deblocking_filter_control_present_flag); UN(2, extended_spatial_scalability_idc);
  if (cat == 1 || cat == 2) U1(chroma_phase_x_plus1_flag);
  if (cat == 1) UN(2, chroma_phase_y_plus1);
  if (s.extended_spatial_scalability_idc == 1) {
    if (cat > 0) { U1(seq_ref_layer_chroma_phase_x_plus1_flag); UN(2, seq_ref_layer_chroma_phase_y_plus1); }
    SEF(seq_scaled_ref_layer_left_offset); SEF(seq_scaled_ref_layer_top_offset);
    SEF(seq_scaled_ref_layer_right_offset); SEF(seq_scaled_ref_layer_bottom_offset);
  }
  U1(seq_tcoeff_level_prediction_flag);
  if (s.seq_tcoeff_level_prediction_flag) U1(adaptive_tcoeff_level_prediction_flag);
  U1(slice_header_restriction_flag);
}
template <class IO> void subset(IO& io, Subset& s) {
  s.seq_parameter_set_data.reset(new Sps);
  io.open("sps_data"); spsdata(io, *s.seq_parameter_set_data); io.close();
  u32 p = s.seq_parameter_set_data->profile_idc;
  if (p == 83 || p == 86) {
    s.seq_parameter_set_svc_extension.reset(new SvcExt);
    io.open("seq_parameter_set_svc_extension");
    svcext(io, *s.seq_parameter_set_svc_extension, s.seq_parameter_set_data->cat());
    io.close();
    U1(svc_vui_parameters_present_flag);
    if (s.svc_vui_parameters_present_flag) io.undef = true;  // svc_vui_parameters_extension(): known finding
  } else if (p == 118 || p == 128 || p == 134) {
    io.undef = true; U1(bit_equal_to_one); U1(mvc_vui_parameters_present_flag);
  } else if (p == 138 || p == 135 || p == 139) {
    io.undef = true; U1(bit_equal_to_one);
  }
  U1(additional_extension2_flag);
  if (s.additional_extension2_flag)
    while (io.more()) U1(additional_extension2_data_flag);
  io.trailing();
}

template <class IO> void nalsvc(IO& io, NalSvc& s) {
  U1(idr_flag); UN(6, priority_id); U1(no_inter_layer_pred_flag); UN(3, dependency_id); UN(4, quality_id);
  UN(3, temporal_id); U1(use_ref_base_pic_flag); U1(discardable_flag); U1(output_flag); UN(2, reserved_three_2bits);
}
template <class IO> void nalhdr(IO& io, NalHdr& s) {
  U1(forbidden_zero_bit); UN(2, nal_ref_idc); UN(5, nal_unit_type);
  u32 t = s.nal_unit_type;
  if (t == 14 || t == 20) {
    U1(svc_extension_flag);
    if (!s.svc_extension_flag) io.unimplemented();
    s.nal_unit_header_svc_extension.reset(new NalSvc);
    io.open("nal_unit_header_svc_extension"); nalsvc(io, *s.nal_unit_header_svc_extension); io.close();
  } else if (t == 21) {
    U1(avc_3d_extension_flag);
    io.unimplemented();
  }
}

template <class IO> void prefixsvc(IO& io, PrefixSvc& s, u32 nal_ref_idc, u32 use_ref_base, u32 idr) {
  if (nal_ref_idc != 0) {
    U1(store_ref_base_pic_flag);
    if ((use_ref_base || s.store_ref_base_pic_flag) && !idr) io.unimplemented();
    U1(additional_prefix_nal_unit_extension_flag);
    // flag 1: data flags; flag 0: the standard still allows trailing data
    bool any = s.additional_prefix_nal_unit_extension_flag != 0;
    while (io.more()) { U1(additional_prefix_nal_unit_extension_data_flag); any = true; }
    if (any || IO::enc) io.trailing();
  } else if (IO::enc) io.trailing();
}

template <class IO> void rplm(IO& io, Rplm& s, u32 slice_type) {
  u32 t = slice_type % 5;
  auto list = [&]() {
    for (u32 n = 0;; ++n) {
      u32 op, a;
      io.ue("modification_of_pic_nums_idc", op, 3, HARD); s.modification_of_pic_nums_idc.push_back(op);
      if (op == 0 || op == 1) { io.ue("abs_diff_pic_num_minus1", a, 131071, SOFT); s.abs_diff_pic_num_minus1.push_back(a); }
      else if (op == 2) { io.ue("long_term_pic_num", a, 31, SOFT); s.long_term_pic_num.push_back(a); }
      if (op == 3) break;
      if (IO::enc && op > 3) break;
      // 7.4.3.1: at most num_ref_idx_active + 1 entries; longer lists are illegal
      if (n >= 66) io.soft = true;
    }
  };
  if (t != 2 && t != 4) { U1(ref_pic_list_modification_flag_l0); if (s.ref_pic_list_modification_flag_l0) list(); }
  if (t == 1) { U1(ref_pic_list_modification_flag_l1); if (s.ref_pic_list_modification_flag_l1) list(); }
}
template <class IO> void pwt(IO& io, Pwt& s, u32 cat, u32 slice_type, u32 l0, u32 l1) {
  UEH(luma_log2_weight_denom, 7);
  if (cat != 0) UEH(chroma_log2_weight_denom, 7);
  u32 f; i32 v;
#define PWT_LIST(L, n)                                                                              \
  for (u32 i = 0, e = io.lim(n, 40); i <= e; ++i) {                                                 \
    io.u(1, "luma_weight_" #L "_flag", f); s.luma_weight_##L##_flag.push_back(f);                   \
    if (f) {                                                                                        \
      io.se("luma_weight_" #L, v, -128, 127, SOFT); s.luma_weight_##L.push_back(v);                 \
      io.se("luma_offset_" #L, v, -128, 127, SOFT); s.luma_offset_##L.push_back(v);                 \
    }                                                                                               \
    if (cat != 0) {                                                                                 \
      io.u(1, "chroma_weight_" #L "_flag", f); s.chroma_weight_##L##_flag.push_back(f);             \
      if (f) {                                                                                      \
        std::vector<i32> w_, o_;                                                                    \
        for (int j = 0; j < 2; ++j) {                                                               \
          io.se("chroma_weight_" #L, v, -128, 127, SOFT); w_.push_back(v);                          \
          io.se("chroma_offset_" #L, v, -128, 127, SOFT); o_.push_back(v);                          \
        }                                                                                           \
        s.chroma_weight_##L.push_back(w_); s.chroma_offset_##L.push_back(o_);                       \
      }                                                                                             \
    }                                                                                               \
  }
  PWT_LIST(l0, l0)
  if (slice_type == 1 || slice_type == 6) { PWT_LIST(l1, l1) }
}
template <class IO> void drpm(IO& io, Drpm& s, u32 idr) {
  if (idr) { U1(no_output_of_prior_pics_flag); U1(long_term_reference_flag); return; }
  U1(adaptive_ref_pic_marking_mode_flag);
  if (!s.adaptive_ref_pic_marking_mode_flag) return;
  for (u32 n = 0;; ++n) {
    u32 op, a;
    io.ue("memory_management_control_operation", op, 6, HARD); s.memory_management_control_operation.push_back(op);
    if (op == 1 || op == 3) { io.ue("difference_of_pic_nums_minus1", a, 131071, SOFT); s.difference_of_pic_nums_minus1.push_back(a); }
    if (op == 2) { io.ue("long_term_pic_num", a, 31, SOFT); s.long_term_pic_num.push_back(a); }
    if (op == 3 || op == 6) { io.ue("long_term_frame_idx", a, 15, SOFT); s.long_term_frame_idx.push_back(a); }
    if (op == 4) { io.ue("max_long_term_frame_idx_plus1", a, 16, SOFT); s.max_long_term_frame_idx_plus1.push_back(a); }
    if (op == 0) break;
    if (IO::enc && op > 6) break;
    if (n >= 70) io.soft = true;
  }
}
static inline u32 cyclebits(const Sps& sp, const Pps& pp) {
  u64 size = (u64)sp.mapunits(), rate = (u64)pp.slice_group_change_rate_minus1 + 1;
  u32 n = 0; while ((((u64)1 << n) - 1) * rate < size) n++;   // Ceil(Log2(size / rate + 1))
  return n;
}
// the part of the two slice headers that precedes the prediction elements
template <class IO, class S> void slice_front(IO& io, S& s, const Sps& sp, const Pps& pp, u32 idr) {
  if (sp.separate_colour_plane_flag) io.u(2, "colour_plane_id", s.colour_plane_id, 2);
  UN((int)sp.log2_max_frame_num_minus4 + 4, frame_num);
  if (!sp.frame_mbs_only_flag) { U1(field_pic_flag); if (s.field_pic_flag) U1(bottom_field_flag); }
  if (idr) UEH(idr_pic_id, 65535);
  if (sp.pic_order_cnt_type == 0) {
    UN((int)sp.log2_max_pic_order_cnt_lsb_minus4 + 4, pic_order_cnt_lsb);
    if (pp.bottom_field_pic_order_in_frame_present_flag && !s.field_pic_flag) SEF(delta_pic_order_cnt_bottom);
  }
  if (sp.pic_order_cnt_type == 1 && !sp.delta_pic_order_always_zero_flag) {
    i32 v; io.se("delta_pic_order_cnt", v, -SEMAX, SEMAX, SOFT); s.delta_pic_order_cnt.push_back(v);
    if (pp.bottom_field_pic_order_in_frame_present_flag && !s.field_pic_flag) {
      io.se("delta_pic_order_cnt", v, -SEMAX, SEMAX, SOFT); s.delta_pic_order_cnt.push_back(v);
    }
  }
  if (pp.redundant_pic_cnt_present_flag) UEH(redundant_pic_cnt, 127);
}
template <class IO, class S> void slice_refs(IO& io, S& s, const Pps& pp, bool isB, bool isPlike) {
  if (isB) U1(direct_spatial_mv_pred_flag);
  if (isB || isPlike) {
    U1(num_ref_idx_active_override_flag);
    if (s.num_ref_idx_active_override_flag) {
      UEH(num_ref_idx_l0_active_minus1, 31);
      if (s.num_ref_idx_l0_active_minus1 > 15 && !s.field_pic_flag) io.soft = true;
      if (isB) {
        UEH(num_ref_idx_l1_active_minus1, 31);
        if (s.num_ref_idx_l1_active_minus1 > 15 && !s.field_pic_flag) io.soft = true;
      }
    } else {
      s.num_ref_idx_l0_active_minus1 = pp.num_ref_idx_l0_default_active_minus1;
      s.num_ref_idx_l1_active_minus1 = pp.num_ref_idx_l1_default_active_minus1;
    }
  }
}
template <class IO, class S> void slice_deblock(IO& io, S& s, const Pps& pp, u32 maxidc) {
  if (pp.deblocking_filter_control_present_flag) {
    UEH(disable_deblocking_filter_idc, maxidc);
    if (s.disable_deblocking_filter_idc != 1) { SES(slice_alpha_c0_offset_div2, -6, 6); SES(slice_beta_offset_div2, -6, 6); }
  }
}
template <class IO, class S> void slice_cycle(IO& io, S& s, const Sps& sp, const Pps& pp) {
  if (pp.num_slice_groups_minus1 > 0 && pp.slice_group_map_type >= 3 && pp.slice_group_map_type <= 5) {
    u64 size = (u64)sp.mapunits(), rate = (u64)pp.slice_group_change_rate_minus1 + 1;
    io.u((int)cyclebits(sp, pp), "slice_group_change_cycle", s.slice_group_change_cycle, (size + rate - 1) / rate);
  }
}
template <class IO> void slice(IO& io, Slice& s, u32 nal_ref_idc, u32 nal_unit_type, const Session& ss) {
  UEH(first_mb_in_slice, 139263); UEH(slice_type, 9); UEH(pic_parameter_set_id, 255);
  auto ip = ss.pps.find(s.pic_parameter_set_id);
  if (ip == ss.pps.end()) io.reject();
  auto is = ss.sps.find(ip->second->seq_parameter_set_id);
  if (is == ss.sps.end()) io.reject();
  const Pps& pp = *ip->second; const Sps& sp = *is->second;
  u32 t = s.slice_type % 5; u32 idr = nal_unit_type == 5;
  slice_front(io, s, sp, pp, idr);
  slice_refs(io, s, pp, t == 1, t == 0 || t == 3);
  if (nal_unit_type == 20 || nal_unit_type == 21) io.unimplemented();
  s.ref_pic_list_modification.reset(new Rplm);
  io.open("ref_pic_list_modification"); rplm(io, *s.ref_pic_list_modification, s.slice_type); io.close();
  if ((pp.weighted_pred_flag && (t == 0 || t == 3)) || (pp.weighted_bipred_idc == 1 && t == 1)) {
    s.pred_weight_table.reset(new Pwt);
    io.open("pred_weight_table");
    pwt(io, *s.pred_weight_table, sp.cat(), s.slice_type, s.num_ref_idx_l0_active_minus1, s.num_ref_idx_l1_active_minus1);
    io.close();
  }
  if (nal_ref_idc != 0) {
    s.dec_ref_pic_marking.reset(new Drpm);
    io.open("dec_ref_pic_marking"); drpm(io, *s.dec_ref_pic_marking, idr); io.close();
  }
  if (pp.entropy_coding_mode_flag && t != 2 && t != 4) UEH(cabac_init_idc, 2);
  i64 q = 51 + 6 * (i64)sp.bit_depth_luma_minus8;
  SEH(slice_qp_delta, -q, q);
  if (t == 3 || t == 4) {
    if (t == 3) U1(sp_for_switch_flag);
    SES(slice_qs_delta, -51, 51);
  }
  slice_deblock(io, s, pp, 2);
  slice_cycle(io, s, sp, pp);
  io.slicedata();
}
template <class IO> void svcslice(IO& io, SvcSlice& s, const NalHdr& h, const Session& ss) {
  UEH(first_mb_in_slice, 139263); UEH(slice_type, 9); UEH(pic_parameter_set_id, 255);
  auto ip = ss.pps.find(s.pic_parameter_set_id);
  if (ip == ss.pps.end()) io.reject();
  auto is = ss.subset.find(ip->second->seq_parameter_set_id);
  if (is == ss.subset.end() || !is->second->seq_parameter_set_svc_extension) io.reject();
  const Pps& pp = *ip->second; const Sps& sp = *is->second->seq_parameter_set_data;
  const SvcExt& x = *is->second->seq_parameter_set_svc_extension;
  if (!h.nal_unit_header_svc_extension) io.reject();
  const NalSvc& n = *h.nal_unit_header_svc_extension;
  u32 t = s.slice_type % 5;
  if (t > 2) io.undef = true;  // not a slice type of Annex G
  bool eb = s.slice_type == 1 || s.slice_type == 6, ep = s.slice_type == 0 || s.slice_type == 5;
  slice_front(io, s, sp, pp, n.idr_flag);
  if (n.quality_id == 0) {
    slice_refs(io, s, pp, eb, ep);
    s.ref_pic_list_modification.reset(new Rplm);
    io.open("ref_pic_list_modification"); rplm(io, *s.ref_pic_list_modification, s.slice_type); io.close();
    if ((pp.weighted_pred_flag && ep) || (pp.weighted_bipred_idc == 1 && eb)) {
      if (!n.no_inter_layer_pred_flag) U1(base_pred_weight_table_flag);
      if (n.no_inter_layer_pred_flag || !s.base_pred_weight_table_flag) {
        s.pred_weight_table.reset(new Pwt);
        io.open("pred_weight_table");
        pwt(io, *s.pred_weight_table, sp.cat(), s.slice_type, s.num_ref_idx_l0_active_minus1, s.num_ref_idx_l1_active_minus1);
        io.close();
      }
    }
    if (h.nal_ref_idc != 0) {
      s.dec_ref_pic_marking.reset(new Drpm);
      io.open("dec_ref_pic_marking"); drpm(io, *s.dec_ref_pic_marking, n.idr_flag); io.close();
      if (!x.slice_header_restriction_flag) {
        U1(store_ref_base_pic_flag);
        if ((n.use_ref_base_pic_flag || s.store_ref_base_pic_flag) && !n.idr_flag) io.unimplemented();
      }
    }
  }
  if (pp.entropy_coding_mode_flag && !(s.slice_type == 2 || s.slice_type == 7)) UEH(cabac_init_idc, 2);
  SES(slice_qp_delta, -87, 87);
  slice_deblock(io, s, pp, 6);
  slice_cycle(io, s, sp, pp);
  if (!n.no_inter_layer_pred_flag && n.quality_id == 0) {
    UES(ref_layer_dq_id, 127);
    if (x.inter_layer_deblocking_filter_control_present_flag) {
      UES(disable_inter_layer_deblocking_filter_idc, 6);
      if (s.disable_inter_layer_deblocking_filter_idc != 1) {
        SES(inter_layer_slice_alpha_c0_offset_div2, -6, 6); SES(inter_layer_slice_beta_offset_div2, -6, 6);
      }
    }
    U1(constrained_intra_resampling_flag);
    if (x.extended_spatial_scalability_idc == 2) {
      if (sp.cat() > 0) { U1(ref_layer_chroma_phase_x_plus1_flag); UN(2, ref_layer_chroma_phase_y_plus1); }
      SEF(scaled_ref_layer_left_offset); SEF(scaled_ref_layer_top_offset);
      SEF(scaled_ref_layer_right_offset); SEF(scaled_ref_layer_bottom_offset);
    }
  }
  if (!n.no_inter_layer_pred_flag) {
    U1(slice_skip_flag);
    if (s.slice_skip_flag) {
      UES(num_mbs_in_slice_minus1, 139263);
    } else {
      U1(adaptive_base_mode_flag);
      if (!s.adaptive_base_mode_flag) U1(default_base_mode_flag);
      if (!s.default_base_mode_flag) {
        U1(adaptive_motion_prediction_flag);
        if (!s.adaptive_motion_prediction_flag) U1(default_motion_prediction_flag);
      }
      U1(adaptive_residual_prediction_flag);
      if (!s.adaptive_residual_prediction_flag) U1(default_residual_prediction_flag);
    }
    if (x.adaptive_tcoeff_level_prediction_flag) U1(tcoeff_level_prediction_flag);
  }
  if (!x.slice_header_restriction_flag && !s.slice_skip_flag) { UN(4, scan_idx_start); UN(4, scan_idx_end); }
  io.slicedata();
}

// ------------------------------------------------------------ NAL unit level
struct Payload {
  std::shared_ptr<Sps> sps; std::shared_ptr<Pps> pps; std::shared_ptr<Subset> subset;
  std::unique_ptr<Slice> slice; std::unique_ptr<SvcSlice> svcslice;
  std::unique_ptr<PrefixSvc> prefix; bool prefix_present = false;
};
struct Nal {
  bool readable = false;    // header could be read
  bool parsed = false;      // supported payload parsed, or no supported payload
  bool supported = false;   // type has a supported payload
  bool soft = false, undef = false;
  u32 unimpl = 0;
  u64 bits = 0;             // position after header and payload syntax
  NalHdr hdr; Payload p;
};
static inline bool supported_type(u32 t) {
  return t == 1 || t == 5 || t == 7 || t == 8 || t == 14 || t == 15 || t == 20;
}
// Parses one payload (bits after the header) and updates the session.
static inline void dec_payload(Dec& d, Nal& n, Session& ss, u32 pps_cfi = 1) {
  u32 t = n.hdr.nal_unit_type;
  n.supported = supported_type(t);
  n.parsed = !n.supported;
  try {
    switch (t) {
      case 1: case 5: { std::unique_ptr<Slice> s(new Slice); slice(d, *s, n.hdr.nal_ref_idc, t, ss); n.p.slice = std::move(s); n.parsed = true; break; }
      case 7: { auto s = std::make_shared<Sps>(); spsrbsp(d, *s); n.p.sps = s; n.parsed = true; if (!d.undef) ss.sps[s->seq_parameter_set_id] = s; break; }
      case 8: { auto s = std::make_shared<Pps>(); pps(d, *s, pps_cfi); n.p.pps = s; n.parsed = true; ss.pps[s->pic_parameter_set_id] = s; break; }
      case 15: { auto s = std::make_shared<Subset>(); subset(d, *s); n.p.subset = s; n.parsed = true;
                 ss.subset[s->seq_parameter_set_data->seq_parameter_set_id] = s; break; }
      case 14: {
        if (n.hdr.svc_extension_flag && n.hdr.nal_unit_header_svc_extension) {
          std::unique_ptr<PrefixSvc> s(new PrefixSvc);
          prefixsvc(d, *s, n.hdr.nal_ref_idc, n.hdr.nal_unit_header_svc_extension->use_ref_base_pic_flag,
                    n.hdr.nal_unit_header_svc_extension->idr_flag);
          n.p.prefix = std::move(s); n.parsed = true;
        }
        break;
      }
      case 20: {
        if (n.hdr.svc_extension_flag) {
          std::unique_ptr<SvcSlice> s(new SvcSlice); svcslice(d, *s, n.hdr, ss); n.p.svcslice = std::move(s); n.parsed = true;
        } else { std::unique_ptr<Slice> s(new Slice); slice(d, *s, n.hdr.nal_ref_idc, t, ss); n.p.slice = std::move(s); n.parsed = true; }
        break;
      }
    }
  } catch (Reject&) {}
  n.soft = n.soft || d.soft; n.undef = n.undef || d.undef; n.unimpl = d.unimpl; n.bits = d.pos;
}
// data: unescaped bytes of one NAL unit
static inline Nal dec_nal(const uint8_t* data, size_t len, Session& ss, Trace* tr = nullptr) {
  Nal n; Dec d(data, len); d.tr = tr;
  try { nalhdr(d, n.hdr); n.readable = true; } catch (Reject&) { n.unimpl = d.unimpl; return n; }
  dec_payload(d, n, ss);
  return n;
}

// ------------------------------------------------------------ byte level models
static inline Bytes unescape(const uint8_t* d, size_t n) {
  Bytes o; int z = 0;
  for (size_t i = 0; i < n; ++i) {
    if (z >= 2 && d[i] == 3) { z = 0; continue; }
    o.push_back(d[i]); z = d[i] == 0 ? z + 1 : 0;
  }
  return o;
}
static inline Bytes escape(const Bytes& d) {   // 7.4.1
  Bytes o; int z = 0;
  for (uint8_t b : d) {
    if (z >= 2 && b <= 3) { o.push_back(3); z = 0; }
    o.push_back(b); z = b == 0 ? z + 1 : 0;
  }
  if (z >= 2) {}  // a NAL unit ending in 00 00 gets a final 03 (cabac_zero_words) - not needed by the decoder model
  return o;
}
static inline u32 checksum(const uint8_t* d, size_t n) {
  // ones' complement of the 32-bit ones' complement sum of the bytes taken as big-endian words, zero padded (see C21)
  u64 s = 0;
  for (size_t i = 0; i < n; i += 4) {
    u64 wd = 0; for (size_t j = 0; j < 4; ++j) wd = wd << 8 | (i + j < n ? d[i + j] : 0);
    s += wd; s = (s & 0xFFFFFFFF) + (s >> 32);
  }
  return ~(u32)s;
}
}  // namespace m
