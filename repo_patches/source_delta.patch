From d99958773e3e1ac65d0ec1edab99a697a141cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 01/39] fix: report the NAL unit length, not the prefix width,
 in length-prefixed streams

---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..1f7b125 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From b47d274df03e615cdeba363adc390e6301931714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 02/39] fix: avoid integer overflow when checking a NAL unit
 length prefix

---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 1f7b125..afbf66a 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -216,7 +216,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From e0240845fcfa22214ac4910d3cdffb7d18bbc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 03/39] fix: keep the parsing options in the bitstream, and do
 not dump a missing checksum

---
 src/h264_bitstream_parser.cc | 2 ++
 src/h264_nal_unit_parser.cc  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index afbf66a..660dc7e 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -130,6 +130,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -195,6 +196,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..87021e3 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -113,7 +113,7 @@ void H264NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 88bb8bc36837ad2693c08ce1b88b82ac4de82be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 04/39] fix: initialize offset and lengths of a NAL unit parsed
 on its own

---
 include/h264_nal_unit_parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/h264_nal_unit_parser.h b/include/h264_nal_unit_parser.h
index 9730fe1..bb1868f 100644
--- a/include/h264_nal_unit_parser.h
+++ b/include/h264_nal_unit_parser.h
@@ -36,11 +36,11 @@ class H264NalUnitParser {
 #endif  // FDUMP_DEFINE
 
     // NAL Unit offset in the full blob
-    size_t offset;
+    size_t offset = 0;
     // NAL Unit length
-    size_t length;
+    size_t length = 0;
     // NAL Unit parsed length
-    size_t parsed_length;
+    size_t parsed_length = 0;
     // NAL Unit checksum
     std::shared_ptr<NaluChecksum> checksum;
 
-- 
2.43.0


From 0cdd48fc115d60f1a1ceec295655cb6b18e4013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 05/39] fix: record the default flag of an 8x8 scaling list in
 the 8x8 flags

---
 src/h264_pps_parser.cc | 2 +-
 src/h264_sps_parser.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..9e19c57 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -313,7 +313,7 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
                                     pps->UseDefaultScalingMatrix4x4Flag);
           } else {
             (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+                                    pps->UseDefaultScalingMatrix8x8Flag);
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..1c7c022 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -198,7 +198,7 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
           } else {
             (void)sps_data->scaling_list(
                 bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+                sps_data->UseDefaultScalingMatrix8x8Flag);
           }
         }
       }
-- 
2.43.0


From 610c9eb9bef24663bedf48018aef6120eeefc002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 06/39] fix: reject a parameter set whose scaling list cannot
 be parsed

---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9e19c57..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix8x8Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1c7c022..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix8x8Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From 7c98e9c0cc573282e614344f271945bd107cb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:50 +0000
Subject: [PATCH 07/39] fix: dump signed syntax elements as signed numbers

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..a69e19e 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -763,7 +763,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -852,7 +852,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -861,11 +861,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -886,10 +886,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -909,16 +909,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 68dc9b103a704ab07b3cce316dfb9606803d3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:50 +0000
Subject: [PATCH 08/39] fix: dump cpb_size_scale and
 additional_prefix_nal_unit_extension_flag

---
 src/h264_hrd_parameters_parser.cc  | 3 +++
 src/h264_prefix_nal_unit_parser.cc | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/h264_hrd_parameters_parser.cc b/src/h264_hrd_parameters_parser.cc
index 28f4737..76d5e58 100644
--- a/src/h264_hrd_parameters_parser.cc
+++ b/src/h264_hrd_parameters_parser.cc
@@ -123,6 +123,9 @@ void H264HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_scale: %u", bit_rate_scale);
 
+  fdump_indent_level(outfp, indent_level);
+  fprintf(outfp, "cpb_size_scale: %u", cpb_size_scale);
+
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 11c3d79..523f96e 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -152,6 +152,10 @@ void H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState::fdump(
       // dec_ref_base_pic_marking()
     }
 
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "additional_prefix_nal_unit_extension_flag: %u",
+            additional_prefix_nal_unit_extension_flag);
+
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "additional_prefix_nal_unit_extension_data_flag: %u",
             additional_prefix_nal_unit_extension_data_flag);
-- 
2.43.0


From 565474cf50da953e92000c0dd9b53e3fe080aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 09/39] fix: delimit the NAL units of a STAP-A packet by their
 size fields

---
 src/h264_rtp_parser.cc       |  5 +++++
 src/h264_rtp_stapa_parser.cc | 27 ++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..159d2e5 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,11 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // rtp_stapa() delimits its NALUs by size, and unpacks them one by one
+    BitBuffer stapa_buffer(data, length);
+    return ParseRtp(&stapa_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..52cd510 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -21,13 +21,13 @@ namespace h264nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc6184#section-5.6
 
-// Unpack RBSP and parse RTP STAP-A state from the supplied buffer.
+// Parse RTP STAP-A state from the supplied buffer. The NALU sizes in the
+// packet count escaped bytes, so each NALU is unpacked on its own.
 std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  BitBuffer bit_buffer(data, length);
   return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
 }
 
@@ -63,9 +63,26 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // get the NALU bytes: the size field delimits the NALU, which the
+    // parsers below do not need to consume in full (e.g. slice data). A
+    // single byte left cannot be another NALU, so it goes with the last one.
+    if (static_cast<uint64_t>(nalu_size + 1) * 8 ==
+        bit_buffer->RemainingBitCount()) {
+      nalu_size += 1;
+    }
+    std::vector<uint8_t> nalu_bytes(nalu_size);
+    for (uint8_t& nalu_byte : nalu_bytes) {
+      if (!bit_buffer->ReadUInt8(nalu_byte)) {
+        return nullptr;
+      }
+    }
+    std::vector<uint8_t> unpacked_nalu =
+        UnescapeRbsp(nalu_bytes.data(), nalu_bytes.size());
+    BitBuffer nalu_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +93,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From 1cf1c204c05feb06264382d3f9472d3f05fecebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:17 +0000
Subject: [PATCH 10/39] fix: use the PPS reference index defaults in scalable
 slice headers

---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index a69e19e..c2dc9a2 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // use the default values from the PPS
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From 8e9c4e3e35f4fec487889db18f9b37b660b4b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:20 +0000
Subject: [PATCH 11/39] fix: report a slice extension as unparsed when its
 slice header is

---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From f782441c58fd427e9219188b7d3677b3a6dd4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 12/39] fix: accept the documented --nalu-length-bytes -1

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..af85ede 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -305,7 +305,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From dddf2dcfc1dc2e5f8186a54c9516c3ba21caefd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:27 +0000
Subject: [PATCH 13/39] fix: build the h264nal tool in the small footprint
 configuration

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index af85ede..68305f1 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -555,12 +555,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   // 5. report how the parse went
   //   kExitOk: every NAL unit parsed
-- 
2.43.0


From d0e47c91cfcc4ad49312565e6cdcc50a36a23d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:30 +0000
Subject: [PATCH 14/39] fix: find the end of the RBSP also when zero bytes
 follow it

---
 src/h264_common.cc | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/h264_common.cc b/src/h264_common.cc
index 0cd4c46..c6d3731 100644
--- a/src/h264_common.cc
+++ b/src/h264_common.cc
@@ -285,37 +285,25 @@ bool more_rbsp_data(BitBuffer* bit_buffer) {
   // > in the RBSP is specified by the application (or in Annex B for
   // > applications that use the byte stream format).
 
-  // Here we do the following simplification:
-  // (1) We know that rbsp_trailing_bits() is limited to at most 1 byte. Its
-  // definition is:
-  // > rbsp_trailing_bits() {
-  // >   rbsp_stop_one_bit // equal to 1
-  // >   while( !byte_aligned() )
-  // >     rbsp_alignment_zero_bit // equal to 0
-  // >   }
-  // where byte_aligned() is a Bool stating whether the position of the
-  // bitstream is in a byte boundary. So, if there is more than 1 byte
-  // left (8 bits left), clearly "there is more data in the RBSP before the
-  // rbsp_trailing_bits()"
-  if (remaining_bitcount > 8) {
+  // We are at rbsp_trailing_bits() iff the remaining bits are [1, 0, ..., 0]:
+  // the rbsp_stop_one_bit is the last bit equal to 1. Note that there may
+  // be more than 1 byte left, as the RBSP can be followed by zero bytes
+  // (cabac_zero_words, or the trailing_zero_8bits in Annex B).
+  uint32_t next_bit;
+  if (!bit_buffer->PeekBits(1, next_bit) || next_bit == 0) {
     return true;
   }
 
-  // (2) if we are indeed in the last byte, we just need to know whether the
-  // rest of the byte is [1, 0, ..., 0]. For that, we want to peek in the
-  // bit buffer (not read).
-  // So we first read (peek) the remaining bits.
-  uint32_t remaining_bits;
-  if (!bit_buffer->PeekBits(remaining_bitcount, remaining_bits)) {
-    // this should not happen: we do not have remaining_bits bits left.
-    return false;
+  // check that the rest of the bits are zero, and go back
+  size_t byte_offset, bit_offset;
+  bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
+  bit_buffer->ConsumeBits(1);
+  bool is_rbsp_trailing_bits = true;
+  while (is_rbsp_trailing_bits && bit_buffer->ReadBits(1, next_bit)) {
+    is_rbsp_trailing_bits = (next_bit == 0);
   }
-  // and then check for the actual values to be 100..000
-  bool is_rbsp_trailing_bits =
-      (remaining_bits == (unsigned int)(1 << (remaining_bitcount - 1)));
+  bit_buffer->Seek(byte_offset, bit_offset);
 
-  // if the actual values to be 100..000, we are already at the
-  // rbsp_trailing_bits, which means there is no more RBSP data
   return !is_rbsp_trailing_bits;
 }
 
-- 
2.43.0


From 22050b115f3debbd492f306a62430367b07e1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:33 +0000
Subject: [PATCH 15/39] fix: undefined shifts in non-symmetric codes and in
 zero-bit writes

---
 src/rtc_common.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 2cff42a..dbb6a94 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,14 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
+
+  if (count_bits == 1) {
+    // a single value is coded in zero bits
+    val = 0;
+    return true;
+  }
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -321,9 +328,13 @@ bool BitBufferWriter::WriteUInt32(uint32_t val) {
 }
 
 bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
-  if (bit_count > RemainingBitCount()) {
+  if (bit_count > 64 || bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write, and maybe no current byte
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
@@ -369,7 +380,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -381,7 +393,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From eba7b3875ca8025c5af57991a04ebbd3fe6c3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:40 +0000
Subject: [PATCH 16/39] fix: Constrained High profile needs both
 constraint_set4 and constraint_set5

Rec. ITU-T H.264, A.2.4.2: conformance to the Constrained High profile is
indicated by profile_idc 100 with both constraint_set4_flag and
constraint_set5_flag equal to 1. constraint_set5_flag alone is High, and
both together were reported as Progressive High.
---
 src/h264_sps_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1f8216d..ac58a9b 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -513,12 +513,12 @@ ProfileType H264SpsDataParser::SpsDataState::GetProfileType() const noexcept {
       return ProfileType::EXTENDED;
 
     case 100:  // High profiles
+      if (constraint_set4_flag == 1 && constraint_set5_flag == 1) {
+        return ProfileType::CONSTRAINED_HIGH;
+      }
       if (constraint_set4_flag == 1) {
         return ProfileType::PROGRESSIVE_HIGH;
       }
-      if (constraint_set5_flag == 1) {
-        return ProfileType::CONSTRAINED_HIGH;
-      }
       return ProfileType::HIGH;
 
     case 110:
-- 
2.43.0


From 48045258794f81ff29e44d9284c55943f8f88942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:50 +0000
Subject: [PATCH 17/39] fix: reject a STAP-A packet with a zero-size unit also
 before a single last byte

---
 src/h264_rtp_stapa_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 52cd510..dbc00f6 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -66,8 +66,8 @@ H264RtpStapAParser::ParseRtpStapA(
     // get the NALU bytes: the size field delimits the NALU, which the
     // parsers below do not need to consume in full (e.g. slice data). A
     // single byte left cannot be another NALU, so it goes with the last one.
-    if (static_cast<uint64_t>(nalu_size + 1) * 8 ==
-        bit_buffer->RemainingBitCount()) {
+    if (nalu_size > 0 && static_cast<uint64_t>(nalu_size + 1) * 8 ==
+                             bit_buffer->RemainingBitCount()) {
       nalu_size += 1;
     }
     std::vector<uint8_t> nalu_bytes(nalu_size);
-- 
2.43.0


From ed7161f63d8fb1f11a15d9749d60182692286243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 18/39] fix: report an error when reading from stdin fails

---
 src/h264_utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 1f0beee..8188733 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -22,6 +22,11 @@ int ReadStdinToBuffer(std::vector<uint8_t>& buffer) {
     if (bytes_read <= 0) break;
     buffer.insert(buffer.end(), temp, temp + bytes_read);
   }
+  // std::cin shares its state with stdin, but does not tell errors from EOF
+  if (std::cin.bad() || ferror(stdin)) {
+    fprintf(stderr, "Could not read from stdin\n");
+    return -1;
+  }
   return 0;
 }
 }  // namespace
-- 
2.43.0


From 403fb96f272d44b8fe281d1f7c56aad966bec1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:24 +0000
Subject: [PATCH 19/39] fix: report an error instead of aborting when the input
 file is a directory

---
 src/h264_utils.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 8188733..7cb3abc 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -56,6 +56,13 @@ int H264Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
+  // some files open and have a size, but cannot be read (e.g. a directory)
+  int first_byte = fgetc(infp);
+  if (first_byte == EOF || ungetc(first_byte, infp) == EOF) {
+    fprintf(stderr, "Could not read file: \"%s\"\n", filename);
+    fclose(infp);
+    return -1;
+  }
   // read file into buffer
   buffer.resize(static_cast<size_t>(size));
   size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-- 
2.43.0


From 3111be511e31ee0a4da8ea73ebbb41176c4e2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:24 +0000
Subject: [PATCH 20/39] fix: report an error when the output cannot be written

---
 tools/h264nal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 68305f1..8c3fcc4 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -557,8 +557,13 @@ int main(int argc, char** argv) {
   }
 
   // clean-up FD
+  bool write_error = fflush(outfp) != 0 || ferror(outfp) != 0;
   if (must_close_fp) {
-    fclose(outfp);
+    write_error = fclose(outfp) != 0 || write_error;
+  }
+  if (write_error) {
+    fprintf(stderr, "Could not write the output\n");
+    return -1;
   }
 #endif  // FDUMP_DEFINE
 
-- 
2.43.0


From 028f4e024e1e08454af904c16e895244b3c9ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:39 +0000
Subject: [PATCH 21/39] fix: reject an empty number on the command line

---
 tools/h264nal.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 8c3fcc4..73368cb 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -305,7 +305,8 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
+        if (errno != 0 || end == optarg || *end != '\0' || val < -1 ||
+            val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
@@ -316,7 +317,8 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || end == optarg || *end != '\0' || val < 0 ||
+            val > INT_MAX) {
           fprintf(stderr, "error: invalid frames_per_second: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From 055f9c3e3ffa4894ea3c7b61a7b91acff85e18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:10 +0000
Subject: [PATCH 22/39] fix: report an error when seeking in the input file
 fails

---
 src/h264_utils.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 7cb3abc..df8bd52 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -48,14 +48,15 @@ int H264Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     fprintf(stderr, "Could not open input file: \"%s\"\n", filename);
     return -1;
   }
-  fseek(infp, 0, SEEK_END);
-  int64_t size = ftell(infp);
-  if (size <= 0) {
+  int64_t size = -1;
+  if (fseek(infp, 0, SEEK_END) == 0) {
+    size = ftell(infp);
+  }
+  if (size <= 0 || fseek(infp, 0, SEEK_SET) != 0) {
     fprintf(stderr, "Could not determine file size: \"%s\"\n", filename);
     fclose(infp);
     return -1;
   }
-  fseek(infp, 0, SEEK_SET);
   // some files open and have a size, but cannot be read (e.g. a directory)
   int first_byte = fgetc(infp);
   if (first_byte == EOF || ungetc(first_byte, infp) == EOF) {
-- 
2.43.0


From eb16e8f476270fdbb03a9fabd6e90b42060d8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:28 +0000
Subject: [PATCH 23/39] fix: do not take the VUI's sar_width and sar_height for
 the picture size when splitting

---
 tools/h264nal-split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-split.py b/tools/h264nal-split.py
index ba4c9d8..da2eba5 100755
--- a/tools/h264nal-split.py
+++ b/tools/h264nal-split.py
@@ -64,8 +64,8 @@ def parse_nal_units(content):
         if type_m:
             nal["nal_unit_type"] = int(type_m.group(1))
 
-        width_m = re.search(r"width: (\d+)", nal_text)
-        height_m = re.search(r"height: (\d+)", nal_text)
+        width_m = re.search(r"\bwidth: (\d+)", nal_text)
+        height_m = re.search(r"\bheight: (\d+)", nal_text)
         if width_m and height_m:
             nal["width"] = int(width_m.group(1))
             nal["height"] = int(height_m.group(1))
-- 
2.43.0


From 45eae5af78bd3102ae78042b5f1c2dd53c931ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 24/39] fix: dpb_parse: slice_type values 5 to 9 are the same
 types as 0 to 4

Table 7-6: slice_type % 5 gives the type; 5 to 9 only add that all slices of
the picture are of that type. Such pictures were listed as "?5" to "?9", and
P pictures among them without the references they use.
---
 tools/h264nal-dpb_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..5899b65 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -66,7 +66,7 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
-        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1))
+        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1)) % 5
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
         nal_ref_idc = int(re.search(r"nal_ref_idc: (\d+)", nal_text).group(1))
 
-- 
2.43.0


From 7293311299b961cbce68950ebc788a165c510f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 25/39] fix: dpb_parse: list the references of SP pictures

SP slices use reference list 0 just as P slices do.
---
 tools/h264nal-dpb_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5899b65..2f73410 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -302,7 +302,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From b4754668eb9dc44e00cf08b412f1fd4f765fb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 26/39] fix: dpb_parse: a picture with marking commands becomes
 a reference too

Section 8.2.5.1: after the memory management control operations, the current
picture is marked as a short-term reference unless operation 6 made it a
long-term one. It was left out of the DPB.
---
 tools/h264nal-dpb_parse.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 2f73410..26f3fb9 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -338,6 +338,7 @@ def simulate_dpb(sps, frames, outfile):
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
+            is_ltr = False
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -379,6 +380,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 5:
                     dpb = []
                 elif op == 6:
+                    is_ltr = True
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     dpb = [
@@ -393,6 +395,15 @@ def simulate_dpb(sps, frames, outfile):
                         }
                     )
                 i += 1
+            if not is_ltr:
+                dpb.append(
+                    {
+                        "frame_num": frame["frame_num"],
+                        "is_ltr": False,
+                        "ltr_idx": -1,
+                        "abs_frame": abs_frame,
+                    }
+                )
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From 39b09689f87117dd19114cad6e9818fc4a0255e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 27/39] fix: dpb_parse: memory management control operation 2
 removes its picture

The operation unmarks the long-term picture given by long_term_pic_num
(section 8.2.5.4.2). It was ignored. The slice header dump has two lists of
that name: take the one of the decoded reference picture marking.
---
 tools/h264nal-dpb_parse.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 26f3fb9..e6c7d68 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -98,6 +98,11 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            ltpn_m = re.search(
+                r"dec_ref_pic_marking \{.*?long_term_pic_num \{ ([^}]*)\}",
+                nal_text,
+                flags=re.DOTALL,
+            )
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -106,6 +111,11 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m.group(1).split()]
+                if ltpn_m and ltpn_m.group(1).strip()
+                else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -337,6 +347,7 @@ def simulate_dpb(sps, frames, outfile):
             diff_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
+            ltpn_idx = 0
             ops = frame["mmco"]
             is_ltr = False
             i = 0
@@ -354,7 +365,11 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    lt_num = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == lt_num)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From a5f010732f612904dadbfeec9cb892205be18605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 28/39] fix: dpb_parse: operation 3 frees the long-term index
 it assigns

Section 8.2.5.4.3: when the index is already assigned to another frame, that
frame is no longer used for reference. It stayed in the DPB, which then had
two frames with the same index.
---
 tools/h264nal-dpb_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index e6c7d68..b187681 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -376,6 +376,9 @@ def simulate_dpb(sps, frames, outfile):
                     pic_num = frame["frame_num"] - (diff + 1)
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
+                    ]
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
                             e["is_ltr"] = True
-- 
2.43.0


From d619c227e049a5f3260576efa448f668826329ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 29/39] fix: dpb_parse: picture numbers wrap around with
 frame_num

Section 8.2.4.1: a short-term picture whose frame_num is larger than the
current one was decoded before frame_num wrapped: its picture number is
frame_num - MaxFrameNum. Operations 1 and 3 did not find such a picture, and
the reference list was in the wrong order after every wrap.
---
 tools/h264nal-dpb_parse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index b187681..bcbe9bb 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -179,11 +179,10 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def build_ref_pic_list0(dpb, frame, max_frame_num):
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
-        reverse=True,
+        key=lambda e: (frame["frame_num"] - e["frame_num"]) % max_frame_num,
     )
     ltrs = sorted(
         [e for e in dpb if e["is_ltr"]],
@@ -313,7 +312,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
@@ -358,7 +357,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -373,7 +374,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     dpb = [
-- 
2.43.0


From 1b66f5a0eb84906afcc552a270398399d3d6e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 30/39] fix: dpb_parse: a picture with operation 5 is a
 reference with frame_num 0

Section 7.4.3: after a picture with memory_management_control_operation 5,
its frame_num is considered to be 0 (the next picture is numbered from there).
---
 tools/h264nal-dpb_parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index bcbe9bb..e4bc5f1 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -349,6 +349,7 @@ def simulate_dpb(sps, frames, outfile):
             ltpn_idx = 0
             ops = frame["mmco"]
             is_ltr = False
+            frame_num = frame["frame_num"]
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -398,6 +399,7 @@ def simulate_dpb(sps, frames, outfile):
                         ]
                 elif op == 5:
                     dpb = []
+                    frame_num = 0
                 elif op == 6:
                     is_ltr = True
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
@@ -407,7 +409,7 @@ def simulate_dpb(sps, frames, outfile):
                     ]
                     dpb.append(
                         {
-                            "frame_num": frame["frame_num"],
+                            "frame_num": frame_num,
                             "is_ltr": True,
                             "ltr_idx": ltf_idx,
                             "abs_frame": abs_frame,
@@ -417,7 +419,7 @@ def simulate_dpb(sps, frames, outfile):
             if not is_ltr:
                 dpb.append(
                     {
-                        "frame_num": frame["frame_num"],
+                        "frame_num": frame_num,
                         "is_ltr": False,
                         "ltr_idx": -1,
                         "abs_frame": abs_frame,
-- 
2.43.0


From 74da05820644a8f5c9cc16c05635b381d72405a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 31/39] fix: dpb_parse: do not loop forever when only long-term
 pictures are left

The sliding window removed short-term pictures until the DPB was within
max_num_ref_frames. When the long-term pictures alone exceed it (a broken
stream), there is nothing left to remove.
---
 tools/h264nal-dpb_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index e4bc5f1..74625a6 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -436,7 +436,7 @@ def simulate_dpb(sps, frames, outfile):
             )
             str_count = sum(1 for e in dpb if not e["is_ltr"])
             ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
+            while str_count > 0 and str_count + ltr_count > max_num_ref_frames:
                 for j, e in enumerate(dpb):
                     if not e["is_ltr"]:
                         dpb.pop(j)
-- 
2.43.0


From d76bca8041e7d676d2483fb89c29b7b2c5f1e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 32/39] fix: dpb_parse: a reference list may hold the same
 picture more than once

Section 8.2.4.3.1: a list modification inserts the picture at the current
index and removes it only from the entries that follow. Naming a picture a
second time (as weighted prediction does) moved the first entry instead.
---
 tools/h264nal-dpb_parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 74625a6..302c763 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -220,9 +220,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
             for i, e in enumerate(ref_list):
                 if not e["is_ltr"] and e["frame_num"] == target_fn:
                     found = i
-                    break
             if found is not None:
-                entry = ref_list.pop(found)
+                entry = ref_list[found]
+                if found >= ref_idx:
+                    ref_list.pop(found)
                 ref_list.insert(ref_idx, entry)
                 ref_idx += 1
         elif idc == 2:
@@ -232,9 +233,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
             for i, e in enumerate(ref_list):
                 if e["is_ltr"] and e["ltr_idx"] == lt_num:
                     found = i
-                    break
             if found is not None:
-                entry = ref_list.pop(found)
+                entry = ref_list[found]
+                if found >= ref_idx:
+                    ref_list.pop(found)
                 ref_list.insert(ref_idx, entry)
                 ref_idx += 1
 
-- 
2.43.0


From a24ae4ec096a88d8f19e98b89d3f7b4474c363eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:43 +0000
Subject: [PATCH 33/39] fix: dpb_parse: take the default reference count from
 the slice's own PPS

A stream may have several PPSs; the last one seen was used for all slices.
---
 tools/h264nal-dpb_parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 302c763..ecd1739 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -52,7 +52,8 @@ def parse_frames(content):
             continue
 
         if nal_type == 8:
-            pps["num_ref_idx_l0_default_active_minus1"] = int(
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            pps[pps_id] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
@@ -85,7 +86,11 @@ def parse_frames(content):
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
             frame["num_ref_idx_l0_active"] = (
-                pps.get("num_ref_idx_l0_default_active_minus1", 0) + 1
+                pps.get(
+                    int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1)),
+                    0,
+                )
+                + 1
             )
 
         if nal_type == 5:
-- 
2.43.0


From 669bffd027245404c49e1461462851b52c4e91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:54 +0000
Subject: [PATCH 34/39] fix: dpb_parse: do not list redundant coded pictures as
 pictures of their own

---
 tools/h264nal-dpb_parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index ecd1739..7738773 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -67,6 +67,11 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
+        # a redundant coded picture is not another picture
+        redundant_m = re.search(r"redundant_pic_cnt: (\d+)", nal_text)
+        if redundant_m and int(redundant_m.group(1)) > 0:
+            continue
+
         slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1)) % 5
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
         nal_ref_idc = int(re.search(r"nal_ref_idc: (\d+)", nal_text).group(1))
-- 
2.43.0


From a2def5897046de02462524c1f40abb0729bf51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:13 +0000
Subject: [PATCH 35/39] fix: rtp: separate the packet body from the header in
 the dump of an RTP packet

RtpState::fdump() printed the body (rtp_single, rtp_stapa, rtp_fua) right
behind the closing brace of nal_unit_header: no blank between them in the
one-line form, and no line break and indentation in the indented one.
---
 src/h264_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 159d2e5..d626ae0 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -90,12 +90,15 @@ void H264RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 23) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_STAPA_NUT) {
     // rtp_stapa()
+    fdump_indent_level(outfp, indent_level);
     rtp_stapa->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_FUA_NUT) {
     // rtp_fua()
+    fdump_indent_level(outfp, indent_level);
     rtp_fua->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 9a94897253add26b507281009722d69a3129d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 36/39] fix: h264nal-conformance: handle file names that are
 not valid text

The file names are quoted in h264nal's error output, which was decoded
strictly: a single file whose name is not valid in the locale's encoding
ended the whole run with an exception and no report at all. Decode and
write the names with surrogateescape, so that they come out as they are.
---
 tools/h264nal-conformance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-conformance.py b/tools/h264nal-conformance.py
index 21f5634..a49bbf5 100755
--- a/tools/h264nal-conformance.py
+++ b/tools/h264nal-conformance.py
@@ -86,6 +86,8 @@ def run_h264nal(input_path, h264nal_path, timeout):
             ],
             capture_output=True,
             text=True,
+            # h264nal quotes file names, which can be any bytes
+            errors="surrogateescape",
             timeout=timeout,
         )
     except subprocess.TimeoutExpired:
@@ -278,10 +280,13 @@ def main(argv):
         rows.append(analyze_file(input_path, options.h264nal_path,
                                  options.timeout))
 
+    # file names can be any bytes: write them as they are
     if options.outfile is None:
+        sys.stdout.reconfigure(errors="surrogateescape")
         write_csv(sys.stdout, rows)
     else:
-        with open(options.outfile, "w", newline="") as fout:
+        with open(options.outfile, "w", newline="",
+                  errors="surrogateescape") as fout:
             write_csv(fout, rows)
 
     if not options.quiet:
-- 
2.43.0


From ce2519a41719c2ade6dc34e3fd0d14333013cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:26 +0000
Subject: [PATCH 37/39] fix: FindNaluIndicesExplicitFraming: do not wrap the
 offset after a unit of nearly 4 GiB

4 + nal_unit_size was computed in 32 bits, so a unit of 0xfffffffc bytes
or more made the walk go back to (or stay at) its own size field.
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 660dc7e..1aba386 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -112,7 +112,7 @@ H264BitstreamParser::FindNaluIndicesExplicitFraming(const uint8_t* data,
     // This is a start sequence
     NaluIndex index = {i, i + 4, nal_unit_size};
     sequences.push_back(index);
-    i += (4 + nal_unit_size);
+    i += 4 + static_cast<size_t>(nal_unit_size);
   }
 
   return sequences;
-- 
2.43.0


From 5c58997c6c38c58e85939c14dc860c3699d46caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:23 +0000
Subject: [PATCH 38/39] fix: h264nal --dump-length: do not truncate unit and
 frame sizes to 31 bits

A unit of 2 GiB or more was listed with a negative length, and the size
of a frame of several such units overflowed.
---
 tools/h264nal.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 73368cb..ac9af74 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -489,7 +489,7 @@ int main(int argc, char** argv) {
               "nal_length_bytes,bitrate_bps,first_mb_in_slice\n");
     }
     // 4.3. dump the contents of each NALU
-    int total_bytes = 0;
+    size_t total_bytes = 0;
     int nal_num = 0;
     int frame_num = 0;
     int last_slice_nal_unit_type = -1;
@@ -513,7 +513,7 @@ int main(int argc, char** argv) {
         uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
         std::string nal_unit_type_str =
             h264nal::NalUnitTypeToString(nal_unit_type);
-        int nal_length_bytes = nal_unit->length;
+        size_t nal_length_bytes = nal_unit->length;
         int64_t bitrate_bps = -1;
         int first_mb_in_slice = -1;
         bool is_slice_segment = h264nal::IsSliceSegment(nal_unit_type);
@@ -541,7 +541,7 @@ int main(int argc, char** argv) {
           last_slice_nal_unit_type = static_cast<int>(nal_unit_type);
           total_bytes += nal_length_bytes;
         }
-        fprintf(outfp, "%i,%i,%i,%s,%i,,%s\n", nal_num, frame_num,
+        fprintf(outfp, "%i,%i,%i,%s,%zu,,%s\n", nal_num, frame_num,
                 nal_unit_type, nal_unit_type_str.c_str(), nal_length_bytes,
                 opt_value(first_mb_in_slice, is_slice_segment).c_str());
         nal_num += 1;
-- 
2.43.0


From f0fda8fb06d8af48110806ae6be320e5b7e0a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:18 +0000
Subject: [PATCH 39/39] fix: BitBuffer: accept buffers of 4 GiB and more

The constructor asserted that the size fits 32 bits, which aborted the
parsing of a NAL unit larger than that; all of the class works in size_t.
---
 src/rtc_common.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index dbb6a94..e315208 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -78,10 +78,7 @@ size_t CountBits(uint64_t val) {
 }
 
 BitBuffer::BitBuffer(const uint8_t* bytes, size_t byte_count)
-    : bytes_(bytes), byte_count_(byte_count), byte_offset_(), bit_offset_() {
-  RTC_DCHECK(static_cast<uint64_t>(byte_count_) <=
-             std::numeric_limits<uint32_t>::max());
-}
+    : bytes_(bytes), byte_count_(byte_count), byte_offset_(), bit_offset_() {}
 
 uint64_t BitBuffer::RemainingBitCount() const {
   return (static_cast<uint64_t>(byte_count_) - byte_offset_) * 8 - bit_offset_;
-- 
2.43.0

