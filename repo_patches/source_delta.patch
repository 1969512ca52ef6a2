From b3500431ff10c1c6762a214f9ffe523e49cae10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 01/38] fix: read sub_layer_level_idc when its own present flag
 is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From 3462e455ebbef60c520940e62b7776701b73e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 02/38] fix: read cprms_present_flag as u(1) and infer 1 for
 the first entry

---
 src/h265_vps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..aaea262 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,13 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // cprms_present_flag[0] is inferred to be equal to 1
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From 01628ad46c2da43bdfa60c31a8728cc332cee103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 03/38] fix: infer fixed_pic_rate_within_cvs_flag as 1 when the
 general flag is set

---
 src/h265_hrd_parameters_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..69d2739 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,8 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // inferred to be equal to 1 when fixed_pic_rate_general_flag[i] is 1
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From 657bb21676d463fd685999a233abd4a626e253a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 04/38] fix: inherit the common HRD information when
 cprms_present_flag is 0

---
 include/h265_hrd_parameters_parser.h |  5 ++++-
 src/h265_hrd_parameters_parser.cc    | 30 +++++++++++++++++++++++++++-
 src/h265_vps_parser.cc               |  2 +-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/h265_hrd_parameters_parser.h b/include/h265_hrd_parameters_parser.h
index 13f61e5..f40421e 100644
--- a/include/h265_hrd_parameters_parser.h
+++ b/include/h265_hrd_parameters_parser.h
@@ -64,9 +64,12 @@ class H265HrdParametersParser {
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       const uint8_t* data, size_t length, uint32_t commonInfPresentFlag,
       uint32_t maxNumSubLayersMinus1) noexcept;
+  // When commonInfPresentFlag is 0, the common information is derived to be
+  // the same as that of previous_hrd_parameters (if any).
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-      uint32_t maxNumSubLayersMinus1) noexcept;
+      uint32_t maxNumSubLayersMinus1,
+      const HrdParametersState* previous_hrd_parameters = nullptr) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 69d2739..3b251d0 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -33,7 +33,8 @@ H265HrdParametersParser::ParseHrdParameters(
 std::unique_ptr<H265HrdParametersParser::HrdParametersState>
 H265HrdParametersParser::ParseHrdParameters(
     BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-    uint32_t maxNumSubLayersMinus1) noexcept {
+    uint32_t maxNumSubLayersMinus1,
+    const HrdParametersState* previous_hrd_parameters) noexcept {
   uint32_t bits_tmp;
   uint32_t golomb_tmp;
 
@@ -128,6 +129,33 @@ H265HrdParametersParser::ParseHrdParameters(
         return nullptr;
       }
     }
+  } else if (previous_hrd_parameters != nullptr) {
+    hrd_parameters->nal_hrd_parameters_present_flag =
+        previous_hrd_parameters->nal_hrd_parameters_present_flag;
+    hrd_parameters->vcl_hrd_parameters_present_flag =
+        previous_hrd_parameters->vcl_hrd_parameters_present_flag;
+    hrd_parameters->sub_pic_hrd_params_present_flag =
+        previous_hrd_parameters->sub_pic_hrd_params_present_flag;
+    hrd_parameters->tick_divisor_minus2 =
+        previous_hrd_parameters->tick_divisor_minus2;
+    hrd_parameters->du_cpb_removal_delay_increment_length_minus1 =
+        previous_hrd_parameters->du_cpb_removal_delay_increment_length_minus1;
+    hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag =
+        previous_hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag;
+    hrd_parameters->dpb_output_delay_du_length_minus1 =
+        previous_hrd_parameters->dpb_output_delay_du_length_minus1;
+    hrd_parameters->bit_rate_scale =
+        previous_hrd_parameters->bit_rate_scale;
+    hrd_parameters->cpb_size_scale =
+        previous_hrd_parameters->cpb_size_scale;
+    hrd_parameters->cpb_size_du_scale =
+        previous_hrd_parameters->cpb_size_du_scale;
+    hrd_parameters->initial_cpb_removal_delay_length_minus1 =
+        previous_hrd_parameters->initial_cpb_removal_delay_length_minus1;
+    hrd_parameters->au_cpb_removal_delay_length_minus1 =
+        previous_hrd_parameters->au_cpb_removal_delay_length_minus1;
+    hrd_parameters->dpb_output_delay_length_minus1 =
+        previous_hrd_parameters->dpb_output_delay_length_minus1;
   }
 
   for (uint32_t i = 0; i <= maxNumSubLayersMinus1; i++) {
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index aaea262..64576ba 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -237,7 +237,7 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
       vps->hrd_parameters = H265HrdParametersParser::ParseHrdParameters(
           bit_buffer, vps->cprms_present_flag[i],
-          vps->vps_max_sub_layers_minus1);
+          vps->vps_max_sub_layers_minus1, vps->hrd_parameters.get());
       if (vps->hrd_parameters == nullptr) {
         return nullptr;
       }
-- 
2.43.0


From 544f3495daac1a487634a2f468a7b332ea587989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 05/38] fix: chroma_bit_depth_entry_minus8 is coded when the
 palette is not monochrome

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From b5d28c09bb06e0abdd01727e57e4fd81741081d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 06/38] fix: avoid signed overflow for large positive se(v)
 values

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..caf874f 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>(unsigned_val / 2) + 1;
   }
   return true;
 }
-- 
2.43.0


From 9533aa0076b32b521bb0e854bf95e02cc17a29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 07/38] fix: the resampling phases of pps_multilayer_extension
 are ue(v)

---
 src/h265_pps_multilayer_extension_parser.cc | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..495f865 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,33 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
     }
   }
 
-- 
2.43.0


From 0ef6a4fc5bc0b171a94847b6a04d4fe6b0f76788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 08/38] fix: refuse a PPS whose multilayer extension cannot be
 parsed

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 4dbe437ff05fcd1b57cdb4df028739c607f11950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 09/38] fix: dump diff_cu_qp_delta_depth instead of the enabled
 flag twice

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From b4a734c6a0a3a56e1595d50032817d74d909b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 10/38] fix: derive ChromaArrayType even when sample adaptive
 offset is disabled

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..b5e4405 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From cafd83795399e3b246ee3c1b7fdb1d695d5031cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 11/38] fix: infer the number of active reference indices from
 the PPS defaults

---
 src/h265_slice_parser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index b5e4405..e5ef7f7 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -391,6 +391,14 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
+      // when not present, the number of active reference indices is inferred
+      // from the PPS defaults
+      slice_segment_header->num_ref_idx_l0_active_minus1 =
+          pps->num_ref_idx_l0_default_active_minus1;
+      if (slice_segment_header->slice_type == SliceType_B) {
+        slice_segment_header->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
+      }
       if (slice_segment_header->num_ref_idx_active_override_flag) {
         // num_ref_idx_l0_active_minus1  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From a1a9982ef77582ee041c9d5e2263a17a75962257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 12/38] fix: infer slice_deblocking_filter_disabled_flag from
 the PPS

---
 src/h265_slice_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index e5ef7f7..2c6c9e1 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -572,6 +572,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // when not present, slice_deblocking_filter_disabled_flag is inferred to be
+    // equal to pps_deblocking_filter_disabled_flag
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From 5f4b10975d126cacdb957147f6f78de3977c0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 13/38] fix: limit of num_entry_point_offsets with both tiles
 and wavefronts

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2c6c9e1..1375fe8 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -714,7 +714,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 44e140cd6a4015e0780f8bfe11069bfa83650c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 14/38] fix: parse the list 1 entries of pred_weight_table()
 for B slices

---
 include/h265_pred_weight_table_parser.h |  10 +-
 src/h265_pred_weight_table_parser.cc    | 131 +++++++++++++++++++++++-
 src/h265_slice_parser.cc                |   4 +-
 3 files changed, 139 insertions(+), 6 deletions(-)

diff --git a/include/h265_pred_weight_table_parser.h b/include/h265_pred_weight_table_parser.h
index 0a455d0..b824ea7 100644
--- a/include/h265_pred_weight_table_parser.h
+++ b/include/h265_pred_weight_table_parser.h
@@ -35,6 +35,8 @@ class H265PredWeightTableParser {
     // input parameters
     uint32_t ChromaArrayType = 0;
     uint32_t num_ref_idx_l0_active_minus1 = 0;
+    bool is_b_slice = false;
+    uint32_t num_ref_idx_l1_active_minus1 = 0;
 
     // contents
     uint32_t luma_log2_weight_denom = 0;
@@ -57,10 +59,14 @@ class H265PredWeightTableParser {
   // Unpack RBSP and parse PredWeightTable state from the supplied buffer.
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1,
+      bool is_b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1,
+      bool is_b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..7660060 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -23,17 +23,20 @@ namespace h265nal {
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParsePredWeightTable(&bit_buffer, ChromaArrayType,
-                              num_ref_idx_l0_active_minus1);
+                              num_ref_idx_l0_active_minus1, is_b_slice,
+                              num_ref_idx_l1_active_minus1);
 }
 
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   uint32_t bits_tmp;
   int32_t sgolomb_tmp;
 
@@ -45,6 +48,9 @@ H265PredWeightTableParser::ParsePredWeightTable(
   pred_weight_table->ChromaArrayType = ChromaArrayType;
   pred_weight_table->num_ref_idx_l0_active_minus1 =
       num_ref_idx_l0_active_minus1;
+  pred_weight_table->is_b_slice = is_b_slice;
+  pred_weight_table->num_ref_idx_l1_active_minus1 =
+      num_ref_idx_l1_active_minus1;
 
   // luma_log2_weight_denom  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
@@ -121,6 +127,69 @@ H265PredWeightTableParser::ParsePredWeightTable(
     }
   }
 
+  if (pred_weight_table->is_b_slice) {
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+      // "1 (is not same POC and same layer_id)"
+      // luma_weight_l1_flag[i]  u(1)
+      if (!bit_buffer->ReadBits(1, bits_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->luma_weight_l1_flag.push_back(bits_tmp);
+    }
+
+    if (pred_weight_table->ChromaArrayType != 0) {
+      for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+           ++i) {
+        // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+        // "1 (is not same POC and same layer_id)"
+        // chroma_weight_l1_flag[i]  u(1)
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->chroma_weight_l1_flag.push_back(bits_tmp);
+      }
+    }
+
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      if (pred_weight_table->luma_weight_l1_flag[i]) {
+        // delta_luma_weight_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->delta_luma_weight_l1.push_back(sgolomb_tmp);
+        // luma_offset_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->luma_offset_l1.push_back(sgolomb_tmp);
+      }
+      if (pred_weight_table->ChromaArrayType != 0) {
+        if (pred_weight_table->chroma_weight_l1_flag[i]) {
+          pred_weight_table->delta_chroma_weight_l1.emplace_back();
+          pred_weight_table->delta_chroma_offset_l1.emplace_back();
+          for (int j = 0; j < 2; ++j) {
+            // delta_chroma_weight_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_weight_l1.back().push_back(
+                sgolomb_tmp);
+
+            // delta_chroma_offset_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_offset_l1.back().push_back(
+                sgolomb_tmp);
+          }
+        }
+      }
+    }
+  }
+
   return pred_weight_table;
 }
 
@@ -193,6 +262,62 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
     fprintf(outfp, " }");
   }
 
+  if (is_b_slice) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_weight_l1_flag {");
+    for (const uint32_t& v : luma_weight_l1_flag) {
+      fprintf(outfp, " %u", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "chroma_weight_l1_flag {");
+      for (const uint32_t& v : chroma_weight_l1_flag) {
+        fprintf(outfp, " %u", v);
+      }
+      fprintf(outfp, " }");
+    }
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "delta_luma_weight_l1 {");
+    for (const int32_t& v : delta_luma_weight_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_offset_l1 {");
+    for (const int32_t& v : luma_offset_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_weight_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_weight_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_offset_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_offset_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+    }
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 1375fe8..a385b8e 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -476,7 +476,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         slice_segment_header->pred_weight_table =
             H265PredWeightTableParser::ParsePredWeightTable(
                 bit_buffer, slice_segment_header->ChromaArrayType,
-                slice_segment_header->num_ref_idx_l0_active_minus1);
+                slice_segment_header->num_ref_idx_l0_active_minus1,
+                slice_segment_header->slice_type == SliceType_B,
+                slice_segment_header->num_ref_idx_l1_active_minus1);
         if (slice_segment_header->pred_weight_table == nullptr) {
           return nullptr;
         }
-- 
2.43.0


From 4ba8f54c826d68e690b9aeb74fc41e1fc42be6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 15/38] fix: dump the long-term reference lists of a slice
 once, not once per entry

---
 src/h265_slice_parser.cc | 45 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index a385b8e..e78f542 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -796,33 +796,32 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         fdump_indent_level(outfp, indent_level);
         fprintf(outfp, "num_long_term_pics: %i", num_long_term_pics);
 
-        for (uint32_t i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
-          if (i < num_long_term_sps) {
-            if (num_long_term_ref_pics_sps > 1) {
-              fdump_indent_level(outfp, indent_level);
-              fprintf(outfp, "lt_idx_sps {");
-              for (const uint32_t& v : lt_idx_sps) {
-                fprintf(outfp, " %i", v);
-              }
-              fprintf(outfp, " }");
-            }
+        if (num_long_term_sps > 0 && num_long_term_ref_pics_sps > 1) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "lt_idx_sps {");
+          for (const uint32_t& v : lt_idx_sps) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
+        }
 
-          } else {
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "poc_lsb_lt {");
-            for (const uint32_t& v : poc_lsb_lt) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+        if (num_long_term_pics > 0) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "poc_lsb_lt {");
+          for (const uint32_t& v : poc_lsb_lt) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
 
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "used_by_curr_pic_lt_flag {");
-            for (const uint32_t& v : used_by_curr_pic_lt_flag) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "used_by_curr_pic_lt_flag {");
+          for (const uint32_t& v : used_by_curr_pic_lt_flag) {
+            fprintf(outfp, " %i", v);
           }
+          fprintf(outfp, " }");
+        }
 
+        if (num_long_term_sps > 0 || num_long_term_pics > 0) {
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_present_flag {");
           for (const uint32_t& v : delta_poc_msb_present_flag) {
-- 
2.43.0


From c0b90ac92b4e77b59cdf7166ee2009f59dae4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 16/38] fix: delimit the NAL units of an RTP aggregation packet
 by their sizes

---
 src/h265_rtp_ap_parser.cc | 18 ++++++++++++++----
 src/h265_rtp_parser.cc    |  6 ++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index b16af27..45f361c 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -25,8 +25,9 @@ namespace h265nal {
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // the NALU sizes in the packet count escaped bytes: do not unescape the
+  // whole packet here, but each of the aggregated NAL units on its own
+  BitBuffer bit_buffer(data, length);
   return ParseRtpAp(&bit_buffer, bitstream_parser_state);
 }
 
@@ -57,9 +58,18 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     }
     rtp_ap->nal_unit_sizes.push_back(nalu_size);
 
+    // unescape the NALU, which ends after nalu_size bytes
+    std::vector<uint8_t> nalu_buffer(nalu_size);
+    if (!bit_buffer->ReadBytes(nalu_size, nalu_buffer.data())) {
+      return nullptr;
+    }
+    std::vector<uint8_t> unpacked_buffer =
+        UnescapeRbsp(nalu_buffer.data(), nalu_buffer.size());
+    BitBuffer nalu_bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+
     // NALU header
     rtp_ap->nal_unit_headers.push_back(
-        H265NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H265NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_ap->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -70,7 +80,7 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     // NALU payload
     rtp_ap->nal_unit_payloads.push_back(
         H265NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
+            &nalu_bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
             bitstream_parser_state));
     if (rtp_ap->nal_unit_payloads.back() == nullptr) {
       return nullptr;
diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f923af..667e2d7 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -23,6 +23,12 @@ namespace h265nal {
 std::unique_ptr<H265RtpParser::RtpState> H265RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && ((data[0] >> 1) & 0x3f) == AP) {
+    // an aggregation packet contains several NAL units, each of them escaped on
+    // its own
+    BitBuffer bit_buffer(data, length);
+    return ParseRtp(&bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
-- 
2.43.0


From ef801247a296ff39586fd8cc2b3316af488b8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 17/38] fix: do not dump an access unit delimiter that was not
 parsed

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 02d99934b8196258a983f43a2602d1f9ca2f7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 18/38] fix: do not dump a configuration box NAL unit that was
 not parsed

---
 src/h265_configuration_box_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..d1ed942 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -360,7 +360,9 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
       fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i] != nullptr) {
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From c2a850f8f18e362e5dc8a034acd43ca914bc5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 19/38] fix: do not dump a NAL unit checksum that was not
 calculated

---
 src/h265_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 45236b692dd3fc1defda5a056e7d860e71686381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 20/38] fix: NALU lengths close to SIZE_MAX overflowed the
 bounds check

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..54c615e 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From f9347bab8ff3465bbb8fa56f98b0b7811063086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 21/38] fix: report the NALU length, not the size of the length
 field

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 54c615e..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 93237d6836d08f8bd995afdfb27dd00b5afdf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 22/38] fix: reading a directory as input file tried to
 allocate its bogus size

---
 src/h265_utils.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..73a811f 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -6,6 +6,7 @@
 
 #include <stdio.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <iostream>
@@ -156,10 +157,22 @@ int H265Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
-  // read file into buffer
-  buffer.resize(static_cast<size_t>(size));
-  size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-                            static_cast<size_t>(size), infp);
+  // read file into buffer, which grows with the data: the reported size may be
+  // no real one (e.g. for a directory)
+  constexpr size_t chunk_size = 1 << 20;
+  buffer.clear();
+  size_t bytes_read = 0;
+  while (bytes_read < static_cast<size_t>(size)) {
+    size_t bytes_wanted =
+        std::min(chunk_size, static_cast<size_t>(size) - bytes_read);
+    buffer.resize(bytes_read + bytes_wanted);
+    size_t bytes_got = fread(reinterpret_cast<char*>(&buffer[bytes_read]), 1,
+                             bytes_wanted, infp);
+    bytes_read += bytes_got;
+    if (bytes_got != bytes_wanted) {
+      break;
+    }
+  }
   // clean up
   fclose(infp);
   if (bytes_read != static_cast<size_t>(size)) {
-- 
2.43.0


From ab40891cd54c41ca3d2fe4f6d1e7080e358b30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 23/38] fix: report errors while reading the standard input

---
 src/h265_utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 73a811f..281427d 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -9,7 +9,6 @@
 #include <algorithm>
 #include <cstdint>
 #include <cstring>
-#include <iostream>
 #include <memory>
 #include <vector>
 
@@ -25,11 +24,14 @@ int ReadStdinToBuffer(std::vector<uint8_t>& buffer) {
   constexpr size_t chunk_size = 4096;
   uint8_t temp[chunk_size];
   while (true) {
-    std::cin.read(reinterpret_cast<char*>(temp), chunk_size);
-    std::streamsize bytes_read = std::cin.gcount();
-    if (bytes_read <= 0) break;
+    size_t bytes_read = fread(temp, 1, chunk_size, stdin);
+    if (bytes_read == 0) break;
     buffer.insert(buffer.end(), temp, temp + bytes_read);
   }
+  if (ferror(stdin)) {
+    fprintf(stderr, "Could not read entire standard input\n");
+    return -1;
+  }
   return 0;
 }
 }  // namespace
-- 
2.43.0


From 87c71aac700850a2345a769b869418eed88b7fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 24/38] fix: fail when the output of the h265nal tool cannot be
 written

---
 tools/h265nal.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..fe599ed 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -553,9 +553,14 @@ int main(int argc, char** argv) {
   }
 #endif  // FDUMP_DEFINE
 
-  // clean-up FD
-  if (must_close_fp) {
-    fclose(outfp);
+  // clean-up FD, making sure that all the output was written
+  bool output_error = (fflush(outfp) != 0) || ferror(outfp);
+  if (must_close_fp && fclose(outfp) != 0) {
+    output_error = true;
+  }
+  if (output_error) {
+    fprintf(stderr, "Could not write all the output\n");
+    return -1;
   }
 
   return 0;
-- 
2.43.0


From 088c23e380de1ad2b185cad45f559ea1a1e3ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 25/38] fix: --dump-length crashed on slices that cannot be
 parsed

---
 tools/h265nal.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index fe599ed..abb8854 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -505,16 +505,22 @@ int main(int argc, char** argv) {
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
         bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
+        // slices that cannot be parsed have no slice header
+        bool has_slice_header = false;
         if (is_slice_segment) {
-          first_slice_segment_in_pic_flag =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->first_slice_segment_in_pic_flag;
-          slice_segment_address =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->slice_segment_address;
-          slice_pic_order_cnt_lsb =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->slice_pic_order_cnt_lsb;
+          const auto& slice_segment_layer =
+              nal_unit->nal_unit_payload->slice_segment_layer;
+          if (slice_segment_layer != nullptr &&
+              slice_segment_layer->slice_segment_header != nullptr) {
+            has_slice_header = true;
+            const auto& slice_segment_header =
+                slice_segment_layer->slice_segment_header;
+            first_slice_segment_in_pic_flag =
+                slice_segment_header->first_slice_segment_in_pic_flag;
+            slice_segment_address = slice_segment_header->slice_segment_address;
+            slice_pic_order_cnt_lsb =
+                slice_segment_header->slice_pic_order_cnt_lsb;
+          }
           if (first_slice_segment_in_pic_flag == 1 && total_bytes > 0) {
             // dump last frame info
             bitrate_bps = total_bytes * 8 *
@@ -531,12 +537,12 @@ int main(int argc, char** argv) {
             outfp, "%zu,%zu,%u,%s,%zu,,%s,%s,%s\n", nal_num, frame_num,
             nal_unit_type, nal_unit_type_str.c_str(), nal_length_bytes,
             opt_value(static_cast<int>(first_slice_segment_in_pic_flag),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str(),
-            opt_value(static_cast<int>(slice_segment_address), is_slice_segment)
+            opt_value(static_cast<int>(slice_segment_address), has_slice_header)
                 .c_str(),
             opt_value(static_cast<int>(slice_pic_order_cnt_lsb),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str());
         nal_num += 1;
       }
-- 
2.43.0


From 3bda38f2030a48cd02368da33ff14f47125d5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 26/38] fix: slice QP query of an RTP aggregation packet
 without NAL units

---
 src/h265_utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 281427d..7891ed3 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -92,6 +92,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
     // use the latest NAL unit in the AP
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
     nal_unit_type = header->nal_unit_type;
-- 
2.43.0


From 9fc0114c884de2944f0c9ac5e272373d6f9cdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 27/38] fix: signed overflow in the slice QP query

---
 src/h265_utils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 7891ed3..c912fcf 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -72,9 +72,13 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int64_t slice_qpy = 26 + static_cast<int64_t>(init_qp_minus26) +
+                      static_cast<int64_t>(slice_qp_delta);
+  if (slice_qpy < INT32_MIN || slice_qpy > INT32_MAX) {
+    return nullptr;
+  }
 
-  return std::make_unique<int32_t>(slice_qpy);
+  return std::make_unique<int32_t>(static_cast<int32_t>(slice_qpy));
 }
 }  // namespace
 
-- 
2.43.0


From b396be58044fb0f2ff4c25982072ef6f781bb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 28/38] fix: slice QP query uses the PPS in force at each slice

---
 src/h265_utils.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index c912fcf..aca55df 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -127,13 +127,17 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
   // parse the incoming bitstream
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
-  // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
-    // get the slice QP_Y value
+    // get the slice QP_Y value before any later PPS replaces the current one
     auto slice_qp_y_value =
         GetSliceQpYInternal(nal_unit_type, payload, bitstream_parser_state);
     if (slice_qp_y_value != nullptr) {
-- 
2.43.0


From 29211d2d984365da8068bb0c54c0d9ca5245aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 29/38] fix: delta_poc_s0/s1_minus1 out of range overflowed the
 derived values

---
 include/h265_st_ref_pic_set_parser.h |  3 +++
 src/h265_st_ref_pic_set_parser.cc    | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..e6377aa 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -25,6 +25,9 @@ class H265StRefPicSetParser {
   // of 0 to 2^15 - 1, inclusive."
   const static uint32_t kAbsDeltaRpsMinus1Min = 0;
   const static uint32_t kAbsDeltaRpsMinus1Max = 32767;
+  // Section 7.4.8: "The value of delta_poc_s0_minus1[i] shall be in the range
+  // of 0 to 2^15 - 1, inclusive." (same for delta_poc_s1_minus1[i])
+  const static uint32_t kDeltaPocMinus1Max = 32767;
   // Section 7.4.8: "When nuh_layer_id of the current picture is equal to 0,
   // the value of num_negative_pics shall be in the range of 0 to
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1],
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..422560f 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s0_minus1[%" PRIu32 "]: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                i, golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +341,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s1_minus1[%" PRIu32 "]: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                i, golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From 23769099fd1e5232fb31d55709aed02df0e19cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 30/38] fix: signed overflow for out of range scaling list
 coefficients

---
 src/h265_scaling_list_data_parser.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..d64ff6d 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -83,9 +83,10 @@ H265ScalingListDataParser::ParseScalingListData(
             return nullptr;
           }
           nextCoef = static_cast<uint32_t>(
-              scaling_list_data
-                  ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
-              8);
+                         scaling_list_data
+                             ->scaling_list_dc_coef_minus8[sizeId - 2]
+                                                          [matrixId]) +
+                     8;
         }
         for (uint32_t i = 0; i < coefNum; i++) {
           // scaling_list_delta_coef  se(v)
@@ -94,9 +95,10 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
-          nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
-                                           scaling_list_delta_coef + 256) %
-                     256;
+          nextCoef =
+              (nextCoef + static_cast<uint32_t>(scaling_list_delta_coef) +
+               256) %
+              256;
           scaling_list_data->ScalingList[sizeId][matrixId].push_back(nextCoef);
         }
       }
-- 
2.43.0


From a9ad2418fac4f835f08119d93549ac0b3267fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 31/38] fix: pre_lut_target_value is coded with the output bit
 depth

---
 src/h265_sei_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..fb061d4 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -525,6 +525,8 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
       if (payload_state->pre_lut_num_val_minus1[c] > 0) {
         uint32_t bit_depth_used = static_cast<uint32_t>(
             ((payload_state->colour_remap_input_bit_depth + 7) >> 3) << 3);
+        uint32_t target_bit_depth_used = static_cast<uint32_t>(
+            ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
         for (uint32_t i = 0; i <= payload_state->pre_lut_num_val_minus1[c];
              i++) {
           // pre_lut_coded_value[c][i]  u(v)
@@ -540,7 +542,7 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(target_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From 694b1924acdb005f6164f2a1672a0e1ab7d6c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 32/38] fix: reading the standard input kept the old content of
 the buffer

---
 src/h265_utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index aca55df..041bf6c 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -23,6 +23,7 @@ namespace {
 int ReadStdinToBuffer(std::vector<uint8_t>& buffer) {
   constexpr size_t chunk_size = 4096;
   uint8_t temp[chunk_size];
+  buffer.clear();
   while (true) {
     size_t bytes_read = fread(temp, 1, chunk_size, stdin);
     if (bytes_read == 0) break;
-- 
2.43.0


From 09bd24a77619da0167eeac50988ce4eb6925737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 33/38] fix: check that seeking in the input file works

---
 src/h265_utils.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 041bf6c..8e50afd 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -163,14 +163,15 @@ int H265Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     fprintf(stderr, "Could not open input file: \"%s\"\n", filename);
     return -1;
   }
-  fseek(infp, 0, SEEK_END);
-  int64_t size = ftell(infp);
-  if (size <= 0) {
+  int64_t size = -1;
+  if (fseek(infp, 0, SEEK_END) == 0) {
+    size = ftell(infp);
+  }
+  if (size <= 0 || fseek(infp, 0, SEEK_SET) != 0) {
     fprintf(stderr, "Could not determine file size: \"%s\"\n", filename);
     fclose(infp);
     return -1;
   }
-  fseek(infp, 0, SEEK_SET);
   // read file into buffer, which grows with the data: the reported size may be
   // no real one (e.g. for a directory)
   constexpr size_t chunk_size = 1 << 20;
-- 
2.43.0


From 3ac11f9686e51c308389fddc44825d1d616f831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 34/38] fix: a start code at the end of the buffer is not part
 of the last NAL unit

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index ef34cb7..59e909b 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -60,7 +60,7 @@ H265BitstreamParser::FindNaluIndices(const uint8_t* data,
   }
 
   const size_t end = length - kNaluShortStartSequenceSize;
-  for (size_t i = 0; i < end;) {
+  for (size_t i = 0; i <= end;) {
     if (data[i + 2] > 1) {
       i += 3;
     } else if (data[i + 2] == 0x01 && data[i + 1] == 0x00 && data[i] == 0x00) {
-- 
2.43.0


From cbf62b97d800a218aab6b4c085f7ed6cd01923c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 35/38] fix: BitstreamState dumps ignored the options of parses
 with a given parser state

---
 src/h265_bitstream_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 59e909b..fded257 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -130,6 +130,7 @@ H265BitstreamParser::ParseBitstream(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -179,7 +180,6 @@ H265BitstreamParser::ParseBitstream(const uint8_t* data, size_t length,
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
@@ -195,6 +195,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
@@ -266,7 +267,6 @@ H265BitstreamParser::ParseBitstreamNALULength(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
-- 
2.43.0


From 6d1c71c4c0bc8920978289227bdd3b6e86e53083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:12 +0000
Subject: [PATCH 36/38] fix: print 32-bit counts unsigned in dumps

Bit rates, CPB sizes, latency increases, timing values and entry point
offsets are unsigned and legal up to 2^32-1 or 2^32-2: printed with %i,
values from 2^31 on came out negative.
---
 src/h265_slice_parser.cc                    | 2 +-
 src/h265_sps_parser.cc                      | 2 +-
 src/h265_sub_layer_hrd_parameters_parser.cc | 8 ++++----
 src/h265_vps_parser.cc                      | 8 ++++----
 src/h265_vui_parameters_parser.cc           | 6 +++---
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index e78f542..9774265 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -984,7 +984,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "entry_point_offset_minus1 {");
       for (const uint32_t& v : entry_point_offset_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..d9f7bed 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -674,7 +674,7 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_latency_increase_plus1 {");
   for (const uint32_t& v : sps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_sub_layer_hrd_parameters_parser.cc b/src/h265_sub_layer_hrd_parameters_parser.cc
index bd87f85..c004a7b 100644
--- a/src/h265_sub_layer_hrd_parameters_parser.cc
+++ b/src/h265_sub_layer_hrd_parameters_parser.cc
@@ -98,28 +98,28 @@ void H265SubLayerHrdParametersParser::SubLayerHrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_value_minus1 {");
   for (const uint32_t& v : cpb_size_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_du_value_minus1 {");
   for (const uint32_t& v : cpb_size_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_du_value_minus1 {");
   for (const uint32_t& v : bit_rate_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 64576ba..f16c67a 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -316,7 +316,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_latency_increase_plus1 {");
   for (const uint32_t& v : vps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -342,17 +342,17 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_timing_info_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_units_in_tick: %i", vps_num_units_in_tick);
+  fprintf(outfp, "vps_num_units_in_tick: %u", vps_num_units_in_tick);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_time_scale: %i", vps_time_scale);
+  fprintf(outfp, "vps_time_scale: %u", vps_time_scale);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_poc_proportional_to_timing_flag: %i",
           vps_poc_proportional_to_timing_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %i",
+  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %u",
           vps_num_ticks_poc_diff_one_minus1);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_vui_parameters_parser.cc b/src/h265_vui_parameters_parser.cc
index 031bf46..9070d04 100644
--- a/src/h265_vui_parameters_parser.cc
+++ b/src/h265_vui_parameters_parser.cc
@@ -517,10 +517,10 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (vui_timing_info_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_num_units_in_tick: %i", vui_num_units_in_tick);
+    fprintf(outfp, "vui_num_units_in_tick: %u", vui_num_units_in_tick);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_time_scale: %i", vui_time_scale);
+    fprintf(outfp, "vui_time_scale: %u", vui_time_scale);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "vui_poc_proportional_to_timing_flag: %i",
@@ -528,7 +528,7 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
     if (vui_poc_proportional_to_timing_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %i",
+      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %u",
               vui_num_ticks_poc_diff_one_minus1);
     }
 
-- 
2.43.0


From 0bba88557ffddfdc3e86d451aa0918c85cac33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 37/38] fix: check picture sizes against the coded minimum
 block size

---
 src/h265_sps_parser.cc | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index d9f7bed..293068f 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -123,19 +123,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  uint32_t MinCbSizeY = sps->getMinCbSizeY();
-  if ((sps->pic_width_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_width_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
-            sps->pic_width_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // pic_height_in_luma_samples  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(sps->pic_height_in_luma_samples)) {
@@ -153,18 +140,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  if ((sps->pic_height_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_height_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
-            sps->pic_height_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // conformance_window_flag  u(1)
   if (!bit_buffer->ReadBits(1, sps->conformance_window_flag)) {
@@ -323,6 +298,33 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
     return nullptr;
   }
 
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  uint32_t MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_width_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
+            sps->pic_width_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  if ((sps->pic_height_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_height_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
+            sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
           sps->log2_diff_max_min_luma_coding_block_size)) {
-- 
2.43.0


From f44384fb9b9cb773e5ae7df3b5568ee6e8ab3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:48 +0000
Subject: [PATCH 38/38] fix: refuse PPS ids beyond 63

---
 src/h265_pps_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index e5c534f..0da166a 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -43,6 +43,11 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
   if (!bit_buffer->ReadExponentialGolomb(pps->pps_pic_parameter_set_id)) {
     return nullptr;
   }
+  // pps_pic_parameter_set_id must be in range 0-63 per spec (a session keeps
+  // one PPS per id)
+  if (pps->pps_pic_parameter_set_id > 63) {
+    return nullptr;
+  }
 
   // pps_seq_parameter_set_id  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(pps->pps_seq_parameter_set_id)) {
-- 
2.43.0

