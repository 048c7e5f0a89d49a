// Field lists shared by the model structures and the comparison with the
// implementation's public state structures (same names on both sides).
//   U(x): uint32_t   I(x): int32_t   VU(x)/VI(x): vectors   VVI(x): vector of vectors
#pragma once
#define HRD_FIELDS(U, I, VU, VI, VVI)                                          \
  U(cpb_cnt_minus1) U(bit_rate_scale) U(cpb_size_scale)                        \
  VU(bit_rate_value_minus1) VU(cpb_size_value_minus1) VU(cbr_flag)             \
  U(initial_cpb_removal_delay_length_minus1)                                   \
  U(cpb_removal_delay_length_minus1) U(dpb_output_delay_length_minus1)         \
  U(time_offset_length)
#define VUI_FIELDS(U, I, VU, VI, VVI)                                          \
  U(aspect_ratio_info_present_flag) U(aspect_ratio_idc) U(sar_width)           \
  U(sar_height) U(overscan_info_present_flag) U(overscan_appropriate_flag)     \
  U(video_signal_type_present_flag) U(video_format) U(video_full_range_flag)   \
  U(colour_description_present_flag) U(colour_primaries)                       \
  U(transfer_characteristics) U(matrix_coefficients)                           \
  U(chroma_loc_info_present_flag) U(chroma_sample_loc_type_top_field)          \
  U(chroma_sample_loc_type_bottom_field) U(timing_info_present_flag)           \
  U(num_units_in_tick) U(time_scale) U(fixed_frame_rate_flag)                  \
  U(nal_hrd_parameters_present_flag) U(vcl_hrd_parameters_present_flag)        \
  U(low_delay_hrd_flag) U(pic_struct_present_flag)                             \
  U(bitstream_restriction_flag) U(motion_vectors_over_pic_boundaries_flag)     \
  U(max_bytes_per_pic_denom) U(max_bits_per_mb_denom)                          \
  U(log2_max_mv_length_horizontal) U(log2_max_mv_length_vertical)              \
  U(max_num_reorder_frames) U(max_dec_frame_buffering)
#define SPS_FIELDS(U, I, VU, VI, VVI)                                          \
  U(profile_idc) U(constraint_set0_flag) U(constraint_set1_flag)               \
  U(constraint_set2_flag) U(constraint_set3_flag) U(constraint_set4_flag)      \
  U(constraint_set5_flag) U(reserved_zero_2bits) U(level_idc)                  \
  U(seq_parameter_set_id) U(chroma_format_idc) U(separate_colour_plane_flag)   \
  U(bit_depth_luma_minus8) U(bit_depth_chroma_minus8)                          \
  U(qpprime_y_zero_transform_bypass_flag) U(seq_scaling_matrix_present_flag)   \
  VU(seq_scaling_list_present_flag) VU(ScalingList4x4)                         \
  VU(UseDefaultScalingMatrix4x4Flag) VU(ScalingList8x8)                        \
  VU(UseDefaultScalingMatrix8x8Flag) I(delta_scale)                            \
  U(log2_max_frame_num_minus4) U(pic_order_cnt_type)                           \
  U(log2_max_pic_order_cnt_lsb_minus4) U(delta_pic_order_always_zero_flag)     \
  I(offset_for_non_ref_pic) I(offset_for_top_to_bottom_field)                  \
  U(num_ref_frames_in_pic_order_cnt_cycle) VI(offset_for_ref_frame)            \
  U(max_num_ref_frames) U(gaps_in_frame_num_value_allowed_flag)                \
  U(pic_width_in_mbs_minus1) U(pic_height_in_map_units_minus1)                 \
  U(frame_mbs_only_flag) U(mb_adaptive_frame_field_flag)                       \
  U(direct_8x8_inference_flag) U(frame_cropping_flag)                          \
  U(frame_crop_left_offset) U(frame_crop_right_offset)                         \
  U(frame_crop_top_offset) U(frame_crop_bottom_offset)                         \
  U(vui_parameters_present_flag)
#define PPS_FIELDS(U, I, VU, VI, VVI)                                          \
  U(pic_parameter_set_id) U(seq_parameter_set_id) U(entropy_coding_mode_flag)  \
  U(bottom_field_pic_order_in_frame_present_flag) U(num_slice_groups_minus1)   \
  U(slice_group_map_type) VU(run_length_minus1) VU(top_left) VU(bottom_right)  \
  U(slice_group_change_direction_flag) U(slice_group_change_rate_minus1)       \
  U(pic_size_in_map_units_minus1) VU(slice_group_id)                           \
  U(num_ref_idx_l0_default_active_minus1)                                      \
  U(num_ref_idx_l1_default_active_minus1) U(weighted_pred_flag)                \
  U(weighted_bipred_idc) I(pic_init_qp_minus26) I(pic_init_qs_minus26)         \
  I(chroma_qp_index_offset) U(deblocking_filter_control_present_flag)          \
  U(constrained_intra_pred_flag) U(redundant_pic_cnt_present_flag)             \
  U(transform_8x8_mode_flag) U(pic_scaling_matrix_present_flag)                \
  VU(pic_scaling_list_present_flag) VU(ScalingList4x4)                         \
  VU(UseDefaultScalingMatrix4x4Flag) VU(ScalingList8x8)                        \
  VU(UseDefaultScalingMatrix8x8Flag) I(delta_scale)                            \
  I(second_chroma_qp_index_offset)
#define SPSEXT_FIELDS(U, I, VU, VI, VVI)                                       \
  U(seq_parameter_set_id) U(aux_format_idc) U(bit_depth_aux_minus8)            \
  U(alpha_incr_flag) U(alpha_opaque_value) U(alpha_transparent_value)          \
  U(additional_extension_flag)
#define SVCEXT_FIELDS(U, I, VU, VI, VVI)                                       \
  U(inter_layer_deblocking_filter_control_present_flag)                        \
  U(extended_spatial_scalability_idc) U(chroma_phase_x_plus1_flag)             \
  U(chroma_phase_y_plus1) U(seq_ref_layer_chroma_phase_x_plus1_flag)           \
  U(seq_ref_layer_chroma_phase_y_plus1) I(seq_scaled_ref_layer_left_offset)    \
  I(seq_scaled_ref_layer_top_offset) I(seq_scaled_ref_layer_right_offset)      \
  I(seq_scaled_ref_layer_bottom_offset) U(seq_tcoeff_level_prediction_flag)    \
  U(adaptive_tcoeff_level_prediction_flag) U(slice_header_restriction_flag)
#define SUBSET_FIELDS(U, I, VU, VI, VVI)                                       \
  U(svc_vui_parameters_present_flag) U(bit_equal_to_one)                       \
  U(mvc_vui_parameters_present_flag) U(additional_extension2_flag)             \
  U(additional_extension2_data_flag)
#define NALHDR_FIELDS(U, I, VU, VI, VVI)                                       \
  U(forbidden_zero_bit) U(nal_ref_idc) U(nal_unit_type) U(svc_extension_flag)  \
  U(avc_3d_extension_flag)
#define NALSVC_FIELDS(U, I, VU, VI, VVI)                                       \
  U(idr_flag) U(priority_id) U(no_inter_layer_pred_flag) U(dependency_id)      \
  U(quality_id) U(temporal_id) U(use_ref_base_pic_flag) U(discardable_flag)    \
  U(output_flag) U(reserved_three_2bits)
#define PREFIXSVC_FIELDS(U, I, VU, VI, VVI)                                    \
  U(store_ref_base_pic_flag) U(additional_prefix_nal_unit_extension_flag)      \
  U(additional_prefix_nal_unit_extension_data_flag)
#define RPLM_FIELDS(U, I, VU, VI, VVI)                                         \
  U(ref_pic_list_modification_flag_l0) VU(modification_of_pic_nums_idc)        \
  VU(abs_diff_pic_num_minus1) VU(long_term_pic_num)                            \
  U(ref_pic_list_modification_flag_l1)
#define PWT_FIELDS(U, I, VU, VI, VVI)                                          \
  U(luma_log2_weight_denom) U(chroma_log2_weight_denom)                        \
  VU(luma_weight_l0_flag) VI(luma_weight_l0) VI(luma_offset_l0)                \
  VU(chroma_weight_l0_flag) VVI(chroma_weight_l0) VVI(chroma_offset_l0)        \
  VU(luma_weight_l1_flag) VI(luma_weight_l1) VI(luma_offset_l1)                \
  VU(chroma_weight_l1_flag) VVI(chroma_weight_l1) VVI(chroma_offset_l1)
#define DRPM_FIELDS(U, I, VU, VI, VVI)                                         \
  U(no_output_of_prior_pics_flag) U(long_term_reference_flag)                  \
  U(adaptive_ref_pic_marking_mode_flag)                                        \
  VU(memory_management_control_operation) VU(difference_of_pic_nums_minus1)    \
  VU(long_term_pic_num) VU(long_term_frame_idx)                                \
  VU(max_long_term_frame_idx_plus1)
#define SLICE_COMMON_FIELDS(U, I, VU, VI, VVI)                                 \
  U(first_mb_in_slice) U(slice_type) U(pic_parameter_set_id)                   \
  U(colour_plane_id) U(frame_num) U(field_pic_flag) U(bottom_field_flag)       \
  U(idr_pic_id) U(pic_order_cnt_lsb) I(delta_pic_order_cnt_bottom)             \
  VI(delta_pic_order_cnt) U(redundant_pic_cnt) U(direct_spatial_mv_pred_flag)  \
  U(num_ref_idx_active_override_flag) U(num_ref_idx_l0_active_minus1)          \
  U(cabac_init_idc) I(slice_qp_delta) U(disable_deblocking_filter_idc)         \
  I(slice_alpha_c0_offset_div2) I(slice_beta_offset_div2)                      \
  U(slice_group_change_cycle)
#define SLICE_FIELDS(U, I, VU, VI, VVI)                                        \
  SLICE_COMMON_FIELDS(U, I, VU, VI, VVI)                                       \
  U(sp_for_switch_flag) I(slice_qs_delta)
#define SVCSLICE_FIELDS(U, I, VU, VI, VVI)                                     \
  SLICE_COMMON_FIELDS(U, I, VU, VI, VVI)                                       \
  U(base_pred_weight_table_flag) U(store_ref_base_pic_flag) U(ref_layer_dq_id) \
  U(disable_inter_layer_deblocking_filter_idc)                                 \
  I(inter_layer_slice_alpha_c0_offset_div2)                                    \
  I(inter_layer_slice_beta_offset_div2) U(constrained_intra_resampling_flag)   \
  U(ref_layer_chroma_phase_x_plus1_flag) U(ref_layer_chroma_phase_y_plus1)     \
  I(scaled_ref_layer_left_offset) I(scaled_ref_layer_top_offset)               \
  I(scaled_ref_layer_right_offset) I(scaled_ref_layer_bottom_offset)           \
  U(slice_skip_flag) U(num_mbs_in_slice_minus1) U(adaptive_base_mode_flag)     \
  U(default_base_mode_flag) U(adaptive_motion_prediction_flag)                 \
  U(default_motion_prediction_flag) U(adaptive_residual_prediction_flag)       \
  U(default_residual_prediction_flag) U(tcoeff_level_prediction_flag)          \
  U(scan_idx_start) U(scan_idx_end)
