    {"alpha_channel_info", "alpha_channel_bit_depth_minus8", 'N', "", 0},
    {"alpha_channel_info", "alpha_channel_cancel_flag", 'A', "", 0},
    {"alpha_channel_info", "alpha_channel_clip_flag", 'N', "", 0},
    {"alpha_channel_info", "alpha_channel_clip_type_flag", 'N', "", 0},
    {"alpha_channel_info", "alpha_channel_incr_flag", 'N', "", 0},
    {"alpha_channel_info", "alpha_channel_use_idc", 'N', "", 0},
    {"alpha_channel_info", "alpha_opaque_value", 'N', "", 0},
    {"alpha_channel_info", "alpha_transparent_value", 'N', "", 0},
    {"alternative_transfer_characteristics", "preferred_transfer_characteristics", 'A', "", 0},
    {"ambient_viewing_environment", "ambient_illuminance", 'A', "", 0},
    {"ambient_viewing_environment", "ambient_light_x", 'A', "", 0},
    {"ambient_viewing_environment", "ambient_light_y", 'A', "", 0},
    {"aud", "pic_type", 'A', "", 0},
    {"colour_remapping_info", "colour_remap_cancel_flag", 'A', "", 0},
    {"colour_remapping_info", "colour_remap_coeffs", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_full_range_flag", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_id", 'A', "", 0},
    {"colour_remapping_info", "colour_remap_input_bit_depth", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_matrix_coefficients", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_matrix_present_flag", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_output_bit_depth", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_persistence_flag", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_primaries", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_transfer_function", 'N', "", 0},
    {"colour_remapping_info", "colour_remap_video_signal_info_present_flag", 'N', "", 0},
    {"colour_remapping_info", "log2_matrix_denom", 'N', "", 0},
    {"configuration_box", "NAL_unit_type", 'A', "", 0},
    {"configuration_box", "array_completeness", 'A', "", 0},
    {"configuration_box", "avgFrameRate", 'A', "", 0},
    {"configuration_box", "bit_depth_chroma_minus8", 'A', "", 0},
    {"configuration_box", "bit_depth_luma_minus8", 'A', "", 0},
    {"configuration_box", "chroma_format_idc", 'A', "", 0},
    {"configuration_box", "configurationVersion", 'A', "", 0},
    {"configuration_box", "constantFrameRate", 'A', "", 0},
    {"configuration_box", "general_constraint_indicator_flags", 'A', "", 0},
    {"configuration_box", "general_level_idc", 'A', "", 0},
    {"configuration_box", "general_profile_compatibility_flags", 'A', "", 0},
    {"configuration_box", "general_profile_idc", 'A', "", 0},
    {"configuration_box", "general_profile_space", 'A', "", 0},
    {"configuration_box", "general_tier_flag", 'A', "", 0},
    {"configuration_box", "lengthSizeMinusOne", 'A', "", 0},
    {"configuration_box", "min_spatial_segmentation_idc", 'A', "", 0},
    {"configuration_box", "nalUnit", 'A', "", 0},
    {"configuration_box", "nalUnitLength", 'A', "", 0},
    {"configuration_box", "numNalus", 'A', "", 0},
    {"configuration_box", "numOfArrays", 'A', "", 0},
    {"configuration_box", "numTemporalLayers", 'A', "", 0},
    {"configuration_box", "parallelismType", 'A', "", 0},
    {"configuration_box", "reserved1", 'A', "", 0},
    {"configuration_box", "reserved2", 'A', "", 0},
    {"configuration_box", "reserved3", 'A', "", 0},
    {"configuration_box", "reserved4", 'A', "", 0},
    {"configuration_box", "reserved5", 'A', "", 0},
    {"configuration_box", "reserved6", 'A', "", 0},
    {"configuration_box", "temporalIdNested", 'A', "", 0},
    {"content_colour_volume", "ccv_avg_luminance_value", 'N', "", 0},
    {"content_colour_volume", "ccv_avg_luminance_value_present_flag", 'N', "", 0},
    {"content_colour_volume", "ccv_cancel_flag", 'A', "", 0},
    {"content_colour_volume", "ccv_max_luminance_value", 'N', "", 0},
    {"content_colour_volume", "ccv_max_luminance_value_present_flag", 'N', "", 0},
    {"content_colour_volume", "ccv_min_luminance_value", 'N', "", 0},
    {"content_colour_volume", "ccv_min_luminance_value_present_flag", 'N', "", 0},
    {"content_colour_volume", "ccv_persistence_flag", 'N', "", 0},
    {"content_colour_volume", "ccv_primaries_present_flag", 'N', "", 0},
    {"content_light_level_info", "max_content_light_level", 'A', "", 0},
    {"content_light_level_info", "max_pic_average_light_level", 'A', "", 0},
    {"general", "frame_only_constraint_flag", 'A', "", 0},
    {"general", "inbld_flag", 'A', "", 0},
    {"general", "interlaced_source_flag", 'A', "", 0},
    {"general", "intra_constraint_flag", 'A', "", 0},
    {"general", "lower_bit_rate_constraint_flag", 'A', "", 0},
    {"general", "max_10bit_constraint_flag", 'A', "", 0},
    {"general", "max_12bit_constraint_flag", 'A', "", 0},
    {"general", "max_14bit_constraint_flag", 'A', "", 0},
    {"general", "max_420chroma_constraint_flag", 'A', "", 0},
    {"general", "max_422chroma_constraint_flag", 'A', "", 0},
    {"general", "max_8bit_constraint_flag", 'A', "", 0},
    {"general", "max_monochrome_constraint_flag", 'A', "", 0},
    {"general", "non_packed_constraint_flag", 'A', "", 0},
    {"general", "one_picture_only_constraint_flag", 'A', "", 0},
    {"general", "profile_compatibility_flag", 'A', "", 0},
    {"general", "profile_idc", 'A', "", 0},
    {"general", "profile_space", 'A', "", 0},
    {"general", "profile_type", 'A', "", 0},
    {"general", "progressive_source_flag", 'A', "", 0},
    {"general", "reserved_zero_33bits", 'A', "", 0},
    {"general", "reserved_zero_34bits", 'A', "", 0},
    {"general", "reserved_zero_35bits", 'A', "", 0},
    {"general", "reserved_zero_43bits", 'A', "", 0},
    {"general", "reserved_zero_7bits", 'A', "", 0},
    {"general", "reserved_zero_bit", 'A', "", 0},
    {"general", "tier_flag", 'A', "", 0},
    {"hrd_parameters", "cpb_cnt_minus1", 'A', "", 0},
    {"hrd_parameters", "elemental_duration_in_tc_minus1", 'A', "", 0},
    {"hrd_parameters", "fixed_pic_rate_general_flag", 'A', "", 0},
    {"hrd_parameters", "fixed_pic_rate_within_cvs_flag", 'A', "", 0},
    {"hrd_parameters", "low_delay_hrd_flag", 'A', "", 0},
    {"hrd_parameters", "sub_layer_hrd_parameters_vector", 'N', "", 0},
    {"knee_function_info", "input_d_range", 'N', "", 0},
    {"knee_function_info", "input_disp_luminance", 'N', "", 0},
    {"knee_function_info", "input_knee_point", 'N', "", 0},
    {"knee_function_info", "knee_function_cancel_flag", 'A', "", 0},
    {"knee_function_info", "knee_function_id", 'A', "", 0},
    {"knee_function_info", "knee_function_persistence_flag", 'N', "", 0},
    {"knee_function_info", "num_knee_points_minus1", 'N', "", 0},
    {"knee_function_info", "output_d_range", 'N', "", 0},
    {"knee_function_info", "output_disp_luminance", 'N', "", 0},
    {"knee_function_info", "output_knee_point", 'N', "", 0},
    {"mastering_display_colour_volume", "display_primaries_x", 'A', "", 0},
    {"mastering_display_colour_volume", "display_primaries_y", 'A', "", 0},
    {"mastering_display_colour_volume", "max_display_mastering_luminance", 'A', "", 0},
    {"mastering_display_colour_volume", "min_display_mastering_luminance", 'A', "", 0},
    {"mastering_display_colour_volume", "white_point_x", 'A', "", 0},
    {"mastering_display_colour_volume", "white_point_y", 'A', "", 0},
    {"nal_unit", "nal_unit_header", 'A', "", 0},
    {"nal_unit", "nal_unit_payload", 'A', "", 0},
    {"nal_unit_header", "forbidden_zero_bit", 'A', "", 0},
    {"nal_unit_header", "nal_unit_type", 'A', "", 0},
    {"nal_unit_header", "nuh_layer_id", 'A', "", 0},
    {"nal_unit_header", "nuh_temporal_id_plus1", 'A', "", 0},
    {"nal_unit_payload", "aud", 'N', "", 0},
    {"nal_unit_payload", "pps", 'N', "", 0},
    {"nal_unit_payload", "sei", 'N', "", 0},
    {"nal_unit_payload", "slice_segment_layer", 'N', "", 0},
    {"nal_unit_payload", "sps", 'N', "", 0},
    {"nal_unit_payload", "vps", 'N', "", 0},
    {"pps", "cabac_init_present_flag", 'A', "", 0},
    {"pps", "column_width_minus1", 'N', "", 0},
    {"pps", "constrained_intra_pred_flag", 'A', "", 0},
    {"pps", "cu_qp_delta_enabled_flag", 'A', "", 0},
    {"pps", "deblocking_filter_control_present_flag", 'A', "", 0},
    {"pps", "deblocking_filter_override_enabled_flag", 'N', "", 0},
    {"pps", "dependent_slice_segments_enabled_flag", 'A', "", 0},
    {"pps", "diff_cu_qp_delta_depth", 'N', "", 0},
    {"pps", "entropy_coding_sync_enabled_flag", 'A', "", 0},
    {"pps", "init_qp_minus26", 'A', "", 0},
    {"pps", "lists_modification_present_flag", 'A', "", 0},
    {"pps", "log2_parallel_merge_level_minus2", 'A', "", 0},
    {"pps", "loop_filter_across_tiles_enabled_flag", 'N', "", 0},
    {"pps", "num_extra_slice_header_bits", 'A', "", 0},
    {"pps", "num_ref_idx_l0_default_active_minus1", 'A', "", 0},
    {"pps", "num_ref_idx_l1_default_active_minus1", 'A', "", 0},
    {"pps", "num_tile_columns_minus1", 'N', "", 0},
    {"pps", "num_tile_rows_minus1", 'N', "", 0},
    {"pps", "output_flag_present_flag", 'A', "", 0},
    {"pps", "pps_beta_offset_div2", 'N', "", 0},
    {"pps", "pps_cb_qp_offset", 'A', "", 0},
    {"pps", "pps_cr_qp_offset", 'A', "", 0},
    {"pps", "pps_deblocking_filter_disabled_flag", 'N', "", 0},
    {"pps", "pps_extension_4bits", 'N', "", 0},
    {"pps", "pps_extension_present_flag", 'A', "", 0},
    {"pps", "pps_loop_filter_across_slices_enabled_flag", 'A', "", 0},
    {"pps", "pps_multilayer_extension", 'N', "", 0},
    {"pps", "pps_multilayer_extension_flag", 'N', "", 0},
    {"pps", "pps_pic_parameter_set_id", 'A', "", 0},
    {"pps", "pps_scaling_list_data_present_flag", 'A', "", 0},
    {"pps", "pps_scc_extension", 'N', "", 0},
    {"pps", "pps_scc_extension_flag", 'N', "", 0},
    {"pps", "pps_seq_parameter_set_id", 'A', "", 0},
    {"pps", "pps_slice_chroma_qp_offsets_present_flag", 'A', "", 0},
    {"pps", "pps_tc_offset_div2", 'N', "", 0},
    {"pps", "row_height_minus1", 'N', "", 0},
    {"pps", "scaling_list_data", 'N', "", 0},
    {"pps", "sign_data_hiding_enabled_flag", 'A', "", 0},
    {"pps", "slice_segment_header_extension_present_flag", 'A', "", 0},
    {"pps", "tiles_enabled_flag", 'A', "", 0},
    {"pps", "transform_skip_enabled_flag", 'A', "", 0},
    {"pps", "transquant_bypass_enabled_flag", 'A', "", 0},
    {"pps", "uniform_spacing_flag", 'N', "", 0},
    {"pps", "weighted_bipred_flag", 'A', "", 0},
    {"pps", "weighted_pred_flag", 'A', "", 0},
    {"pps_multilayer_extension", "colour_mapping_enabled_flag", 'A', "", 0},
    {"pps_multilayer_extension", "num_ref_loc_offsets", 'A', "", 0},
    {"pps_multilayer_extension", "phase_hor_chroma_plus8", 'N', "", 0},
    {"pps_multilayer_extension", "phase_hor_luma", 'N', "", 0},
    {"pps_multilayer_extension", "phase_ver_chroma_plus8", 'N', "", 0},
    {"pps_multilayer_extension", "phase_ver_luma", 'N', "", 0},
    {"pps_multilayer_extension", "poc_reset_info_present_flag", 'A', "", 0},
    {"pps_multilayer_extension", "pps_infer_scaling_list_flag", 'A', "", 0},
    {"pps_multilayer_extension", "pps_scaling_list_ref_layer_id", 'N', "", 0},
    {"pps_multilayer_extension", "ref_loc_offset_layer_id", 'N', "", 0},
    {"pps_multilayer_extension", "ref_region_bottom_offset", 'N', "", 0},
    {"pps_multilayer_extension", "ref_region_left_offset", 'N', "", 0},
    {"pps_multilayer_extension", "ref_region_offset_present_flag", 'N', "", 0},
    {"pps_multilayer_extension", "ref_region_right_offset", 'N', "", 0},
    {"pps_multilayer_extension", "ref_region_top_offset", 'N', "", 0},
    {"pps_multilayer_extension", "resample_phase_set_present_flag", 'N', "", 0},
    {"pps_multilayer_extension", "scaled_ref_layer_bottom_offset", 'N', "", 0},
    {"pps_multilayer_extension", "scaled_ref_layer_left_offset", 'N', "", 0},
    {"pps_multilayer_extension", "scaled_ref_layer_offset_present_flag", 'N', "", 0},
    {"pps_multilayer_extension", "scaled_ref_layer_right_offset", 'N', "", 0},
    {"pps_multilayer_extension", "scaled_ref_layer_top_offset", 'N', "", 0},
    {"pps_scc_extension", "chroma_bit_depth_entry_minus8", 'N', "", 0},
    {"pps_scc_extension", "luma_bit_depth_entry_minus8", 'N', "", 0},
    {"pps_scc_extension", "monochrome_palette_flag", 'N', "", 0},
    {"pps_scc_extension", "pps_act_cb_qp_offset_plus5", 'N', "", 0},
    {"pps_scc_extension", "pps_act_cr_qp_offset_plus3", 'N', "", 0},
    {"pps_scc_extension", "pps_act_y_qp_offset_plus5", 'N', "", 0},
    {"pps_scc_extension", "pps_curr_pic_ref_enabled_flag", 'A', "", 0},
    {"pps_scc_extension", "pps_num_palette_predictor_initializer", 'N', "", 0},
    {"pps_scc_extension", "pps_palette_predictor_initializer_present_flag", 'A', "", 0},
    {"pps_scc_extension", "pps_palette_predictor_initializers", 'N', "", 0},
    {"pps_scc_extension", "pps_slice_act_qp_offsets_present_flag", 'N', "", 0},
    {"pps_scc_extension", "residual_adaptive_colour_transform_enabled_flag", 'A', "", 0},
    {"pred_weight_table", "chroma_weight_l0_flag", 'N', "", 0},
    {"pred_weight_table", "chroma_weight_l1_flag", 'N', "", 0},
    {"pred_weight_table", "delta_chroma_log2_weight_denom", 'N', "", 0},
    {"pred_weight_table", "delta_chroma_offset_l0", 'N', "", 0},
    {"pred_weight_table", "delta_chroma_offset_l1", 'N', "", 0},
    {"pred_weight_table", "delta_chroma_weight_l0", 'N', "", 0},
    {"pred_weight_table", "delta_chroma_weight_l1", 'N', "", 0},
    {"pred_weight_table", "delta_luma_weight_l0", 'A', "", 0},
    {"pred_weight_table", "delta_luma_weight_l1", 'N', "", 0},
    {"pred_weight_table", "luma_log2_weight_denom", 'A', "", 0},
    {"pred_weight_table", "luma_offset_l0", 'A', "", 0},
    {"pred_weight_table", "luma_offset_l1", 'N', "", 0},
    {"pred_weight_table", "luma_weight_l0_flag", 'A', "", 0},
    {"pred_weight_table", "luma_weight_l1_flag", 'N', "", 0},
    {"profile_tier_level", "general", 'A', "", 0},
    {"profile_tier_level", "general_level_idc", 'A', "", 0},
    {"profile_tier_level", "reserved_zero_2bits", 'N', "", 0},
    {"profile_tier_level", "sub_layer", 'N', "", 0},
    {"profile_tier_level", "sub_layer_level_idc", 'N', "", 0},
    {"profile_tier_level", "sub_layer_level_present_flag", 'A', "", 0},
    {"profile_tier_level", "sub_layer_profile_present_flag", 'A', "", 0},
    {"rtp", "nal_unit_header", 'A', "", 0},
    {"rtp", "rtp_ap", 'N', "", 0},
    {"rtp", "rtp_fu", 'N', "", 0},
    {"rtp", "rtp_single", 'N', "", 0},
    {"rtp_ap", "header", 'A', "", 0},
    {"rtp_ap", "nal_unit_headers", 'N', "", 0},
    {"rtp_ap", "nal_unit_payloads", 'N', "", 0},
    {"rtp_ap", "nal_unit_sizes", 'N', "", 0},
    {"rtp_fu", "e_bit", 'A', "", 0},
    {"rtp_fu", "fu_type", 'A', "", 0},
    {"rtp_fu", "header", 'A', "", 0},
    {"rtp_fu", "nal_unit_payload", 'N', "", 0},
    {"rtp_fu", "s_bit", 'A', "", 0},
    {"rtp_single", "nal_unit_header", 'A', "", 0},
    {"rtp_single", "nal_unit_payload", 'A', "", 0},
    {"scaling_list_data", "ScalingList", 'A', "", 0},
    {"scaling_list_data", "scaling_list_dc_coef_minus8", 'A', "", 0},
    {"scaling_list_data", "scaling_list_pred_matrix_id_delta", 'A', "", 0},
    {"scaling_list_data", "scaling_list_pred_mode_flag", 'A', "", 0},
    {"sei message", "payload_size", 'A', "", 0},
    {"sei message", "payload_state", 'N', "", 0},
    {"sei message", "payload_type", 'A', "", 0},
    {"slice_segment_header", "cabac_init_flag", 'N', "", 0},
    {"slice_segment_header", "collocated_ref_idx", 'N', "", 0},
    {"slice_segment_header", "colour_plane_id", 'N', "", 0},
    {"slice_segment_header", "deblocking_filter_override_flag", 'N', "", 0},
    {"slice_segment_header", "delta_poc_msb_cycle_lt", 'N', "", 0},
    {"slice_segment_header", "delta_poc_msb_present_flag", 'N', "", 0},
    {"slice_segment_header", "dependent_slice_segment_flag", 'A', "", 0},
    {"slice_segment_header", "entry_point_offset_minus1", 'N', "", 0},
    {"slice_segment_header", "first_slice_segment_in_pic_flag", 'A', "", 0},
    {"slice_segment_header", "five_minus_max_num_merge_cand", 'N', "", 0},
    {"slice_segment_header", "lt_idx_sps", 'N', "", 0},
    {"slice_segment_header", "mvd_l1_zero_flag", 'N', "", 0},
    {"slice_segment_header", "no_output_of_prior_pics_flag", 'A', "", 0},
    {"slice_segment_header", "num_entry_point_offsets", 'N', "", 0},
    {"slice_segment_header", "num_long_term_pics", 'N', "", 0},
    {"slice_segment_header", "num_long_term_sps", 'N', "", 0},
    {"slice_segment_header", "num_ref_idx_active_override_flag", 'N', "", 0},
    {"slice_segment_header", "offset_len_minus1", 'N', "", 0},
    {"slice_segment_header", "pic_output_flag", 'N', "", 0},
    {"slice_segment_header", "poc_lsb_lt", 'N', "", 0},
    {"slice_segment_header", "pred_weight_table", 'N', "", 0},
    {"slice_segment_header", "short_term_ref_pic_set_idx", 'N', "", 0},
    {"slice_segment_header", "short_term_ref_pic_set_sps_flag", 'N', "", 0},
    {"slice_segment_header", "slice_act_cb_qp_offset", 'N', "", 0},
    {"slice_segment_header", "slice_act_cr_qp_offset", 'N', "", 0},
    {"slice_segment_header", "slice_act_y_qp_offset", 'N', "", 0},
    {"slice_segment_header", "slice_beta_offset_div2", 'N', "", 0},
    {"slice_segment_header", "slice_cb_qp_offset", 'N', "", 0},
    {"slice_segment_header", "slice_cr_qp_offset", 'N', "", 0},
    {"slice_segment_header", "slice_loop_filter_across_slices_enabled_flag", 'N', "", 0},
    {"slice_segment_header", "slice_pic_order_cnt_lsb", 'N', "", 0},
    {"slice_segment_header", "slice_pic_parameter_set_id", 'A', "", 0},
    {"slice_segment_header", "slice_qp_delta", 'N', "", 0},
    {"slice_segment_header", "slice_reserved_flag", 'N', "", 0},
    {"slice_segment_header", "slice_sao_chroma_flag", 'N', "", 0},
    {"slice_segment_header", "slice_sao_luma_flag", 'N', "", 0},
    {"slice_segment_header", "slice_segment_address", 'A', "", 0},
    {"slice_segment_header", "slice_segment_header_extension_data_byte", 'N', "", 0},
    {"slice_segment_header", "slice_segment_header_extension_length", 'N', "", 0},
    {"slice_segment_header", "slice_tc_offset_div2", 'N', "", 0},
    {"slice_segment_header", "slice_temporal_mvp_enabled_flag", 'N', "", 0},
    {"slice_segment_header", "slice_type", 'N', "", 0},
    {"slice_segment_header", "st_ref_pic_set", 'N', "", 0},
    {"slice_segment_header", "use_integer_mv_flag", 'N', "", 0},
    {"slice_segment_header", "used_by_curr_pic_lt_flag", 'N', "", 0},
    {"slice_segment_layer", "slice_segment_header", 'A', "", 0},
    {"sps", "amp_enabled_flag", 'A', "", 0},
    {"sps", "bit_depth_chroma_minus8", 'A', "", 0},
    {"sps", "bit_depth_luma_minus8", 'A', "", 0},
    {"sps", "chroma_format_idc", 'A', "", 0},
    {"sps", "conf_win_bottom_offset", 'N', "", 0},
    {"sps", "conf_win_left_offset", 'N', "", 0},
    {"sps", "conf_win_right_offset", 'N', "", 0},
    {"sps", "conf_win_top_offset", 'N', "", 0},
    {"sps", "conformance_window_flag", 'A', "", 0},
    {"sps", "log2_diff_max_min_luma_coding_block_size", 'A', "", 0},
    {"sps", "log2_diff_max_min_luma_transform_block_size", 'A', "", 0},
    {"sps", "log2_diff_max_min_pcm_luma_coding_block_size", 'N', "", 0},
    {"sps", "log2_max_pic_order_cnt_lsb_minus4", 'A', "", 0},
    {"sps", "log2_min_luma_coding_block_size_minus3", 'A', "", 0},
    {"sps", "log2_min_luma_transform_block_size_minus2", 'A', "", 0},
    {"sps", "log2_min_pcm_luma_coding_block_size_minus3", 'N', "", 0},
    {"sps", "long_term_ref_pics_present_flag", 'A', "", 0},
    {"sps", "lt_ref_pic_poc_lsb_sps", 'N', "", 0},
    {"sps", "max_transform_hierarchy_depth_inter", 'A', "", 0},
    {"sps", "max_transform_hierarchy_depth_intra", 'A', "", 0},
    {"sps", "num_long_term_ref_pics_sps", 'N', "", 0},
    {"sps", "num_short_term_ref_pic_sets", 'A', "", 0},
    {"sps", "pcm_enabled_flag", 'A', "", 0},
    {"sps", "pcm_loop_filter_disabled_flag", 'N', "", 0},
    {"sps", "pcm_sample_bit_depth_chroma_minus1", 'N', "", 0},
    {"sps", "pcm_sample_bit_depth_luma_minus1", 'N', "", 0},
    {"sps", "pic_height_in_luma_samples", 'A', "", 0},
    {"sps", "pic_width_in_luma_samples", 'A', "", 0},
    {"sps", "profile_tier_level", 'A', "", 0},
    {"sps", "sample_adaptive_offset_enabled_flag", 'A', "", 0},
    {"sps", "scaling_list_data", 'N', "", 0},
    {"sps", "scaling_list_enabled_flag", 'A', "", 0},
    {"sps", "separate_colour_plane_flag", 'N', "", 0},
    {"sps", "sps_3d_extension", 'N', "", 0},
    {"sps", "sps_3d_extension_flag", 'N', "", 0},
    {"sps", "sps_extension_4bits", 'N', "", 0},
    {"sps", "sps_extension_present_flag", 'A', "", 0},
    {"sps", "sps_max_dec_pic_buffering_minus1", 'A', "", 0},
    {"sps", "sps_max_latency_increase_plus1", 'A', "", 0},
    {"sps", "sps_max_num_reorder_pics", 'A', "", 0},
    {"sps", "sps_max_sub_layers_minus1", 'A', "", 0},
    {"sps", "sps_multilayer_extension", 'N', "", 0},
    {"sps", "sps_multilayer_extension_flag", 'N', "", 0},
    {"sps", "sps_range_extension", 'N', "", 0},
    {"sps", "sps_range_extension_flag", 'N', "", 0},
    {"sps", "sps_scaling_list_data_present_flag", 'N', "", 0},
    {"sps", "sps_scc_extension", 'N', "", 0},
    {"sps", "sps_scc_extension_flag", 'N', "", 0},
    {"sps", "sps_seq_parameter_set_id", 'A', "", 0},
    {"sps", "sps_sub_layer_ordering_info_present_flag", 'A', "", 0},
    {"sps", "sps_temporal_id_nesting_flag", 'A', "", 0},
    {"sps", "sps_temporal_mvp_enabled_flag", 'A', "", 0},
    {"sps", "sps_video_parameter_set_id", 'A', "", 0},
    {"sps", "st_ref_pic_set", 'N', "", 0},
    {"sps", "strong_intra_smoothing_enabled_flag", 'A', "", 0},
    {"sps", "used_by_curr_pic_lt_sps_flag", 'N', "", 0},
    {"sps", "vui_parameters", 'N', "", 0},
    {"sps", "vui_parameters_present_flag", 'A', "", 0},
    {"sps_3d_extension", "cqt_cu_part_pred_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "dbbp_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "depth_ref_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "inter_dc_only_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "intra_contour_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "intra_dc_only_wedge_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "iv_di_mc_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "iv_mv_scal_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "iv_res_pred_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "log2_ivmc_sub_pb_size_minus3", 'A', "", 0},
    {"sps_3d_extension", "log2_texmc_sub_pb_size_minus3", 'A', "", 0},
    {"sps_3d_extension", "skip_intra_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "tex_mc_enabled_flag", 'A', "", 0},
    {"sps_3d_extension", "vsp_mc_enabled_flag", 'A', "", 0},
    {"sps_multilayer_extension", "inter_view_mv_vert_constraint_flag", 'A', "", 0},
    {"sps_range_extension", "cabac_bypass_alignment_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "explicit_rdpcm_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "extended_precision_processing_flag", 'A', "", 0},
    {"sps_range_extension", "high_precision_offsets_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "implicit_rdpcm_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "intra_smoothing_disabled_flag", 'A', "", 0},
    {"sps_range_extension", "persistent_rice_adaptation_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "transform_skip_context_enabled_flag", 'A', "", 0},
    {"sps_range_extension", "transform_skip_rotation_enabled_flag", 'A', "", 0},
    {"sps_scc_extension", "delta_palette_max_predictor_size", 'N', "", 0},
    {"sps_scc_extension", "intra_boundary_filtering_disabled_flag", 'A', "", 0},
    {"sps_scc_extension", "motion_vector_resolution_control_idc", 'A', "", 0},
    {"sps_scc_extension", "palette_max_size", 'N', "", 0},
    {"sps_scc_extension", "palette_mode_enabled_flag", 'A', "", 0},
    {"sps_scc_extension", "sps_curr_pic_ref_enabled_flag", 'A', "", 0},
    {"sps_scc_extension", "sps_num_palette_predictor_initializers_minus1", 'N', "", 0},
    {"sps_scc_extension", "sps_palette_predictor_initializers", 'N', "", 0},
    {"sps_scc_extension", "sps_palette_predictor_initializers_present_flag", 'N', "", 0},
    {"st_ref_pic_set", "abs_delta_rps_minus1", 'N', "", 0},
    {"st_ref_pic_set", "delta_idx_minus1", 'N', "", 0},
    {"st_ref_pic_set", "delta_rps_sign", 'N', "", 0},
    {"st_ref_pic_set", "inter_ref_pic_set_prediction_flag", 'N', "", 0},
    {"st_ref_pic_set", "use_delta_flag", 'N', "", 0},
    {"st_ref_pic_set", "used_by_curr_pic_flag", 'N', "", 0},
    {"sub_layer", "frame_only_constraint_flag", 'A', "", 0},
    {"sub_layer", "inbld_flag", 'A', "", 0},
    {"sub_layer", "interlaced_source_flag", 'A', "", 0},
    {"sub_layer", "intra_constraint_flag", 'A', "", 0},
    {"sub_layer", "lower_bit_rate_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_10bit_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_12bit_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_14bit_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_420chroma_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_422chroma_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_8bit_constraint_flag", 'A', "", 0},
    {"sub_layer", "max_monochrome_constraint_flag", 'A', "", 0},
    {"sub_layer", "non_packed_constraint_flag", 'A', "", 0},
    {"sub_layer", "one_picture_only_constraint_flag", 'A', "", 0},
    {"sub_layer", "profile_compatibility_flag", 'A', "", 0},
    {"sub_layer", "profile_idc", 'A', "", 0},
    {"sub_layer", "profile_space", 'A', "", 0},
    {"sub_layer", "profile_type", 'A', "", 0},
    {"sub_layer", "progressive_source_flag", 'A', "", 0},
    {"sub_layer", "reserved_zero_33bits", 'A', "", 0},
    {"sub_layer", "reserved_zero_34bits", 'A', "", 0},
    {"sub_layer", "reserved_zero_35bits", 'A', "", 0},
    {"sub_layer", "reserved_zero_43bits", 'A', "", 0},
    {"sub_layer", "reserved_zero_7bits", 'A', "", 0},
    {"sub_layer", "reserved_zero_bit", 'A', "", 0},
    {"sub_layer", "tier_flag", 'A', "", 0},
    {"sub_layer_hrd_parameters", "bit_rate_du_value_minus1", 'A', "", 0},
    {"sub_layer_hrd_parameters", "bit_rate_value_minus1", 'A', "", 0},
    {"sub_layer_hrd_parameters", "cbr_flag", 'A', "", 0},
    {"sub_layer_hrd_parameters", "cpb_size_du_value_minus1", 'A', "", 0},
    {"sub_layer_hrd_parameters", "cpb_size_value_minus1", 'A', "", 0},
    {"unimplemented", "payload", 'A', "", 0},
    {"user_data_registered_itu_t_t35", "itu_t_t35_country_code", 'A', "", 0},
    {"user_data_registered_itu_t_t35", "itu_t_t35_country_code_extension_byte", 'A', "", 0},
    {"user_data_registered_itu_t_t35", "payload", 'A', "", 0},
    {"user_data_unregistered", "payload", 'A', "", 0},
    {"user_data_unregistered", "uuid_iso_iec_11578_1", 'A', "", 0},
    {"user_data_unregistered", "uuid_iso_iec_11578_2", 'A', "", 0},
    {"vps", "cprms_present_flag", 'N', "", 0},
    {"vps", "hrd_layer_set_idx", 'N', "", 0},
    {"vps", "hrd_parameters", 'N', "", 0},
    {"vps", "layer_id_included_flag", 'A', "", 0},
    {"vps", "profile_tier_level", 'A', "", 0},
    {"vps", "vps_base_layer_available_flag", 'A', "", 0},
    {"vps", "vps_base_layer_internal_flag", 'A', "", 0},
    {"vps", "vps_extension_data_flag", 'A', "", 0},
    {"vps", "vps_extension_flag", 'A', "", 0},
    {"vps", "vps_max_dec_pic_buffering_minus1", 'A', "", 0},
    {"vps", "vps_max_latency_increase_plus1", 'A', "", 0},
    {"vps", "vps_max_layer_id", 'A', "", 0},
    {"vps", "vps_max_layers_minus1", 'A', "", 0},
    {"vps", "vps_max_num_reorder_pics", 'A', "", 0},
    {"vps", "vps_max_sub_layers_minus1", 'A', "", 0},
    {"vps", "vps_num_hrd_parameters", 'A', "", 0},
    {"vps", "vps_num_layer_sets_minus1", 'A', "", 0},
    {"vps", "vps_num_ticks_poc_diff_one_minus1", 'A', "", 0},
    {"vps", "vps_num_units_in_tick", 'A', "", 0},
    {"vps", "vps_poc_proportional_to_timing_flag", 'A', "", 0},
    {"vps", "vps_reserved_0xffff_16bits", 'A', "", 0},
    {"vps", "vps_sub_layer_ordering_info_present_flag", 'A', "", 0},
    {"vps", "vps_temporal_id_nesting_flag", 'A', "", 0},
    {"vps", "vps_time_scale", 'A', "", 0},
    {"vps", "vps_timing_info_present_flag", 'A', "", 0},
    {"vps", "vps_video_parameter_set_id", 'A', "", 0},
    {"vui_parameters", "aspect_ratio_idc", 'N', "", 0},
    {"vui_parameters", "aspect_ratio_info_present_flag", 'A', "", 0},
    {"vui_parameters", "bitstream_restriction_flag", 'A', "", 0},
    {"vui_parameters", "chroma_loc_info_present_flag", 'A', "", 0},
    {"vui_parameters", "chroma_sample_loc_type_bottom_field", 'N', "", 0},
    {"vui_parameters", "chroma_sample_loc_type_top_field", 'N', "", 0},
    {"vui_parameters", "colour_description_present_flag", 'N', "", 0},
    {"vui_parameters", "colour_primaries", 'N', "", 0},
    {"vui_parameters", "def_disp_win_bottom_offset", 'N', "", 0},
    {"vui_parameters", "def_disp_win_left_offset", 'N', "", 0},
    {"vui_parameters", "def_disp_win_right_offset", 'N', "", 0},
    {"vui_parameters", "def_disp_win_top_offset", 'N', "", 0},
    {"vui_parameters", "default_display_window_flag", 'A', "", 0},
    {"vui_parameters", "field_seq_flag", 'A', "", 0},
    {"vui_parameters", "frame_field_info_present_flag", 'A', "", 0},
    {"vui_parameters", "hrd_parameters", 'N', "", 0},
    {"vui_parameters", "log2_max_mv_length_horizontal", 'N', "", 0},
    {"vui_parameters", "log2_max_mv_length_vertical", 'N', "", 0},
    {"vui_parameters", "matrix_coeffs", 'N', "", 0},
    {"vui_parameters", "max_bits_per_min_cu_denom", 'N', "", 0},
    {"vui_parameters", "max_bytes_per_pic_denom", 'N', "", 0},
    {"vui_parameters", "min_spatial_segmentation_idc", 'N', "", 0},
    {"vui_parameters", "motion_vectors_over_pic_boundaries_flag", 'N', "", 0},
    {"vui_parameters", "neutral_chroma_indication_flag", 'A', "", 0},
    {"vui_parameters", "overscan_appropriate_flag", 'N', "", 0},
    {"vui_parameters", "overscan_info_present_flag", 'A', "", 0},
    {"vui_parameters", "restricted_ref_pic_lists_flag", 'N', "", 0},
    {"vui_parameters", "sar_height", 'N', "", 0},
    {"vui_parameters", "sar_width", 'N', "", 0},
    {"vui_parameters", "tiles_fixed_structure_flag", 'N', "", 0},
    {"vui_parameters", "transfer_characteristics", 'N', "", 0},
    {"vui_parameters", "video_format", 'N', "", 0},
    {"vui_parameters", "video_full_range_flag", 'N', "", 0},
    {"vui_parameters", "video_signal_type_present_flag", 'A', "", 0},
    {"vui_parameters", "vui_hrd_parameters_present_flag", 'N', "", 0},
    {"vui_parameters", "vui_num_ticks_poc_diff_one_minus1", 'N', "", 0},
    {"vui_parameters", "vui_num_units_in_tick", 'N', "", 0},
    {"vui_parameters", "vui_poc_proportional_to_timing_flag", 'N', "", 0},
    {"vui_parameters", "vui_time_scale", 'N', "", 0},
    {"vui_parameters", "vui_timing_info_present_flag", 'A', "", 0},
    {"colour_remapping_info", "post_lut_num_val_minus1", 'N', "colour_remap_cancel_flag", 0},
    {"colour_remapping_info", "pre_lut_num_val_minus1", 'N', "colour_remap_cancel_flag", 0},
    {"content_colour_volume", "ccv_primaries_x", 'A', "ccv_primaries_present_flag", 1},
    {"content_colour_volume", "ccv_primaries_y", 'A', "ccv_primaries_present_flag", 1},
    {"hrd_parameters", "au_cpb_removal_delay_length_minus1", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "bit_rate_scale", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "cpb_size_du_scale", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "cpb_size_scale", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "dpb_output_delay_du_length_minus1", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "dpb_output_delay_length_minus1", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "du_cpb_removal_delay_increment_length_minus1", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "initial_cpb_removal_delay_length_minus1", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "sub_pic_cpb_params_in_pic_timing_sei_flag", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "sub_pic_hrd_params_present_flag", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "tick_divisor_minus2", 'N', "commonInfPresentFlag", 1},
    {"hrd_parameters", "nal_hrd_parameters_present_flag", 'A', "commonInfPresentFlag", 1},
    {"hrd_parameters", "vcl_hrd_parameters_present_flag", 'A', "commonInfPresentFlag", 1},
    {"slice_segment_header", "num_ref_idx_l0_active_minus1", 'A', "num_ref_idx_active_override_flag", 1},
    {"slice_segment_header", "slice_deblocking_filter_disabled_flag", 'A', "deblocking_filter_override_flag", 1},
    {"st_ref_pic_set", "delta_poc_s0_minus1", 'A', "inter_ref_pic_set_prediction_flag", 0},
    {"st_ref_pic_set", "delta_poc_s1_minus1", 'A', "inter_ref_pic_set_prediction_flag", 0},
    {"st_ref_pic_set", "num_negative_pics", 'A', "inter_ref_pic_set_prediction_flag", 0},
    {"st_ref_pic_set", "num_positive_pics", 'A', "inter_ref_pic_set_prediction_flag", 0},
    {"st_ref_pic_set", "used_by_curr_pic_s0_flag", 'A', "inter_ref_pic_set_prediction_flag", 0},
    {"st_ref_pic_set", "used_by_curr_pic_s1_flag", 'A', "inter_ref_pic_set_prediction_flag", 0},
