// every header class and every public field of it; the Python module has to offer each under its own name
K(CommonSEGY, BinaryHeader)
F(job_id)
F(line_num)
F(reel_num)
F(tr_per_ens)
F(aux_per_ens)
F(samp_int)
F(samp_int_orig)
F(samp_per_tr)
F(samp_per_tr_orig)
F(format_code)
F(ens_fold)
F(sort_code)
F(vert_sum_code)
F(sw_freq_at_start)
F(sw_freq_at_end)
F(sw_length)
F(sw_type_code)
F(sw_ch_tr_num)
F(taper_at_start)
F(taper_at_end)
F(taper_type)
F(corr_traces)
F(bin_gain_recov)
F(amp_recov_meth)
F(measure_system)
F(impulse_sig_pol)
F(vib_pol_code)
F(ext_tr_per_ens)
F(ext_aux_per_ens)
F(ext_samp_per_tr)
F(ext_samp_int)
F(ext_samp_int_orig)
F(ext_samp_per_tr_orig)
F(ext_ens_fold)
F(endianness)
F(SEGY_rev_major_ver)
F(SEGY_rev_minor_ver)
F(fixed_tr_length)
F(ext_text_headers_num)
F(max_num_add_tr_headers)
F(time_basis_code)
F(num_of_tr_in_file)
F(byte_off_of_first_tr)
F(num_of_trailer_stanza)
E()
K(CommonSEGD, GeneralHeader)
F(file_number)
F(format_code)
F(gen_const)
F(year)
F(add_gen_hdr_blocks)
F(day)
F(hour)
F(minute)
F(second)
F(manufac_code)
F(manufac_num)
F(bytes_per_scan)
F(base_scan_int)
F(polarity)
F(scans_per_block)
F(record_type)
F(record_length)
F(scan_types_per_record)
F(channel_sets_per_scan_type)
F(skew_blocks)
F(extended_hdr_blocks)
F(external_hdr_blocks)
E()
K(CommonSEGD, GeneralHeader2)
F(expanded_file_num)
F(ext_ch_sets_per_scan_type)
F(extended_hdr_blocks)
F(external_hdr_blocks)
F(extended_skew_blocks)
F(segd_rev_major)
F(segd_rev_minor)
F(gen_trailer_num_of_blocks)
F(ext_record_len)
F(record_set_number)
F(ext_num_add_blks_in_gen_hdr)
F(dominant_sampling_int)
F(gen_hdr_block_num)
F(sequence_number)
E()
K(CommonSEGD, GeneralHeaderN)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(phase_control)
F(type_vibrator)
F(phase_angle)
F(gen_hdr_block_num)
F(sou_set_num)
E()
K(CommonSEGD, GeneralHeader3)
F(time_zero)
F(record_size)
F(data_size)
F(header_size)
F(extd_rec_mode)
F(rel_time_mode)
F(gen_hdr_block_num)
E()
K(CommonSEGD, GeneralHeaderVes)
F(abbr_vessel_crew_name)
F(vessel_crew_name)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderSur)
F(survey_area_name)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderCli)
F(client_name)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderJob)
F(abbr_job_id)
F(job_id)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderLin)
F(line_abbr)
F(line_id)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderVib)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(phase_control)
F(type_vibrator)
F(phase_angle)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderExp)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(depth)
F(charge_length)
F(soil_type)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderAir)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(depth)
F(air_pressure)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderWat)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(depth)
F(air_pressure)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderEle)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(source_type)
F(moment)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderOth)
F(expanded_file_number)
F(sou_line_num)
F(sou_point_num)
F(sou_point_index)
F(source_id)
F(source_set_num)
F(reshoot_idx)
F(group_idx)
F(depth_idx)
F(offset_crossline)
F(offset_inline)
F(size)
F(offset_depth)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderAdd)
F(time)
F(source_status)
F(source_id)
F(source_moving)
F(error_description)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderSaux)
F(source_id)
F(scan_type_num_1)
F(ch_set_num_1)
F(trace_num_1)
F(scan_type_num_2)
F(ch_set_num_2)
F(trace_num_2)
F(scan_type_num_3)
F(ch_set_num_3)
F(trace_num_3)
F(scan_type_num_4)
F(ch_set_num_4)
F(trace_num_4)
F(scan_type_num_5)
F(ch_set_num_5)
F(trace_num_5)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderCoord)
F(crs)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderPos1)
F(time_of_position)
F(time_of_measurement)
F(vert_error)
F(hor_error_semi_major)
F(hor_error_semi_minor)
F(hor_error_orientation)
F(position_type)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderPos2)
F(crs_a_coord1)
F(crs_a_coord2)
F(crs_a_coord3)
F(crs_a_crsref)
F(pos1_valid)
F(pos1_quality)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderPos3)
F(crs_b_coord1)
F(crs_b_coord2)
F(crs_b_coord3)
F(crs_b_crsref)
F(pos2_valid)
F(pos2_quality)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderRel)
F(offset_east)
F(offset_north)
F(offset_vert)
F(description)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderSen)
F(instrument_test_time)
F(sensor_sensitivity)
F(instr_test_result)
F(serial_number)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderSCa)
F(freq1)
F(amp1)
F(phase1)
F(freq2)
F(amp2)
F(phase2)
F(calib_applied)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderTim)
F(time_of_depl)
F(time_of_retr)
F(timer_offset_depl)
F(time_offset_retr)
F(timedrift_corr)
F(corr_method)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderElSR)
F(equip_dim_x)
F(equip_dim_y)
F(equip_dim_z)
F(pos_term)
F(equip_offset_x)
F(equip_offset_y)
F(equip_offset_z)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderOri)
F(rot_x)
F(rot_y)
F(rot_z)
F(ref_orientation)
F(time_stamp)
F(ori_type)
F(ref_orient_valid)
F(rot_applied)
F(rot_north_applied)
F(gen_hdr_block_type)
E()
K(CommonSEGD, GeneralHeaderMeas)
F(timestamp)
F(measurement_value)
F(maximum_value)
F(minimum_value)
F(quantity_class)
F(unit_of_measure)
F(measurement_description)
F(gen_hdr_block_type)
E()
K(CommonSEGD, ChannelSetHeader)
F(scan_type_number)
F(channel_set_number)
F(channel_type)
F(channel_set_start_time)
F(channel_set_end_time)
F(descale_multiplier)
F(number_of_channels)
F(subscans_per_ch_set)
F(channel_gain)
F(alias_filter_freq)
F(alias_filter_slope)
F(low_cut_filter_freq)
F(low_cut_filter_slope)
F(first_notch_filter)
F(second_notch_filter)
F(third_notch_filter)
F(ext_ch_set_num)
F(ext_hdr_flag)
F(trc_hdr_ext)
F(vert_stack)
F(streamer_no)
F(array_forming)
E()
