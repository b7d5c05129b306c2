// field constants / standard trace header names and the text each stands for (reviewed against the standards)
H(CommonSEGY, BinaryHeader)
N(JOB_ID, "Job identification number")
N(LINE_NUM, "Line number")
N(REEL_NUM, "Reel number")
N(TR_PER_ENS, "Number of data traces per ensemble")
N(AUX_PER_ENS, "Number of auxiliary traces per ensemble")
N(SAMP_INT, "Sample interval")
N(SAMP_INT_ORIG, "Sample interval of original field recording.")
N(SAMP_PER_TR, "Number of samples per data trace")
N(SAMP_PER_TR_ORIG, "Number of samples per data trace of original field recording")
N(FORMAT_CODE, "Data sample format code")
N(ENS_FOLD, "Ensemble fold")
N(SORT_CODE, "Trace sorting code")
N(VERT_SUM_CODE, "Vertical sum code")
N(SW_FREQ_AT_START, "Sweep frequency at start (Hz)")
N(SW_FREQ_AT_END, "Sweep frequency at end (Hz)")
N(SW_LENGTH, "Sweep length (ms)")
N(SW_TYPE_CODE, "Sweep type code")
N(SW_CH_TR_NUM, "Trace number of sweep channel")
N(TAPER_AT_START, "Sweep trace taper length in ms at start if tapered")
N(TAPER_AT_END, "Sweep trace taper length in ms at end")
N(TAPER_TYPE, "Taper type")
N(CORR_TRACES, "Correlated data traces")
N(BIN_GAIN_RECOV, "Binary gain recovered")
N(AMP_RECOV_METH, "Amplitude recovery method")
N(MEASURE_SYSTEM, "Measure system")
N(IMPULSE_SIG_POL, "Impulse signal polarity")
N(VIB_POL_CODE, "Vibratory polarity code")
N(EXT_TR_PER_ENS, "Extended number of data traces per ensemble")
N(EXT_AUX_PER_ENS, "Extended number of auxiliary traces per ensemble")
N(EXT_SAMP_PER_TR, "Extended number of samples per data trace")
N(EXT_SAMP_INT, "Extended sample interval")
N(EXT_SAMP_INT_ORIG, "Extended sample interval of original field recording")
N(EXT_SAMP_PER_TR_ORIG, "Extended number of samples per data trace in original recording")
N(EXT_ENS_FOLD, "Extended ensemble fold")
N(ENDIANNESS, "Integer constant used to detect the byte ordering")
N(SEGY_REV_MAJOR_VER, "Major SEG-Y Format Revision Number")
N(SEGY_REV_MINOR_VER, "Minor SEG-Y Format Revision Number")
N(FIXED_TR_LENGTH, "Fixed length trace flag")
N(EXT_TEXT_HEADERS_NUM, "Number of Extended Textual File Header records")
N(MAX_NUM_ADD_TR_HEADERS, "Maximum number of additional trace headers")
N(TIME_BASIS_CODE, "Time basis code")
N(NUM_OF_TR_IN_FILE, "Number of traces in this file")
N(BYTE_OFF_OF_FIRST_TR, "Byte offset of first traces relative to start of file")
N(NUM_OF_TRAILER_STANZA, "Number of data trailer stanza records")
E
H(CommonSEGD, GeneralHeader)
N(FILE_NUMBER, "File number")
N(FORMAT_CODE, "Format code")
N(GENERAL_CONSTANTS, "General constants")
N(YEAR, "Last two digits of year")
N(GENERAL_HEADER_BLOCKS, "Number of additional blocks in General Header")
N(DAY, "Julian day")
N(HOUR, "Hour of dat (Greenwich Mean Time)")
N(MINUTE, "Minute of hour")
N(SECOND, "Second of minute")
N(MANUFACTURERS_CODE, "Manufacturer's code")
N(MANUFACTURERS_NUMBER, "Manufacturer's serial number")
N(BYTES_PER_SCAN, "Bytes per scan are utilized in the multiplexed formats")
N(BASE_SCAN_INTERVAL, "Base scan interval")
N(POLARITY, "Polarity")
N(SCANS_PER_BLOCK, "Number of scans in a block. It is valid only for multiplexed data")
N(RECORD_TYPE, "Record type")
N(RECORD_LENGTH, "Record length from time zero")
N(SCAN_TYPES_PER_RECORD, "Scan types per record")
N(CHANNEL_SETS_PER_SCAN_TYPE, "Number of channel sets per scan type")
N(SKEW_BLOCKS, "Number of 32 byte fields added to the end of each scan type header")
N(EXTENDED_HEADER_BLOCKS, "Extended header length")
N(EXTERNAL_HEADER_BLOCKS, "External header length")
E
H(CommonSEGD, GeneralHeader2)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(EXT_CH_SETS_PER_SCAN_TYPE, "Extended Channel Sets per Scan Types")
N(EXTEDNDED_HEADER_BLOCKS, "Extended Header Blocks")
N(EXTERNAL_HEADER_BLOCKS, "External Header Blocks")
N(EXTENDED_SKEW_BLOCKS, "Extended_skew_blocks")
N(SEGD_REVISION_MAJOR, "SEG-D Revision Number Major")
N(SEGD_REVISION_MINOR, "SEG-D Revision Number Minor")
N(GEN_TRAILER_NUMBER_OF_BLOCKS, "The number of 32 bytr blocks to be used to General Trailers")
N(EXTENDED_RECORD_LENGTH, "Extended Record Length")
N(RECORD_SET_NUMBER, "Record set number")
N(EXT_NUM_ADD_BLKS_IN_GEN_HDR, "Extended Number of additional Blocks in the General Header")
N(DOMINANT_SAMPLING_INT, "Dominant Sampling Interval")
N(GEN_HEADER_BLOCK_NUM, "General Header Block Number")
E
H(CommonSEGD, GeneralHeaderN)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(PHASE_CONTROL, "Phase Control")
N(TYPE_VIBRATOR, "Type Vibrator")
N(PHASE_ANGLE, "Phase Angle")
N(GEN_HEADER_BLOCK_NUM, "General Header Block Number")
N(SOURCE_SET_NUMBER, "Source Set Number")
E
H(CommonSEGD, GeneralHeader3)
N(TIME_ZERO, "Time Zero for this record")
N(RECORD_SIZE, "The total size of the SEG-D record in bytes")
N(DATA_SIZE, "The total size of the headers and data in this record in bytes")
N(HEADER_SIZE, "The total size of the headers in this record in bytes")
N(EXTD_REC_MODE, "1 for Extended Recording Mode, 0 for normal record")
N(REL_TIME_MODE, "1 if this record does not contain absolute timestamps")
N(GEN_HEADER_BLOCK_NUM, "General Header Block Number")
E
H(CommonSEGD, GeneralHeaderVes)
N(ABBR_VESSEL_OR_CREW_NAME, "Abbreviated vessel or crew name")
N(VESSEL_OR_CREW_NAME, "Vessel or crew name")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderSur)
N(SURVEY_ARE_NAME, "Survey Area Name")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderCli)
N(CLIENT_NAME, "Client Area Name")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderJob)
N(ABBR_JOB_ID, "Abbr Job Identification")
N(JOB_ID, "Job Identification")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderLin)
N(LINE_ABBR, "Line Abbreviation")
N(LINE_ID, "Line Identification")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderVib)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(PHASE_CONTROL, "Phase Control")
N(TYPE_VIBRATOR, "Type Vibrator")
N(PHASE_ANGLE, "Phase Angle")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderExp)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(DEPTH, "Depth")
N(CHARGE_LENGTH, "Charge Length")
N(SOIL_TYPE, "Soil Type")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderAir)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(DEPTH, "Depth")
N(AIR_PRESSURE, "Air pressure")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderWat)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(DEPTH, "Depth")
N(AIR_PRESSURE, "Air pressure")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderEle)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(SOURCE_TYPE, "Source type")
N(MOMENT, "Moment")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderOth)
N(EXPANDED_FILE_NUMBER, "Expanded File Number")
N(SOURCE_LINE_NUMBER, "Source Line Number")
N(SOURCE_POINT_NUMBER, "Source Point Number")
N(SOURCE_POINT_INDEX, "Source Point Index")
N(SOURCE_ID, "Source Id")
N(SOURCE_SET_NUM, "Source Set No")
N(RESHOOT_INDEX, "Re-shoot Index")
N(GROUP_INDEX, "Group Index")
N(DEPTH_INDEX, "Depth Index")
N(OFFSET_CROSSLINE, "Offset Cross-line")
N(OFFSET_INLINE, "Offset In-line")
N(SIZE, "Size")
N(OFFSET_DEPTH, "Offset Depth")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderAdd)
N(TIME, "Time")
N(SOURCCE_STATUS, "Source Status")
N(SOURCE_ID, "Source Id")
N(SOURCE_MOVING, "Source Moving")
N(ERROR_DESCRIPTION, "Error description")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderSaux)
N(SOURCE_ID, "Source Id")
N(SCAN_TYPE_NUM_1, "Scan Type Number 1")
N(CH_SET_NUM_1, "Channel Set Number 1")
N(TRACE_NUM_1, "Trace Number 1")
N(SCAN_TYPE_NUM_2, "Scan Type Number 2")
N(CH_SET_NUM_2, "Channel Set Number 2")
N(TRACE_NUM_2, "Trace Number 2")
N(SCAN_TYPE_NUM_3, "Scan Type Number 3")
N(CH_SET_NUM_3, "Channel Set Number 3")
N(TRACE_NUM_3, "Trace Number 3")
N(SCAN_TYPE_NUM_4, "Scan Type Number 4")
N(CH_SET_NUM_4, "Channel Set Number 4")
N(TRACE_NUM_4, "Trace Number 4")
N(SCAN_TYPE_NUM_5, "Scan Type Number 5")
N(CH_SET_NUM_5, "Channel Set Number 5")
N(TRACE_NUM_5, "Trace Number 5")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderCoord)
N(COORD_REF_SYS, "Coordinate Reference System (CRS) identification")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderPos1)
N(TIME_OF_POSITION, "Time of position")
N(TIME_OF_MEASUREMENT, "Time of measurement/calculation")
N(VERTICAL_ERROR, "Vertical error")
N(HOR_ERR_SEMI_MAJOR, "Horizontal error ellipse semi-major dimension")
N(HOR_ERR_SEMI_MINOR, "Horizontal error ellipse semi-minor dimension")
N(HOR_ERR_ORIENTATION, "Horizontal error ellipse orientation")
N(POSITION_TYPE, "Position Type")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderPos2)
N(CRS_A_COORD1, "Coord tuple 1 / CRS A Coord 1")
N(CRS_A_COORD2, "Coord tuple 1 / CRS A Coord 2")
N(CRS_A_COORD3, "Coord tuple 1 / CRS A Coord 3")
N(CRS_A_CRSREF, "CRS A CRSREF Stanza ID 1")
N(POS1_VALID, "Position 1 valid")
N(POS1_QUALITY, "Position 1 quality")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderPos3)
N(CRS_B_COORD1, "Coord tuple 2 / CRS B Coord 1")
N(CRS_B_COORD2, "Coord tuple 2 / CRS B Coord 2")
N(CRS_B_COORD3, "Coord tuple 2 / CRS B Coord 3")
N(CRS_B_CRSREF, "CRS B CRSREF Stanza ID 1")
N(POS2_VALID, "Position 2 valid")
N(POS2_QUALITY, "Position 2 quality")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderRel)
N(OFFSET_EAST, "Offset easting")
N(OFFSET_NORTH, "Offset northing")
N(OFFSET_VERT, "Offset vertical")
N(DESCRIPTION, "Description")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderSen)
N(INSTRUMENT_TEST_TIME, "Instrument Test Time")
N(SENSOR_SENSITIVITY, "Sensor Sensitivity")
N(INSTR_TEST_RESULT, "Instr Test Result")
N(SERIAL_NUMBER, "Serial Number")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderSCa)
N(FREQUENCY_1, "Frequency 1")
N(AMPLITUDE_1, "Amplitude 1")
N(PHASE_1, "Phase 1")
N(FREQUENCY_2, "Frequency 2")
N(AMPLITUDE_2, "Amplitude 2")
N(PHASE_2, "Phase 2")
N(ALIBRATION_APPLIED, "Calibration applied")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderTim)
N(TIME_OF_DEPLOYMENT, "Time of deployment")
N(TIME_OF_RETRIEVAL, "Time of retrieval")
N(TIMER_OFFSET_DEPLOYMENT, "Timer Offset Deployment")
N(TIME_OFFSET_RETRIEVAL, "Time Offset Retrieval")
N(TIMEDRIFT_CORRECTED, "Timedrift corrected")
N(CORRECTION_METHOD, "Correction method")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderElSR)
N(EQUIPMENT_DIMENTION_X, "Equipment Dimension X")
N(EQUIPMENT_DIMENTION_Y, "Equipment Dimension Y")
N(EQUIPMENT_DIMENTION_Z, "Equipment Dimension Z")
N(POSITIVE_TERMINAL, "Positive terminal")
N(EQUIPMENT_OFFSET_X, "Equipment Offset X")
N(EQUIPMENT_OFFSET_Y, "Equipment Offset Y")
N(EQUIPMENT_OFFSET_Z, "Equipment Offset Z")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderOri)
N(ROTATION_X_AXIS, "Rotation x axis")
N(ROTATION_Y_AXIS, "Rotation Y axis")
N(ROTATION_Z_AXIS, "Rotation Z axis")
N(REFERENCE_ORIENT, "Reference Orientation")
N(TIME_STAMP, "Time Stamp")
N(ORIENT_TYPE, "Orientation Type")
N(REF_ORIENT_VALID, "Ref Orient Valid")
N(ROTATION_APPLIED, "Rotation Applied")
N(ROT_NORTH_APPLIED, "Rot North Applied")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, GeneralHeaderMeas)
N(TIMESTAMP, "Timestamp")
N(MEASUREMENT_VALUE, "Measurement Value")
N(MAXIMUM_VALUE, "Maximum Value")
N(MINIMUM_VALUE, "Minimum Value")
N(QUANTITY_CLASS, "Quantity Class")
N(UNIT_OF_MEASURE, "Unit Of Measure")
N(MEASUREMENT_DESCRIPTION, "Measurement Description")
N(GEN_HEADER_TYPE, "General header type")
E
H(CommonSEGD, ChannelSetHeader)
N(SCAN_TYPE_NUMBER, "Scan type number")
N(CHANNEL_SET_NUMBER, "Channel set number")
N(CHANNEL_TYPE, "Channel type")
N(CHANNEL_SET_START_TIME, "Channel set start time")
N(CHANNEL_SET_END_TIME, "Channel set end time")
N(DESCALE_MULTIPLIER, "Descale multiplier")
N(NUMBER_OF_CHANNELS, "Number of channels")
N(SUBSCANS_PER_CH_SET, "Subscans per channel set")
N(CHANNEL_GAIN, "Channel gain")
N(ALIAS_FILTER_FREQ, "Alias filter frequency")
N(ALIAS_FILTER_SLOPE, "Alias filter slope")
N(LOW_CUT_FILTER_FREQ, "Low cut filter frequency")
N(LOW_CUT_FILTER_SLOPE, "Low cut filter slope")
N(FIRST_NOTCH_FILTER, "First notch filter")
N(SECOND_NOTCH_FILTER, "Second notch filter")
N(THIRD_NOTCH_FILTER, "Third notch filter")
N(EXT_CH_SET_NUM, "Extended channel set number")
N(EXT_HDR_FLAG, "Extended header flag")
N(TRC_HDR_EXT, "Trace header extension")
N(VERT_STACK, "Verical stack")
N(STREAMER_NO, "Streamer no")
N(ARRAY_FORMING, "Array forming")
N(NUMBER_OF_SAMPLES, "Number of samples")
N(SAMPLE_INTERVAL, "Sample interval")
N(FILTER_PHASE, "Filter phase")
N(PHYSICAL_UNIT, "Physical unit")
N(FILTER_DELAY, "Filter delay")
N(DESCRIPTION, "Description")
E
D("TRC_SEQ_LINE", "Trace sequence number within line.")
D("TRC_SEQ_SGY", "Trace sequence number within SEGY file.")
D("FFID", "Original field record number.")
D("CHAN", "Trace number within the original field record.")
D("ESP", "Energy source point number. Used when more than one record occures at the same effective surface location.")
D("ENS_NO", "Ensemble number (i.e. CDP, CMP, CRP, etc.).")
D("SEQ_NO", "Trace number within the ensemble.")
D("TRACE_ID", "Trace identification code.")
D("VERT_SUM", "Number of vertically summed traces yielding this trace.")
D("HOR_SUM", "Number of horizontally stacked traces yielding this trace.")
D("DATA_USE", "Data use: 1 = Production, 2 = Test")
D("OFFSET", "Distance from center of the source point to the center of the receiver group.")
D("R_ELEV", "Elevation of receiver group.")
D("S_ELEV", "Surface elevation at source location.")
D("S_DEPTH", "Source depth below surface.")
D("R_DATUM", "Seismic Datum elevation at receiver group.")
D("S_DATUM", "Seismic Datum elevation at source.")
D("S_WATER", "Water column height at source location.")
D("R_WATER", "Water column height at reseiver group location.")
D("ELEV_SCALAR", "Scalar to be aplied to all elevations and depths.")
D("COORD_SCALAR", "Scalar to be applied to all coordinates.")
D("SOU_X", "Source coordinate X.")
D("SOU_Y", "Source coordinate Y.")
D("REC_X", "Group coordinate X.")
D("REC_Y", "Group coordinate Y.")
D("COORD_UNITS", "Coordinate units. (1,3,4): length; decimal degrees; DMS.")
D("WEATH_VEL", "Weathering velocity.")
D("SUBWEATH_VEL", "Subweathering velocity.")
D("S_UPHOLE", "Uphole time at source in milliseconds.")
D("R_UPHOLE", "Uphole time at group in milliseconds.")
D("S_STAT", "Source static correction in milliseconds.")
D("R_STAT", "Receiver static correction in milliseconds.")
D("TOT_STAT", "Total static applied in milliseconds.")
D("LAG_A", "Lag time A. Time in ms between end of trace header and time break.")
D("LAG_B", "Lag time B. Time in ms between time break and initiation of source.")
D("DELAY_TIME", "Delay recording time. Time in ms between initiation of source andstart of recording")
D("MUTE_START", "Mute time. Start time in milliseconds.")
D("MUTE_END", "Mute time. End time in milliseconds.")
D("SAMP_NUM", "Number of samples in this trace.")
D("SAMP_INT", "Sample interval for this trace.")
D("GAIN_TYPE", "Gain type of field instruments: 1 = fixed, 2 = binary, 3 = floating point.")
D("GAIN_CONST", "Instrument gain constant (dB).")
D("INIT_GAIN", "Instrument early or initial gain (dB).")
D("CORRELATED", "Correlated: 1 = no, 2 = yes.")
D("SW_START", "Sweep frequency at start (Hz).")
D("SW_END", "Sweep frequency at end (Hz).")
D("SW_LENGTH", "Sweep length in milliseconds.")
D("SW_TYPE", "Sweep type: 1 = linear, 2 = parabolic, 3 = exponential.")
D("SW_TAPER_START", "Sweep trace taper length at start in milliseconds.")
D("SW_TAPER_END", "Sweep trace taper length at end in milliseconds.")
D("TAPER_TYPE", "Taper type: 1 = linear, 2 = cos^2, 3 = other.")
D("ALIAS_FILT_FREQ", "Alias filter frequency (Hz), if used.")
D("ALIAS_FILT_SLOPE", "Alias filter slope (dB/octave).")
D("NOTCH_FILT_FREQ", "Notch filter frequency (Hz), if used.")
D("NOTCH_FILT_SLOPE", "Notch filter slope (dB/octave).")
D("LOW_CUT_FREQ", "Low-cut frequency (Hz), if used.")
D("HIGH_CUT_FREQ", "High-cut frequency (Hz), if used.")
D("LOW_CUT_SLOPE", "Low-cut slope (dB/octave).")
D("HIGH_CUT_SLOPE", "High-cut slope (dB/octave).")
D("YEAR", "Year data recorded.")
D("DAY", "Day of year.")
D("HOUR", "Hour of day.")
D("MINUTE", "Minute of hour.")
D("SECOND", "Second of minute.")
D("TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, 5 = GPS")
D("TRACE_WEIGHT", "Trace weighting factor. Defined as 2^-N.")
D("GROUP_NUM_ROLL", "Geophone group number of roll switch position one.")
D("GROUP_NUM_FIRST", "Geophone group number of trace number one within original field record.")
D("GROUP_NUM_LAST", "Geophone group number of last trace within original field record.")
D("GAP_SIZE", "Gap size (total number of groups dropped).")
D("OVER_TRAVEL", "Over travel associated with taper at beginning or end of line.")
D("CDP_X", "X coordinate of ensemble (CDP) position.")
D("CDP_Y", "Y coordinate of ensemble (CDP) position.")
D("INLINE", "In-line number (for 3D).")
D("XLINE", "Cross-line number (for 3D).")
D("SP_NUM", "Shotpoint number. Shotpoint number refers to the source location nearest to CDP location")
D("SP_NUM_SCALAR", "Scalar to be applied to the SP_NUM.")
D("TR_VAL_UNIT", "Trace value measurement unit. 1 = Pa, 2 = V, 3 = mV, 4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W")
D("TRANS_CONST_MANT", "Transduction Constant. Transforms trace samples to the Transduction Units. Mantissa.")
D("TRANS_CONST_EXP", "Transduction Constant. Transforms trace samples to the Transduction Units. Power of ten exponent.")
D("TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W")
D("DEVICE_ID", "Device/Trace Identifier. The unit number or id of the device associated with trace data.")
D("TIME_SCALAR", "Scalar to be applied to upholes, statics, lags, delay and mutes.")
D("SOURCE_TYPE", "Defines the type and the orientation of energy source.")
D("SOU_V_DIR", "Source Energy Direction with respect to source orientation. Vertical.")
D("SOU_X_DIR", "Source Energy Direction with respect to source orientation. Cross-line.")
D("SOU_I_DIR", "Source Energy Direction with respect to source orientation. In-line.")
D("SOURCE_MEASUREMENT_MANT", "Source Measurement. Describes the source effort used to generate the trace. Mantissa.")
D("SOURCE_MEASUREMENT_EXP", "Source Measurement. Describes the source effort used to generate the trace. Power of ten exponent.")
D("SOU_MEAS_UNIT", "The unit used for the Source Measurement. 1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg.")
D("R_DEPTH", "Receiver group depth below the surface locacation of receiver group.")
D("NANOSECOND", "Nanoseconds to add to Second of minute.")
D("CABLE_NUM", "Cable number for multi-cable acquisition or Recording Device/Sensor ID number.")
D("ADD_TRC_HDR_NUM", "Number of additional trace header extension blocks including this one.")
D("LAST_TRC_FLAG", "Last trace flag. 1 = in ensemble, 2 = in line, 4 = in file, 8 = in survey.")
