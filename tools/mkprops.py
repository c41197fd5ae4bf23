#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
IO, GR, NV, UT, DB = "shipgrav/io.py", "shipgrav/grav.py", "shipgrav/nav.py", "shipgrav/utils.py", "shipgrav/database.toml"

p("C01", "Every reader returns timezone-aware UTC timestamps",
  "The time column of every data frame returned by a built-in reader (navigation, BGM RGS, BGM raw, DGS laptop, DGS raw; every supported vessel or file layout) holds timezone-aware UTC timestamps, never naive or local ones. The vessel-independent corrections that consume timestamps interpret them as the instant they denote, so the same instant written in another time zone gives the same tide.",
  ["inputs", "configurations"], "all vessels, file layouts and timestamps",
  "Tests look at the first record of one short file per vessel, and .timestamp() of a naive pandas stamp happens to equal the UTC one, so a naive column passes.",
  [IO, GR], [("utc=True / tzinfo=timezone.utc in each parser", IO), ("_convert_datetime_tidetime", GR)],
  ["date_time / stamps column of the returned frame", "longman_tide_prediction result"])
p("C02", "Every registered vessel has a reader; unknown vessels yield -999",
  "Every vessel that the shipped database lists for navigation talkers or BGM scale factors is accepted by the corresponding reader and is parsed by the parser for its own format, and every vessel with a DGS meter bias is readable by both DGS readers. A vessel the package does not support (and for which no user function is given) makes read_nav, read_bgm_rgs, read_bgm_raw and read_dgs_laptop return -999, without opening or returning any data and without raising.",
  ["configurations", "inputs"], "all vessel names, in and out of the database",
  "Tests try one unknown name per reader and one file per vessel; a vessel added to the database without a branch (or the reverse) is not noticed.",
  [IO, DB], [("ship dispatch in read_nav / read_bgm_raw / read_bgm_rgs / read_dgs_laptop / read_dgs_raw", IO), ("vessel tables", DB)],
  ["return value of the readers"])
p("C03", "User-supplied talker, scale and parser always win over built-ins",
  "When the caller supplies a nav talker, a BGM scale factor or a ship_function, that value is the one used for every file and every vessel, listed in the database or not; the database value and the built-in parser are used only when the caller supplied nothing. A ship_function for navigation receives the lines of the file and the talker, the others receive the file path.",
  ["configurations", "inputs"], "all combinations of vessel and overrides",
  "No test passes ship_function or scale at all; the combinations with each vessel are never run.",
  [IO], [("talker/scale/ship_function selection", IO)], ["returned frame"])
p("C04", "Multi-file reads keep every file, in the given order",
  "Reading a list of paths returns the rows of every file, file after file in the order of the list, under one fresh 0..n-1 index, and each file is parsed independently of the others; a single path given as a string is the same as a one-element list. This holds for BGM RGS, BGM raw, DGS laptop and DGS raw readers, with built-in or user-supplied parsers.",
  ["inputs", "histories"], "all lists of files, any length and order",
  "Every existing test reads exactly one file.",
  [IO], [("per-file loop and pd.concat(..., ignore_index=True)", IO)], ["returned frame"])
p("C05", "Navigation records stay intact: unique, time-ordered, aligned",
  "The navigation frame has strictly increasing unique times (fixes of one file at the same time count as one fix), and each row's longitude, latitude and UTC stamp belong to the same fix as its time: duplicates are dropped and decimation (every n-th point of each file, 0 meaning none) is applied to time, longitude and latitude together. No file of the list is lost, and a file without any line of the requested talker makes read_nav return -999 for every built-in vessel instead of raising or returning partial data.",
  ["inputs", "histories", "configurations"], "all file lists, duplicates, decimations, talkers",
  "Tests read one file, without decimation, duplicates or a missing talker, and look at the first row.",
  [IO], [("per-file interpolation, decimation and np.unique in read_nav", IO)], ["frame returned by read_nav"])
p("C06", "NMEA coordinates decode exactly, with hemisphere and dropouts",
  "For every talker line, latitude is degrees (2 digits) plus minutes/60 and longitude degrees (3 digits) plus minutes/60, negative exactly for S and W respectively; a line with an empty latitude or longitude field gives NaN for both. One coordinate pair is produced per line containing the talker, in file order, whatever precedes the talker on the line.",
  ["inputs"], "all GGA-style talker lines",
  "Test fixtures have one hemisphere combination each, no dropouts, and the assertions are one-sided inequalities.",
  [IO], [("_navcoords", IO)], ["lon/lat of read_nav"])
p("C07", "Navigation clock times keep their exact value to the sub-second digit",
  "The UTC clock field hhmmss[.fff...] of a talker line is decoded to the hour, minute, second and microsecond it denotes, for every number of fractional digits, and navigation timestamps built from the clock field carry that fraction of a second (known exception: Thompson).",
  ["inputs"], "all clock fields, any number of decimals",
  "Fixtures only contain fractions for which a wrong scaling of the digits cannot be seen (.00, .56, .06).",
  [IO], [("_clock_time and its users", IO)], ["time_sec of read_nav"])
p("C08", "Each vessel's nav date comes from its own record, fields in the right place",
  "For each built-in vessel layout the calendar date of a fix is taken from the date that belongs to that very fix (the text before the talker on the same line; for Revelle the nearest preceding dated line after the previous fix, which every fix is assumed to have), with year, month, day or day-of-year read from the positions that layout defines, and combined with that fix's own time of day. No fix receives the date or the time of another.",
  ["inputs"], "all records of every supported vessel layout",
  "One short single-day fixture per vessel, first row only.",
  [IO], [("_navdate_* parsers", IO)], ["time_sec/stamps of read_nav"])
p("C09", "DGS laptop columns carry the quantity their name says",
  "Every laptop-file parser assigns each column name to the file field that holds that quantity in the AT1M layout (after the vessel's own prefix columns), all parsers agree on that layout, and the record time is built from the record's own date and time fields. Langseth rows are used exactly when they have 26 fields after the optional prefix; no other row is dropped and none is altered.",
  ["inputs", "configurations"], "all parsers, all columns",
  "Tests check ve and rgrav of the first row with one-sided inequalities; a swap of other columns passes.",
  [IO], [("names/usecols tables of _dgs_laptop_*", IO)], ["frame returned by read_dgs_laptop"])
p("C10", "DGS raw columns are mapped right and monitors scaled exactly once",
  "Every serial-file parser assigns each column name to the field that holds it in the AT1M serial string, all parsers agreeing on the order. With scale_ccp the four cross-coupling monitors ve, vcc, al, ax of every file are each multiplied by 1e-5 exactly once and no other column is changed; without it they are returned as recorded.",
  ["inputs", "configurations"], "all vessels, all columns, scale_ccp on and off, any number of files",
  "Tests look at Gravity and vcc of one row, scaled, with a one-sided inequality.",
  [IO], [("_dgs_raw_* parsers and the scale_ccp block", IO)], ["frame returned by read_dgs_raw"])
p("C11", "BGM raw gravity is counts times the meter's scale factor",
  "For every record, the raw BGM readers report the integer count that follows the colon of the count field, the record's own time stamp, and rgrav equal to that count times the scale factor in force (the vessel's in the database unless the caller gave one). RGS files give time, gravity, latitude and longitude from the fields that hold them.",
  ["inputs", "configurations"], "all vessels, scale factors and records",
  "Tests check the first record per vessel with the database scale.",
  [IO, DB], [("read_bgm_raw, _bgmserial_*, read_bgm_rgs", IO)], ["frames returned by read_bgm_raw and read_bgm_rgs"])
p("C12", "The auxiliary feed reader returns every line of the requested feed",
  "read_other_stuff returns one row per line of the data file that carries the requested feed, in file order, including the first and the last line, with the columns the yaml format string names, in that order, taken from the text after the tag, and the text before the tag in the 'mystery' column. Giving the tag with or without '$' is equivalent, and a tag missing from the yaml or from the file is rejected. A field that is a number becomes a number, an empty one NaN, any other stays text.",
  ["inputs"], "all data files, tags and yaml specs",
  "The test looks at three values of the first row only.",
  [IO], [("read_other_stuff", IO)], ["frame returned by read_other_stuff"])
p("C13", "Dateline clean-up changes longitudes only by whole turns",
  "When a track crosses +/-180 degrees, the nav reader moves the points of the minority side by exactly 360 degrees towards the majority side and leaves the others, and all other columns, untouched; only points that still jump by more than a degree may be replaced, by the mean of their neighbours (every other jump, when their number is even). Longitudes are within half a turn; on a tie the eastern points move. Tracks without a jump of more than a degree are returned unchanged.",
  ["inputs"], "all tracks, either majority side",
  "No fixture crosses the dateline, so the code is never run by a test.",
  [IO], [("_clean_180cross and its call in read_nav", IO)], ["lon column of read_nav"])
p("C14", "Library calls never alter the caller's data or the outside world",
  "No public function modifies the arrays, lists or frames passed to it (the status decoder, documented to add columns to the frame it is given, excepted), module state, or its own default arguments; calls therefore give the same result whenever repeated. No function other than the ini converter writes, creates, renames or deletes a file, and that one writes only its documented output path.",
  ["inputs", "histories"], "all call sequences and arguments",
  "Tests call each function once on data they do not look at again.",
  [IO, GR, NV, UT], [("functional style: results in fresh arrays", GR), ("open(..., 'r'/'rb') everywhere but clean_ini_to_toml", UT)], ["arguments after the call", "file system"])
p("C15", "Every file the library opens is closed on every exit",
  "Each file or memory map that a library function opens is released when the function ends, on normal return, early return and exception alike.",
  ["inputs", "fault_sequences"], "all inputs, including malformed ones that raise half-way",
  "Leaks show up only as resource warnings under faults the tests never inject.",
  [IO, UT], [("with open(...)", IO)], ["open file descriptors"])
p("C16", "Longman tide: published formula, total = moon + sun",
  "The predicted tide at each point is the Longman (1959) lunar plus solar vertical acceleration for that point's longitude, latitude, altitude and own UTC instant, scaled by the Love-number factor 1 + h2 - 1.5*k2 and expressed in mGal; asking for components returns the same total together with a lunar and a solar part that add up to it. Points do not influence each other.",
  ["inputs"], "all positions, altitudes and times",
  "The test compares one point with a one-sided inequality.",
  [GR], [("longman_tide_prediction, _convert_datetime_tidetime", GR)], ["longman_tide_prediction result"])
p("C17", "Eotvos correction: Harlan's formula, aligned, zero at rest",
  "For every track the Eotvos correction is Harlan's (1968) full expression (vertical component of rotational, Coriolis, centrifugal and vertical accelerations minus Earth's centrifugal term, in mGal) evaluated with central differences at the sample it is reported for, with the two end samples repeating their neighbours so that output and input have equal length. It vanishes identically for a platform at rest and depends on longitude only through its rate of change.",
  ["inputs"], "all tracks, heights, sampling rates and ellipsoids",
  "The test checks the first (edge) sample of one track with a one-sided inequality, height zero and 1 Hz only.",
  [GR], [("eotvos_full, center_diff", GR)], ["eotvos_full result"])
p("C18", "Normal gravity and free-air corrections follow the WGS84 formulas",
  "wgs_grav is the WGS84 Somigliana formula (equatorial gravity 978032.53359 mGal, k = 0.00193185265241, e^2 = 0.00669437999014), a function of latitude symmetric about the equator. The second-order free-air correction is -(c0 - 0.0004398 sin^2(lat)) h + 7.2125e-8 h^2 with c0 = 0.3087691, or 0.22242 for the free-water option, and vanishes at zero height.",
  ["inputs", "configurations"], "all latitudes, heights, both options",
  "wgs_grav is never asserted on and free air is tested at height zero only, where every coefficient is invisible.",
  [GR], [("wgs_grav, free_air_second_order", GR)], ["results"])
p("C19", "Cross-coupling fit treats monitors alike and uses all continuous data",
  "Gravity and every monitor go through one and the same double differentiation, trimming and filtering, sample-aligned, and the regression explains minus the gravity curvature by a constant and the ve, vcc, al, ax and level monitors, each under its own name. With timestamps given, the series is split exactly where consecutive times differ by more than five sample intervals, no segment contains a gap, and every segment of at least 1000 samples, including the last, contributes.",
  ["inputs", "configurations"], "all series, with and without gaps",
  "The test has no timestamps, hence no gaps, and one-sided inequalities on two coefficients.",
  [GR], [("calc_cross_coupling_coefficients", GR)], ["returned frame and model"])
p("C20", "Platform up-vectors are unit vectors from the tilt-filtered accelerations",
  "up_vecs returns one unit vector per sample, obtained by rotating the vertical by the arctangents of the tilt-filtered cross and long accelerations over local gravity (rotation order alternating from sample to sample), with NaN accelerations and samples flagged by on_off treated as zero. Cross and long axes are treated identically, each with its own period and damping, through the bilinear-transform tilt filter.",
  ["inputs"], "all acceleration series, flags, periods and dampings",
  "The test checks only the first sample, where every acceleration is NaN and thus zero.",
  [GR], [("up_vecs, _tilt_filter, _calc_up_vecs", GR)], ["up_vecs result"])
p("C21", "Velocity, heading and rotation follow the geometry of the ellipsoid",
  "latlon_to_EN returns north then east velocity from 10th-order central differences of latitude and longitude on the WGS84 ellipsoid, scaled by the sampling frequency, NaN exactly in the first and last five samples; both copies of the differentiator are the exact antisymmetric 10th-order stencil. Course is the angle of the velocity clockwise from north in degrees and speed its magnitude, and rotating accelerations to cross/long preserves their magnitude, a motion along its own heading having only a long component.",
  ["inputs"], "all tracks and velocities",
  "The tests use a due-north track at constant longitude and one-sided inequalities.",
  [NV, GR], [("latlon_to_EN, ENvel_to_course_heading, rotate_acceleration_EN_to_cl, tay10", NV)], ["results"])
p("C22", "Parker gravity of relief follows the Parker series for any grid size",
  "grav1d_padded and grav2d_folding evaluate Parker's series (mean removed, powers 1 to n over n factorial with wavenumber to the n-1, upward continuation to the requested level, mGal) with the wavenumber of each discrete frequency being its true distance to zero frequency, for odd and even grid sizes, folded or not. The anomaly is returned on the input grid and is proportional to the density contrast.",
  ["inputs", "configurations"], "all profiles and grids, odd and even sizes, folding on and off",
  "One even-sized case each, one value, one-sided inequality.",
  [GR], [("grav1d_padded, grav2d_folding", GR)], ["results"])
p("C23", "Gravity of a variable-density layer uses the true grid wavenumbers",
  "The layer anomaly is, for each discrete frequency, the density spectrum times 2*pi*G*(exp(-k z1) - exp(-k z2))/k with zero at zero frequency, in mGal, where k is the true radial wavenumber of that frequency: reversing the grid in x or y only reverses the result, for odd and even sizes.",
  ["inputs"], "all density grids, odd and even sizes",
  "One 5x5 case, one value, one-sided inequality.",
  [GR], [("grav2d_layer_variable_density, _kvalue", GR)], ["result"])
p("C24", "Thermal models are mutually consistent and honour age/distance input",
  "Half-space temperature and isotherm depth are each other's inverse and report the same seafloor subsidence; the plate model is the ten-term cooling series with mantle temperature below the plate, and its isotherms are read off that same temperature field with every parameter passed through. In all four functions age input in Myr and across-axis distance over spreading rate denote the same time in seconds, the spreading rate is ignored with ages, and distances on either side of the axis are equivalent.",
  ["inputs", "configurations"], "all ages, distances, depths and parameters",
  "One point with default parameters and distances only, one-sided inequalities.",
  [GR], [("therm_halfspace, therm_Z_halfspace, therm_plate, therm_Z_plate", GR)], ["results"])
p("C25", "Crustal thickness is the tapered downward continuation of the residual",
  "Crustal thickness is the mean-removed, sign-reversed residual divided by 2*pi*G*rho, continued down by exp(k z) with a cosine taper that is 1 below the long-wavelength cutoff, 0 above the short one and continuous between; k is the true wavenumber of each discrete frequency. With back=True the recovered gravity is the upward continuation of that same thickness with the mean restored, and both profiles are ordered like the input.",
  ["inputs", "configurations"], "all residuals, grids, cutoffs, with and without back",
  "One random profile, first value, one-sided inequality.",
  [GR], [("crustal_thickness_2D", GR)], ["results"])
p("C26", "The gaussian filter is causal, symmetric and preserves constants",
  "gaussian_filter returns as many samples as it is given, each being the dot product of a kernel that sums to one with the latest samples up to that one (zeros before the start), independent of later samples: 2*floor(fl/2)+1 weights, proportional to exp(-(6(d-1)/fl)^2/2) at distance d from the middle, so symmetric, and it rejects series not longer than the filter.",
  ["inputs"], "all series and filter lengths",
  "One impulse, one length, one value, one-sided inequality.",
  [UT], [("gaussian_filter, _gaussian_coeffs", UT)], ["result"])
p("C27", "Status decoding maps each named flag to its own bit, alike for ints and frames",
  "Each of the sixteen status flags is the bit at its documented position of the (non-negative) 16-bit status word, most significant first, and decoding an integer or a frame column gives the same flags for the same word; for a frame all other columns and all rows are kept. Anything but an int or a data frame is rejected.",
  ["inputs"], "all status words and frames",
  "Four flags of one integer are checked; the frame branch is never run.",
  [UT], [("decode_dgs_status_bits", UT)], ["result"])
p("C28", "ini to toml conversion keeps every key and its whole value",
  "clean_ini_to_toml writes the input's lines in order to the input path with extension .ini replaced by .toml: section, comment and blank lines are kept, booleans (TRUE and FALSE in lower case) and numbers stay bare, already quoted strings are not quoted again, // comments become # comments, every other value is written quoted and complete under its key, and trailing comments are kept as comments. White space may change, and a line that starts with $ loses its dollar signs (known finding: // and TRUE/FALSE are rewritten inside quotes too).",
  ["inputs"], "all ini files",
  "No test calls it.",
  [UT], [("clean_ini_to_toml", UT)], ["output file"])
p("C29", "The point picker's longitudes, latitudes and indices stay in lockstep",
  "After any sequence of mouse clicks the picker's lists of longitudes, latitudes and row indices have equal length and corresponding entries belong to the same data row; a left click inside the axes adds exactly one point, the row nearest in time (outside it does nothing), a right click removes the last one (and does nothing when there is none), other buttons change nothing, and the plotted markers show the lists. While the cursor moves over the time axis the dot in the map is the row nearest in time to the first plotted point not before the cursor (the last one beyond the end).",
  ["histories", "inputs"], "all click sequences",
  "No test touches the class.",
  [UT], [("_SnappingCursor.on_mouse_click", UT)], ["x_seg, y_seg, i_seg"], [("x_seg/y_seg/i_seg", "picked longitude, latitude, row index", UT)])
p("C30", "Every documented parameter takes effect",
  "For every public function, each parameter its documentation describes influences the result for some input (the progress-bar switch influences the display), and passing a parameter is never silently ignored unless the documentation says so.",
  ["inputs", "configurations"], "all public functions and parameters",
  "Tests leave most parameters at their defaults.",
  [IO, GR, NV, UT], [("use of each parameter", GR)], ["results"])
p("C31", "Example workflows and internal calls fit the library's interface",
  "Every call to a library function, in the library and in the example scripts, binds to that function's signature, unpacks as many results as it returns, uses names, attributes and columns that exist, and passes series of equal length to functions that pair samples; every database entry that the code looks up for a vessel it handles exists with a usable value.",
  ["programs", "configurations"], "all call sites of the repository",
  "The example scripts need downloads and are never run by the tests.",
  [IO, GR, DB, "example-scripts"], [("function signatures and return arity", GR), ("database keys", DB)], ["call sites"])
p("C32", "Numerical results stay within physical accuracy",
  "Corrections and anomalies agree with the true physical quantities to the accuracy of the published methods: round-off, cancellation and FFT edge effects stay below the measurement noise for realistic surveys.",
  ["inputs"], "all realistic surveys",
  "Tests compare single values.", [GR], [("floating-point evaluation", GR)])
p("C33", "Malformed lines never crash a reader or corrupt neighbouring records",
  "A truncated or corrupted line in an otherwise valid nav, BGM, DGS or MRU file costs at most that record.",
  ["inputs", "fault_sequences"], "all corruptions of input files",
  "Fixtures are clean.", [IO], [("line parsers", IO)])
p("C34", "Fixes around midnight get the right calendar day",
  "When a record's logging date and its GPS clock lie on different sides of midnight, the timestamp is the instant of the fix and not a day off.",
  ["inputs"], "all records within seconds of midnight", "Fixtures are not at midnight.", [IO], [("_navdate_Atlantis/_NBP/_Thompson/_Revelle", IO)])
p("C35", "Processing time and memory stay linear in the record length",
  "A cruise of n samples is read and corrected in time and memory proportional to n.",
  ["inputs"], "all cruise lengths", "Fixtures are short.", [IO, UT], [("accumulation loops", IO)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
