EX = "bounded-exhaustive exploration of the real code against a reference model"
MCX = "explicit-state breadth-first model checking of the real code"
FX = "exhaustive fault enumeration on the real code"

P("C01", "Signature files decode to exactly what the instrument recorded",
  "Reading a Nortek Signature (.ad2cp) file gives, for every record type and optional data block it contains (burst, "
  "averaged, fifth beam, bottom track, echosounder, raw altimeter; AHRS, altimeter, standard deviations), every recorded "
  "sample in file order, scaled to physical units with its own time stamp. The geometry, coordinate frame, beam matrix, "
  "orientation/wake-up status and the list of vector variables come from the file as well. Where burst and fifth-beam "
  "records both carry an environmental reading or an attitude angle the result is their (circular) mean.",
  ["inputs", "configurations"],
  "every combination of record layout, optional blocks, beams x cells x ensembles, frame, raw values at the ends of "
  "their range, velocity scale, status word, geometry and calendar corner within the bounds",
  TQ + "a recorded file exercises one layout and one set of value ranges.",
  ["io/nortek2.py", "io/nortek2_lib.py", "io/nortek2_defs.py", "io/base.py"],
  [("struct tables built from the record's flag word", "io/nortek2_defs.py"),
   ("re-organisation of records into variables", "io/nortek2.py"),
   ("averaging of burst and fifth-beam scalars", "io/nortek2_lib.py"),
   ("dataset assembly", "io/base.py")],
  "exploration", EX, "Every file of the bounded layout space is encoded by an independent AD2CP encoder, read with the "
  "real reader and compared value by value. Trusts the encoder (written from the format guide).",
  ["dolfyn.read"])

P("C02", "A window of a Signature file equals that slice of the whole file",
  "Asking the Signature reader for ensembles (start, stop), or for the first n, returns exactly the dataset that reading "
  "the whole file and slicing every time axis would give, wherever text records sit in the file. A file cut with the "
  "package's cropping tool reads as that slice too.",
  ["inputs", "configurations"], "every layout x every window (start, stop), including stops past the end, x placement of "
  "text records", TQ + "they use two or three windows on one layout.",
  ["io/nortek2.py", "io/nortek2_lib.py"],
  [("ensemble counter driven by indexed positions", "io/nortek2.py"), ("index of records", "io/nortek2_lib.py")],
  "exploration", EX, "All windows of all layouts within bounds; oracle is slicing the full read, itself checked by C01.",
  ["dolfyn.read(nens=...)"])

P("C03", "What a Signature read returns never depends on index-file history",
  "Reading a Signature file returns the content of the data file as it is now, whatever was read, rebuilt, replaced, "
  "deleted or interrupted before. A process that dies at any point while writing the side-car index leaves a state from "
  "which the next read is still complete and correct. The data file itself is never changed.",
  ["histories", "crash_points"], "all histories over {read, windowed read, rebuild, replace data, lose index, touch, die "
  "while indexing} until no new on-disk state appears, and every write of the indexer as crash point with torn variants",
  TQ + "every test starts from one fresh directory state.",
  ["io/nortek2_lib.py"], [("index creation and reuse rule", "io/nortek2_lib.py")],
  "model_checking", MCX, "Explicit-state search over on-disk states (data content, index bytes, relative age, leftovers) "
  "closed under all events, plus all crash points of the index writer. Assumes distinct file times.",
  ["dolfyn.read", "the .index file next to the data"],
  [dict(name="index file", meaning="record positions, types and ensemble numbers", where="<file>.index")])

P("C04", "Truncated Signature files and foreign records cost no complete data",
  "If a Signature file ends at any byte, reading it returns a correct prefix of the recorded ensembles that lacks at most "
  "the last complete one, and never a partial or invented ensemble. Records of types the reader does not decode may sit "
  "anywhere without changing what is returned (at most the final ensemble of the file may be left out). Whole ensembles, or "
  "single records, that are missing inside a file cost only themselves: every other record keeps its values, its time and "
  "its place.",
  ["fault_sequences", "inputs"], "every truncation byte of each layout; every foreign record type x size x position; every "
  "record, pair of records and ensemble missing, in every read window",
  TQ + "no test truncates a file.", ["io/nortek2.py", "io/nortek2_lib.py"],
  [("end-of-file handling while indexing", "io/nortek2_lib.py"), ("last-block test", "io/nortek2.py"),
   ("skipping by declared record size", "io/nortek2.py")],
  "fault_enumeration", FX, "Every cut byte and every foreign-record position within bounds, compared with the intact "
  "file's decode.", ["dolfyn.read"])

P("C05", "Dual-profile Signature files are split into their two profiles",
  "Reading a file in which burst and averaged profiles are interleaved returns two datasets: one holding every burst "
  "sample (with its fifth beam, bottom track and echosounder data) and one holding every averaged sample, in order and "
  "without zero-filled gaps. Each has its own ranges, cell count, sampling rate, coordinate frame and list of vector variables; only the "
  "very last record of the file may be left out.",
  ["inputs", "configurations"], "every interleaving pattern x layout x shape x frame combination within the bounds",
  TQ + "one recorded dual-profile file is compared.", ["io/nortek2.py", "io/nortek2_lib.py"],
  [("removal of interleaving gaps", "io/nortek2.py"), ("split by time axis", "io/nortek2.py"),
   ("detection of dual profiles while indexing", "io/nortek2_lib.py")],
  "exploration", EX, "Every interleaving/layout/frame combination within bounds against the encoder's model. The "
  "direction of the averaged profile's orientation matrix is a listed finding.", ["dolfyn.read"])

NK = ["io/nortek.py", "io/nortek_defs.py", "io/base.py", "rotate/vector.py"]
P("C06", "Nortek Vector files decode to exactly what the instrument recorded",
  "Reading a Vector file gives every velocity, amplitude, correlation and pressure sample in order and in physical units, "
  "the clock-record quantities (battery, sound speed, heading, pitch, roll, temperature) interpolated in time between their "
  "records, the cable orientation of every sample, and an orientation matrix. Inertial records are converted to rates and "
  "accelerations in the ADV's axes. Rate, frame, beam matrix, vector-variable list and every decoded configuration field "
  "follow the file's header bits.",
  ["inputs", "configurations"], "inertial sensor type x rate x length x frame x raw values at the ends of their range x "
  "orientation-bit sequences x each header bit", TQ + "a recorded file exercises one configuration.", NK,
  [("block dispatch and decode", "io/nortek.py"), ("scaling tables", "io/nortek_defs.py"),
   ("orientation from heading, pitch, roll", "rotate/vector.py")],
  "exploration", EX, "Independent encoder for the System Integrator layout, all files of the bounded space, value-by-value "
  "comparison. One listed finding (burst_mode attribute).", ["dolfyn.read"])

P("C07", "Nortek Vector windows, bursts and sample times are exact",
  "Asking for the first n samples, or samples start to stop, of a Vector file returns exactly those samples of the whole "
  "file with their inertial data and times. Every sample's time follows the clock records of its burst, for continuous and "
  "for burst sampling of any burst length, whether the clock runs at the nominal rate or not.",
  ["inputs", "configurations"], "every window x layout, every burst length x file length x rate within bounds",
  TQ + "two fixed windows are compared.", NK,
  [("sample loop and cropping", "io/nortek.py"), ("time fit per burst", "io/nortek.py")],
  "exploration", EX, "Oracle: reference decode of the encoded file, sliced. Clock records are generated on a line within "
  "each burst.", ["dolfyn.read(nens=...)"])

P("C08", "Damage to classic Nortek files costs only what was damaged",
  "A Vector, AWAC or Vectrino file that ends at any byte reads as the samples completed before that byte. Records of types "
  "not decoded, runs of junk words, and blocks whose sync byte is damaged, at any position, leave all other samples "
  "unchanged. With do_checksum a damaged byte in a data block never reaches the returned data.",
  ["fault_sequences"], "every truncation byte; every foreign record/junk run x position; every block's sync byte; every byte "
  "of every block flipped", TQ + "no test reads a damaged file.", ["io/nortek.py"],
  [("resynchronisation", "io/nortek.py"), ("end of file", "io/nortek.py"), ("block checksum", "io/nortek.py")],
  "fault_enumeration", FX, "All single faults of each kind within bounds against the reference decode of the surviving blocks.",
  ["dolfyn.read"])

P("C09", "Nortek AWAC files decode to exactly what the instrument recorded",
  "Reading an AWAC file, or any window of it, gives every profile's velocities, amplitudes, pressure, attitude and status in "
  "physical units with its own time, an orientation matrix, and the right frame and beam matrix. Ranges, cell size and "
  "blanking follow the head frequency and the configured bin length.",
  ["inputs", "configurations"], "profiles x bins x frame x value ends x geometry x windows x calendar corners",
  TQ + "two recorded files are compared.", NK,
  [("profile decode and geometry", "io/nortek.py"), ("scaling tables", "io/nortek_defs.py")],
  "exploration", EX, "As C06 with the AWAC profile layout; wave records are a listed finding.", ["dolfyn.read"])

P("C10", "Nortek Vectrino files decode to exactly what the instrument recorded",
  "Reading a Vectrino file, or any window of it, gives every four-beam velocity, amplitude, correlation and status sample in "
  "order, in physical units, at start time plus k sample intervals. Rate, frame and the 4x4 beam matrix come from the file.",
  ["inputs", "configurations"], "samples x frame x rate x value ends x header spacing x windows x calendar corners",
  TQ + "one recorded file is compared.", NK,
  [("sample decode and start time", "io/nortek.py"), ("scaling tables", "io/nortek_defs.py")],
  "exploration", EX, "As C06 with the Vectrino layout.", ["dolfyn.read"])

RD = ["io/rdi.py", "io/rdi_lib.py", "io/rdi_defs.py", "rotate/rdi.py"]
P("C11", "TRDI files decode to exactly what the instrument recorded",
  "Reading a TRDI PD0 file gives, for every ensemble in order, all leader quantities, profiles (with surface layer), status, "
  "bottom track and altimeter values in physical units, bad velocities as nan, and its time. Frame, tilt use, facing, beam "
  "angle and pattern, cells, ranges and every configuration field follow the fixed leader of the recorded firmware version, "
  "and the beam and orientation matrices are those of the TRDI coordinate-transformation manual.",
  ["inputs", "configurations"], "firmware version x blocks and their order x cells x ensembles x raw values at the ends of "
  "their range x each configuration field x frame/tilt/facing/beam geometry x bad-velocity patterns x calendar corners",
  TQ + "a recorded file exercises one firmware and one setup.", RD,
  [("block dispatch and decode", "io/rdi.py"), ("orientation matrix", "rotate/rdi.py"), ("dataset assembly", "io/base.py")],
  "exploration", EX, "Independent PD0 encoder; every file of the bounded space is compared value by value. The last ensemble "
  "of a file is a listed finding.", ["dolfyn.read"])

P("C12", "TRDI navigation data is decoded and kept with its own times",
  "VMDAS navigation blocks and WinRiver II sentences (GGA, VTG, DBT, HDT, in any subset and order) are decoded to positions, "
  "speeds, courses, fixes and attitude in physical units. Each distinct position time appears exactly once, in order, with its "
  "own data and the instrument time at which it arrived, however position times repeat or jump.",
  ["inputs", "configurations"], "sentence subsets and orders x values x all repetition patterns of position times over four "
  "ensembles x profile layout x file extension", TQ + "they hold one recorded file per system.", RD,
  [("navigation decode", "io/rdi.py"), ("removal of repeated position times", "io/rdi.py")],
  "exploration", EX, "As C11 with navigation blocks. Findings: fs of these files, stale values when a sentence is absent.",
  ["dolfyn.read"])

P("C13", "Damage and change inside a TRDI file cost only what was damaged",
  "A PD0 file that ends at any byte, holds junk between ensembles, damaged headers, blocks of unknown type, unreadable "
  "navigation sentences, or ensembles whose size, blocks or cell count change gives every intact ensemble unaltered (an "
  "ensemble is recognised by the header that follows it). Asking for the first n ensembles gives exactly those, and no "
  "ensemble is lost because a file is long or its ensembles shrink.",
  ["fault_sequences", "inputs"], "every truncation byte; junk x position; header damage; unknown block x place x subset of "
  "ensembles; every presence pattern; all windows; files up to hundreds of ensembles", TQ + "no test reads a damaged file.", RD,
  [("resynchronisation and end of file", "io/rdi.py"), ("header offsets", "io/rdi.py"), ("ensemble count", "io/rdi.py")],
  "fault_enumeration", FX, "All single faults of each kind within bounds against the reference decode of the intact "
  "ensembles. Stale values after a shrinking cell count are a listed finding.", ["dolfyn.read"])

P("C14", "Files are recognised by content, and user data is applied as if by hand",
  "dolfyn.read chooses the reader from the file's first bytes whatever its name, returns what that reader returns, and "
  "refuses everything else (including Git-LFS pointers) with IOError. The user-data file is the one given by path, else "
  "(base).userdata.json, else (file).userdata.json, and none when switched off. Its entries become attributes, and its "
  "declination and head matrix act exactly as set_declination and set_inst2head_rotmat after the read.",
  ["inputs", "configurations"], "all 65536 leading byte pairs; instrument x file name x which user-data files exist x mode x "
  "entries x frame", TQ + "no test lists unreadable files or the search order.",
  ["io/api.py", "io/base.py", "io/nortek.py", "io/nortek2.py", "io/rdi.py"],
  [("type detection", "io/base.py"), ("user-data search and contents", "io/base.py"), ("application", "io/nortek.py")],
  "exploration", EX, "Oracle: the instrument's own reader, and the same read without user data followed by the explicit calls. "
  "One finding: declination on top of a TRDI file's own variation.", ["dolfyn.read"])

P("C15", "Saving to netCDF and loading again is the identity",
  "A dataset that is saved and loaded any number of times, compressed or not, between any other operations, equals the dataset "
  "that stayed in memory: variables (complex ones too), dimensions, coordinates, times, attributes and their kinds, data within "
  "single precision and coordinates exactly, a missing time staying missing. Encoding asked for by the user is used, names without extension get it, names with another are refused, "
  "and pointer files are refused.",
  ["histories", "inputs"], "all histories of save/load and processing steps to the depth bound on eight instrument "
  "configurations; lengths x types x complex variables x times x names",
  "The stable tests never save; the others save a dataset once. ", ["io/api.py"],
  [("encoding of variables and attributes", "io/api.py"), ("decoding", "io/api.py")],
  "model_checking", MCX, "State: the dataset plus its on-disk encodings; an in-memory twin that was never saved is the oracle.",
  ["dolfyn.save", "dolfyn.load"])

P('C16', "What is not an in-place call leaves the caller's data alone",
  "No public function changes the dataset, array, list or dictionary it is given, apart from the calls documented to work in place (and with "
  "inplace=True only what they return changes): values, types, dimensions, coordinates, attributes and encodings stay bit-identical, and a file "
  "that is loaded stays as it was. A dataset that is documented to be a copy shares no values with its source: editing one never shows in the "
  "other, neither at once nor after any sequence of further calls. The same call on the same data gives the same answer twice.",
  ["histories", "inputs"], "every sequence of in-place, copying and pure operations up to a depth x instrument",
  "A test looks at a result, not at everything else the call could have touched.",
  ["rotate/api.py", "velocity.py", "binned.py", "adv/motion.py", "adv/clean.py", "adp/clean.py", "adp/turbulence.py", "adv/turbulence.py",
   "io/api.py", "tools/misc.py"],
  [("rotate2(inplace)", "rotate/api.py"), ("set_declination(inplace)", "rotate/api.py"), ("do_avg / do_var", "velocity.py"), ("save", "io/api.py")],
  "model_checking", MCX, "State: a bit-exact snapshot of the dataset; every operation is applied in every reached state, its result scribbled over "
  "and the source compared. Nested lists in attributes (shared by xarray itself) are not judged.", ["dolfyn.rotate2", "dolfyn.VelBinner", "dolfyn.save"])

P("C17", "Saving to MATLAB files and loading again is the identity",
  "A dataset saved as .mat and loaded any number of times, with datenum or epoch times, equals the dataset that stayed in "
  "memory: variables, dimensions, coordinates, attributes, units, and times (missing ones too) to 0.1 ms. The file holds the documented structure "
  "with every variable, coordinate, unit and attribute.",
  ["histories", "inputs"], "all histories of .mat and netCDF save/load and processing steps to the depth bound; lengths x times; every dimension and pair cut to one entry; derived and averaged variables",
  "The stable tests never save; the others save a dataset once. ", ["io/api.py", "io/base.py", "time.py"],
  [("structure written", "io/api.py"), ("reconstruction", "io/base.py"), ("time conversion", "time.py")],
  "model_checking", MCX, "As C15.", ["dolfyn.save_mat", "dolfyn.load_mat"])

P("C18", "All time representations name the same instant",
  "Converting between datetime64, epoch seconds, datetime objects, MATLAB datenum and strings, in any direction and for "
  "scalars, lists and arrays, gives the same instant in UTC within the format's resolution, for any date and whatever the time "
  "zone of the computer. Order is kept, offsets are in hours, and a missing time (not-a-time) stays missing.",
  ["inputs", "configurations"], "calendar corners 1950-2100 x clock corners x time zones; regular grids at all rates",
  "Tests check one instant.", ["time.py"], [("conversions", "time.py")],
  "exploration", EX, "Oracle: integer microseconds from the proleptic Gregorian calendar.", ["dolfyn.time"])

P("C19", "A damaged clock costs only its own time stamp",
  "When the clocks of any subset of records hold no valid date, reading still returns every sample with all its data. The "
  "other times are exact; in Nortek files the missing ones are interpolated between their neighbours (extrapolated by the "
  "sample interval at the ends), in TRDI files they are not-a-time.",
  ["fault_sequences"], "every subset of records x kind of damage x instrument and record layout", TQ + "no test reads a bad clock.",
  ["time.py", "io/nortek.py", "io/nortek2.py", "io/nortek2_lib.py", "io/rdi.py", "tools/misc.py"],
  [("filling of time gaps", "time.py"), ("clock decode", "io/nortek2_lib.py"), ("clock decode", "io/nortek.py")],
  "fault_enumeration", FX, "Oracle: the undamaged file and a direct interpolation. AWAC profiles after the last valid clock are "
  "dropped by design.", ["dolfyn.read"])

RT = ["rotate/api.py", "rotate/base.py", "rotate/rdi.py", "rotate/signature.py", "rotate/vector.py", "rotate/awac.py"]
P("C20", "Frames are a state machine: only the state counts, not the path to it",
  "After any history of frame rotations, declination settings, principal headings and head matrices, in place or as copies, every "
  "vector variable, the orientation matrix, heading, dir coordinates and attributes are those of the frame, declination, head "
  "matrix and heading now in force, however they were reached. Everything else is untouched, in-place calls return None and "
  "copies leave the caller's dataset alone.",
  ["histories", "configurations"], "all histories over {rotate2 to each frame, set_declination, principal heading, "
  "set_inst2head_rotmat} x {in place, copy} until no new state appears, on every instrument x recorded frame",
  "The stable tests rotate nothing but one angle conversion; the others follow a few recorded paths. ", RT,
  [("path through the frames", "rotate/api.py"), ("instrument transforms", "rotate/vector.py"), ("4-beam transform", "rotate/signature.py")],
  "model_checking", MCX, "State: frame, declination, heading and head matrix plus every variable of the real dataset; the reference "
  "model holds the vectors in the head's frame and derives every other frame directly.", ["dolfyn.rotate2", "dolfyn.set_declination"],
  [dict(name="frame", meaning="frame of all rotate_vars", where="ds.attrs['coord_sys']")])

RQ = "The stable tests check seven euler angles and one conversion; "
P("C21", "Rotations are the instrument's documented transforms, at every orientation",
  "Rotating between beam, inst, earth and principal applies the instrument's beam matrix, orientation matrix (with the two vertical "
  "velocities of 4-beam Signatures, its upside-down mode, the error velocity of TRDI left alone) and principal heading to exactly "
  "the variables in rotate_vars, by function or accessor, any capitalisation, in place or as copy. A missing or invalid sample "
  "affects nothing but itself, impossible orientation matrices are reported, and without orientmat the recorded angles are used. "
  "Unknown frames, instruments or non-vectors are refused and leave the data consistent.",
  ["inputs", "configurations"], "dense grid of heading x pitch x roll x principal heading x instrument x recorded frame x path; every "
  "missing component and damaged sample; every way of calling", RQ + "recorded files hold one deployment's orientations.", RT,
  [("inst<->earth", "rotate/signature.py"), ("inst<->earth", "rotate/vector.py"), ("inst<->earth", "rotate/rdi.py"),
   ("beam<->inst", "rotate/base.py"), ("chain", "rotate/api.py")],
  "exploration", EX, "Oracle: an independent vector model (unit vectors of the instrument axes in ENU).", ["dolfyn.rotate2"])

P("C22", "Declination defines true earth, whatever was set before and in whatever frame",
  "After set_declination(d), horizontal earth vectors are the magnetic ones turned clockwise by d, orientmat maps true earth to "
  "instrument, heading and principal heading have grown by d, and declination is recorded. Only the last value of any sequence "
  "counts, whichever frame the data were in each time. Nothing else changes, and copies leave the original alone.",
  ["histories", "inputs"], "all sequences of declinations to the depth bound x frame x instrument; declinations over the circle; "
  "way of calling", RQ + "others set one value once.", ["rotate/api.py", "velocity.py"],
  [("set_declination", "rotate/api.py")], "model_checking", MCX, "Two oracles: the vector model, and the last setting applied alone.",
  ["dolfyn.set_declination"])

P("C23", "A Vector's head matrix is applied once, to its velocity only",
  "set_inst2head_rotmat gives, in whatever frame it is called and before or after a declination, the same dataset as if the matrix "
  "had been known when the data were read: the velocity (no other vector) is turned between head and instrument, and the frame is "
  "kept. A second matrix, a matrix that is no rotation, and other instruments are refused and never change velocities.",
  ["histories", "inputs"], "all 24 axis rotations and oblique ones x frame x order with declination x following rotations x way of "
  "calling; invalid matrices", RQ + "others set one matrix once.", ["rotate/api.py", "rotate/vector.py", "velocity.py"],
  [("set_inst2head_rotmat", "rotate/api.py"), ("head rotation", "rotate/vector.py")], "model_checking", MCX,
  "Oracle: the vector model. In beam coordinates an invalid matrix is refused at the next rotation.", ["dolfyn.set_inst2head_rotmat"])

P("C24", "The principal heading is the axis or mean direction of the flow",
  "calc_principal_heading returns, in degrees clockwise from North, the axis of bidirectional flow between 0 and 180 (speed-weighted "
  "mean of doubled angles), or with tidal_mode off the direction of the mean velocity between 0 and 360. It ignores missing samples "
  "and the vertical component, handles profiles, and leaves its input alone. In the principal frame made with it, that axis is "
  "streamwise.", ["inputs"], "all directions x flow pattern x array form; all pairs (triples) of samples from a grid with missing "
  "components; real datasets", RQ + "others use two recordings.", ["rotate/api.py", "rotate/vector.py"],
  [("calc_principal_heading", "rotate/api.py"), ("_earth2principal", "rotate/vector.py")], "exploration", EX,
  "Oracle: the definition by complex moments; headings are compared where the moment is not zero.", ["dolfyn.calc_principal_heading"])

P("C25", "Euler angles, quaternions and orientation matrices agree",
  "euler2orient gives the orthonormal earth-to-instrument matrix of the documented heading, pitch and roll for arrays and scalars, "
  "degrees and radians, and orient2euler returns those angles from arrays and datasets, with heading in 0-360, also after a "
  "declination. quaternion2orient gives the matrix of the [w, x, y, z] quaternion of every sample. calc_tilt is the documented angle, "
  "and unknown units are refused.", ["inputs"], "grids of heading x pitch x roll, of quaternions, of tilts; every instrument's dataset",
  RQ + "no quaternion is checked.", ["rotate/base.py"],
  [("euler2orient", "rotate/base.py"), ("orient2euler", "rotate/base.py"), ("quaternion2orient", "rotate/base.py"),
   ("calc_tilt", "rotate/base.py")], "exploration", EX, "Oracle: unit vectors of the instrument axes; away from pitch +-90.",
  ["dolfyn.rotate.base"])
P('C26', "Bin averaging uses every sample of its bin once and no other sample",
  "Cutting a record into bins places sample k in bin k//n_bin (int(n_bin) samples every n_bin samples if n_bin is not whole), with the "
  "neighbouring samples, or zeros at the ends, in the padding; the mean, variance, standard deviation, demeaned and detrended values and "
  "bin times are those of the samples of each bin that have a value or a time. do_avg and do_var give these for every averageable variable with its dimensions, "
  "coordinates and attributes, record fs, n_bin and n_fft, leave the raw dataset unchanged and refuse mismatched sampling rates.",
  ["inputs"], "record lengths x bin sizes x paddings x shapes x types, patterns with missing samples; every instrument's dataset",
  RQ + "only one bin size is used.", ["binned.py", "velocity.py", "tools/misc.py"],
  [("TimeBinner.reshape", "binned.py"), ("TimeBinner.mean/var/std", "binned.py"), ("do_avg", "velocity.py"), ("detrend", "tools/misc.py")],
  "exploration", EX, "Oracle: sums over the samples of each bin, written out.", ["dolfyn.VelBinner"])
P('C27', "A power spectrum is the averaged periodogram of the detrended, windowed bins",
  "For every record, bin size, FFT size, window, overlap, padding and noise level, calc_psd returns for each bin the mean of the windowed, "
  "detrended periodograms of its segments, one-sided and normalised to the variance, at the frequencies k*fs/n_fft up to Nyquist in the "
  "unit asked for (Hz or rad/s), less the noise and never negative. Bin times, labels, units and n_fft describe that result, also where "
  "n_bin, n_fft or fs are overridden. Unusable units, noise, shapes and windows are refused and the input is unchanged.",
  ["inputs"], "record lengths x FFT sizes x windows x overlaps x overrides x units x noise",
  "No test compares a spectrum with an independent computation that runs here; " + RQ + "only one size is used.", ["tools/psd.py", "binned.py", "velocity.py"],
  [("psd/cpsd/stepsize", "tools/psd.py"), ("calc_psd_base", "binned.py"), ("calc_psd", "velocity.py"), ("calc_freq", "binned.py")],
  "exploration", EX, "Oracle: a direct Fourier sum over segments written out; n_fft >= 3.", ["dolfyn.VelBinner.calc_psd"])
P('C28', "Cross-spectra, coherence and phase compare the two signals over the same times",
  "The cross-spectrum of two signals is the mean over segments of F(a) conj(F(b)), its conjugate when they are exchanged; coherence is its "
  "squared magnitude over both power spectra, less noise and bias, between 0 and 1 and 1 for proportional signals; phase is the mean unit "
  "phasor of b against a. Signals of different lengths are cut into bins of the same timespan. Times, frequencies, labels and units describe "
  "the result also where n_bin, n_fft or fs are overridden.",
  ["inputs"], "pairs of lengths x FFT sizes x windows x noise x overrides x units",
  "No test compares these with an independent computation that runs here.", ["tools/psd.py", "binned.py", "velocity.py", "adv/turbulence.py"],
  [("cpsd_quasisync/coherence/phase_angle", "tools/psd.py"), ("calc_csd_base", "binned.py"), ("calc_coh/calc_phase_angle", "velocity.py"),
   ("calc_csd", "adv/turbulence.py")],
  "exploration", EX, "Oracle: a direct Fourier sum. Known finding: phase beyond the first window.", ["dolfyn.VelBinner.calc_coh"])
P('C30', "TKE, intensity, stresses and covariances are moments of each bin",
  "calc_tke gives the variances, calc_stress the covariances uv, uw and vw, and calc_ti the standard deviation over the mean speed of the valid, "
  "demeaned or detrended samples of each bin, less the squared noise, with no intensity below the threshold. calc_acov and calc_xcov give the "
  "lagged products with the demeaned bin at the lags they label, normalised to correlation coefficients if asked. Times, labels and units "
  "describe the result, inputs are unchanged and unusable shapes are refused.",
  ["inputs"], "lengths x bin sizes x value patterns with gaps x noise forms x thresholds x lags",
  "The tests compare with stored results that are not available here, for one bin size.", ["velocity.py", "adv/turbulence.py", "binned.py"],
  [("calc_tke/calc_ti/calc_acov/calc_xcov", "velocity.py"), ("calc_stress", "adv/turbulence.py")],
  "exploration", EX, "Oracle: sums over samples written out; lags inside the record.", ["dolfyn.VelBinner.calc_tke"])
P('C29', "The velds shortcuts agree with the data, in every frame",
  "u, v, w are the three velocity components; U, U_mag and U_dir the complex horizontal velocity, its speed and its direction clockwise from "
  "North in the earth frame and from the first axis in the others, in 0..360. tke, E_coh, I_tke, I and the component shortcuts are the sums "
  "and ratios of the named entries of tke_vec, stress_vec and U_std in any order and for profiles as well as time series, missing where an "
  "entry is missing. The methods do what the package functions do and the printed summary states frame, rate, start and duration.",
  ["inputs"], "every instrument x frame x directions x missing values x component orders",
  RQ + "a single ADV dataset in the earth frame is compared with stored values.", ["velocity.py", "tools/misc.py"],
  [("Velocity", "velocity.py"), ("convert_degrees", "tools/misc.py")], "exploration", EX, "Oracle: arctangents and sums written out.",
  ["xarray.Dataset.velds"])
P('C31', "ADCP shear and Reynolds stresses are those of the flow",
  "calc_dudz, calc_dvdz and calc_dwdz are the range derivatives of the three components by the chosen difference scheme (dudz changes sign when "
  "looking down), shear2 the sum of the first two squared, each at its own ranges. calc_stress_4beam returns u'w' and v'w' of the flow, z up, for "
  "TRDI and Signature instruments, up or down, any beam angle, with missing samples; calc_stress_5beam the published variances and stresses for "
  "small tilts, less noise. calc_ustar_fit recovers the friction velocity of a linear stress profile; raw data in the beam frame are not changed.",
  ["inputs", "configurations"], "cells x spacings x schemes x orientation sources x makes x beam angles x flows x missing samples x noise x tilts",
  "The tests run one Signature recording, level, upward; the stored values are not available here.", ["adp/turbulence.py"],
  [("calc_dudz/_diff_func", "adp/turbulence.py"), ("calc_stress_4beam/_check_orientation", "adp/turbulence.py"),
   ("calc_stress_5beam", "adp/turbulence.py"), ("calc_ustar_fit", "adp/turbulence.py")],
  "exploration", EX, "Oracle: chosen instrument-frame velocities projected on the beams; Guerra & Thomson (2017). Known finding: 5-beam expressions.",
  ["dolfyn.adp.turbulence.ADPBinner"])
P('C32', "Dissipation, noise floor, slope and length scale follow their definitions",
  "Spectra S = 0.5 eps^(2/3) f^(-5/3) (U/2pi)^(2/3) + noise give back eps from the LT83 methods of ADV and ADCP, in Hz or rad/s, any frequency "
  "range and form of noise; TE01 and the structure-function methods equal their published expressions, the ADCP structure function holding the mean "
  "squared difference of every pair of cells at its separation. The Doppler noise is the root of the mean of S f near Nyquist, the slope check the "
  "log-log regression, the integral scale the speed times the first lag at which the covariance falls to 1/e. Inputs are unchanged.",
  ["inputs"], "units x components x ranges x noise forms x speeds; bins x lags x cell sizes x separations x missing data",
  "The tests run each function once on data that are not available here.", ["adv/turbulence.py", "adp/turbulence.py"],
  [("calc_epsilon_LT83/SF/TE01, calc_L_int", "adv/turbulence.py"), ("calc_dissipation_LT83/SF", "adp/turbulence.py"),
   ("calc_doppler_noise", "adp/turbulence.py")],
  "exploration", EX, "Oracle: model spectra of known dissipation, sums written out. Known findings: rad/s noise (ADV), r**2/3 (ADCP).",
  ["dolfyn.adv.turbulence.ADVBinner", "dolfyn.adp.turbulence.ADPBinner"])
P('C33', "The binned turbulence dataset is complete and leaves the raw data alone",
  "calc_turbulence and calling an ADVBinner return one dataset holding the bin average of every variable, tke_vec, stress_vec and psd of the "
  "velocity (less the squared noise where the raw data carry doppler_noise), in the units and with the window asked for. Its attributes are those of "
  "the raw data without configurations, plus n_bin, n_fft and n_fft_coh. The raw dataset is not changed, and a result never depends on what the same "
  "object computed before.",
  ["inputs", "histories"], "raw datasets x bin sizes x units x windows x noise x frames; every sequence of two or three uses of one object",
  "One recording with one bin size is compared with stored values that are not available here.", ["adv/turbulence.py", "velocity.py", "binned.py"],
  [("ADVBinner.__call__", "adv/turbulence.py"), ("calc_turbulence", "adv/turbulence.py")],
  "exploration", EX, "Oracle: moments and spectra written out.", ["dolfyn.adv.api.calc_turbulence"])
P('C34', "ADV cleaning flags and fills exactly the bad samples",
  "spike_thresh flags the samples that differ from their predecessor by more than the threshold, range_limit those outside the limits, GN2002 those "
  "outside the phase-space ellipsoid (Goring & Nikora 2002, Wahl 2003) of their stretch, row by row, missing samples aside. clean_fill replaces the "
  "masked and missing samples of gaps up to maxgap by the chosen interpolation in time, fill_nan_ensemble_mean by the mean of their ensemble; "
  "other samples, times, labels and the caller's data and mask stay as they are.",
  ["inputs"], "every short sequence over representative values; every mask of a record x gap limits x spacing x shapes; a spike at every position",
  "The tests clean one recording per function and compare with stored values that are not available here.", ["adv/clean.py"],
  [("clean_fill/fill_nan_ensemble_mean", "adv/clean.py"), ("spike_thresh/range_limit/GN2002", "adv/clean.py")],
  "exploration", EX, "Oracle: definitions written out. Known findings: first sample of spike_thresh, start of gaps beyond maxgap.", ["dolfyn.adv.clean"])
P('C35', "ADCP cleaning removes exactly the cells it should",
  "set_range_offset shifts every range coordinate and adds up h_deploy; find_surface_from_P gives the depth from pressure, temperature and salinity, "
  "find_surface the range of the echo peak; nan_beyond_surface blanks every cell beyond the side-lobe limit on its own range grid and nothing else; "
  "correlation_filter blanks the samples of low correlation in the beam frame and restores the frame. medfilt_orient is a running median that keeps "
  "declination; val_exceeds_thresh and the gap fillers change only what they should. Without inplace the caller's data stay as they are.",
  ["inputs", "configurations"], "instruments x frames x depths x heights x thresholds x masks x peak positions x filters",
  "The tests run each function once on data that are not available here.", ["adp/clean.py", "tools/misc.py"],
  [("nan_beyond_surface", "adp/clean.py"), ("correlation_filter", "adp/clean.py"), ("find_surface/find_surface_from_P", "adp/clean.py"),
   ("medfilt_orient/fillgaps_time/fillgaps_depth", "adp/clean.py")],
  "exploration", EX, "Oracle: definitions written out. Known findings: find_surface, beam_angle in radians, start of gaps beyond maxgap.", ["dolfyn.adp.clean"])
P('C36', "Array tools group, slice, fill and filter as documented",
  "group returns every run of True of at least min_length as a slice, in order; slice1d_along_axis visits every 1-D slice of an array once, in order. "
  "fillgaps and interpgaps interpolate gaps up to maxgap along any dimension, over samples or over the given coordinate, extend the ends only when "
  "asked and leave longer gaps missing; medfiltnan is the median over the window where nothing is missing and NaN where more than thresh is.",
  ["inputs"], "every boolean array and mask up to the bound x shapes x axes x gap limits x kernels",
  "The tests use one array per function.", ["tools/misc.py"], [("group/slice1d_along_axis", "tools/misc.py"), ("fillgaps/interpgaps", "tools/misc.py"),
  ("medfiltnan", "tools/misc.py")], "exploration", EX, "Oracle: definitions written out; arrays of two or more dimensions for the slices.",
  ["dolfyn.tools.misc"])
P('C37', "Motion correction removes the head's motion, in every frame",
  "correct_motion returns vel = vel_raw + velrot + velacc: velrot is the cross product of the angular rate with the lever from IMU to head (or to each "
  "receiver), velacc the integral of the high-pass filtered acceleration in the earth frame, burst by burst for duty-cycled data, with the filter "
  "frequencies given, preset or default. The result is the same motion in either output frame and from any input frame, says what was done and "
  "cannot be corrected again; data with gaps, without IMU or with an unusable head matrix are refused; the caller's dataset is not changed.",
  ["inputs", "configurations"], "unit impulse of every component at every sample; orientations x heads x positions x frames x filters x bursts",
  "The tests correct one recording whose stored results are not available here.", ["adv/motion.py", "rotate/vector.py"],
  [("CalcMotion", "adv/motion.py"), ("correct_motion", "adv/motion.py")],
  "exploration", EX, "Oracle: cross products and integrals written out; scipy's Butterworth filter is trusted. Known findings: separate probes, cut bursts.",
  ["dolfyn.adv.api.correct_motion"])
P('C38', "Diagnostic reading options never change the data",
  "Reading any supported file with debug, debug_level, do_checksum or rebuild_index returns the same dataset, value for value, with the same variables, "
  "dimensions and attributes as reading it plainly, for whole files and windows, for files that end cleanly or in the middle of a record. "
  "The data file stays as it is and nothing but the index and the documented log file is left next to it.",
  ["configurations", "inputs"], "instruments x options x file endings x windows",
  "The tests that turn debugging on use data that are not available here.", ["io/nortek.py", "io/nortek2.py", "io/nortek2_lib.py", "io/rdi.py"],
  [("debug branches", "io/nortek.py"), ("debug branches", "io/nortek2.py"), ("debug_level branches", "io/rdi.py")],
  "exploration", EX, "Oracle: the same file read without the option.", ["dolfyn.read"])
P('C39', "What cannot be done is refused, and a refusal leaves no trace",
  "A request that cannot be met raises an exception: an unknown frame, unit, window function, orientation or instrument, arguments of the wrong length or dimensions, "
  "a second or impossible head matrix, a second or impossible motion correction, a missing beam or beam angle, sampling rates or settings that do not match, bins longer "
  "than the record, an unusable nens, a file name of another kind. The dataset, the files and what later calls return are as if the request had never been made.",
  ["histories", "inputs", "configurations"], "requests x instruments x states x programs of further calls",
  "The tests never ask for what must be refused, nor go on after a refusal.", ["rotate/api.py", "rotate/base.py", "binned.py", "velocity.py", "adv/turbulence.py",
   "adp/turbulence.py", "adp/clean.py", "adv/motion.py", "tools/psd.py", "io/api.py", "io/nortek.py", "io/nortek2.py", "io/rdi.py"],
  [("rotate2", "rotate/api.py"), ("do_avg", "binned.py"), ("_check_file_ext", "io/api.py"), ("correct_motion", "adv/motion.py")],
  "exploration", EX, "Oracle: the same program without the refused requests.", ["rotate2", "set_inst2head_rotmat", "calc_* methods", "correct_motion", "read", "save", "load"])
P('C40', "The command-line tools give what the library gives",
  "binary2mat.py writes for every file named on its command line, beside it and under its name with the extension .mat, what reading that file and saving it "
  "with save_mat gives; motcorrect_vector.py reads every Vector file named, takes the head geometry from --fixed-head or the file's userdata.json, corrects the "
  "motion with the filter frequency given by -f (default 0.03333 Hz) and writes the earth-frame data, with heading, pitch and roll of the orientation matrix, as .mat "
  "(default), .nc or both. No data file is changed; command lines that cannot be run, and files without head geometry, are refused; files before those are done.",
  ["inputs", "configurations"], "file names x instruments x lists of files x user data; all combinations of options x head geometry x files",
  "The scripts have no tests.", ["scripts/binary2mat.py", "scripts/motcorrect_vector.py"],
  [("binary2mat", "scripts/binary2mat.py"), ("motcorrect_vector", "scripts/motcorrect_vector.py")], "exploration", EX,
  "Oracle: the library called directly; angles written out from the orientation matrix.", ["scripts/binary2mat.py", "scripts/motcorrect_vector.py"])
P('C41', "A part of the data is processed as it is inside the whole",
  "Whatever works sample by sample, cell by cell, bin by bin or component by component does so: rotations, declination, head matrix, range offset, surface from pressure, "
  "masks, thresholds, shortcuts, angles, time conversions and saving give for any part of the samples or cells, taken before or between the steps, that part of what they "
  "give for the whole dataset, with its coordinates and attributes. The binned methods give for any run of whole bins (where they reach into neighbouring bins: of the "
  "bins inside it), any cells and any single component what they give within the whole record, missing samples included.",
  ["histories", "inputs"], "programs of one, two or three steps x part (runs, strides, single, scattered, masked) x place where it is taken x eight instruments; binned methods x runs of bins",
  "The tests process each dataset whole.", ["rotate/api.py", "rotate/vector.py", "rotate/rdi.py", "rotate/signature.py", "adp/clean.py", "adv/clean.py", "velocity.py", "binned.py", "adv/turbulence.py",
   "adp/turbulence.py", "io/api.py", "time.py", "tools/psd.py", "tools/misc.py"],
  [("rotate2", "rotate/api.py"), ("TimeBinner.reshape", "binned.py"), ("nan_beyond_surface", "adp/clean.py")], "model_checking", MCX,
  "Oracle: the same program on the whole dataset, cut afterwards. find_surface is left to C35 (known finding).", ["dolfyn.rotate2", "adp.clean", "VelBinner methods"])
P('C42', "Reads and calls do not influence one another",
  "Reading a file returns what it returns in a process that does nothing else, whatever was read before (other formats, damaged files, with debugging, data that were then overwritten), and whatever "
  "other threads or processes read at the same time, the same file included. When several readers of one Signature file interleave in any way, with or without an index beside it, old or current, each gets its own complete "
  "result, the next read is right and nothing but the index is left. A binner or motion calculator gives in any order of its methods, for any data sets, what a new one gives.",
  ["schedules", "histories"], "all interleavings of two or three readers at their file operations up to a number of switches, from every index state; a read interrupted by another at every function call; "
  "every kind of file after every other; every method after every other on one object",
  "The tests read one file at a time and use each object once.", ["io/nortek2_lib.py", "io/nortek2.py", "io/nortek.py", "io/rdi.py", "io/rdi_lib.py", "binned.py", "velocity.py", "adv/turbulence.py", "adp/turbulence.py", "adv/motion.py"],
  [("index file under construction", "io/nortek2_lib.py"), ("reader state", "io/rdi.py"), ("binner settings", "binned.py"), ("burst-wise integration", "adv/motion.py")], "model_checking",
  "stateless exploration of the real code: actors run under a controlled scheduler that switches at hooked file operations or function calls; all schedules up to a preemption bound",
  "Oracle: the same read in a fresh process; the same call on a new object. The file itself does not change while it is read.", ["dolfyn.read", "dolfyn.VelBinner", "dolfyn.adv.motion.CalcMotion"],
  [dict(name="index file", meaning="record positions, types and ensemble numbers", where="<file>.index")])

P('C43', "Results carry their units, and do not depend on when the data were taken",
  "Expressing the same velocities, distances, times and sampling rate in other units multiplies every result (averages, spectra, stresses, dissipation rates, shear, rotations, motion correction, gap filling and cell limits) "
  "by exactly what its units attribute says, and leaves ratios, angles, coherences and the samples that cleaning flags as they were. "
  "Data of another date give the same results with times moved by the same amount.",
  ["unit scales", "dates", "inputs"], "every calculation, rotation and cleaning tool x instrument x FFT size, in units from 1/1024 to 1024 of the given ones, and at dates sixty years apart",
  "The tests compare one file per tool with stored values, at its own velocities and date; hidden absolute thresholds and wrong unit labels show only elsewhere.",
  ["velocity.py", "binned.py", "adv/turbulence.py", "adp/turbulence.py", "adv/clean.py", "adp/clean.py", "adv/motion.py", "rotate/api.py", "tools/psd.py"],
  [("averages and spectra", "velocity.py"), ("dissipation, stress and noise", "adv/turbulence.py"), ("shear and stress", "adp/turbulence.py"), ("spike detection", "adv/clean.py"), ("rotations and headings", "rotate/api.py")], "model_checking",
  "exhaustive enumeration of unit changes and dates for every calculation, executed on the real code and related by dimension analysis",
  "Powers of two, so that a linear computation is exact. calc_dissipation_SF (ADCP) and motion correction are compared under changes of the unit of time only (C32's known finding; the instrument's own dimensions in metres).",
  ["dolfyn.VelBinner", "dolfyn.adv", "dolfyn.adp", "dolfyn.rotate2"])

P('C44', "Results do not depend on the settings of the process, nor do calls change them",
  "Reading, saving, loading, rotating, cleaning and every calculation give the same values, types, labels and attributes whatever the time zone, locale, hash seed, optimisation level, working directory, file mode mask, random seed, "
  "logging level, warning filters, printing options, numpy error handling and xarray options (attributes apart where xarray is told how to treat them) of the process. "
  "No call changes any of these settings.",
  ["process settings", "inputs"], "every reading and calculation x instrument under every setting (thorough: every pair), and in processes started with other seeds, locales, optimisation levels and threads",
  "The tests run in one process with default settings.",
  ["io/api.py", "io/rdi.py", "io/nortek.py", "io/nortek2.py", "time.py", "velocity.py", "binned.py", "adv/turbulence.py", "adp/turbulence.py", "rotate/api.py", "adp/clean.py", "adv/clean.py"],
  [("reading and saving", "io/api.py"), ("times", "time.py"), ("calculations on labelled data", "velocity.py"), ("logging of the readers", "io/nortek2.py")], "model_checking",
  "exhaustive enumeration of settings x calls, executed on the real code, with a monitor of the global state",
  "Warnings are not turned into errors, nor floating point conditions into exceptions. With debug=True reading configures logging (C38).",
  ["dolfyn.read", "dolfyn.save", "dolfyn.load", "dolfyn.VelBinner", "dolfyn.time"])
