READERS = ["src/formats/igs", "src/formats/ccsds", "src/formats/tle/omm", "src/formats/rinex", "src/formats/iers", "src/formats/ilrs", "src/formats/vlbi", "src/catalogs/ingest.rs"]
PROPS.append(P("C01", "Product readers return the file's content however its bytes arrive",
 "Reading a well-formed data product (precise orbits, antenna, station, attitude, navigation, observation, laser-ranging, Earth-orientation, CCSDS, catalogue and VLBI sidecar files) yields exactly the records and values written in it, in a reproducible order. The result is the same for every way the medium delivers the bytes: short reads, chunk boundaries anywhere, interrupted system calls. Reading the same bytes again gives the same answer.",
 ["inputs", "schedules"], "every well-formed product of each supported format, every split of its bytes into reads, every placement of interrupted reads",
 "Tests read a handful of fixed strings from in-memory slices in one piece; they never vary delivery, and sample few field combinations, block orders and sizes.",
 READERS, [("line / token readers", "src/formats/*/*.rs read_* and parse_*"), ("buffered line reading", "std BufReader in each reader")], observe=["returned product structures"]))
PROPS.append(P("C02", "A failing medium is never mistaken for a complete product",
 "If the medium reports a hard error while a product is being read, the reader reports an error; it never returns a shortened product as if it were complete (unless the format's own end marker had already been read). The streaming orbit reader likewise hands out a correct prefix of the epochs and then an error, never a clean end.",
 ["inputs", "fault_sequences"], "every product, every byte offset and kind of hard read error, sticky or transient, under every delivery schedule",
 "No test injects an I/O error into a reader; an error swallowed at one particular line or block boundary is invisible to them.",
 READERS, [("error propagation from line iteration", "src/formats/*/*.rs `?` on read_line / lines()")], observe=["Result of each reader"]))
PROPS.append(P("C03", "Torn or corrupted text products never crash a reader or corrupt the rest",
 "For any damaged image of a text data product - torn at any byte, bits or bytes flipped, regions or lines lost, duplicated or reordered, numbers replaced by extreme ones, arbitrary junk - every reader in every parse mode returns a result or an error: it never panics, hangs, or allocates out of proportion to the input. If a file torn at some point is still accepted, the records before the tear are those of the whole file, and nothing else follows except possibly the one record the tear went through.",
 ["inputs", "crash_points"], "every product, every tear point, every storage corruption from the stated classes, in strict and permissive modes",
 "Tests feed a few hand-written malformed lines; they cannot reach the combination of field position, multi-byte character, short line or extreme number that breaks slicing, indexing or arithmetic.",
 READERS, [("field slicing and numeric conversion", "src/formats/**"), ("permissive-mode skipping", "src/formats/rinex/nav.rs, src/formats/ilrs/*.rs")], observe=["Result / panic / allocation"]))
PROPS.append(P("C04", "Streaming and batch reading of precise orbits agree",
 "For every precise-orbit (SP3) file, intact, torn or corrupted, reading it epoch by epoch gives the same header, the same epochs in the same order with the same values, and the same verdict (accepted or rejected) as reading it as a whole. When both reject it, the epochs streamed before the error equal the batch view of the lines before it, and a finished stream stays finished.",
 ["inputs", "schedules", "fault_sequences"], "every SP3 image including damaged ones, two independent delivery schedules",
 "The streaming and batch readers are separate code paths; tests compare them on one or two intact samples only.",
 ["src/formats/igs/sp3.rs"], [("streaming state machine", "src/formats/igs/sp3.rs Sp3Stream::next_epoch"), ("batch parser", "src/formats/igs/sp3.rs read_sp3")], state=[("pending epoch line", "epoch line read ahead by the stream", "src/formats/igs/sp3.rs Sp3Stream")]))
PROPS.append(P("C26", "A damaged number is never replaced by an invented value",
 "If one number or date in a data product is damaged so that it is no longer readable, then in the default (strict) mode every position, clock, epoch, observation, flag, coefficient or other datum that a reader still returns in its data records was in the undamaged product. Dropping the field or the record, or rejecting the file, is allowed; substituting zero, a default date or any other made-up value is not.",
 ["inputs", "fault_sequences"], "every product, every numeric or date field in its data records, every unreadable replacement",
 "Tests check a few malformed fields for an error; whether any other field silently defaults needs every field of every format to be damaged in turn.",
 READERS, [("field parsing", "src/formats/** numeric conversions")], observe=["records returned by readers"]))
WRITERS = ["src/formats/igs", "src/formats/ccsds", "src/formats/rinex/nav.rs", "src/formats/rinex/obs.rs", "src/formats/ilrs/cpf.rs", "src/pod/product", "src/pod/qc", "src/pod/run"]
PROPS.append(P("C05", "A failing sink never passes for a written product",
 "Writing a data product to a destination that fails (device full, broken pipe, zero-length write, failing flush) at any byte is reported as an error to the caller, and what did reach the destination is a prefix of the product. A destination that only accepts bytes in small pieces or is interrupted receives exactly the same bytes as one that takes them in one go.",
 ["inputs", "fault_sequences", "schedules"], "every product of each writer (SP3, ANTEX, CPF, OPM, OEM, TDM, RINEX NAV and OBS, residual CSV, Parquet, run manifest, QC JSON), every failing byte, every partial-write schedule",
 "Tests write into memory buffers that never fail and always accept everything.",
 WRITERS, [("error propagation from write!/write_all/flush", "src/formats/**, src/pod/product/**"), ("buffered writing", "std BufWriter where used")], observe=["Result of each writer", "bytes at the sink"]))
PROPS.append(P("C06", "Written products read back as what was written",
 "For every product the library can write and read (SP3, ANTEX, CPF, OPM, OEM in its text form, TDM, RINEX NAV and OBS), reading back the written bytes yields the same records in the same order with every value equal within half a unit of the written precision, epochs included (seconds fields stay in range at minute, day, month, year and leap-second boundaries). A value the format cannot represent is refused at writing, never written as something else.",
 ["inputs"], "every product content within the format's documented range, all epochs including rounding carries and leap seconds",
 "Round-trip tests use a few round-number epochs and values; rounding carries at a minute or day boundary, run-on fields and negative or large values are not among them.",
 WRITERS, [("epoch formatting and rounding", "src/formats/*/ writers"), ("field widths", "src/formats/rinex/nav.rs write_rinex_nav, src/formats/igs/sp3.rs write_sp3")], observe=["bytes at the sink", "records read back"]))
PROPS.append(P("C07", "Acknowledged residual rows survive a crash; product files are all-or-error",
 "Every residual row whose write was acknowledged by the CSV writer survives a process crash or power loss at any later moment, unchanged and in order; at most the row in flight is lost, and no other row appears. Labels containing commas or quotes stay readable. A Parquet residual table holds exactly the pushed rows bit for bit, and a torn table never passes for a complete one. Writing a product to a path either leaves exactly the product there (replacing an older, longer file) or reports an error (missing directory, directory, full disk).",
 ["inputs", "crash_points", "fault_sequences"], "every table of residuals, every crash point between sink calls, every surviving part of the unflushed cache, every failing byte",
 "Durability is about what is left when the process dies between two calls; tests only look at files of processes that finished.",
 ["src/pod/product/residuals_csv.rs", "src/pod/product/residuals_parquet.rs", "src/pod/product/orbit.rs", "src/formats/rinex/nav.rs"], [("flush per record", "src/pod/product/residuals_csv.rs ResidualCsvWriter::write_record"), ("file creation", "src/pod/product/orbit.rs, src/formats/rinex/nav.rs")], observe=["bytes on disk after a crash"]))
PROPS.append(P("C08", "Run provenance and quality statistics are exact and order-independent",
 "A run manifest is byte-identical whatever the order in which the run met its datasets, lists all of them in the documented order, conforms to its published schema and reads back unchanged. Dataset digests equal the SHA-256 and size of the file's current content and missing files are errors. Residual statistics (per group, overall, laser-ranging, radial/transverse/normal comparison) equal their textbook definitions for any arrival order of the residuals, and the QC document carries exactly those numbers.",
 ["inputs", "schedules", "fault_sequences"], "every set of datasets and residuals, every completion order, files replaced or missing",
 "Tests use one order and a few values; order dependence and cancellation in the statistics need many orders and value ranges.",
 ["src/pod/run", "src/pod/qc", "src/pod/product/manifest.rs", "src/pod/product/qc_json.rs"], [("dataset sorting and digesting", "src/pod/run/{manifest,dataset}.rs"), ("statistics", "src/pod/qc")], observe=["manifest and QC bytes"]))
SPICE = ["src/spice", "src/formats/spice", "src/ephemeris/runtime_backend.rs", "src/ephemeris/jpl", "src/pod/spice"]
PROPS.append(P("C09", "A SPICE context answers exactly from the kernels loaded so far",
 "After any history of kernel loads - ephemeris, pointing, leap-second, frame, orientation, clock and instrument kernels, from bytes or files, in any order - every answer of the context (states, frame rotations and look-ups, leap seconds, clock and pointing conversions, instrument fields, kernel counts) is the one defined by the loaded kernels: the last loaded kernel wins, earlier ones fill its gaps, and what no kernel defines is an error, never a guess. A kernel that is damaged, truncated, unreadable or unsupported is refused and changes nothing, not even in part.",
 ["inputs", "schedules", "fault_sequences"], "every history of loads (well-formed kernels in any layout or text formatting, damaged and unsupported kernels, unreadable paths) and every query between them",
 "Tests load one kernel of each kind; precedence, gap filling and partial loading only show in multi-step histories with overlapping and failing kernels.",
 SPICE, [("kernel precedence and fall-through", "src/spice/kernel_set.rs KernelSet::state_naif"), ("frame chains", "src/spice/context.rs frame_to_j2000"), ("text kernel parsing", "src/formats/spice/text.rs, lsk.rs, fk.rs, pck.rs, sclk.rs, ik.rs")],
 state=[("kernel set", "loaded kernels per kind in load order", "src/spice/kernel_set.rs KernelSet"), ("frame registry", "frames in load order", "src/spice/frame_registry.rs")], observe=["SpiceContext queries"]))
PROPS.append(P("C10", "Ephemeris kernels reproduce the motions they encode",
 "From any well-formed SPK kernel file (either byte order, any record layout, Chebyshev, Lagrange and Hermite segments) the kernel reader, the kernel set, the runtime ephemeris and the SPICE state provider return the encoded positions and velocities: chains of bodies add up, every chain between two bodies agrees, among overlapping segments the last one loaded wins, and the Earth is derived from the Earth-Moon barycentre where it has no segment of its own. A segment in another frame or of another kind is not read as one of these. Outside the coverage the answer is an error.",
 ["inputs", "schedules"], "every set of motions, segment types, overlaps, file layouts and load orders, every pair of bodies and every epoch including record and segment boundaries",
 "Tests evaluate one or two hand-made single-segment kernels, away from boundaries, overlaps and chains.",
 SPICE, [("segment selection and chaining", "src/formats/spice/kernel.rs SpkKernel::find_chain, spk_kernel.rs try_position_from_ssb"), ("interpolation", "src/formats/spice/segment.rs, src/ephemeris/jpl/eval.rs"), ("DAF decoding", "src/formats/spice/daf.rs")], observe=["state vectors"]))
PROPS.append(P("C11", "Damaged kernels are refused or answered safely",
 "For any damaged image of a binary or text kernel (smashed structure words, flipped bits, lost, duplicated or torn regions, extreme numbers) every kernel reader and every later query, at ordinary, infinite or undefined epochs, returns a result or an error: no panic, hang, stack overflow or allocation out of proportion. A binary kernel torn at any byte is refused or answers exactly like the whole file.",
 ["inputs", "crash_points"], "every kernel, every tear point, every corruption of the stated classes, every query epoch",
 "Tests cover a couple of truncated headers; links, counts, addresses and trailers each have to be damaged in turn, alone and together.",
 SPICE, [("link, count and address validation", "src/formats/spice/daf.rs summary_records, segment.rs, spk.rs, ck.rs")], observe=["Result / panic / allocation"]))
ADSB = ["src/formats/adsb"]
PROPS.append(P("C12", "Damaged ADS-B frames are never accepted",
 "An extended-squitter frame (DF 17 or 18) that arrives intact is accepted and yields exactly the format, address and message that were sent. A frame in which the channel damaged up to five bits anywhere, any bits within a burst of 24, or lost its parity field, and any text that is truncated, padded or contains anything but hexadecimal digits, is refused; no input makes the parser panic.",
 ["inputs", "fault_sequences"], "every frame, every error pattern of up to five bits or one 24-bit burst, every truncation or garbling of its text",
 "Tests check a few known frames and one flipped bit; whether the parity covers every bit, the header and the parity field itself needs error patterns everywhere.",
 ADSB, [("CRC-24 check", "src/formats/adsb/mod.rs parse_frame")], observe=["AdsbFrame"]))
PROPS.append(P("C13", "ADS-B positions decode to where the aircraft was, over a lossy channel",
 "Whenever a receiver decodes an even and an odd position message of one aircraft that are at most ten seconds apart - after any loss, duplication, delay or reordering - the global decoding yields the position reported by the later one within the encoding's resolution, anywhere on the globe including the poles, the antimeridian and zone boundaries, or an error when the two lie in different latitude zones. Local decoding yields the reported position for every reference within half a zone. No pair of fields, however stale or unrelated, decodes to coordinates off the globe.",
 ["inputs", "schedules", "fault_sequences"], "every trajectory, every loss / duplication / delay / reordering of its messages, every reference position, every pair of field values",
 "Tests decode one or two textbook pairs; poles, zone boundaries, the antimeridian and both decoding orders are special cases of the arithmetic.",
 ADSB, [("global and local CPR decoding", "src/formats/adsb/cpr.rs decode_globally, decode_locally"), ("longitude zone table", "src/formats/adsb/cpr.rs")], observe=["decoded latitude and longitude"]))
PROPS.append(P("C14", "ADS-B fields decode to what the aircraft sent, or to nothing",
 "From every intact frame, identification (callsign, category), position fields, ground velocity, track, vertical rate and 25-ft altitudes decode to the values encoded by the transponder. Codes that mean 'no information', reserved characters and type codes of other messages never turn into a value.",
 ["inputs"], "every frame content: all type codes, subtypes, signs, magnitudes, characters and 'no information' codes",
 "Tests decode one sample frame per message type; sign bits, boundaries between fields and the 'no information' codes are not among them.",
 ADSB, [("field extraction", "src/formats/adsb/mod.rs decode_identification, decode_airborne_position, decode_airborne_velocity, decode_altitude")], observe=["decoded messages"]))
TLE = ["src/formats/tle", "src/astro/sgp4"]
PROPS.append(P("C15", "Orbital elements survive relaying and damaged bulletins are refused",
 "Every well-formed two-line (or titled three-line) element set decodes to exactly the elements in its columns, and passing it through any chain of conversions - element lines, OMM in KVN, XML, JSON, JSON array - leaves every element, the epoch, the name and the predicted orbit unchanged. Element sets are written within half a unit of the last column or refused, and always read back. An element set damaged within the power of the line checksum, cut, padded or mixed from two objects is refused; arbitrary text never panics and never yields non-finite elements.",
 ["inputs", "fault_sequences"], "every element set the columns can hold, every conversion chain, every damage from the stated classes, arbitrary in-memory element values",
 "Tests decode a few well-known satellites and one round trip each; column edge cases (blank padding, alpha-5 numbers, sign and exponent variants, rounding carries) and conversion chains are not among them.",
 TLE, [("column parser and checksum", "src/formats/tle/parse.rs parse_tle, parse_assumed_decimal_exponent"), ("column formatter", "src/formats/tle/builder.rs format_tle"), ("OMM encodings", "src/formats/tle/omm/{kvn,xml,json}.rs")], observe=["decoded elements", "written lines", "propagated states"]))

EST = ["src/pod/estimation/sequential.rs", "src/pod/estimation/wls.rs", "src/pod/estimation/nonlinear.rs", "src/pod/process/noise.rs", "src/pod/propagation/variational.rs"]
PROPS.append(P("C16", "Sequential filter: exact updates, symmetric covariance, re-lock after faults",
 "After any sequence of predictions and scalar measurements, in any order and with duplicates, the orbit filter's state and covariance are those of the Kalman recursion; the covariance stays finite, symmetric and positive semidefinite and no measurement increases it; a refused (non-finite, negative-variance, non-informative, overflowing) measurement leaves the filter bit for bit unchanged. Processing one by one in any order equals the batch solution. Through losses, outages, duplicates, late and garbled ranges the filter stays consistent with its covariance and regains lock once the network is healthy. Process noise over consecutive intervals composes, stays positive semidefinite, and invalid intervals or parameters are refused.",
 ["schedules", "fault_sequences", "histories"], "every history of predictions and measurements, every order, every pattern of network faults",
 "Tests make one update and one prediction with diagonal matrices; ordering, degenerate measurements, error atomicity and long faulty histories are not exercised.",
 EST, [("Joseph-form update with commit after the finiteness check", "src/pod/estimation/sequential.rs update_scalar"), ("covariance prediction", "src/pod/estimation/sequential.rs predict"), ("interval noise matrices", "src/pod/process/noise.rs q_matrix")], state=[("OrbitEkf", "state and covariance after the history", "src/pod/estimation/sequential.rs OrbitEkf")], observe=["state", "covariance", "innovation records"]))
PROPS.append(P("C17", "Batch normal equations: order-free, atomic rows, exact iteration",
 "Measurement rows can arrive in any order, interleaved with unusable ones: each unusable row (invalid index, non-finite value, non-positive sigma) is refused and leaves the accumulated equations unchanged, and the solution and covariance are those of the weighted least-squares problem formed by the accepted rows. A problem that does not determine every parameter is refused and no non-finite solution is ever returned. Gauss-Newton linearises every iteration at the current estimate, stops exactly by its rule or reports that it did not converge, never calls the assembler again after it failed, and passes the failure on unchanged.",
 ["inputs", "fault_sequences", "histories"], "every set and order of rows including unusable ones, every iteration at which the assembler may fail, all options",
 "Tests solve a 2x2 line fit and reject single bad rows into an empty accumulator; none looks at the accumulator after a refusal, at out-of-range indices late in a row, or at failures during the iteration.",
 EST, [("validate-then-accumulate", "src/pod/estimation/wls.rs add_row"), ("finite-or-refused solve", "src/pod/estimation/wls.rs solve"), ("iteration and stopping rule", "src/pod/estimation/nonlinear.rs gauss_newton")], state=[("NormalEquations", "accumulated normal matrix, right-hand side, chi-square and count", "src/pod/estimation/wls.rs NormalEquations")], observe=["solutions", "covariances", "errors"]))
DYN = ["src/astro/dynamics", "src/pod/propagation", "src/pod/force"]
PROPS.append(P("C18", "A failing environment service never yields a propagated state",
 "While an orbit is being propagated, each call to an ephemeris, atmosphere, gravity-field or force-model service may fail, once or for good, or the service may be missing. Whatever call it is, every propagation client (fixed and adaptive integrators, facade, event watching, spacecraft, transition-matrix arcs, parameter partials) then reports an error of that service's kind instead of a state computed without it. A retry after the outage, from the same state, gives bit for bit the undisturbed result, and clients sharing one set of services and interleaved in any order end exactly where each ends alone. Non-finite intervals and unusable steps are refused, never returned as the start state or integrated for ever; a zero interval changes nothing.",
 ["inputs", "fault_sequences", "schedules", "histories"], "every force stack, client, state and interval; every service call as the failing one, transient or permanent; every interleaving of clients sharing the services",
 "Tests use services that always answer and one or two missing-provider cases for a single acceleration; none fails a service in the middle of an integration.",
 DYN, [("error propagation from services to clients", "src/astro/dynamics/forces/*.rs, src/astro/dynamics/errors.rs into_principia"), ("interval validation", "src/pod/propagation/integrators.rs, src/astro/dynamics/propagation/propagator.rs require_finite")], state=[("DynamicsContext", "shared services every evaluation asks", "src/astro/dynamics/context.rs DynamicsContext")], observe=["states", "errors", "service call log"]))
PROPS.append(P("C19", "Propagation follows the dynamics, restartably, and misses no output or event",
 "Propagating a state over an interval, forwards or backwards, ends at the start epoch plus that interval and on the trajectory that the selected forces prescribe; no step is longer than configured and steps shortened to meet an output or end time do not shorten the later ones. Cutting a run anywhere and continuing from the saved state gives the same end state, and propagating back returns to the start. Transition matrices are the derivatives of the flow, symplectic for gravity, and chain across arcs; parameter partials are the derivatives in that parameter. Watching for events returns every requested output epoch, in order, and reports every crossing of the threshold in the watched direction exactly once, where it happens.",
 ["inputs", "crash_points", "histories"], "every elliptic orbit above the atmosphere, force stack, step, interval of either sign, cut point, threshold and output spacing",
 "Tests propagate one or two circular orbits forwards over a fixed interval; step handling around outputs, negative intervals, restarts and event bookkeeping depend on the combination of step, spacing and interval.",
 DYN, [("step selection", "src/astro/dynamics/propagation/propagator.rs FixedRk4Adapter::step, src/pod/propagation/integrators.rs"), ("transition-matrix accumulation", "src/pod/propagation/variational.rs VariationalPropagator")], state=[("PropagatedArc", "states and cumulated transition matrices", "src/pod/propagation/variational.rs PropagatedArc")], observe=["states", "samples", "events", "transition matrices"]))
PROPS.append(P("C20", "A force stack is the sum of its effects, each once, at the state's instant",
 "The acceleration of a configured force stack is the physical sum of the selected effects (central body, oblateness, geopotential, Sun and Moon, drag, radiation pressure with shadow, relativity, constant and periodic empirical terms), each counted once, whatever order they were registered or listed in. Services are asked for exactly the state's epoch and altitude. A registry holds the last factory registered under a name, lists its names in order, and refuses unknown models and parameters of the wrong kind. Missing services, degrees beyond the field, altitudes below the surface or undefined and undefined local frames are errors, never numbers; the built-in atmospheres and gravity fields give their published values.",
 ["inputs", "histories", "fault_sequences"], "every configuration, state (poles, equator, shadow edges included), epoch and service answer; every registration history",
 "Tests check each model's magnitude or sign at one point with no or constant services; combinations, orders, shadow boundaries and the epochs and altitudes asked of the services are not covered.",
 DYN, [("configuration to specs to models", "src/pod/force/config.rs to_specs, src/pod/force/registry.rs build"), ("force evaluation", "src/astro/dynamics/forces/*.rs")], state=[("ForceModelRegistry", "factories by name", "src/pod/force/registry.rs ForceModelRegistry")], observe=["accelerations", "service queries", "errors"]))
POD = ["src/pod/observation", "src/pod/problem"]
PROPS.append(P("C21", "Thrust ledger conserves propellant and matches the flown trajectory",
 "Over any history of thrust arcs - split, restarted from the saved log, interrupted by refused commands, across leap seconds, until the tank is empty - the mass left plus the propellant spent equals the initial mass, records chain (each starts with the mass the previous one left) and each velocity change is that of the rocket equation for the elapsed time of the arc, which is also what integrating the arc's acceleration gives. Splitting a burn changes neither mass nor velocity. A burn acts exactly between its start and its end along the unit vector of its direction, whatever the length given, and contributes to the estimation exactly the parameters that are switched on, in their documented order. A command that cannot be flown (undefined or negative duration, thrust, direction or specific impulse, more propellant than is left) is refused and leaves log and mass unchanged.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "every history of arcs, splits, refused commands, cut-offs and restarts; every direction length; every epoch incl. leap seconds",
 "Tests add one or two arcs over ordinary days; conservation over long histories, refusal atomicity and the second inserted in a UTC day are not sampled.",
 ["src/pod/force"], [("mass and velocity bookkeeping", "src/pod/force LowThrustLog::append"), ("switching and direction", "src/pod/force/thrust.rs thrust_acceleration, mass_flow_rate")], state=[("LowThrustLog", "records and remaining mass after the history", "src/pod/force/thrust.rs LowThrustLog")], observe=["log records", "remaining mass", "accelerations", "errors"]))
PROPS.append(P("C22", "A tracking session's residuals are exactly what was injected",
 "For any network of stations and satellites, each observation's residual is what was added to the documented model of its type (code and phase ranges with clocks, relativity and troposphere, laser normal points, user-defined types), with the clock service asked for that observation's own satellite and epoch. A batch processes exactly the observations of the requested instant - to half a microsecond - in the order they were added, a failing one neither stops nor alters the others, and a missing or failing service is an error of that observation. Range corrections are applied one after the other in registration order, each exactly once, with its documented sign and size.",
 ["inputs", "histories", "fault_sequences"], "every session: geometry, clock histories, observation order, instants apart by microseconds, failing services; every pipeline of corrections",
 "Tests compute one residual with constant or zero clocks and a batch of one or two epochs; which epoch and satellite is asked, order, isolation and near-by instants are not.",
 POD, [("observation equations", "src/pod/observation/gnss_obs.rs, slr_obs.rs"), ("selection by epoch and failure isolation", "src/pod/observation/batch.rs ObservationBatch"), ("correction pipeline", "src/pod/observation/corrections.rs CorrectionRegistry")], state=[("ObservationBatch", "observations in insertion order", "src/pod/observation/batch.rs ObservationBatch")], observe=["residuals", "clock service queries", "errors"]))
PROPS.append(P("C23", "Damaged estimator covariances are refused",
 "A parameter covariance passes its checks exactly when it has one entry per pair of parameters, is symmetric within the stated tolerance and has no negative variance; an undefined entry never passes. After a trip through the JSON store an intact covariance is the same and still passes, and one that was damaged in any entry (undefined value, flipped sign of a variance, asymmetric entry) or in its shape (lost or extra entries) is refused by the check that covers it, naming the first offending place. Looking a parameter up finds the first slot of its kind or nothing.",
 ["inputs", "fault_sequences"], "every ordering, matrix and damage of an entry or of the shape, in memory or in the stored document",
 "Tests check one asymmetric and one negative-diagonal 2x2 matrix; undefined entries, every position and the stored form are not covered.",
 POD, [("validation", "src/pod/problem/covariance.rs validate_dim, validate_symmetric, validate_diagonal_nonneg"), ("ordering lookup", "src/pod/problem/parameter.rs ParameterOrdering::index_of")], observe=["Result of the checks"]))
PROPS.append(P("C24", "Event searches find every event, wherever the window is cut",
 "The times a body spends above, below or between altitudes, its crossings, culminations, bearing crossings, azimuth extremes and azimuth arcs, and the Moon's phases and illumination intervals are exactly those its own altitude, azimuth and phase show inside the window: none missing, none invented, none twice, each with its direction. Above and below are complements. Searching a long window in pieces, or resuming after the last event found, gives the same events as one search. Periods are sorted, disjoint and inside the window. A body whose ephemeris has gaps, and a scan step that cannot be used, still end the search without panic. Scope: events at least one scan step apart, azimuth sweeping less than a quarter turn per step; an event that only grazes its threshold or lies within the time tolerance of a window end may go either way.",
 ["inputs", "histories", "fault_sequences"], "every motion of a body, threshold, site, window, hint, scan step and sequence of windows; every gap in its ephemeris",
 "Tests search one window for one body and site and mostly count the events; how the window cuts the scan samples, where events lie against them, gaps and resumed searches decide what is lost.",
 ["src/event"], [("bracketing and refinement", "src/event/search/intervals.rs find_crossings, src/event/altitude/search.rs"), ("bearing crossings and arcs", "src/event/azimuth/search.rs"), ("phase search", "src/event/lunar/phase.rs"), ("culminations", "src/event/altitude/events.rs")], observe=["events", "periods", "directions"]))
PROPS.append(P("C25", "Earth orientation records and Earth rotation stay true to the source",
 "From a daily Earth orientation file delivered in any pieces, with rows lost, garbled, torn or repeated, exactly the intact rows are returned; values between two of them are on the straight line, with UT1-UTC continuous up to a leap second and jumping where it takes effect, and outside the table they are those of its end, labelled so. A caller's orientation values move UT1, sidereal time, the rotation angle and the terrestrial frame by just their amount. For every date from 4500 BC to 3000 UT1 exists, never jumps, runs with the measured Delta T, and gives the same rotation angle however the date is split; sidereal time is that angle plus the accumulated precession (and nutation with its complementary terms). Dates without a record are an error or defined zero values, never an invented value or a panic.",
 ["inputs", "fault_sequences", "histories"], "every series with leap seconds, every loss or damage of rows, every delivery, every date and order of queries",
 "Tests read two or three intact rows and evaluate a handful of modern dates; leap seconds, gaps, the ends of the prediction tables and dates beyond them are not covered.",
 ["src/formats/iers", "src/astro"], [("C04 rows and interpolation", "src/formats/iers/eop.rs read_eop_c04, interpolate"), ("TT to UT1", "src/astro/earth_rotation.rs"), ("rotation angle and sidereal time", "src/astro/{era,sidereal}.rs"), ("orientation providers", "src/astro/eop.rs EopProvider")], observe=["records", "UT1", "rotation angle", "frame rotation"]))
PROPS.append(P("C27", "Viewing geometry agrees with where the bodies are",
 "For any instants along a pass and any placement of observer, target and occulting or lighting body: illumination (sunlit, penumbra, umbra, and the hidden fraction of a disc) is what the apparent discs and the order in depth dictate, so only a nearer body hides a farther one; line of sight is symmetric; azimuth, elevation, range, range rate and light time are those of the target seen from the site; a terrain mask means the same whatever the order or turn in which its samples are given; beta angle, local solar time, LTAN and field-of-view answers follow the same vectors; the registry of sites and instruments answers with the last entry registered. Undefined geometry (coincident points, zero vectors, missing instruments) is an error or absent, never a panic or an invented number.",
 ["inputs", "schedules", "fault_sequences"], "every pass, every placement of the bodies including overhead, behind, inside and coincident ones, every order of mask samples and registrations",
 "Tests place the bodies on the axes; depth order, wrap-around of azimuths and degenerate placements are not among them.",
 ["src/mission"], [("apparent discs and depth order", "src/mission/geometry/{eclipse,occultation}.rs"), ("terrain mask interpolation", "src/mission/geometry/terrain_mask.rs"), ("site and instrument registries", "src/mission/{context,site}.rs")], observe=["geometry results along simulated passes"]))
PROPS.append(P("C28", "Coordinates name the same point after any chain of conversions",
 "A position or direction taken through any chain of reference frames, centres and units, with any Earth orientation record, ephemeris and nutation model chosen by the caller, still names the same point of space: every conversion is a proper rotation or translation, equals the one its definition gives (pole, origin and sense of rotation of each frame at that date), does not depend on the path taken or on what was asked before, composes and inverts exactly, and uses the caller's data instead of built-in values. Apparent quantities agree with geometry: horizontal coordinates, topocentric positions and observer velocities come from where the site is, aberration and light deflection displace a direction towards the apex and away from the deflector by the right angle, and space motion is a straight line. Poles, zenith, coincident points and dates without an orientation record give defined answers, never NaN or a panic.",
 ["inputs", "histories", "fault_sequences"], "every chain of frames, centres and units, every date, orientation record, ephemeris, nutation model and site, degenerate directions included",
 "Tests convert a few points between neighbouring frames and mostly check the round trip, which a conversion in the wrong sense passes; chains, non-zero orientation values and callers' ephemerides are not among them.",
 ["src/coordinates", "src/astro"], [("frame rotations", "src/coordinates/transform/providers/frames_*.rs"), ("centre shifts", "src/coordinates/transform/providers/centers_*.rs"), ("horizontal and topocentric", "src/coordinates/transform/horizontal.rs, centers/position"), ("apparent places", "src/astro/{aberration,light_deflection,proper_motion}.rs")], state=[("AstroContext", "ephemeris, Earth orientation and nutation model of the caller", "src/coordinates/transform/context.rs AstroContext")], observe=["rotations", "positions", "directions"]))
PROPS.append(P("C29", "Bodies on conic orbits obey Kepler's laws at every date",
 "For every valid set of elements - circular, elliptic up to the verge of parabolic, hyperbolic, any orientation and any number of turns in its angles - and every date, the position lies in the plane and on the conic of the elements, at the point whose mean anomaly has advanced by the mean motion times the time since the epoch, moving in the direct sense about the orbit normal; the Keplerian, prepared, conic and mean-motion orbit types and the free functions agree wherever they describe the same orbit; near-parabolic orbits approach the parabola from both sides. No valid element set and date is refused or panics. Element sets that define no orbit (negative or undefined eccentricity, a non-positive or infinite size, undefined angles or rates, eccentricity of one or more where only ellipses are supported) are refused with an error.",
 ["inputs", "histories"], "every element set and every order of dates, periapsis passages and distant epochs included",
 "Tests evaluate a few element sets, mostly at the epoch and at quarter periods; near-parabolic shapes, angles beyond a turn and far dates are not covered.",
 ["src/astro"], [("anomalies and conic position", "src/astro/conic_equations.rs"), ("element validation", "src/astro/{conic,orbit}.rs try_new"), ("mean motion", "src/astro/units.rs heliocentric_period_days")], observe=["positions", "errors of the constructors"]))
PROPS.append(P("C30", "A satellite flown from its element set stays on that set's orbit",
 "For every element set a publisher can print - any orientation, eccentricity, epoch (leap seconds, turn of the year, two-digit century) and drag terms, whether read directly or re-encoded on the way - and every instant before or after it, the state a desk gets has the energy, angular momentum, orbit normal, ellipse and mean anomaly of that set carried forward by its secular rates: mean motion and its printed derivatives, node, perigee and anomaly drifts of the chosen gravity model. Time is counted in elapsed seconds, so a leap second on the way moves the satellite no more than any other second; asking by minutes or by date agrees, the state carries the date asked for, and an answer does not depend on the questions before it. Element sets no satellite can have, undefined values and absurd instants give an error, never a panic or an undefined state.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every printable element set, every loss, repetition and reordering of bulletins, every history of questions and clock jumps, every impossible element",
 "Tests fly one or two historical sets for minutes and compare magnitudes; printed derivatives, leap seconds, extreme shapes and the independence of the history are not covered.",
 ["src/astro/sgp4", "src/formats/tle"], [("mean elements and rates", "src/astro/sgp4/elements.rs"), ("propagation by date and by minutes", "src/astro/sgp4/propagator.rs")], state=[("TlePropagator", "element set, gravity model and epoch a desk holds", "src/astro/sgp4 TlePropagator")], observe=["TEME states", "epochs", "errors"]))
PROPS.append(P("C31", "A catalogue search returns exactly the stars that belong",
 "A star catalogue loaded piece by piece, with pieces delivered in any splits, repeated, or damaged in transit, holds exactly the records of the accepted pieces in order; a damaged piece is refused as a whole and changes nothing. A cone search - any centre, any radius up to the whole sky, across the poles and the seam in right ascension - returns exactly the records whose angular distance from the centre is within the radius and which pass the magnitude and quality filter, in catalogue order; a search at another epoch uses where the stars are at that epoch, each having moved along its proper motion; and a search by chunks of any size gives, chunk by chunk, the same answer as the whole search. A star without proper motion stays where it is, and moved positions stay on the sphere.",
 ["inputs", "schedules", "fault_sequences", "histories"], "every catalogue, delivery and damage, every centre, radius, filter, epoch and chunk size",
 "Tests search small cones in a catalogue of a few stars around one region; wide cones, poles, the seam, fast stars and damaged pieces are not sampled.",
 ["src/catalogs"], [("cone and filter", "src/catalogs/record.rs inside_cone, passes_filter"), ("proper motion to an epoch", "src/catalogs/record.rs"), ("CSV ingest", "src/catalogs/ingest.rs"), ("chunked search", "src/catalogs/catalog.rs")], state=[("LargeStarCatalog", "records in load order", "src/catalogs/catalog.rs LargeStarCatalog")], observe=["records", "matches", "chunked matches", "errors"]))
PROPS.append(P("C32", "Sun, Moon, planets and tracked aircraft are where they must be, by every route",
 "At any date within four millennia, and in any order of questions, every way the crate offers of asking where a body is (type methods, position-and-velocity pairs, ephemeris traits static or dynamic, fallible or not, tracking, each unit) gives the place and velocity the published planetary, lunar and Pluto theories give from their coefficient tables; the same question always has the same answer. The sky so described obeys gravity: each body accelerates as the Sun, planets, Earth and Moon pull it, heliocentric and barycentric answers differ by the Sun's place, Earth and Moon balance about their barycentre and the whole about the origin. A tracked target keeps its place and date when followed into another centre or frame. The catalogue's orbits and its Sun agree with the real ones to their stated coarseness. An aircraft between reports advances along its track at its speed and climb, over the antimeridian and the poles, forwards and backwards.",
 ["inputs", "histories"], "every body, route, unit and date, every order of questions, every aircraft state and time step",
 "Tests check a handful of bodies at one or two dates to six digits; secular and planetary terms, velocities far from J2000, other routes and dead reckoning across seams are not covered.",
 ["src/ephemeris", "src/bodies", "src/targets"], [("VSOP87 sums", "src/ephemeris/vsop87/vsop87_impl.rs"), ("ELP2000-82B sums and rotation", "src/ephemeris/elp2000/elp_series.rs"), ("Pluto series", "src/ephemeris/pluto.rs"), ("dead reckoning", "src/bodies/aircraft/inner.rs AircraftTrack::track"), ("tracked targets", "src/targets/transform.rs")], observe=["positions", "velocities", "catalogue constants", "aircraft states"]))
PROPS.append(P("C33", "Sunrise, moonrise, twilight and phases happen when the real sky says so",
 "At every site on Earth - polar day and night, places where the Sun or Moon grazes a limit, passes overhead or transits at midnight included - and every modern date, the Sun, Moon, planets and stars stand at the height and bearing an independent almanac (published ephemerides, precession, nutation, measured Earth rotation, parallax) gives. Rises, sets, twilights, nights, noons, bearing crossings and the time spent above, below or between altitudes are exactly those that height and bearing show, whatever the length of the window and wherever it starts and ends relative to transits and days. A Sun height has one twilight name, the one whose limits enclose it, in any angular unit, and darker periods lie inside brighter ones. New Moons, quarters and full Moons happen when the almanac has them, and phase angle, elongation, illuminated fraction and waxing, from the centre of the Earth or from a site, are those of the vectors. Scope: events at least a scan step apart.",
 ["inputs", "histories"], "every date, site, threshold and window of the real Sun, Moon and planets; every cut of a long plan into pieces",
 "Tests count sunrises over a week at one or two mid-latitude sites; grazing days, windows cut next to a transit, transits at the day boundary, long lunar windows and bearings elsewhere are not sampled.",
 ["src/event", "src/bodies/solar_system.rs"], [("daily sunrise and sunset prediction", "src/event/solar/daily_events.rs"), ("twilight classes", "src/event/solar/classification.rs"), ("lunar position and nutation caches", "src/event/lunar/moon_cache.rs"), ("height and bearing", "src/event/horizontal.rs"), ("phases", "src/event/lunar/phase.rs")], observe=["events", "periods", "heights and bearings", "twilight names", "phases"]))
PROPS.append(P("C34", "Stored objects come back as they were, damaged documents are refused",
 "An orbit (Keplerian, mean-motion, conic or prepared), a moving target, a position with its centre, a Moon phase or its thresholds, an arc, a parameter list or a covariance written as a document - by this program or by another that orders and spaces fields its own way, alone or in a list - comes back answering every question exactly as before, and written again gives the same document. A document that is torn, lacks a field, has a field of another kind, or holds sizes, shapes or kinds no such object can have is refused with an error and never becomes an object. Whatever bytes of a document change, reading it ends - in an error or in an object that answers every question without crashing or hanging and survives being stored again.",
 ["inputs", "fault_sequences", "histories"], "every object, every writer, every torn, incomplete, ill-typed, out-of-domain or altered document",
 "Tests round-trip one object of a few kinds; extreme values, other writers' layouts, damage and the domain rules of the readers are not covered.",
 ["src/astro", "src/coordinates", "src/targets", "src/pod/problem", "src/event/lunar"], [("checked deserialisation of orbits", "src/astro/conic.rs, src/astro/orbit"), ("centre parameters", "src/coordinates/centers"), ("parameter kinds", "src/pod/problem/parameter.rs")], observe=["documents", "restored objects' answers", "errors"]))
PROPS.append(P("C35", "Air, starlight and moonlight follow the laws and tables they name",
 "Along any climb the standard atmosphere is in hydrostatic balance, height from pressure undoes pressure from height, and geometric and geopotential height undo each other. Tiles of a sky grid lie where announced, cover the announced sky once and have the announced solid angle. Lower in the sky there is more air (each published formula, one at the zenith); more air, bluer light, a lower site or thicker haze never lets more light through; layers multiply; scattering laws are normalised over the sphere. Airglow brightens towards the horizon as its shell's slant path. Moonlight falls with phase and distance as the published fits say. A phase-function table or a passband answers between its own points, exactly at them and not beyond, and a damaged table (unsorted, negative, not finite, too short, mismatched) is refused. A recorded digest accepts exactly the data it was taken from.",
 ["inputs", "fault_sequences"], "every climb, site, direction, wavelength, haze, grid and Moon; every table and every damage to it",
 "Tests check single published values; balance along a climb, the seam at the tropopause, grid edges, table edges and damaged tables are not sampled.",
 ["src/atmosphere", "src/photometry", "src/bodies/aircraft/isa.rs", "src/coordinates", "src/event/lunar/photometry.rs"], [("standard atmosphere", "src/bodies/aircraft/isa.rs"), ("airmass, scattering, phase functions", "src/atmosphere"), ("sky grid", "src/coordinates SkyGrid"), ("passbands", "src/photometry/passbands")], observe=["pressures, heights", "tiles", "transmissions", "table answers", "errors"]))
PROPS.append(P("C36", "Sun-Earth points balance the pulls, and fits and archives of them keep faith",
 "At any date, for any source of Sun, Earth and Moon positions, a solved Sun-Earth point lies where its number says and is in balance in the frame turning with the Earth; from L1 and L2 a start elsewhere nearby leads to the same point. A fit over any span and block length covers exactly that span in blocks without gaps, and wherever looked up inside - block boundaries and both ends included - answers what its coefficients say and, for L1 and L2, what the solver says to within the tolerance; its error statistics are the measured ones and within the tolerance, or the fit is refused; outside its span it is refused naming the span. A source that fails at any question makes the solver or the fit fail with the source's own error, never a made-up answer; impossible settings are refused. An archive file reads back bit for bit; one that is cut, lengthened or whose header contradicts its size is refused.",
 ["inputs", "fault_sequences"], "every sky, date, point, span, block length, validation step and tolerance; every failing question of the source; every archive and damage",
 "Tests parse one archive fixture and solve one date; the fitter has no test at all, and spans that do not divide evenly, failing sources and contradictory headers are not sampled.",
 ["src/ephemeris/lagrange", "src/formats/sck.rs"], [("solver", "src/ephemeris/lagrange/solver.rs"), ("fit and look-up", "src/ephemeris/lagrange/fit.rs, src/ephemeris/lagrange/mod.rs evaluate_records"), ("archive reader", "src/formats/sck.rs")], observe=["points", "records and statistics", "errors"]))
