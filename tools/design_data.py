D["C01"] = """Specified: every value a well-formed product encodes is returned, in order, whatever the delivery.
Generated: products of 17 stream formats and the text formats from independent grammars (optional blocks, continuation lines, record orders, widths, signs, exponents, epochs at day / year / leap-second carries). Schedules: random read sizes 1..full, EINTR anywhere, three deliveries per product. Oracle: the emitter's own record of what it wrote plus equality between deliveries; a damaged product must give the same verdict under every delivery.
Reach: chunk boundaries and field combinations no fixed string covers."""
D["C02"] = """Specified: a hard read error is an error of the reader. Injected: six error kinds, sticky or transient, at a random byte or record boundary, under short-read / EINTR schedules, four per product. Oracle: `Err`, or the format's end marker already delivered; for the streaming orbit reader the epochs before the error are a prefix of the whole-file epochs."""
D["C03"] = """Specified: no panic, hang or disproportionate allocation on any image; torn files keep the records before the tear. Injected: every corruption class of io.rs alone and combined, tears at random bytes and line ends, multi-byte characters, extreme numbers, junk; strict and permissive modes, batch and streaming. Oracle: panic hook, watchdog, allocator, and the prefix relation between the torn and the whole product."""
D["C04"] = """Refinement between two implementations: the batch reader is the model of the streaming reader. Both read the same (half the time damaged) image under independent delivery schedules; header, epochs, order, verdict and the epochs before an error must agree, and a finished stream stays finished."""
D["C05"] = """Specified: success means every byte reached the sink. Injected: failure at every kind of sink call (write, flush, drop of a buffer) at a random byte, zero-length writes, sticky and transient errors, short writes and EINTR. Oracle: bytes at a healthy sink versus bytes at the faulty one (prefix), and the Result."""
D["C06"] = """Specified: write then read is the identity at the written precision, or an error at writing. Generated: in-memory products with values off the decimal grid and epochs around every rounding carry and leap second. Oracle: the in-memory product itself with per-format tolerances (half a unit of the last written digit)."""
D["C07"] = """Specified: acknowledged rows are durable. The simulator kills the process (writer leaked, never dropped) between any two sink calls; the surviving image is any admissible part of the volatile cache. Oracle: acknowledged rows in order, at most the in-flight one more. Parquet tables are read back with the parquet crate and torn. Product paths run in a scratch directory against missing directories, directories, /dev/full and longer older files."""
D["C08"] = """Specified: manifests and statistics are functions of the set of inputs, not of arrival order. The scheduler completes datasets and residuals in several orders; files are replaced or removed before digesting. Oracle: an independent SHA-256, textbook two-pass statistics, byte equality of manifests, schema conformance."""
D["C09"] = """Refinement of SpiceContext against a reference model (kernel lists in load order, frame registry, orientation, clock and leap-second models written from the NAIF required-reading rules). A run is a history of 2-10 loads of good, damaged, unsupported and unreadable kernels with every query surface compared after each; a refused kernel must leave every answer and count unchanged."""
D["C10"] = """Generated: polynomial motions and the SPK files that encode them exactly (record layout, byte order, three segment types, overlaps, chains). Oracle: the polynomials. Queries at record and segment boundaries, outside coverage, between every pair of bodies, through the kernel, the kernel set, the provider and the runtime ephemeris over every road to it (bytes, parsed segments, indexed segments); segments in another frame or of another kind must be refused."""
D["C11"] = """Specified: safe on every damaged kernel image. Injected: smashed and slightly nudged structure words (counts, addresses, steps), flips, lost / duplicated regions, lost padding, tears at every byte class, extreme numbers in text kernels; queries at ordinary, infinite and NaN epochs. Oracle: panic hook, watchdog, allocator bound, and equality with the whole file when a torn one is accepted."""
D["C12"] = """A transponder model computes the parity by long division; the channel damages up to five bits (minimum distance of the code is 6), a burst of up to 24 bits, or the parity; the transport garbles the text. Oracle: intact frames are accepted field for field, damaged ones refused."""
D["C13"] = """A sky of up to three aircraft (poles, equator, antimeridian, zone boundaries) squitters through a channel that loses, duplicates, delays, reorders, damages and goes silent; one receiver built on the library pairs by time stamp and decodes globally, then locally against its last fix. Oracle: an independent CPR encoder with the zone table computed from its definition; error bound half a quantum. Liveness: an intact pair within the validity time always yields a fix unless it straddles zones."""
D["C14"] = """An independent bit-level encoder; every decoded field is compared, 'no information' and reserved codes must not become values."""
D["C26"] = """Injected: one number or date per image garbled in place (unreadable, same length), six images per product, every format, strict mode. Oracle: every datum returned was in the undamaged product (multiset of the emitter's record)."""
D["C15"] = """A publisher composes element sets column by column (independent emitter); the link changes, garbles or erases characters, cuts, pads or mixes lines; relays convert between five encodings in random order, 1-6 hops. Oracle: the publisher's own values, an independent checksum, rounding bounds of the written columns, and the orbit propagated before and after."""
D["C16"] = """Filter histories of up to 25 predictions and measurements (normal, duplicated, invalid, at the edge of the number range); each step is compared with the Kalman recursion in loops started from the same state, bit equality after refusals, eigenvalues of the correlation matrix at the end. Order independence against the batch solver. A tracking network (analytic satellite, four stations, losses, outages, garbled and late ranges) must be consistent throughout and back in lock after 40 healthy rounds. Noise matrices: composition Q(a+b) = Phi Q(a) Phi' + Q(b), semidefiniteness, refusal of invalid parameters, segment schedule."""
D["C17"] = """Rows from a random linear problem arrive in two random orders with a fifth of them unusable; accumulator compared bitwise around every refusal; solution compared with modified Gram-Schmidt on the weighted rows, tolerance from the variance inflation of the problem. Extreme-magnitude rows: finite or refused. Gauss-Newton on beacon ranging with an assembler that fails at call k or changes dimension; the recorded calls are replayed against the stopping rule."""
D["C18"] = """World of simulated services (ephemeris, atmosphere, gravity field, force-model wrapper) that log every call and fail at a chosen call number, once or for good. Ten propagation clients over random force stacks. Undisturbed run first (counts the calls), then a run whose k-th call fails, k uniform: an error of the failing service's category is required; then a retry, bit-identical; then each service removed. 2-4 clients share the services and take turns segment by segment with outages, each must reach its solo state bit for bit. Non-finite intervals with a call budget as a hang detector. Tolerated: the adaptive integrators of principia may do without the two evaluations that guess their first step (result must then stay within 1 m)."""
D["C19"] = """Reference: an independent fixed-step integrator over independently coded accelerations (Cunningham recursion for the geopotential, two-circle overlap for the shadow, bisection for the geodetic altitude) and the closed two-body solution. Clients: three pod integrators, three facade steppers, transition-matrix propagation. Crash and restart at a random point of every run, reversal, symplecticity, difference quotients of the independent flow, chain across a restart, threshold events and output samples against the analytic orbit, step counts against the configured step, service query times against the step size."""
D["C20"] = """Random configurations through ForceModelConfig -> registry -> composite, evaluated over simulated services at random, polar, equatorial and shadow-edge positions: sum, permutations and single contributions against the reference accelerations with a tolerance per contribution; query log against epoch and altitude. Registration histories against a map. Missing services, degenerate geometry, excessive degrees. A second scenario asks the built-in atmospheres and gravity fields themselves, against their published tables, an independent recursion and the Earth turned by UT1. Known finding: harmonics include the central and J2 terms, so selecting them together with two_body/j2 counts those twice."""
D["C21"] = """A campaign of 1-8 (thorough 24) burns with leap seconds inside, refused and hand-built invalid commands, lost thrust readings, early cut-offs, tanks running dry, restart from a saved ledger and split burns. Oracle: rocket equation over elapsed (not calendar) seconds, mass balance, the chain of records, Gauss quadrature of the arc's own acceleration against the logged velocity change, the window of activity probed around both ends. Bounds: UTC instants resolve to about 20 microseconds, so burns get that slack in duration."""
D["C22"] = """A session of stations and satellites with simulated clock, relativity and troposphere services that log each query and may be missing; observations of five kinds are synthesised by an independent model plus a known injected residual, and pushed in random order with instants a few microseconds apart. Oracle: residual equals what was injected, order and count of the answers, the query log. Correction pipelines of up to six built-in and user corrections against a sequential model."""
D["C23"] = """Random orderings and symmetric matrices; one fault per damaged copy (undefined, infinite, negated, asymmetric, lost, extra, swapped entries; also within the stored JSON text). Oracle: a direct scan of the definition, including which place is reported first."""
D["C24"] = """A scripted body (sums of sines, drifts, gaps, with or without a search hint) is searched over windows that follow each other, resume after an event, or lie elsewhere; the same for its azimuth, for a simulated lunar ephemeris, for real fixed stars over real sites, and (rarely, being slow) for the real Sun, Moon and planets. Oracle: the provider's own curve, sampled ten times finer than the scan and refined by bisection, with guards that drop the thresholds the curve only grazes. Crash and restart: a window is cut anywhere, a search resumed right after the last event. Gaps and unusable scan steps are injected; results must be ordered, disjoint and inside the window."""
D["C27"] = """A satellite circles a body that hides a sun, in sight of a moon and a relay, or passes over a station ringed by hills; the clock jumps along the pass, bodies are moved behind, inside, on top of each other, mask samples arrive shuffled, repeated, beyond a turn, and sites and instruments are replaced and removed while being asked. Oracle: an independent vector model (lens area of two discs, depth along the ray, site frame from geodetic angles, finite differences for the rate, interpolation on the circle). Degenerate placements (coincident, zero, not finite) are injected faults: an error or none is wanted."""
D["C28"] = """A traveller carries one point through a random chain of frames (105 pairs), centres (17) and units while a scripted sky (Sun, Earth, Moon moving as the run says) and a scripted Earth orientation service (offsets, drifts, dates without a record) answer; other callers ask about other dates in between; the nutation model and the typed route (direct, provider, context) vary. Oracle: an independent rebuild of every frame from its defining angles (bias, precession and nutation angles, CIO, Earth rotation, polar motion, IAU poles, Galactic and FK4 constants), a book-keeping of the point in barycentric ecliptic coordinates, its own ellipsoid, orbit propagation, aberration and deflection formulas, and the geometry of the Sun-Earth points; sightings carry a star to a moving observer's horizon and back (proper motion, parallax, deflection, aberration, refraction-free horizon, every azimuth convention). Wrong sense, wrong order, dropped offsets and ignored context all show as an angle."""
D["C25"] = """A scripted Earth drifts and wobbles and has leap seconds of both signs; the service writes it down day by day and the medium loses, garbles, tears and repeats rows and delivers the file in pieces. Stations then ask for values on the rows, between them, a microsecond before and after a leap second, and outside; a provider standing on the table drives the real frame rotations, which must turn by exactly the UT1-UTC and tilt by exactly the pole read back from the rows. A clock walks (and jumps) from 4500 BC to 3000, around the seams and the end of the Delta T tables; oracles are independent formulas, published Delta T values, continuity and the independence of the rotation angle from how a date is split. No runtime time-data bundle can be loaded offline, so the built-in series is exercised only through its no-data side."""
D["C29"] = """The simulator owns only the clock here (no threads, I/O or parties): it walks and jumps through dates aimed at periapsis, a whisker beside it, whole turns and a million days away, for seeded elements of every shape, and injects element sets that define no orbit. Oracle: the defining equations themselves - plane, r + e x = q(1+e), mean anomaly recovered from the position and compared with M0 + n dt, vis viva, Barker's parabola as the limit from both sides - rather than another Kepler solver."""
D["C30"] = """A publisher prints sets column by column (independent emitter), bulletins are lost, repeated, reordered and re-encoded through other formats; desks hold the newest and ask at random instants while their clocks jump (leap seconds, year ends, years before and after the epoch). Oracle: the osculating conic of the answered state (energy, momentum, normal, ellipse equation, mean anomaly recovered from the position) against the set's own numbers moved by independently coded secular rates, with the rounding of the printed columns as tolerance; answers repeated later must be bit-identical. Injected: impossible elements, undefined values, absurd instants."""
D["C31"] = """A survey desk ingests CSV pieces over a link with short and interrupted reads, repeats and damaged numbers, while observers ask for cones of every size (poles, seam, antipodes, nearly touching stars), epochs, filters and chunk sizes. Oracle: great-circle separation from cross and dot products of unit vectors, a straight path for moving stars with a bound for its curvature, list equality for order and chunks, the untouched model for refused pieces."""
D["C32"] = """Only the clock and the order of questions are simulated here (observers sharing one almanac, clocks jumping over millennia); the ephemerides are pure functions. Two oracles: an independent scalar sum of the published series over the dependency's coefficient tables (independent code for powers of time, derivatives, ELP arguments and the precession rotation, in axis-angle form), to 1e-10 au and 20 m; and, independent of those tables, Newton's law: second differences of the answers against the pull of all bodies (1e-6 of the main pull for Moon and inner planets, looser outward as VSOP87 itself does), the Earth-Moon balance and the barycentre. Repeated questions must be bit-identical. Aircraft: positions against the flat tangent plane of the ellipsoid within the documented kilometre."""
D["C33"] = """The simulator owns the clock, the site and the plan: days at polar limits, sites under the Sun, transits at midnight, plans cut into pieces that end just before or after a transit or resume there. The bodies are the real ones, and stars (given as directions, as catalogue entries and as moving bodies) hunted over the zenith. Two oracles: the body's own height and bearing, sampled 24 times a day as a unit vector and interpolated by ten points (error below 1e-9), searched by bisection; and an almanac independent of the crate's transformations (published series summed by independent code, IAU 1976 precession, four nutation terms, 1982 sidereal time, measured Delta T, geodetic parallax), met to 0.01 degree. Phases against Meeus' tables (chapter 49), illumination against the vectors. Slow (about 0.3 s of processor time a plan), so each plan asks one question at a time. The misplaced Moon (recorded finding) is recognised exactly, as the place seen from the mirrored site; any other misplacement is still a violation."""
D["C34"] = """A store keeps documents on a medium that tears, drops, swaps, retypes and flips; other writers (an independent renderer that shuffles fields and spacing) put their own documents beside ours. Oracle: the same observer questions to the object before and after, bit for bit; the domain rules of the constructors for documents with impossible values; stability (read, write, read) for the rest; a watchdog for readers or restored objects that never answer (this found the endless loop repaired in the Moon phase label)."""
D["C35"] = """Only climbs and surveys (histories of instrument readings) and damaged tables are simulated; the rest are pure functions under generated inputs. Oracles: Gauss-Legendre integration of hydrostatic balance, exact spherical areas, the published formulas coded independently, orderings and multiplicativity along random chains, numerical normalisation over the sphere, independent digests, and the list of table damages that must be refused."""
D["C36"] = """The simulator owns the source of positions behind the crate's own trait: a scripted two-body sky that refuses the n-th question, knows only a span, collapses the Earth into the Sun or answers NaN from some question on, and records what it was asked. Oracles: an independent force balance with analytic velocities (1e-12 km/s2 for L1 and L2; 1e-9 for L3 to L5, whose soft directions the solver documents), Chebyshev sums by cosines instead of the recurrence, statistics recomputed at the same instants, block bookkeeping, and bit equality and size arithmetic in 128 bits for archive files."""
