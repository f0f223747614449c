"""Registry of the checks: harness programs, build flags, level and rule per property."""
LIBS = ["-ltbb", "-lembree4", "-lassimp", "-lcfitsio", "-lpng", "-ltiff", "-lfftw3f", "-lturbojpeg", "-ljpeg", "-lpthread"]
CXX = ["-std=c++20", "-O1", "-w", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DHUIRA_VERSION=\"0.0.0\""]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
PLAIN = []
SCHED = dict(cxx="clang++", flags=["-fsanitize=thread", "-fno-omit-frame-pointer"], extra_src=["lib/sched/rt.cpp"], ldflags=["-rdynamic"], libs=["-ltbb", "-lpthread", "-ldl"])
CHECKS = {}
def check(id, level, technique, rule, note, progs, assumptions=()):
    CHECKS[id] = dict(level=level, technique=technique, rule=rule, note=note, progs=progs, assumptions=list(assumptions))

check("C01", "exploration", "bounded exhaustive enumeration of operation histories against a reference model (real code)",
      "every sequence of logger operations up to the bound (17 operations to depth 4, the 6 buffer operations to depth 6, console switches to depth 5) and every crash kind x scope depth x message count in a forked child; a history is non-trivial when it has at least two operations (a crash: when reporting is enabled)",
      "Every listed history within the bounds was executed on the real logger and compared with a reference deque; histories longer than the bound are not covered.",
      [dict(src="C01_logger.cpp"), dict(src="C01_logger.cpp", flags=["-DCRASH"], shards=4)])

check("C02", "exploration", "stateless model checking: controlled scheduler over the real logger, all interleavings up to a preemption bound, happens-before race detection on every access",
      "each small program (2-3 threads, 1-2 calls each) under every schedule with at most 3 preemptions for two threads and 2 for three (thorough: 4) at synchronisation operations; outcomes are compared with all serial orders of a reference model; every schedule is distinct",
      "Race-freedom and serialisability of every listed program under every explored schedule; accesses made inside precompiled libraries (libstdc++) are only seen through their allocations; std::memory_order weaker than sequentially consistent is modelled by happens-before only.",
      [dict(src="C02_logger_threads.cpp", **SCHED)])

check("C03", "model_checking", "explicit-state breadth-first exploration of naming histories on the real registry and scenes against a reference map",
      "every reachable naming state of up to 3 live objects (names '', a, b, a_1, a_1_1) under add, rename and remove, for the registry itself to depth 6 and for each named kind of a scene to depth 3-4; each transition replays a fresh real object and compares every name and lookup",
      "All naming histories within the bounds; suffixes may take any fresh form starting with the requested name.",
      [dict(src="C03_names.cpp", flags=PLAIN)])

check("C04", "model_checking", "explicit-state breadth-first exploration of scene-graph edit histories on the real scene against a reference tree, address-sanitised",
      "every reachable graph state over up to 3 frames, 2 instances and 3-4 assets under create/delete of frames, instances and assets (right parent, wrong parent, stale handles), with and without outside owners of the nodes; each transition replays a fresh scene and compares reachability, parents, handle validity and refusals",
      "All edit histories within the bounds, for five asset configurations (primitives sharing a geometry, lights, unresolved objects, a loaded model, a camera).",
      [dict(src="C04_graph.cpp", flags=["-fsanitize=address"])])

check("C05", "model_checking", "explicit-state breadth-first exploration of setter sequences on real nodes against a last-writer-wins reference model",
      "every reachable combination of state sources of a frame and its child under 16 setters each to depth 4 (thorough 6), each transition replayed on a fresh scene; modes, getters, refusals and the evaluated global states of both nodes are compared",
      "All setter sequences within the bounds over a SPICE-driven root; SPICE is a stub with known linear ephemerides.",
      [dict(src="C05_state_source.cpp", flags=PLAIN)])

check("C06", "exploration", "bounded exhaustive enumeration of node chains and observation modes on the real scene against reference kinematics",
      "every chain of 1-3 nodes (thorough: 4) over 17 kinds of node (static, moving, spinning in either axes, scaled, callbacks, SPICE, Kepler, mixed), each node evaluated in every observation mode at 3 times and several observers, twice in opposite orders; non-trivial below the first node",
      "All listed chains; numeric tolerances 1e-11 (true) and 1e-9 (light time), angular velocity of SPICE frames only for rotation about the frame's z axis.",
      [dict(src="C06_global.cpp", flags=PLAIN)])

check("C07", "exploration", "bounded exhaustive enumeration of constructor inputs on the real rotation type against reference matrices",
      "every axis of a 29-direction lattice x 62 angles (thorough 166) through every constructor and representation in float and double, every Euler sequence over 7^3 angles, every damage of a lattice, all pairs and a fifth of all triples (thorough: all) of 82 rotations, a 20000-fold product",
      "All listed inputs; numeric tolerances 1e-12 (double) and 4e-6 (float).", [dict(src="C07_rotation.cpp", flags=PLAIN)])

check("C08", "exploration", "bounded exhaustive enumeration of transforms and their compositions on the real type against reference kinematics",
      "192 transforms (position x rotation x scale x velocities) alone, a third of all pairs (thorough: all) and a lattice of triples, in float and double; velocities also against the numerical time derivative",
      "All listed transforms; inversion is checked where a transform of the same kind can represent the inverse (uniform scale, or a scale commuting with the rotation).", [dict(src="C08_transform.cpp", flags=PLAIN)])

check("C09", "exploration", "bounded exhaustive enumeration of unit pairs and values on the real quantity types against an independent conversion table",
      "every ordered pair of units of one dimension x 10 values (conversion, sum, difference, comparison x 10 second values), every unit alone, every unit times and divided by 12 partner units x 16 value pairs, all literals, all spectral power pairs",
      "All 66 units named in units.hpp; products whose scale does not fit std::ratio (they do not compile) are counted, sums and scalings of Celsius/Fahrenheit are left to the library's raw-value convention.",
      [dict(src="C09_units.cpp", flags=["-O0"], shards=4), dict(src="C09_units.cpp", flags=["-O0", "-DCROSS"], shards=4)])

check("C10", "exploration", "bounded exhaustive enumeration of spectra, sample sets and bands on the real type against direct summation",
      "8 bin layouts; all pairs of 25 spectra per layout under every operator, every sample set of up to 4 of 11 wavelengths (thorough 6) with 3 values each, all bands between 13 wavelengths, all malformed sample shapes; data cases are non-trivial from two samples on",
      "All listed cases. Where samples cover a bin only partly, any value between assuming zero and assuming the end value is accepted.", [dict(src="C10_spectral.cpp", flags=PLAIN)])

check("C11", "exploration", "bounded exhaustive enumeration of a lattice of physical arguments on the real functions against long-double closed forms",
      "temperatures 50-60000 K by 10% (thorough 2%) for five spectra, 92 wavelengths x 65 temperatures, all series of up to 40 points with every split, 124 x 124 directions x 11 speeds",
      "All listed points; black-body bins within 2% at the default step count and 0.02% at 2000 steps.", [dict(src="C11_physics.cpp", flags=PLAIN)])

check("C12", "fault_enumeration", "bounded exhaustive enumeration of instants, scales, sample counts and error placements on the real code over an executable model of the SPICE time routines",
      "20 offsets around each of the 28 leap seconds plus monthly dates, x 4 scales in and out x JD/MJD, texts before, inside and after every leap second, every sample count to 70 (thorough 400) and three beyond 2^24 for 18 intervals x 4 constructors, every ordered pair of calls with the first one failing",
      "Expected instants come from an independent leap-second table and the published TDB-TT series; CSPICE itself is not available, so its routines are an executable model.", [dict(src="C12_time.cpp", flags=PLAIN)])

check("C41", "exploration", "stateless model checking: controlled scheduler over the real ephemeris layer, every execution in a fresh process, with happens-before race detection; exhaustive error placement in call sequences",
      "14 programs of 2-3 first users under every schedule with at most 2 preemptions (1 for three threads; thorough 3 and 2) at synchronisation operations and library calls; every sequence of up to 2 (thorough: 3) of 17 calls with every single library call failing, with and without an older error pending",
      "CSPICE itself is not available: its C interface is an executable model with one process-wide error state, as NAIF documents it.", [dict(src="C41_spice.cpp", **SCHED)])

check("C13", "exploration", "bounded exhaustive enumeration of image sizes, coordinates, wrap modes, filters and kernels on the real image type, address-sanitised, against direct definitions",
      "all sizes to 6x6 (thorough 9x9) with every coordinate in and around the image; sizes to 4x4 x 109 x 10 texture coordinates plus non-finite ones x 3 wrap modes x 2 filters x 5 pixel types; 19 kernel shapes (direct and FFT) x 7 image shapes with every kernel impulse and every image impulse",
      "All listed cases; filtering tolerance 0.002 of an 8-bit step, FFT 2e-6 of the sums involved; exactly between two pixels either is accepted.",
      [dict(src="C13_image.cpp", flags=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"])])

check("C14", "exploration", "bounded exhaustive enumeration of pixel values and ranges on the real conversions against exact arithmetic, address- and undefined-behaviour-sanitised",
      "every 8- and 16-bit value and a boundary lattice of the 32- and 64-bit ones into 8 ranges and back, 15000 floats around each range (thorough 116000) plus extremes and non-finite values into each integer type, 200001 transfer-function arguments (thorough 2000001), bundles of every size to 4x4, all 2x2 depth maps over 7 depths; ends of a range are trivial",
      "All listed values; 32- and 64-bit values round trip within the precision of float.", [dict(src="C14_pixel.cpp")])

check("C16", "exploration", "bounded exhaustive enumeration of file layouts and header damage on the real decoder against an independent reference decoder, address- and undefined-behaviour-sanitised",
      "every BMP layout to 5x5 pixels (thorough 9x9) x direction x depth x 5 header sizes x 4 gaps, all orders of byte masks, and for 14 base files every truncation, every value of each of the first 80 bytes, every pair of 7 header fields at 44 boundary values (thorough: four fields together); the unchanged byte is trivial",
      "All listed files, decoded from exact-size heap copies by the colour and mono readers with and without alpha. Files whose meaning the format leaves open (pixel data inside the header, odd masks) may be refused or decoded.", [dict(src="C16_bmp.cpp")])

check("C17", "exploration", "bounded exhaustive enumeration of file layouts, packet structures and damage on the real decoder against an independent reference decoder, address- and undefined-behaviour-sanitised",
      "every TGA layout to 4x4 pixels (thorough 7x7) x 6 descriptors x 4 id lengths for 20 pixel kinds, every packet structure of images of up to 4 pixels (thorough 7) with up to 6 bytes cut off, every packet stream of up to 4 bytes (thorough 6) over 9 byte values, and per kind every truncation, every value of every byte, and every pair of header fields at boundary values (thorough: three fields)",
      "All listed files, decoded from exact-size heap copies by the colour and mono readers with and without alpha. 15/16-bit colours, interleaving and packets reaching past the image may be refused or decoded.", [dict(src="C17_tga.cpp")])

check("C18", "exploration", "bounded exhaustive enumeration of files, run structures and damage on the real decoder against an independent reference decoder, address- and undefined-behaviour-sanitised",
      "every mantissa x exponent, every size to 6x6 (thorough 12x12) in four orientations and three headers, 17 run-length encoded widths, every run structure of each channel of an 8-pixel scanline (thorough also 9), every piece stream of up to 5 bytes (thorough 6) over 11 byte values, every truncation, byte value, insertion and removal in four base files, 22 x 22 dimensions x 5 data lengths",
      "All listed files, decoded from exact-size heap copies by the colour and mono readers. Old-style runs, carriage returns, XYZE and runs past the scanline may be refused or decoded.", [dict(src="C18_hdr.cpp")])

check("C15", "exploration", "bounded exhaustive enumeration of images, formats and write-failure points on the real writers and readers, address- and undefined-behaviour-sanitised",
      "every size to 5x5 (thorough 9x9) x PNG/TIFF x 8/16 bits x colour/gray x alpha over 22 values, all 256 and 65536 levels, colour-space tags, JPEG of every size to 9x9 (thorough 20x20) x 3 qualities x 3 patterns and 216 constant colours, all ordered triples of reads over 8 files (3 damaged), and every byte count at which the file system can stop a write of 16 files (large files: a step, thorough: 7 bytes)",
      "All listed images; write failures are injected with a file-size limit.", [dict(src="C15_roundtrip.cpp")])

check("C19", "fault_enumeration", "systematic enumeration of truncation points, byte damage and header fields of valid files on the real decoders, address- and undefined-behaviour-sanitised",
      "86 PNG, 130 TIFF and 24 JPEG layouts written with the codec libraries; each decoded and compared; small ones cut at every byte (large ones every 2nd or 5th), each such byte set to up to 18 values (thorough: large ones too, all 256 values for PNG and JPEG; PNG also with corrected checksums), every TIFF tag value and count at 20 boundary values and exchanged for 11 tags, sizes at 20 x 20 values; the undamaged file is read again after every damaged one",
      "All listed damage: the result is an exception or a well-formed image. libpng, libtiff and libjpeg-turbo themselves are not instrumented.", [dict(src="C19_damage.cpp", libs=LIBS + ["-lz"])])

check("C44", "exploration", "bounded exhaustive enumeration of file layouts written with the codec libraries, decoded by every reader of the real code and compared with the samples written, address- and undefined-behaviour-sanitised",
      "PNG: every size to 9x9 (thorough: 17x17) x interlacing x 5 depths x all colour types x transparency, every 8- and 16-bit value x 6 filters, 720 combinations of profile, sRGB, gamma and other chunks; TIFF: 3 kinds of colour x 4 sample formats x 8 sets of extra samples x planes x tiles x 6 compressions x predictors x strip heights x 2 (thorough: 6) sizes, 4 byte orders x pages, 10 other kinds of colour, 3 other sample formats, 24 JPEG-in-TIFF layouts; JPEG: 5 colour spaces x progressive x arithmetic x restarts x subsampling x 4 sizes; each through 8 to 14 ways of reading",
      "All listed files. Several extra samples and CMYK JPEG may be decoded or refused; orientation tags are not interpreted and premultiplied colours are returned as stored.",
      [dict(src="C44_foreign.cpp", libs=LIBS + ["-lz"])])

check("C45", "exploration", "bounded exhaustive exploration of scene edit sequences on the real scene and renderer, each final picture compared with that of a scene built at once in the state a reference model says it is in",
      "84 edits of materials, textures, skies, stars, lights, unresolved objects, clouds, geometry, primitives, instances, frames, observer, renderer and frame buffer, with renders, renames and refusals in between: every sequence of 2, every triple of edits of the same kind of thing, on a glossy material too, and every triple of 28 (thorough: of all, and every sequence of 4 of 21); received power and depth of a moving exposure",
      "All listed sequences; both pictures come from the same random numbers, so they must agree to rounding.", [dict(src="C45_edits.cpp", flags=PLAIN, libs=LIBS)])

check("C20", "fault_enumeration", "bounded exhaustive enumeration of images, keyword sets, write-failure points and file damage on the real FITS code against an independent parser, address- and undefined-behaviour-sanitised",
      "every size to 3x3 plus four larger (thorough 6x6) x 5 depths x 9 sensor ranges x 4 patterns of undefined pixels over 24 values, every level of 8 ranges, every keyword field alone, in pairs (thorough: triples), all together and all but one x 7 values, every byte count at which a write can stop (larger files: steps and all block edges), 1350 foreign files, every truncation step, header byte x 12 values and card x 17 x 5 values",
      "All listed files; write failures are injected with a file-size limit; CFITSIO itself is not instrumented.", [dict(src="C20_fits.cpp")])

check("C21", "fault_enumeration", "bounded exhaustive enumeration of catalogues, limits, truncations, header damage and write-failure points on the real catalogue code against a reference filter, address- and undefined-behaviour-sanitised",
      "every sequence of up to 4 stars (thorough 5) over 8 magnitudes (equal, infinite, missing) x 21 limits, 55 larger catalogues to 1000 stars, every truncation and every value of every header byte of five files x 3 limits, every byte count at which a write can stop (larger files: steps)",
      "All listed catalogues; header bytes that carry no information may be ignored or refused; write failures are injected with a file-size limit.", [dict(src="C21_catalog.cpp")])

check("C22", "exploration", "bounded exhaustive enumeration of records, record pairs, line endings and damage on the real readers against the published column layout, address- and undefined-behaviour-sanitised",
      "1368 main and 288 supplement records covering every combination of present and blank fields, each with 4 line endings, ordered pairs of a 1-in-23 sample (thorough 1-in-7) plus six with 5 kinds of junk lines between, all in one file in both orders, every truncation, every character x 13 values and 15 fields x 12 malformed texts between two intact records",
      "All listed files; a malformed record may be skipped or read, its neighbours must not change. Solid angles are compared with the library's own calibration functions (C11).", [dict(src="C22_tycho.cpp")])

check("C23", "exploration", "bounded exhaustive enumeration of camera configurations, pixels and points on the real camera against an independent double-precision camera, address- and undefined-behaviour-sanitised",
      "6 sensor shapes (thorough 9) x 3 focal scales x 2 conventions x 9 distortions x 5 ways to configure x 4 principal points (quick: a third of the products, all pairs), each with every pixel at 4x4 sub-pixel positions x 3 distances, 1575 points in front and behind, and 25 aperture points x 4 focus distances",
      "All listed cases; with distortion, rays between pixel corners are interpolated by design and get 0.03 pixel of tolerance.", [dict(src="C23_project.cpp", libs=LIBS)])

check("C24", "exploration", "bounded exhaustive exploration of configuration call sequences on the real camera, compared with a fresh camera given only the final settings",
      "45 calls (25 settings, 20 refused): every pair after 2 starting sensors (thorough 3), every triple of 11 calls (thorough of all 25), every pair after a fully configured camera (thorough: triples too); the end state is read through rays, projections, field of view, frustum, pixel weights, defocus and PSF kernels; and 27 settings (glare, stamps, convolution, focus, iris, turn, lens, efficiency) in every sequence of 2, every triple of 10 (thorough of all) and 2 more after everything is set, rendered and read out",
      "All listed histories; the camera's aperture and PSF are stand-ins that record the parameters they were built with.", [dict(src="C24_history.cpp", flags=PLAIN, libs=LIBS), dict(src="C24_render.cpp", flags=PLAIN, libs=LIBS)])

check("C25", "exploration", "bounded exhaustive enumeration of coefficient vectors and image points on the real lens models against the published formulae and a Newton inverse, address- and undefined-behaviour-sanitised",
      "every single coefficient and every pair (thorough: triples) at 5 values each, all sign patterns of all coefficients together (OpenCV: every eighth), at 64 image points (thorough 324), for the three models",
      "All listed cases; inversion is required where the fixed-point iteration contracts (factor below 0.5 with default settings, 0.9 with more iterations).", [dict(src="C25_distortion.cpp")])

check("C26", "exploration", "bounded exhaustive enumeration of points and triangles around frusta on the real clipping code against double-precision geometry, address- and undefined-behaviour-sanitised",
      "8 frusta (camera, oblique, one and two planes, none, empty) x 1859 points at 3 scales, and every ordered triple of 13 positions (thorough 22) as a triangle with and without tangents, each piece checked for place, attributes, winding, area, and coverage on a lattice of points",
      "All listed cases; points within 3e-6 of a plane, relative to the triangle's size, may fall on either side.", [dict(src="C26_frustum.cpp")])

check("C27", "exploration", "bounded exhaustive enumeration of sample tuples around frusta on the real trajectory code against a double-precision curve and a dense scan, address- and undefined-behaviour-sanitised",
      "4 frusta (90 degrees to arc-minutes, distances 1 to 1e7) x every tuple of 1 to 4 of 9 positions, 5 of 5 and 6 of 4 (thorough 5 of 7, 6 of 5), and 2048 nearly straight tracks of 2 to 9 samples, each compared at 241 times (thorough 601) and 5 planes",
      "All listed curves; times at which the curve is within float precision of a plane may be reported either way.", [dict(src="C27_arc.cpp")])

check("C28", "exploration", "bounded exhaustive enumeration of sensor configurations, light levels and setter sequences on the real sensor against a double-precision readout chain, address- and undefined-behaviour-sanitised",
      "4 efficiencies x 4 full wells x 3 gains x 5 bit depths (thorough 9) x 3 bias x 3 dark x 3 read-noise x 4 exposures (quick: two thirds of the products) x 15 light levels from zero to 1e9 full wells, per channel and together, three- and eight-band; every pair (thorough: triple) of 47 setter calls, valid and refused",
      "All listed cases; with noise the values are required to be finite, in range and within nine standard deviations in the dark, their distribution is not checked.", [dict(src="C28_sensor.cpp", libs=LIBS)])

check("C35", "exploration", "bounded exhaustive enumeration of frame-buffer operation sequences, channel subsets and observer poses on the real buffer and renderer, against a reference buffer, the all-channel render and exact ray geometry",
      "every sequence of up to 3 (thorough: 4) of 28 buffer operations (enable, disable, write on nine channels, clear); all 512 channel subsets x 18 small scenes (lights, transparency, media, mirrors, motion, stars, unresolved objects, veiling glare, dynamic sampling), a seventh (thorough: all) of them again into a reused dirty buffer; 198 geometric scenes (6 bodies x 3 companions x observer poses)",
      "All listed cases, in RGB and eight bins; the sensor response is compared only where received power is enabled too, with noise off.",
      [dict(src="C35_channels.cpp", flags=PLAIN, libs=LIBS), dict(src="C35_channels.cpp", flags=["-DUSE8"], libs=LIBS)])

check("C34", "exploration", "stateless model checking of the real renderer's task parallelism: a stand-in for TBB's parallel_for enumerates partitions, orders and thread assignments of every stage (bitwise against the serial run), and runs the pieces as threads of the controlled scheduler with happens-before race detection on every access",
      "every stage (path tiles, unresolved tiles, rows, ray batches, kernels) of 15 small renders split into single tiles, every two-part cut and quarters, in every order of up to four pieces (five orders of more), on every assignment to two threads (thorough: three); the same stages with up to 12 concurrent pieces, two splittings, first-to-last and last-to-first, every access checked for an unordered conflicting one; every sequence of up to 4 (thorough: 5) renders of 4 scenes into a shared buffer",
      "All listed schedules give the serial result bit for bit and no two pieces conflict; accesses inside precompiled libraries (embree) are not seen by the race detector; sensor noise is off.",
      [dict(src="C34_tiles.cpp", flags=["-I@V@/stub/partbb"], libs=LIBS),
       dict(src="C34_tiles.cpp", cxx="clang++", flags=["-I@V@/stub/partbb", "-DRACE", "-fsanitize=thread", "-fno-omit-frame-pointer"], extra_src=["lib/sched/rt.cpp"], ldflags=["-rdynamic"], libs=LIBS + ["-ldl"])])

check("C33", "exploration", "bounded exhaustive enumeration of light and unresolved-source geometries, constructors and sample points on the real classes against double-precision radiometry, address- and undefined-behaviour-sanitised",
      "sphere lights: 4 radii x 4 constructors x 9 distances (just above the surface to 1e9 radii) x 29 directions x 2 observers x 52 (thorough: 272) sample points plus rim, outside and opposite directions; emitters and fixed sources: 8 distances x 29 directions x all setter forms; reflecting spheres: 5 geometries x 3 albedo forms x 29 orientations x 37 (thorough: 181) phases including full and new, with their scattered energy; asteroids: 3 magnitudes x 4 slopes x 2 albedos x 6 (29) orientations x 12 distances x 17 phases; 4 invalid values of every setter; three- and eight-band",
      "All listed cases; single-precision positions limit distances near the surface and very far away (tolerances state it).",
      [dict(src="C33_lights.cpp", libs=LIBS), dict(src="C33_lights.cpp", flags=PLAIN + ["-DUSE8"], libs=LIBS)])

check("C36", "exploration", "bounded exhaustive enumeration of small scenes with closed-form answers rendered by the real renderer; every pixel compared with the extremes of the exact radiance over it",
      "4 (thorough: 16) observer poses and conventions x constant and graded skies, 45 light placements x 3 sizes, 4 matte shapes x 4 placements x 4 light positions, 12 occluder/light placements with shadows, 36 uniform-sky furnaces x 3 shapes, opacity layers, absorbing media, resolved against unresolved spheres at 3 phases, 180 point placements x 3 kinds (borders, outside, behind), 36 hiding arrangements, 36 point-spread placements (fixed and moving), 24 veiled images and their unveiled twins (to 2000 x 1900 pixels), 180 out-of-focus point placements (2 image sizes x 3 blur radii x both signs, fixed and moving), 24 matte cavities x 6 bounce limits with and without early stopping and clamping, 12 early-stopping settings, 36 arrangements of cut-out, letting-through and shell foils between a lamp and a screen",
      "All listed cases; where the estimator is random the tolerance is six standard deviations of its exact distribution.",
      [dict(src="C36_analytic.cpp", flags=PLAIN, libs=LIBS)])

check("C37", "exploration", "bounded exhaustive enumeration of scene-building histories, later edits and ray lattices on the real scene view, against reference transforms and brute-force intersection (and again, one step shorter, address- and undefined-behaviour-sanitised)",
      "every history of up to 4 (thorough: 5) steps from 12 (subframes, going up, instances of two primitives, a light, an unresolved object and a loaded model, poses, velocities, scales, spins, deletion) seen by 7 (thorough: 27) combinations of camera set-up, sample count and observation mode; near-light-speed bodies x 3 modes x 5 sample counts x 3 intervals; 8 scenes x 3 sample counts x 5 times x 1875 rays x 4 masks; every one (thorough: every pair) of 17 later edits x 2 sample counts; 0..5 stars or unresolved objects x 3 cameras x 3 modes, counted in the image",
      "All listed cases; rays within 2e-4 rad of an edge are skipped and counted; edits are to the scene graph and its lists, not to shared asset objects, which views share by design.",
      [dict(src="C37_view.cpp", flags=PLAIN, libs=LIBS), dict(src="C37_view.cpp", libs=LIBS)])

check("C31", "exploration", "explicit-state exploration of every edit history of the real material against an independent model of its channels, and bounded exhaustive enumeration of frames, texels and textured hits",
      "all sequences of up to 3 (thorough: 4) of 49 edits (7 channels x {2 textures, 3 factors, reset}, 7 reflection models) evaluated at 4 texture coordinates; 8 normals x 5 turns x 8 kinds of tangent frame x 10 texels x 5 factors; 32 attribute sets x 5 scales x 2 (4) rotations x 30 hits x 2 sides of a real mesh through the ray tracer",
      "All sequences to the bound over the edit alphabet; a texture given to a channel whose factor is zero (metallic, transmission, emission) turns the factor to one, as implemented; every hit compared with double-precision interpolation.",
      [dict(src="C31_material.cpp", libs=LIBS, flags=PLAIN)])
check("C32", "exploration", "bounded exhaustive enumeration of boundary-crossing histories, media, segments and volume layouts on the real medium, stack, scene view and renderer, against a reference set and exact optical depths",
      "every sequence of up to 7 (thorough: 9) crossings of 4 volumes and 512 histories with eight at once; 147 media x 11 lengths x directions and splits, with 4,000 (40,000) free flights each against the exponential law; 8 layouts of nested or separate volumes x 243 (867) rays, reversed and split in four places; overlapping equal volumes; 96 renders of absorbing layouts from 4 places (in and outside, moving or not); 54 renders of scattering volumes in a uniform sky, which must not show",
      "All listed cases; the renders of absorbing layouts and the free flights are compared within six standard deviations; rays grazing a volume within 0.02 are skipped and counted; at most eight volumes enclose a point.",
      [dict(src="C32_media.cpp", flags=PLAIN, libs=LIBS)])

check("C38", "exploration", "bounded exhaustive enumeration of meshes, ellipsoids, placements and ray lattices on the real ray queries, against exact double-precision intersection (and again, thinned, address- and undefined-behaviour-sanitised)",
      "every triangle over 8 lattice vertices, degenerate ones included, and every ordered pair of 27 (thorough: 40) of them, x 5 placements (turned, stretched, mirrored, enlarged far away) x 4 origins x 27 (64) targets both ways; cubes and spheres of up to 300 triangles with rays at every vertex, edge point and face from 3 interior points, none of which may escape, and 24 departures from every face hit; 37 ellipsoids x 5 placements x 87 (175) origins x 98 (218) directions and aimed from up to 30,000 radii away; every index list of up to 7 entries x 0..4 vertices x tangent counts; every triple of 6 radii",
      "All listed cases; single-precision tolerances proportional to the distance; rays closer to an edge or limb than that may hit either way (counted), but never leave a closed surface.",
      [dict(src="C38_shapes.cpp", flags=PLAIN, libs=LIBS), dict(src="C38_shapes.cpp", libs=LIBS)])

check("C29", "exploration", "bounded exhaustive enumeration of complete lattices of apertures, pitches, radii, banks and phases on the real kernels against double-precision integrals over each pixel, of every build history up to a depth, and of every sub-pixel position of a lattice in rendered frames",
      "a case is one kernel of one configuration and phase, one build history, one brightness on one radius table, or one rendered source position; it holds if size, sign, sum, centre and every pixel agree with the pattern integrated over the pixel, histories leave what the last build alone leaves, the chosen radius keeps every pixel above the threshold and grows with brightness, and the frame shows the kernel of its phase with all of the light",
      "the radius is chosen on the centred kernel (documented as conservative); defocus is checked for square pixels; a phase is quantised to its bank",
      [dict(src="C29_psf.cpp", libs=LIBS, flags=PLAIN)])

check("C30", "exploration", "bounded exhaustive enumeration of complete lattices of view and light directions, surface parameters, frames and sample coordinates on every real reflection model, against independent double-precision formulas, quadrature of density and reflectance, and the images of complete sample lattices",
      "11 reflection models and Hapke parameter sets (thorough: 42) x up to 48 parameter sets x 4 frames x all pairs of 40 (76) directions: value, reciprocity, isotropy, channels, declared requirements, density; 5 views x 2 frames x (96 x 96 (192 x 192) + 81 extreme) sample points: weight, density, distribution over 36 bins, estimate of the reflectance; energy by quadrature",
      "All listed lattices; quadrature and distribution for roughness 0.3 and above and views steeper than cosine 0.05; Cook-Torrance bounded as its documented sum of two lobes; single-precision tolerances.",
      [dict(src="C30_bsdf.cpp", libs=LIBS, flags=PLAIN)])
check("C39", "fault_enumeration", "bounded exhaustive enumeration of model files written by an independent writer, every truncation and a set of damages of them, and every load/delete history to the bound, on the real loader and scene view",
      "7 node trees x 6 x 12 transforms x 3 containers (.gltf+.bin, .glb, data URI); 3 shapes x 8 attribute sets x 4 index widths x 3 containers; 6 primitive modes; 16 texture sets x 3 alpha modes x factors x 4 image stores (every texel through the material); assignments of up to 3 materials; OBJ, PLY and STL files; all histories of up to 4 (thorough: 5) of 5 operations; three containers cut at every 5th (every) byte, the buffer likewise, and 70 damaged or impossible files",
      "All listed cases; the writer and the expected triangles (matrix composition, winding of strips and fans) are the harness's own; 2e-3 on texels; images are sampled at their texels only (C13 checks the filter).",
      [dict(src="C39_models.cpp", libs=LIBS, flags=PLAIN)])
check("C40", "exploration", "bounded exhaustive enumeration of draw sequences on the real samplers and of complete lattices of the unit square through every real warp: domain, unit length, density against the cell Jacobian and against the distribution of the lattice's images",
      "every sequence of up to 8 (thorough: 11) draws of 3 kinds x 8 seeds x 2 precisions; 4096 consecutive seeds x 512 values; 4 hemisphere warps (7 exponents), 7 + 60 microfacet warps, sphere, 3 apertures and 20 light cones over 192 x 192 (512 x 512) cells and 144 extreme pairs, and 64 bins of 262,144 images each; 15,000 (57,000) normals' frames; renders up to 16,384 pixels wide and tall with 33 million samples along the far edge",
      "All listed lattices; densities within 0.2 % pointwise, a few percent over a cell (curvature) and in bins; the binned distribution of microfacet warps for roughness 0.3 and above, the pointwise density and cells from 0.02 up.",
      [dict(src="C40_sampling.cpp", libs=LIBS, flags=PLAIN)])
check("C42", "exploration", "bounded exhaustive enumeration of catalogue entries against independent spherical motion and photometry, and explicit-state exploration of every load history on the real scene, compared through the renderer with a scene holding the expected stars",
      "11 right ascensions x 13 declinations (poles included) x 49 proper motions x 10 epochs to 1000 years; 8 colours x 3 magnitude sets x 17 magnitudes x 3 spectral types; every history of up to 3 (thorough: 4) of 13 operations (static and dynamic loads of two catalogues with limits, epoch updates, stars set by hand, failing loads)",
      "All listed cases; directions compared to second order in the motion (and bounded by it at the poles); histories are judged by the rendered image.",
      [dict(src="C42_stars.cpp", libs=LIBS, flags=PLAIN)])

check("C43", "exploration", "bounded exhaustive enumeration of exposures rendered by the real renderer: trails of point sources against the time the exact track spends on each side of every pixel border, moving bodies, lights and skies against the exact average over pixel and time",
      "3 (thorough: 5) frames and poses x 18 camera motions (still, rolls to a full turn, yaw, pitch, tumble, slides) x 5 (8) sample counts x 6 positions (in, at the border, outside) x 4 sources (star, still, moving, circling); stars from a camera swung round a circle at up to half the speed of light; objects passing behind a body; 2 poses x 5 camera motions x 3 to 18 object motions x 3-4 sample counts for lights, bodies, graded skies and walls lit by a moving light",
      "All listed cases; a trail may lose half a step (0.75 pixel) where it crosses the frame border; bodies move along straight pieces between temporal samples; six standard deviations where the estimator is random.",
      [dict(src="C43_motion.cpp", libs=LIBS, flags=PLAIN)])

check("C46", "fault_enumeration", "exhaustive crash-point, torn-write, full-disk and network-answer enumeration of the real command-line program in a process per run, each followed by the same command undisturbed",
      "5 starting directories (missing, empty, complete, with gaps, catalogue only) x every combination of the options of fetch-tycho2 and process-tycho2 x every event of the run (open, write, rename, remove, mkdir) x killed, killed half-way, disk full, disk full half-way, and every download x no connection, connection lost, not found, each followed by the same command undisturbed (thorough: and by a second kill at every event); 40 command lines x 2 directories; 8 directory names",
      "All listed runs of the real program, a process each; files of a few hundred bytes to 12 kB in several writes; TCLAP, indicators and libcurl are stand-ins of the harness (not installed here), so option parsing of the real TCLAP is outside.",
      [dict(src="C46_commands.cpp", flags=PLAIN + ["-I@V@/stub/cli", "-I@R@", "-I@R@/apps"], parts=[0, 1, 2, 3], ldflags=["-Wl,--allow-multiple-definition"], libs=LIBS + ["-ldl", "-lpthread"])])

check("C47", "exhaustive_enumeration", "exhaustive enumeration of calls on the module object itself: all pairs of units, all array layouts x element types x shapes, all indices and slices, all keywords, fields, channels and defaults, against the C++ object behind each",
      "74 units x 74 units x values x operations, every unit at every place that takes a quantity; Vec3, quaternions, matrices, rotations and 4 image types from arrays of 5 layouts x 5 element types x shapes; every index in and around an image and a spectral bin; every field of the coefficient and metadata classes; all 512 combinations of the channels of a frame buffer; every ordered pair of 23 material and of 28 camera settings, on twins; files of three formats written and read; names, nodes and lights of a scene; every one of the module's functions has only types that Python has",
      "The real binding code of all three spectral specialisations, compiled against a stand-in of pybind11, numpy and the Python object model (stub/py), as neither pybind11 nor the Python headers are installed; what real pybind11 does beyond that model is outside.",
      [dict(src="C47_python.cpp", cxx="clang++", flags=PLAIN + ["-O0", "-I@V@/stub/py", "-I@R@/bindings/python", "-I@R@/bindings/python/include", "-DREPO_DIR=\"@R@\""], parts=[0, 1], ldflags=["-Wl,--allow-multiple-definition"], libs=LIBS)])
