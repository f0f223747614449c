#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py). One entry per property."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))
I = "include/huira_impl/"; H = "include/huira/"
NOT = "The suite has test_rotation and test_units only; "

prop("C01", "The log keeps exactly the most recent messages, in order",
 "After any sequence of log calls, level changes, buffer resizes, sink changes and dumps, a dump file lists exactly the accepted messages (level at or above the threshold when logged) that still fit the buffer: the most recent ones, each once, oldest first, with their own level and text. Shrinking keeps the newest, growing loses nothing, a size of zero means one, and every accepted message reaches the installed sink exactly once even when the sink throws. Console switches keep their documented nesting (debug on implies info and warning on; warning off implies info and debug off).",
 ["histories"], "all sequences of logger operations up to the bound, over buffer sizes 0..4",
 NOT + "no logger test exists, and wrap-around after resize needs particular histories.",
 [I+"util/logger.ipp", H+"util/logger.hpp"],
 [("circular buffer index arithmetic", "Logger::log / set_buffer_size / dump_to_file"), ("console flag implications", "Logger::enable_console_*")],
 ["dump_log() file", "custom sink calls", "is_console_*_enabled()"])
prop("C02", "Concurrent logging is race-free and loses nothing",
 "The logger may be used from several threads at once: in every interleaving of log, dump, resize, level and sink calls there is no data race, crash or deadlock. Each message accepted is recorded whole and exactly once (never torn, mixed or overwritten while the buffer has room), messages of one thread keep their order, and every dump shows a state some serial order of the calls could have produced.",
 ["schedules"], "all interleavings, at every synchronisation operation, of 2-3 threads with 1-2 logger calls each",
 NOT + "no test logs from two threads, and a race needs a particular interleaving.",
 [I+"util/logger.ipp", H+"util/logger.hpp"],
 [("write index reservation and slot write", "Logger::log"), ("buffer swap", "Logger::set_buffer_size")],
 ["memory accesses of the logger under a controlled scheduler", "dump_log() file"])
prop("C03", "Scene object names stay unique and lookups follow the latest state",
 "In every history of adding, naming, renaming, looking up and removing objects, each registered object has exactly one name, no two objects of a kind share a name, an unused requested name is granted unchanged, and a taken or empty one gets a fresh suffixed name. Lookup by name returns precisely the object that bears it, renaming an object to the name it already has keeps it, removal frees the name at once, and a failed request changes nothing.",
 ["histories"], "all operation sequences over three objects and a colliding name alphabet, to the bounded depth",
 NOT + "nothing exercises names at all; collisions such as a user-chosen suffixed name need multi-step histories.",
 [I+"scene/name_registry.ipp", H+"scene/name_registry.hpp", I+"scene/scene.ipp", H+"scene/scene_object.hpp"],
 [("unique-name generation", "NameRegistry::add / set_name"), ("reverse maps", "NameRegistry::lookup / get_name")],
 ["Scene::get_*/set_name/get_name", "NameRegistry public interface"])
prop("C04", "Scene-graph edits keep the graph and its handles consistent",
 "In every history of creating and deleting frames, instances and assets in a scene, exactly the objects not yet deleted (directly, or below a deleted frame) remain reachable, each under its one parent. Handles to live objects stay valid, handles to deleted ones report invalid and throw when used instead of touching freed memory, deleting an asset removes every instance of it and nothing else, and operations the scene must refuse leave it unchanged.",
 ["histories"], "all edit sequences to the bounded depth over a small scene alphabet",
 NOT + "the scene needs SPICE and is not even built by the suite; dangling references need create/share/delete histories.",
 [I+"scene/scene.ipp", I+"scene/frame_node.ipp", I+"handles/handle.ipp", I+"handles/scene/frame_handle.ipp", H+"handles/handle.hpp"],
 [("child ownership and prune", "FrameNode::delete_child, Scene::prune_graph_references_"), ("handle validity", "Handle::valid / get")],
 ["RootFrameHandle/FrameHandle/InstanceHandle API", "handle.valid()"])
prop("C05", "A node's state source is last-writer-wins and SPICE rules are enforced",
 "For every sequence of state setters on frames and instances (manual position, rotation, velocity, rates, scale, whole transform, SPICE origin or frame, callbacks) the node reports and uses for each component the source most recently given to it. A SPICE-driven child is accepted only while its parent is SPICE-driven for that component, a parent with such children cannot be switched to manual, and a refused call throws and changes nothing.",
 ["histories"], "all setter sequences to the bounded depth on a parent/child pair, against a reference state machine",
 NOT + "no test sets a node state; stale modes need two or three setters in a particular order.",
 [I+"scene/node.ipp", H+"scene/node.hpp", I+"handles/scene/node_handle.ipp"],
 [("mode fields and checks", "Node::set_* / *_must_be_spice_")],
 ["NodeHandle setters and getters", "Scene view transforms"])
prop("C06", "Global node states equal the composition along their path",
 "At any time and for any scene tree, the global transform of a node (position, rotation, scale, velocity, angular rate) equals the composition of its ancestors' local states from the root down, with rotating and translating frames contributing to velocities, and apparent states differ from true ones only by the documented light-time and aberration treatment. Evaluating one node or time never changes the answer for another.",
 ["configurations", "inputs"], "all chains to depth 3 over a lattice of local transforms and observation modes",
 NOT + "no test composes node transforms.",
 [I+"scene/node.ipp", I+"core/transform.ipp", I+"core/physics.ipp"],
 [("transform composition", "Node::get_global_transform / get_apparent_transform"), ("light-time iteration", "Node::get_apparent_transform")],
 ["node transforms", "SceneView transforms"])
prop("C07", "Rotations form a group that keeps its conventions",
 "Every rotation built by any constructor (quaternion, axis-angle, Euler order, matrices in either convention, axis pairs) is a proper rotation; composition is associative, the inverse undoes it, and rotating vectors, converting between active and passive matrices, quaternion, axis and angle all describe the same rotation. Inputs that do not describe a rotation (non-orthonormal, reflecting, non-finite, zero) are rejected or normalised as documented, never turned into a non-rotation.",
 ["inputs"], "all constructor inputs over an exhaustive lattice of axes, angles, matrices, for float and double",
 "test_rotation samples a few dozen hand-picked angles; the law must hold for every input and for every pair composed.",
 [I+"core/rotation.ipp", H+"core/rotation.hpp"],
 [("matrix acceptance", "Rotation::set_matrix_"), ("conversions", "Rotation::from_* / *_matrix / quaternion")],
 ["Rotation API"])
prop("C08", "Transforms compose, apply and invert consistently",
 "For every transform, the matrix form, point, direction and vector application, composition and the velocity-carrying parts agree: applying a composition equals applying one after the other, the inverse undoes the transform whenever the inverse is representable, and velocities transform as the time derivative of positions.",
 ["inputs"], "all transforms (and pairs and triples) over a lattice of positions, rotations, scales, velocities and rates",
 NOT + "no test touches transforms.",
 [I+"core/transform.ipp", H+"core/transform.hpp"],
 [("composition", "Transform::operator*"), ("inverse", "Transform::inverse")],
 ["Transform API"])
prop("C09", "Quantities convert and combine without changing the physical value",
 "Every unit converts to every other unit of its dimension and back with the same physical value, including the offset and special units (temperatures, angles, solid angles). Products, quotients, powers, sums and comparisons of quantities agree with the same operation on SI values whatever the units of the operands, and no-number values are refused.",
 ["inputs", "programs"], "all unit pairs of each dimension and all operand-unit combinations, over a value lattice",
 "test_units checks individual conversions; it does not cover every pair, operand order, mixed-unit comparison or magnitude.",
 [H+"units/units.hpp", I+"units/quantity.ipp", H+"units/quantity.hpp", I+"units/dimensionality.ipp"],
 [("scale and dimension arithmetic", "Quantity operators"), ("tagged conversions", "Quantity::from_si / to_si")],
 ["Quantity::value, to_si, operators"])
prop("C10", "Spectral bins partition the band and spectra conserve totals",
 "For every spectral type, bins are well-formed and ordered, the arithmetic between spectra is elementwise, splitting a total over the bins and totalling it again gives the total back, and data integrated over bins gives the trapezoidal integral or mean of the given samples on each bin. Unspecified elements are zero, never indeterminate, and mismatched, empty or unordered sample data is refused rather than used.",
 ["inputs"], "all small sample sets and bin layouts over a lattice",
 NOT + "no test touches spectra.",
 [I+"core/spectral_bins.ipp", H+"core/spectral_bins.hpp", I+"units/spectral_quantity.ipp"],
 [("bin construction", "SpectralBins, UniformSpectralBins"), ("integration", "integrate_over_data / sample")],
 ["SpectralBins API"])
prop("C11", "Physical formulae hold over their whole domain",
 "Black-body radiance and photon energies agree with the closed-form laws and are positive, finite and monotone in temperature; numerical integration is exact for linear data and independent of splitting; relativistic aberration maps unit directions to unit directions, leaves them alone at zero speed, tilts them toward the motion by the special-relativity angle, and is undone by the opposite velocity.",
 ["inputs"], "all points of a dense lattice of temperatures, wavelengths, directions and speeds",
 NOT + "no test touches the physics helpers.",
 [I+"core/physics.ipp", H+"core/physics.hpp", H+"core/constants.hpp"],
 [("aberration, Planck, integrate, linspace", "core/physics.ipp")],
 ["free functions in core/physics.hpp"])
prop("C12", "Times convert between scales and back, and intervals sample their ends",
 "A time given as Julian date, modified Julian date or calendar text in any supported scale names the same instant when read back in that scale and, between scales, differs by exactly the leap-second and fixed offsets; ordering, addition and subtraction agree with seconds. Interval constructors and evenly spaced samples keep the start, end, centre and duration they were built from for every count, and an error reported by the ephemeris layer always surfaces as an exception that leaves later calls working.",
 ["inputs", "fault_sequences"], "all scale pairs over a lattice of instants around every leap second, all sample counts to the bound, and all placements of an ephemeris error",
 "test_time needs CSPICE and is not built here; it samples a few dates.",
 [I+"core/time.ipp", H+"core/interval.hpp", I+"core/spice.ipp"],
 [("scale switch", "Time::from_julian_date / to_julian_date"), ("error check", "spice::call_spice"), ("sampling", "Interval::samples")],
 ["Time and Interval API over a model of the SPICE time functions"])
prop("C13", "Image access, sampling and filtering match their definition",
 "For every image size, each pixel is stored and read at its own coordinates, out-of-range coordinates are refused by checked access, and every wrap mode and sampling filter returns what its definition gives at every coordinate, including borders and far outside. Convolution equals direct summation with the documented border treatment, arithmetic and fills touch exactly the image's pixels, copies are independent, and resolutions and pixel coordinates compare and combine component by component.",
 ["inputs", "configurations"], "all image sizes to the bound, all coordinates on a sub-pixel lattice beyond the borders, all wrap and filter modes, all small kernels",
 NOT + "no image test exists.",
 [I+"images/image.ipp", H+"images/image.hpp"],
 [("index and wrap arithmetic", "Image::at / sample*"), ("convolution", "Image::convolve")],
 ["Image API"])
prop("C14", "Pixel and colour conversion is invertible, monotone and saturating",
 "Every 8- and 16-bit pixel value survives conversion to floating point and back unchanged (wider ones within the precision of float), conversion is monotone, out-of-range values saturate at the ends of the target range, and no input value produces undefined behaviour. The sRGB transfer functions are inverse to each other and monotone, and conversions between channel counts keep colour and alpha in place.",
 ["inputs"], "all 8- and 16-bit values, boundary lattices for 32-bit and floating point",
 NOT + "no conversion test exists; rounding and saturation errors show on few of the 65536 values.",
 [I+"images/io/convert_pixel.ipp", H+"images/io/convert_pixel.hpp", H+"images/io/color_space.hpp"],
 [("scaling and rounding", "float_to_integer / integer_to_float"), ("transfer functions", "color_space.hpp")],
 ["convert_pixel, srgb conversion functions"])
prop("C15", "Images written and read back are the same image",
 "For every supported writable format, bit depth, channel layout and size, writing an image and reading it back yields the same dimensions and pixel values: exactly the quantised value for lossless formats, within the coding error for lossy ones, with alpha kept where the format stores it. Reading never depends on previously read files, and a write that cannot complete is reported by exception.",
 ["configurations", "inputs"], "all sizes to the bound x all formats, depths and layouts x all values of a boundary lattice",
 NOT + "no image I/O test exists.",
 [I+"images/io/png_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/jpeg_io.ipp", I+"images/io/read_image.ipp"],
 [("row packing and rounding", "write_image_png / write_image_tiff / write_image_jpeg")],
 ["write_image_* then read_image_*"])
prop("C16", "BMP files decode correctly, and malformed ones are refused safely",
 "Every well-formed BMP (any supported bit depth, palette, orientation, padding) decodes to exactly the pixels it encodes. Every other byte sequence, truncation or corruption of a header field yields an exception or a well-formed image of the declared size, and never a memory error, undefined behaviour or hang.",
 ["inputs", "fault_sequences"], "all small images per depth/orientation, all truncations, all single-field corruptions over boundary values and pairs of the size fields",
 NOT + "no decoder test exists; a decoder must be safe on every byte string.",
 [I+"images/io/bmp_io.ipp", H+"images/io/bmp_io.hpp"],
 [("header validation and row decoding", "read_image_bmp")],
 ["read_image_bmp on bytes and files, under sanitizers"])
prop("C17", "TGA files decode correctly, and malformed ones are refused safely",
 "Every well-formed TGA (grey, true-colour, colour-mapped; raw or run-length coded; any origin) decodes to exactly the pixels it encodes. Every other byte sequence, truncation, packet stream or header corruption yields an exception or a well-formed image of the declared size, and never a memory error, undefined behaviour or hang.",
 ["inputs", "fault_sequences"], "all RLE packet streams to the bound, all type/depth/origin headers, all truncations, all single-field corruptions",
 NOT + "no decoder test exists; packet streams that overrun a row or the image are the interesting ones.",
 [I+"images/io/tga_io.ipp", H+"images/io/tga_io.hpp"],
 [("RLE unpacking", "tga_io.ipp"), ("colour-map lookup", "tga_io.ipp")],
 ["read_image_tga on bytes and files, under sanitizers"])
prop("C18", "Radiance HDR files decode correctly, and malformed ones are refused safely",
 "Every well-formed Radiance HDR file (flat or run-length coded scanlines, standard orientation, exposure header) decodes to the values it encodes, with zero exponents decoding to black. Every other byte sequence, truncation or run stream yields an exception or a well-formed image of the declared size, and never a memory error, undefined behaviour or hang.",
 ["inputs", "fault_sequences"], "all run streams per channel to the bound, all header variants, all truncations and single-byte corruptions of small files",
 NOT + "no decoder test exists.",
 [I+"images/io/hdr_io.ipp", H+"images/io/hdr_io.hpp"],
 [("scanline RLE", "hdr_io.ipp"), ("RGBE conversion", "hdr_io.ipp")],
 ["read_image_hdr on bytes and files, under sanitizers"])
prop("C19", "PNG, JPEG and TIFF decoding is safe under damage, and formats are detected",
 "Every truncation and every single-byte damage of a valid PNG, JPEG or TIFF file yields an exception or a well-formed image of the declared size, never a memory error, hang or leak of state into the next read. The generic reader picks the decoder by file extension, reports missing and unknown files by exception, and gives the same pixels as the specific reader.",
 ["inputs", "fault_sequences"], "all truncation points and all byte positions x damage alphabet of small files of each layout",
 NOT + "no decoder test exists.",
 [I+"images/io/png_io.ipp", I+"images/io/jpeg_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/read_image.ipp"],
 [("library error paths", "setjmp / error managers in *_io.ipp")],
 ["read_image_* on bytes and files, under sanitizers"])
prop("C20", "FITS output is a valid file that carries the image and its metadata",
 "For every image size, pixel type and bit depth, the FITS file written follows the standard block structure and gives back, through its own scaling keywords, the pixel values to within its quantisation, in the documented row order, together with every metadata keyword supplied. Reading the file back returns the same image and metadata; a write that cannot complete, or a damaged file being read, ends in an exception or a well-formed image, never a memory error.",
 ["configurations", "fault_sequences"], "all sizes to the bound x all bit depths x all metadata subsets, and every write failure point",
 NOT + "no FITS test exists.",
 [I+"images/io/fits_io.ipp", H+"images/io/fits_metadata.hpp"],
 [("scaling keywords and saturation", "write_image_fits")],
 ["bytes of the written file, decoded by an independent reader"])
prop("C21", "Star catalogues read back exactly what was written, or fail loudly",
 "A star catalogue written and read back yields the same stars (those that have a magnitude) in magnitude order, and reading with a magnitude limit yields exactly the stars at or brighter than it, for every catalogue and limit. If the file is truncated at any point, corrupted in its header, or could not be completely written, the operation throws rather than returning garbage, partial or silently empty data.",
 ["histories", "crash_points", "fault_sequences"], "all catalogues of up to 5 stars over a magnitude alphabet with ties, all limits, all crash truncations of the written file and all write failure points",
 NOT + "no catalogue test exists.",
 [I+"stars/io/star_catalog.ipp", H+"stars/io/star_catalog.hpp", H+"stars/io/star_data.hpp"],
 [("header check and cut-off search", "StarCatalog::read_star_data"), ("sorted write", "StarCatalog::write_star_data")],
 ["StarCatalog read/write API and files"])
prop("C22", "Tycho-2 records load field by field, independent of their neighbours",
 "Each record of a Tycho-2 main or supplement file yields one star with exactly the position, proper motion and magnitudes its own columns state, using the documented fallback when a column is blank; records that must be skipped contribute nothing. The result for a record does not depend on the records before or after it, on line endings or on a missing final newline, and malformed lines never cause a memory error.",
 ["inputs", "histories"], "all sequences of up to 3 records over an alphabet of record shapes, with every final-newline and line-ending variant",
 NOT + "no loader test exists; leaking state between lines needs particular neighbours.",
 [I+"stars/io/load_tycho2.ipp", H+"stars/io/load_tycho2.hpp", H+"stars/io/tycho2_id.hpp"],
 [("line parsing and counting", "load_tycho2.ipp")],
 ["load_tycho2_* on written files, under sanitizers"])
prop("C23", "Projection and ray casting are inverse to each other",
 "For every camera configuration, the ray cast through a pixel position projects back to that position, points are in front exactly when the documented optical axis says so, and the pixel solid angles and the view frustum agree with those rays. This holds in both axis conventions, for pinhole and finite aperture, and with or without distortion.",
 ["configurations", "inputs"], "all configurations of a lattice (focal length, resolution, pitch, principal point, convention, distortion) x all pixels of small sensors",
 NOT + "the camera needs SPICE and is not built by the suite.",
 [I+"cameras/camera_model.ipp", H+"cameras/camera_model.hpp", I+"render/frustum.ipp"],
 [("projection and ray generation", "CameraModel::project_point / cast_ray"), ("solid angles and frustum", "CameraModel::compute_*")],
 ["CameraModel API"])
prop("C24", "A camera's behaviour depends on its settings, not on how it got them",
 "Two cameras with the same final settings (focal length, f-stop, sensor geometry, principal point, distortion, convention, depth of field, point spread, glare, quantum efficiency) project, cast rays, weigh pixels, build kernels and render identically, whatever sequence of calls, including overwritten, removed or refused settings, led there. A refused setting throws and leaves the camera as it was.",
 ["histories"], "all configuration call sequences to the bounded depth, compared with a freshly configured camera",
 NOT + "stale derived data shows only after reconfiguring in particular orders.",
 [I+"cameras/camera_model.ipp", I+"cameras/sensors/sensor_model.ipp", I+"handles/camera_handle.ipp"],
 [("derived-state recomputation", "CameraModel::set_* / compute_*")],
 ["CameraModel API"])
prop("C25", "Lens distortion models invert and reduce to identity",
 "For each distortion model, zero coefficients leave every point unchanged, undistorting a distorted point (and the reverse) returns it within tolerance over the model's invertible range, the optical centre is fixed, and the distortion equals the published formula for the given coefficients.",
 ["inputs", "configurations"], "all coefficient vectors of a lattice x all image points of a lattice, for the three models",
 NOT + "no distortion test exists.",
 [I+"cameras/distortion/brown_distortion.ipp", I+"cameras/distortion/owen_distortion.ipp", I+"cameras/distortion/opencv_distortion.ipp"],
 [("delta formulae and fixed-point inversion", "cameras/distortion/*.ipp")],
 ["Distortion::distort / undistort"])
prop("C26", "View-frustum tests and clipping agree with the frustum's geometry",
 "A point or triangle is reported inside, outside or intersecting exactly as the frustum's planes say, and a clipped triangle covers exactly the part of the original inside the frustum: every vertex lies in both, area is kept for contained triangles, and nothing inside is lost. Results do not depend on vertex order.",
 ["inputs", "configurations"], "all points and triangles over a lattice spanning every face, edge and corner of several frusta",
 NOT + "no frustum test exists.",
 [I+"render/frustum.ipp", H+"render/frustum.hpp"],
 [("plane tests and Sutherland-Hodgman clipping", "Frustum::contains / clip_*")],
 ["Frustum API"])
prop("C27", "Trajectory arcs interpolate their samples and clip completely",
 "A trajectory through any samples passes through each of them at its time, is continuous with the documented smoothness, and reduces to the exact polynomial for few samples. Clipping it to a frustum returns ordered, disjoint intervals that contain exactly the times at which the trajectory is inside, with none lost or invented.",
 ["inputs"], "all sample tuples of length 1..6 over a position lattice around several frusta, checked at a dense set of times",
 NOT + "no trajectory test exists; lost roots need particular curves.",
 [I+"render/trajectory_arc.ipp", H+"render/trajectory_arc.hpp", I+"render/frustum.ipp"],
 [("spline construction", "TrajectoryArc"), ("root solving and interval assembly", "clip_arc, solve_cubic_")],
 ["TrajectoryArc and Frustum clip API"])
prop("C28", "The sensor maps light to counts monotonically within its range",
 "With noise disabled, the digital image is a deterministic, monotone, saturating function of the received power, exposure, gain and quantum efficiency, equal to the electrons collected, limited by the full well, divided by the gain and limited to the converter's range, and never non-finite. With noise enabled, bias and dark current are added and values stay finite, in range and statistically near the noiseless ones; settings outside their domain are refused and leave the sensor unchanged.",
 ["inputs", "configurations", "histories"], "all configurations of a lattice x powers spanning zero to beyond saturation, and all setter sequences to the bound",
 NOT + "no sensor test exists.",
 [I+"cameras/sensors/simple_sensor.ipp", I+"cameras/sensors/sensor_model.ipp"],
 [("readout chain", "SimpleSensor::readout"), ("validation", "SensorModel setters")],
 ["SensorModel::readout on a frame buffer"])
prop("C29", "Point-spread and aperture kernels conserve energy",
 "Every kernel of every configuration of a point-spread function or defocused aperture is non-negative, finite, sums to one in every channel the pattern lights, has size 2 x radius + 1 and equals, pixel by pixel, the pattern (Airy disc per wavelength, the caller's own, or for square pixels a uniform disc of the blur radius) integrated over the pixel and centred at the sub-pixel phase of its bank. Rebuilding leaves what the last build alone would; negative radii and empty banks are refused. The radius chosen by brightness grows with it and, on the centred kernel, never cuts off a pixel that receives more photons than the threshold; a rendered point source shows the kernel of its sub-pixel position with all of its light.",
 ["configurations", "histories"], "all apertures, pitches, radii, bank counts, phases and brightnesses of a lattice, all build histories to the bound, all sub-pixel source positions of a lattice",
 NOT + "no PSF test exists.",
 [I+"cameras/psfs/psf.ipp", I+"cameras/psfs/airy_disk.ipp", I+"render/psf_lut.ipp", I+"cameras/apertures/aperture.ipp", I+"cameras/apertures/circular_aperture.ipp"],
 [("bank building and normalisation", "PSF::build_*"), ("radius lookup", "lookup_effective_radius")],
 ["PSF / Aperture API"])
prop("C30", "Surface reflection models are reciprocal, bounded and sampled correctly",
 "Every reflection model returns finite non-negative values, gives the same value with light and view directions exchanged where the model is reciprocal, reflects no more than it receives within its valid parameters (Cook-Torrance: each of its two lobes; Hapke: to the accuracy of its H function), follows its documented formula at every roughness down to the minimum, and returns zero below the surface. Each sample it draws has the weight value x cosine / density, and its density agrees with the distribution of its own samples and integrates to one over the hemisphere.",
 ["inputs", "configurations"], "all direction pairs and sample points on a hemisphere lattice x a parameter lattice, per model",
 NOT + "no material test exists.",
 [I+"materials/bsdfs/lambertian_bsdf.ipp", I+"materials/bsdfs/oren_nayar_bsdf.ipp", I+"materials/bsdfs/lommel_seeliger_bsdf.ipp", I+"materials/bsdfs/mcewen_bsdf.ipp", I+"materials/bsdfs/hapke_bsdf.ipp", I+"materials/bsdfs/cook_torrance_bsdf.ipp", I+"materials/bsdfs/null_bsdf.ipp", H+"materials/sampling_utils.hpp"],
 [("eval/sample/pdf triple", "materials/bsdfs/*.ipp")],
 ["BSDF::eval / sample / pdf"])
prop("C31", "Materials evaluate textures and shading parameters faithfully",
 "For every combination of set, replaced and removed textures and factors, a material's shading parameters at a texture coordinate are the factor times the texture's value there (or the documented default), the shading normal is the one the normal map encodes (unperturbed where the map encodes none), unit length and part of a right-handed orthonormal frame, and the result depends only on each channel's own settings in force: edits to different channels commute, and a texture given to a switched-off channel switches it on. Every hit on any mesh, with or without texture coordinates or tangents, yields a finite frame.",
 ["histories", "configurations"], "all setter sequences to the bound x a lattice of texture coordinates and mesh attributes",
 NOT + "no material test exists.",
 [I+"materials/material.ipp", H+"materials/texture.hpp", H+"materials/shading_params.hpp", I+"render/interaction.ipp", I+"handles/material_handle.ipp"],
 [("parameter evaluation", "Material::evaluate"), ("tangent frame", "render/interaction.ipp")],
 ["Material API", "MaterialHandle API"])
prop("C32", "Participating media attenuate and nest consistently",
 "Transmittance along a segment is in (0,1], multiplicative over split segments, independent of direction of travel and equal to Beer-Lambert for constant media; free-flight sampling is consistent with it, and phase functions are normalised and sampled with their own density. Entering and leaving media keeps exactly the set of media that currently enclose the ray, whatever the order in which boundaries are crossed.",
 ["histories", "inputs"], "all boundary-crossing sequences over three overlapping media to the bound; lattices of segments and coefficients",
 NOT + "no volume test exists; interleaved exits need particular crossing orders.",
 [H+"volumes/medium.hpp", H+"volumes/medium_stack.hpp", H+"volumes/density/constant_density_field.hpp", H+"volumes/scattering/isotropic_scatter.hpp"],
 [("stack toggle", "MediumStack::toggle"), ("transmittance", "Medium / ConstantDensityField")],
 ["MediumStack, Medium API"])
prop("C33", "Lights and unresolved sources obey the inverse-square law and conserve power",
 "The irradiance from a light or unresolved source is non-negative, falls with the square of distance, is unchanged when the scene is rigidly moved, and matches the power it was given. A light's sampled directions lie within its visible extent with weights and densities that agree with its analytic irradiance, and reflected light of an unresolved body follows its phase law between full and new phase, in every unit the setters accept.",
 ["inputs", "configurations"], "all geometries on a lattice of distances, phases, radii and rotations x all setter overloads x sample points",
 NOT + "no light test exists.",
 [I+"assets/lights/sphere_light.ipp", I+"assets/unresolved/unresolved_emitter.ipp", I+"assets/unresolved/unresolved_sphere.ipp", I+"assets/unresolved/unresolved_asteroid.ipp", I+"assets/unresolved/unresolved_object.ipp", I+"stars/star.ipp"],
 [("irradiance formulae", "assets/lights, assets/unresolved")],
 ["Light::sample_li / pdf_li / irradiance_at", "UnresolvedObject irradiance"])
prop("C34", "Renders do not depend on threads, tile order or earlier renders",
 "The parallel stages of rendering (path tracing, unresolved sources, kernels, combination) are free of data races for every schedule, so a given scene view, camera and seed gives the same frame buffer whatever the number of threads and the order in which tiles run. Rendering into a reused frame buffer equals rendering into a fresh one, and every pixel is written exactly by its own tile.",
 ["schedules", "histories"], "all orders and partitions of the tile tasks of small renders, with every pair of tasks checked for conflicting accesses; all sequences of renders to the bound",
 NOT + "the renderer needs SPICE and is not built by the suite; a race shows only under particular schedules.",
 [I+"render/renderer.ipp", H+"render/renderer.hpp", I+"scene/scene_view.ipp", I+"cameras/psfs/psf.ipp"],
 [("per-tile state", "Renderer::path_trace_ / render_unresolved_")],
 ["FrameBuffer contents under a controlled task scheduler"])
prop("C35", "Frame-buffer channels are independent and correct",
 "A frame buffer holds exactly the channels that are enabled, each with its own storage and the configured resolution; enabling, disabling, clearing or writing one never affects another. A render fills every enabled channel with the same values whatever other channels are enabled, and geometric channels (depth, positions, normals, identifiers, alpha) agree with the ray through the pixel.",
 ["configurations", "histories"], "all subsets of channels, all enable/disable/clear/write sequences to the bound, small analytic scenes",
 NOT + "no frame-buffer or renderer test exists.",
 [H+"render/frame_buffer.hpp", I+"render/renderer.ipp"],
 [("channel storage", "FrameBuffer"), ("channel writes", "Renderer::path_trace_")],
 ["FrameBuffer accessors"])
prop("C36", "Rendered light matches the analytic answer for simple scenes",
 "For scenes with a known closed form (lit sphere, empty space, emissive or constant background, unresolved points, overlapping bodies), the received power in each pixel equals the analytic value within sampling error, nothing is seen through an opaque body, a point source's total power lands on the image wherever in the frame it is, and nothing outside the frame or behind the camera contributes. Veiling glare spreads exactly its share of the total evenly over the image, and early stopping or clamping of indirect light alters nothing else.",
 ["configurations", "inputs"], "all placements of a lattice of bodies, lights and sources for small cameras",
 NOT + "the renderer is not built by the suite.",
 [I+"render/renderer.ipp", I+"scene/scene_view.ipp", I+"render/interaction.ipp"],
 [("visibility and shading", "Renderer"), ("splatting", "Renderer::render_unresolved_")],
 ["FrameBuffer received power, alpha, depth"])
prop("C37", "A scene view is a faithful snapshot relative to the observer",
 "For any scene, time and exposure interval, the view holds exactly the scene's renderable instances, lights, unresolved objects and stars with the transforms they have relative to the observing camera at the sampled times; it is unaffected by later edits to the scene, and two views of the same inputs are equal. Ray queries against it hit exactly what the instanced geometry says, in single and batched form alike.",
 ["histories", "configurations"], "all small scenes over an alphabet of nodes x observation modes x sample counts, all edit histories to the bound",
 NOT + "scene views are not built by the suite.",
 [I+"scene/scene_view.ipp", H+"scene/scene_view.hpp", I+"scene/scene.ipp"],
 [("graph traversal and batching", "SceneView construction"), ("ray queries", "SceneView::intersect / resolve_hit")],
 ["SceneView API"])
prop("C38", "Geometry queries agree with the shapes they describe",
 "A ray query on a mesh or ellipsoid returns the nearest surface point ahead exactly when there is one, with its position, texture coordinate, colour, normals, tangent and identifiers, under every placement and from any distance that single precision resolves. No ray leaves a closed surface unseen, and none started just off a surface meets it again where it stands. Malformed meshes and ellipsoids are refused.",
 ["inputs", "configurations"], "all rays of a lattice against shapes under a transform lattice; all small index/vertex lists",
 NOT + "no geometry test exists.",
 [I+"geometry/mesh.ipp", I+"geometry/ellipsoid.ipp", H+"geometry/vertex.hpp", I+"render/interaction.ipp"],
 [("embree setup and interpolation", "geometry/*.ipp")],
 ["Mesh / Ellipsoid API, SceneView ray queries"])
prop("C39", "Models load with their geometry, materials and hierarchy intact",
 "Loading a model file yields every mesh with its vertices, faces, attributes, materials, textures and node transforms as the file states (glTF textures, factors, alpha modes and normal scales; mirrored nodes), under unique names, without disturbing what the scene already holds, in any order of loads and deletions. A file that is missing, cut short or does not hold a model raises an exception, and so does one with nodes a transform cannot hold (shear); the scene is then as it was. A missing image costs only its texture.",
 ["inputs", "fault_sequences"], "all small models over an alphabet of node/mesh/material shapes, every truncation of a file",
 NOT + "no loader test exists.",
 [I+"assets/io/model_loader.ipp", H+"assets/io/model_loader.hpp", I+"assets/model.ipp"],
 [("node and mesh conversion", "ModelLoader")],
 ["Scene::load_model, scene contents"])
prop("C40", "Random sampling is reproducible, in range and distributed as stated",
 "A sampler's values lie in [0,1), depend only on its seed and position in the stream, and are reproduced by the same seed; different seeds give different streams. Warping functions map the whole unit square onto their target domain (disk, hemisphere, sphere, cone, microfacet normals) without leaving it, with unit-length results distributed with exactly the density they report. Sub-pixel samples stay in their pixel for images of any size.",
 ["inputs", "histories"], "all seeds of a set x all call sequences to the bound; all points of a dense unit-square lattice including its edges",
 NOT + "no sampling test exists.",
 [H+"render/sampler.hpp", H+"materials/sampling_utils.hpp"],
 [("generators and warps", "sampler.hpp, sampling_utils.hpp")],
 ["Sampler API, warp functions"])
prop("C41", "Ephemeris calls are initialised once and errors never linger",
 "Ephemeris and time functions may be used, also for the first time, from several threads at once: each call gets its own result or error, and the default leap-second kernel is loaded at most once and never over the user's; any error the ephemeris library reports becomes an exception with its message, is cleared, and never affects a later successful call. Loading a kernel relative to its file restores the working directory on success and on failure.",
 ["schedules", "fault_sequences"], "all interleavings of 2-3 first users and all placements of library errors in short call sequences",
 NOT + "no test injects an ephemeris error or calls from two threads.",
 [I+"core/spice.ipp", H+"core/spice.hpp"],
 [("once-flag and error check", "spice::ensure_lsk_loaded / call_spice"), ("directory guard", "furnsh_relative_to_file")],
 ["spice:: functions over a recording stand-in of the CSPICE C interface"])
prop("C42", "Stars are placed where and as bright as their catalogue entry says",
 "A star's direction at any time is its catalogue position advanced by its proper motion (milliarcseconds a year along right ascension and declination), always unit length and also at the poles; its brightness per spectral bin is the black body its colour states, scaled to its magnitude (five magnitudes are a factor of one hundred). A scene shows exactly the stars last loaded, up to the requested magnitude and at the epoch last given to dynamic ones, whatever was loaded before; a failed load changes nothing.",
 ["inputs", "histories"], "all lattice positions, motions, magnitudes and epochs; all load sequences to the bound",
 NOT + "stars need SPICE and are not built by the suite.",
 [I+"stars/star.ipp", I+"stars/io/star_data.ipp", I+"scene/scene.ipp"],
 [("proper motion", "Star"), ("irradiance", "Star / StarData")],
 ["Star API, Scene::load_stars, SceneView stars"])
prop("C43", "An exposure shows where everything is at each moment of it",
 "The light of a point source that moves across the image is spread along its track in proportion to the time it spends there, also when the track bends, closes on itself, leaves the frame or passes behind a body: nothing is lost or counted twice. A moving body, light or sky contributes to each pixel the average over the exposure of its instantaneous images, whether the camera or the object moves or turns. With a single temporal sample the image is the one at the start.",
 ["inputs", "configurations"], "all combinations of a lattice of camera motions, source motions, positions, frames and temporal sample counts",
 NOT + "no test renders an exposure.",
 [I+"render/renderer.ipp", I+"scene/scene_view.ipp", I+"render/trajectory_arc.ipp"],
 [("trail splatting", "Renderer::render_unresolved_"), ("time of a camera ray", "Renderer::path_trace_ / interpolate_transform")],
 ["FrameBuffer received power after Renderer::render over an exposure"])

prop("C44", "Pictures made by other programs decode to what their format says",
 "Every PNG, TIFF and JPEG file decodes to the colours, alpha, size and colour-space tag that its format gives it, whatever its depth, kind of colour, palette or transparency, interlacing, filters, planes, tiles, strips, byte order and compression; kinds of colour or sample that are not understood are refused, never taken for another. Reading from disk, from memory, by format or by extension, with or without alpha and by default arguments gives the same pixels, and the gray readers give the mean of the channels (the luma for JPEG).",
 ["inputs", "configurations"], "every layout the codec libraries can write x all values of 8- and 16-bit samples x all readers",
 NOT + "no decoder test exists; users' textures come from other programs, in layouts this library never writes.",
 [I+"images/io/png_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/jpeg_io.ipp", I+"images/io/read_image.ipp"],
 [("decoders", "read_png_raw_ / read_tiff_raw_ / read_jpeg_raw_"), ("readers", "read_image_png, read_image_tiff_rgb, read_image_jpeg and their _mono forms")],
 ["ImageBundle returned by the readers"])

prop("C45", "A picture depends on the scene as it stands, not on how it was put together",
 "Rendering after any sequence of edits (materials and their textures, sky, stars, lights, unresolved objects, media, geometry, primitives, instances, frames, observer, renderer settings and frame-buffer channels changed, added, deleted, renamed or reset, with renders in between) gives the picture of a scene built directly in its final state. Deleting an asset removes everything placed with it and nothing else, resetting or setting a value to nothing undoes what was set before, and a refused edit changes nothing.",
 ["histories"], "all sequences of edits to the bounded depth over the editing interface, compared with scenes built at once",
 NOT + "the tests look at objects one by one; stale or leftover state shows in a picture only after particular orders of edits.",
 [I+"scene/scene.ipp", I+"scene/scene_view.ipp", I+"scene/node.ipp", I+"scene/frame_node.ipp", I+"materials/material.ipp", I+"render/renderer.ipp"],
 [("assets", "Scene::delete_*, prune_graph_references_"), ("settings", "Material::set_*/reset_*, Node::set_*, Renderer::set_*")],
 ["images from Renderer::render"])

prop("C46", "The catalogue commands lose nothing and leave nothing half-done",
 "After a failed download, a failed write or an interruption at any point of `huira fetch-tycho2` or `huira process-tycho2`, every source file under its final name is whole (the one that was there or the new one) and the catalogue is whole or refused when read; the same command run again ends as an undisturbed run does. A command reports success only when everything asked for is done, removes source files only when asked and once the catalogue is whole, downloads what is there again only with --force, and otherwise ends with an error and the terminal in order.",
 ["crash points", "faults", "histories"], "all kill points, torn writes, full disks and network answers of every command on every starting directory, and the runs that follow",
 NOT + "the command-line program has no tests, and half-written files appear only when a run is cut short at the wrong moment.",
 ["apps/huira_cli/cli.cpp", "apps/huira_cli/main.cpp", "apps/huira_cli/progress_bar.hpp", "apps/huira_cli/commands/fetch_tycho2.cpp", "apps/huira_cli/commands/process_tycho2.cpp", I+"stars/io/load_tycho2.ipp", I+"stars/io/star_catalog.ipp"],
 [("commands", "fetch_tycho2, download_file, process_tycho2"), ("program", "main, Registry::dispatch")],
 ["files after a run", "exit status", "StarCatalog::read_star_data"])

prop("C47", "A Python program gets what it asked the library for",
 "Every name and function of the Python module can be used from Python; a quantity in any unit reaches the library as that quantity and one of another dimension is refused, in arithmetic, comparisons and calls alike. A numpy array of any element type, shape, order or stride is taken by its elements or refused, an array given out holds the values of the object (and shares them where it is a view), and an index outside is an IndexError. Every keyword, field, default, constant and switch of the module reaches the one of the library that it names.",
 ["all inputs", "layouts"], "all pairs of units, all array layouts, element types and shapes, all indices, keywords, fields and switches of the module",
 NOT + "the bindings have no tests at all, and a wrong stride, unit or field shows only for the layouts, pairs and fields a script happens to use.",
 ["bindings/python/src/huira_module.cpp", "bindings/python/huira/units.py", "bindings/python/include/huira/units/units_py.ipp", "bindings/python/include/huira/core/types_py.ipp", "bindings/python/include/huira/core/rotation_py.ipp", "bindings/python/include/huira/core/time_py.ipp", "bindings/python/include/huira/core/spectral_bins_py.ipp", "bindings/python/include/huira/images/image_py.ipp", "bindings/python/include/huira/images/fits_metadata_py.ipp", "bindings/python/include/huira/cameras/distortion_coeffs_py.ipp", "bindings/python/include/huira/handles/camera_handle_py.ipp", "bindings/python/include/huira/handles/scene/node_handle_py.ipp", "bindings/python/include/huira/render/frame_buffer_py.ipp"],
 [("bindings", "bind_quantity_type, bind_types, bind_rotation, bind_image, bind_spectral_bins, bind_frame_buffer"), ("module", "_huira")],
 ["results of Python calls", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
