#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Writing a cloud and reading it back is the identity, bit for bit",
 "Any valid point cloud written to a stream or file and read back has exactly the same SRS text, compression flag, record order and field values, bit for bit, for every coordinate bit pattern, every number of extra fields from 0 to 255 and every record count. Reading a cloud consumes exactly the bytes that were written for it, so that clouds written one after another on one stream are read back one after another.",
 ["inputs", "histories"], "every cloud (any coordinate bits, 0-255 extra fields, 0-65535 byte SRS, any record count) in both forms, and every sequence of clouds on one stream",
 "The unit tests round-trip a handful of random clouds with few extra fields and ordinary coordinate values; none compares bit patterns, sweeps the number of extra fields or record counts around the internal buffer sizes, or checks how many bytes were consumed.",
 ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/file.h", "spoc/compression.h"],
 [("read_spoc_file / write_spoc_file and the chunked record reader", "spoc/io.h"), ("read_header / write_header", "spoc/header.h"), ("read_point_record / write_point_record", "spoc/point_record.h")])

prop("P02", "Compression is lossless and decompression is its exact inverse",
 "Decompressing the compressed form of any uncompressed file yields that file byte for byte, and recompressing a decompressed file yields the same cloud. The library's byte compressor is inverted exactly by its decompressor for every input, at every compression level, for buffers and for streams.",
 ["inputs", "configurations"], "every uncompressed file (all-zero columns, signed zeros, NaN payloads, incompressible and multi-megabyte columns included), every byte string and every compression level",
 "Tests compress a few small random vectors and files and compare values with ==, which cannot see signed zeros, NaNs, or columns larger than the internal buffers.",
 ["spoc/compression.h", "spoc/io.h", "apps/compress/compress.cpp", "apps/decompress/decompress.cpp"],
 [("compress / decompress loops over the zlib stream", "spoc/compression.h"), ("per-column all-zero shortcut", "spoc/io.h all_zero, compress_field, read_compressed")])

prop("P03", "Files have the documented on-disk layout",
 "An uncompressed file consists of exactly the documented header fields followed by exactly the documented record fields, little-endian, in record order, with no padding and nothing else; any file laid out that way is accepted and read as the cloud it describes. A compressed file has the same header with a non-zero compression flag followed by one length-prefixed compressed column per field, a zero length standing for a column of zeros, in the documented field order.",
 ["inputs"], "every cloud written by the library and every byte string that follows the documented layout",
 "Tests only feed the reader what the writer of the same build produced, so any matched change of both sides (field order, width, padding, flag values) goes unnoticed.",
 ["spoc/header.h", "spoc/point_record.h", "spoc/io.h", "README.md"],
 [("header field sequence", "spoc/header.h write_header/read_header"), ("record field sequence", "spoc/point_record.h write_point_record/read_point_record"), ("column sequence", "spoc/io.h write_spoc_file_compressed/read_compressed_points")])

prop("P04", "Invalid input is rejected and unrepresentable clouds are never written",
 "An input whose signature, major version or minor version is not the supported one, or whose compressed columns do not decode to exactly the number of values the header announces, is rejected with an error by every reader and every application. The reader dedicated to one form rejects files of the other form, and a cloud that the format cannot represent (more than 255 extra fields, SRS text longer than 65535 bytes) is refused with an error instead of being written in altered form.",
 ["inputs"], "every input byte string and every in-memory cloud",
 "Tests corrupt one or two header bytes; they do not enumerate corruptions, do not damage compressed columns and do not try unrepresentable clouds.",
 ["spoc/header.h", "spoc/io.h", "spoc/file.h", "spoc/compression.h", "apps"],
 [("signature/version checks", "spoc/header.h read_header"), ("column size check", "spoc/compression.h decompress"), ("form checks", "spoc/io.h read_spoc_file_*, apps/transform/transform.h")])

prop("P05", "Truncated input is never accepted as a complete cloud",
 "When the input ends before all the bytes its header announces have been read, at any byte position, every reader of point data reports an error and every application that needs those bytes exits with a failure status. No command reports success on the basis of records that were not in its input.",
 ["crash_points", "inputs"], "every prefix of every valid file, in both forms, for every reader and application",
 "No test reads a truncated file; the property quantifies over every cut position of every file.",
 ["spoc/header.h", "spoc/io.h", "spoc/point_record.h", "apps"],
 [("stream state checks after each read", "spoc/header.h read_header; spoc/io.h read_uncompressed_points, read_compressed; spoc/point_record.h read_point_record")])

prop("P06", "Failure to write the output is never reported as success",
 "If any part of the output of an application or library writer cannot be written, wherever in the output the failure occurs, the application exits with a failure status and the library call reports an error. Exit status zero implies that the complete output was delivered.",
 ["fault_sequences", "crash_points"], "every application, output destination and failure position",
 "Tests never make a write fail.",
 ["spoc/header.h", "spoc/point_record.h", "spoc/io.h", "apps"],
 [("output stream state check after writing", "spoc/io.h write_spoc_file*; spoc/point_record.h write_point_record; main() of each application")])

prop("P07", "The in-memory cloud stays consistent under every sequence of operations",
 "After any sequence of construction, append, replace, bulk set, move, copy, assign, swap and resize operations all records of a cloud have the same number of extra fields and the header derived from it states the actual number of records and extra fields, the SRS text, the version numbers and the flags. An operation that would break this is refused with an error and leaves the cloud exactly as it was, and copies are independent of their originals.",
 ["histories"], "every sequence of operations on any number of cloud objects",
 "Tests exercise each operation once or twice on a fresh object; they do not explore sequences, failed operations followed by others, or aliasing between copies.",
 ["spoc/file.h"],
 [("extra-field consistency checks", "spoc/file.h push_back, set_point_record, set_point_records, move_point_records, constructors"), ("derived header", "spoc/file.h get_header")],
 [("records", "the ordered records of the cloud", "spoc/file.h prs"), ("wkt, compressed, versions", "header attributes kept beside the records", "spoc/file.h")])

prop("P08", "Transform: same header, record count and order; commands compose in order",
 "The output of the transform application has the same header as its input and exactly one record per input record, in input order, with every field not named by a command unchanged. Several commands in one invocation act on each record in command-line order, giving the same output as a pipeline of single-command invocations.",
 ["inputs", "programs"], "every uncompressed file and every sequence of transform commands",
 "Tests check single commands on small clouds; command sequences and untouched fields are not compared, and pipelines not at all.",
 ["apps/transform/transform.h", "apps/transform/transform_cmd.h", "apps/transform/transform.cpp"],
 [("command list application per record", "apps/transform/transform.h apply"), ("command-line order preserved", "apps/transform/transform_cmd.h get_args")])

prop("P09", "Field-edit commands change exactly the named field as documented",
 "Setting a field stores the given value in that field of every record; replacing changes the field exactly in the records where it equals the old value; replace-not changes it exactly in the records where it equals none of the listed values; copying stores the source field's value in the destination field, reduced to the destination's width. No other field or record changes, and naming an invalid field, a coordinate where only integer fields are allowed, or an extra field the records do not have is an error.",
 ["inputs"], "every cloud, every field (including every extra field) and every value",
 "Tests try a few fields and values; replace-not was only tested for one field, and wrong-field or wrong-width effects on other fields are not compared.",
 ["apps/transform/transform.h", "spoc/app_utils.h"],
 [("get_set_op, get_replace_op, get_replace_not_op, get_copy_field_op", "apps/transform/transform.h"), ("field name parsing", "spoc/app_utils.h consume_field_name, get_extra_index")])

prop("P10", "Offset, scale, rotate and quantize follow their geometric definition",
 "Offset and scale act on the one named axis of every point; rotation turns every point by the given angle about the named axis leaving that coordinate unchanged and preserving distances; quantize moves every coordinate to the multiple of the precision next to it towards zero, for coordinates of any magnitude. The in-memory library versions of these operations give the same results as the application commands.",
 ["inputs"], "every cloud, axis, angle, factor, offset and precision",
 "Tests check a few points and angles of magnitude near one; large coordinates, negative values, combined axes and other fields are not covered.",
 ["apps/transform/transform.h", "spoc/affine.h", "spoc/utils.h"],
 [("get_add_*_op, get_scale_*_op, get_rotate_*_op, get_quantize_op", "apps/transform/transform.h"), ("add_*, scale_*, rotate_*", "spoc/affine.h"), ("quantize", "spoc/utils.h")])

prop("P11", "Noise commands are reproducible, confined and bounded",
 "Adding noise with a given random seed always gives the same output for the same input, and the noise changes with the seed. Only the coordinates named by the command change; uniform noise never moves a coordinate by more than the stated magnitude, and Gaussian noise has mean zero and the stated standard deviation, every point and axis getting its own draw.",
 ["inputs", "configurations"], "every cloud, seed, axis selection and magnitude",
 "Tests only check that noise changes something; bounds, axis confinement, reproducibility per seed and reachability through the command line are not tested.",
 ["apps/transform/transform.h", "apps/transform/transform_cmd.h"],
 [("get_gaussian_noise_op, get_uniform_noise_op", "apps/transform/transform.h"), ("option parsing", "apps/transform/transform_cmd.h")])

prop("P12", "Transform streams: each record is delivered before the next is needed",
 "The transform application emits the header and each transformed record as soon as the corresponding input has arrived, without waiting for later records or the end of input, so pipelines of transforms over bounded pipes never deadlock and work on endless streams. A pipeline delivers every record exactly once and in order, and ends when its input ends.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of producer, filters and consumer over pipes of any capacity, including producers that pause, die or never finish",
 "Tests run the transform on complete in-memory streams; no test observes when output appears.",
 ["apps/transform/transform.h", "spoc/point_record.h", "spoc/header.h"],
 [("record loop: read, apply, write, flush", "apps/transform/transform.h apply"), ("flush after header and record", "spoc/header.h write_header; spoc/point_record.h write_point_record")])

prop("P13", "Class and coordinate filters keep exactly the matching records",
 "Keeping classes retains exactly the records whose classification is one of those given, removing classes drops exactly those, and removing by coordinate drops exactly the records whose named coordinate is strictly greater (or less) than the threshold. Surviving records keep their order and all their fields, the SRS and compression flag are preserved, and filters given together apply one after another.",
 ["inputs", "configurations"], "every cloud, class set, threshold and combination of filters",
 "Tests use a couple of class values on tiny clouds; boundary values, large class numbers, repeated and combined options and preservation of other fields are not covered.",
 ["apps/filter/filter.h", "apps/filter/filter.cpp", "apps/filter/filter_cmd.h"],
 [("keep_classes, remove_classes, remove_coords", "apps/filter/filter.h"), ("option collection and filter order", "apps/filter/filter_cmd.h, apps/filter/filter.cpp")])

prop("P14", "Subsampling keeps exactly one existing record per occupied voxel",
 "Subsampling at a given resolution outputs, for every cube of that size (on the grid anchored at the cloud's minimum corner) that contains points, exactly one of the input records in it, unmodified, and nothing else. With random seed 0 that is the first record of each cube, in input order; with any other seed the choice is reproducible.",
 ["inputs", "configurations"], "every cloud, resolution and seed",
 "Tests count output points on random clouds; which record survives, that each voxel is represented exactly once, and order are not checked.",
 ["spoc/subsampling.h", "spoc/voxel.h", "apps/filter/filter.h"],
 [("get_subsample_indexes", "spoc/subsampling.h"), ("get_voxel_indexes", "spoc/voxel.h")])

prop("P15", "Duplicate removal keeps exactly one record per distinct location",
 "Unique-XYZ filtering outputs exactly one unmodified input record for every distinct (x, y, z) location and nothing else. With random seed 0 that is the first record at each location, in input order; with any other seed the choice is reproducible.",
 ["inputs", "configurations"], "every cloud and seed",
 "Tests use one small cloud with known duplicates; near-duplicates that differ in one axis only, hash collisions and permuted coordinates are not explored.",
 ["spoc/subsampling.h", "spoc/point.h", "apps/filter/filter.h"],
 [("get_unique_xyz_indexes", "spoc/subsampling.h"), ("point equality and hash", "spoc/point.h")])

prop("P16", "Merge concatenates all inputs with the documented point IDs",
 "Merging files outputs all records of all inputs, in command-line order and input order, with every field unchanged except the point ID, which is the zero-based position of the input on the command line or the requested ID. The SRS is that of the first input, the output is compressed exactly if all inputs are, inputs with different numbers of extra fields are refused, and warnings never change the output: they are given exactly when an input has another SRS than the first one or the bounding rectangle of the result is more than a hundred times as large as those of the inputs together, and never when merge is told to be quiet.",
 ["inputs", "configurations"], "every list of two or more files and every option combination",
 "Tests append two tiny clouds in memory; the application's ID numbering, SRS choice, compression rule and option handling are not tested.",
 ["apps/merge/merge.h", "apps/merge/merge.cpp", "apps/merge/merge_cmd.h"],
 [("append", "apps/merge/merge.h"), ("per-file loop, id and compression choice", "apps/merge/merge.cpp main")])

prop("P17", "Tiling partitions the cloud into correctly placed and named tiles",
 "The files written by tiling together contain every input record exactly once, unmodified and in input order within each tile, and no others, with the input's SRS and compression. Two records share a tile exactly if they fall in the same cell of the regular grid of the requested cell size (or number of cells along the longest side, or slices along one axis) anchored at the minimum corner, tiles are numbered by row and column of that grid, and file names are the prefix, the zero-padded number and the documented extension.",
 ["inputs", "configurations"], "every cloud and every combination of tiling options",
 "Tests check tile counts on a few random clouds; membership, numbering, names and options of the application are untested.",
 ["apps/tile/tile.h", "apps/tile/tile.cpp", "apps/tile/tile_cmd.h"],
 [("get_tile_size, get_tile_indexes, get_tile_map", "apps/tile/tile.h"), ("tile writing and naming", "apps/tile/tile.cpp main")])

prop("P18", "Tiling never overwrites an existing file unless forced",
 "Without the force option, tiling fails with an error when a file it is about to write already exists, and no file that existed before the run is ever modified. With the force option existing tile files are replaced by the new tiles and files that are not tiles of this run stay untouched.",
 ["histories", "inputs"], "every set of pre-existing files and every history of tiling runs in one directory",
 "No test runs the tile application, let alone in a directory with existing files.",
 ["apps/tile/tile.cpp"],
 [("existence check before opening", "apps/tile/tile.cpp main")])

prop("P19", "Field export and import as text are exact inverses",
 "Exporting a field prints its value for every record, one per line in record order, so that importing that text into the same field of the same cloud restores every value exactly, for every field and finite value. Importing stores the i-th value in the i-th record and changes nothing else, adds zero-valued extra fields when a missing extra field is named, and fails with an error when a value is missing or not a number, or the exported field does not exist.",
 ["inputs"], "every cloud, field and text file",
 "Tests import and export a few small integers in memory; full-precision coordinates, missing final newlines, malformed values and large integers are not covered.",
 ["apps/tool/tool.h", "apps/tool/tool.cpp"],
 [("get_field, set_field", "apps/tool/tool.h")])

prop("P20", "Recenter, subtract-min and resize-extra change exactly what they say",
 "Recentering moves every point by the same offset so that the mean of the named axes becomes zero; subtract-min moves every point so that the minimum of the named axes becomes zero; the XY variants leave Z alone. Resizing extra fields keeps the first fields, drops the surplus and appends zeros, and in all cases record order, other fields, SRS and compression are unchanged.",
 ["inputs", "configurations"], "every cloud and every new size from 0 to 255",
 "Tests check one property of one random cloud per command and never the fields that must stay unchanged.",
 ["apps/tool/tool.h", "apps/tool/tool.cpp", "apps/tool/tool_cmd.h"],
 [("recenter, subtract_min, resize_extra", "apps/tool/tool.h"), ("command dispatch", "apps/tool/tool.cpp main")])

prop("P21", "Upsampling copies each low-resolution class to exactly its voxel",
 "Upsampling classifications gives every high-resolution record the classification of the low-resolution record lying in the same cube (on the grid of the given resolution anchored at the high-resolution cloud's minimum corner), the last one if there are several, and leaves records in cubes without one unchanged. No other field, record or attribute changes, and when the low-resolution cloud was produced by subsampling at that resolution every record is assigned.",
 ["inputs", "histories"], "every pair of clouds and every resolution, in particular all subsample-classify-upsample histories",
 "Tests upsample one random cloud; the composition with subsampling and the per-voxel assignment are not checked record by record.",
 ["apps/tool/tool.h", "spoc/voxel.h", "spoc/subsampling.h"],
 [("upsample_classifications", "apps/tool/tool.h")])

prop("P22", "Diff reports equality exactly when the compared parts are equal",
 "Comparing two files succeeds exactly when the compared part (everything, header only, data only, or the selected fields) is equal in both files and fails otherwise; the reverse option inverts exactly that verdict. The verdict is symmetric, an extra field present in only one of the files counts as a difference, and contradictory selections are refused.",
 ["inputs", "configurations"], "every pair of files and every option combination",
 "Tests compare a few clouds that differ in one place; the combinations of field, position, option and size differences are not enumerated.",
 ["apps/diff/diff.h", "apps/diff/diff.cpp", "apps/diff/diff_cmd.h"],
 [("diff", "apps/diff/diff.h"), ("option handling and exit code", "apps/diff/diff.cpp main")])

prop("P23", "Info reports the true statistics of the file in text and JSON",
 "The reported header values, record count, per-field range, minimum, maximum and quartiles, per-class counts with their class names, and point densities are those of the file, for every field including extra fields and for the full range of each field's type. Text, compact and JSON output report the same numbers, and each switch only adds or removes its own section.",
 ["inputs", "configurations"], "every cloud and every combination of output switches",
 "Tests check that output is produced; the numbers are hardly compared and class numbers or values in the upper half of the integer range never occur.",
 ["apps/info/info.h", "apps/info/info.cpp", "apps/info/info_cmd.h", "spoc/json.h", "spoc/asprs.h"],
 [("process, get_summary_string, get_summary_object, get_class_count_map, get_metric_values", "apps/info/info.h"), ("JSON printing", "spoc/json.h")])

prop("P24", "Radius search finds exactly the neighbours within the radius",
 "For every query point, radius search calls the operation exactly once with a list of distinct neighbour indexes whose points are at most the radius away, and, unless the neighbour limit was reached, with all of them; with a limit it returns exactly as many as exist up to that limit. This holds for every choice of query and candidate index sets, every extent of the cloud and every radius, and the sample taken under a limit is reproducible.",
 ["inputs", "configurations", "schedules"], "every cloud, index sets, radius and limit, every outcome of the internal random choice and every thread schedule",
 "Tests compare against brute force for a couple of uniform random clouds; clustered clouds, far-apart voxels, points on voxel borders and limits around the exact count are not covered, nor can sampling show that no random choice loses a neighbour.",
 ["spoc/radius_search.h", "spoc/voxel.h", "spoc/point.h"],
 [("random_neighbor_selector", "spoc/radius_search.h"), ("get_neighbors", "spoc/radius_search.h")],
 [("voxel_counts, total_points_left", "how many candidates of each of the 27 cells have not been drawn yet", "spoc/radius_search.h random_neighbor_selector")])

prop("P25", "Results do not depend on the number of threads or on repetition",
 "Every application and library operation gives byte-identical output for the same input and options regardless of how many threads are used and however often it is repeated. Parallel steps never read or write data another thread is changing.",
 ["schedules", "configurations"], "every thread count and schedule of the parallel loops and sections",
 "Tests run each operation once with the default number of threads on small data.",
 ["spoc/io.h", "spoc/affine.h", "spoc/voxel.h", "spoc/radius_search.h"],
 [("omp parallel for / sections writing disjoint elements", "spoc/io.h read_compressed_points, write_spoc_file_compressed; spoc/voxel.h; spoc/affine.h; spoc/radius_search.h")])

prop("P26", "Applications behave the same on pipes and files, and report misuse",
 "An application produces the same result whether its input and output are named files or standard input and output, and whether or not verbose mode is on, since diagnostics never mix with the data on standard output. Help and version requests succeed without touching any file; unknown options, missing commands, unreadable inputs and surplus arguments end with a failure status and leave existing files unchanged.",
 ["configurations", "inputs"], "every application, every way of naming its input and output, and every malformed command line",
 "The test suite links the application headers but never runs the applications.",
 ["spoc/app_utils.h", "apps"],
 [("input_stream, output_stream", "spoc/app_utils.h"), ("get_args and main of each application", "apps/*/*_cmd.h, apps/*/*.cpp")])

prop("P27", "SRS text is stored, printed and preserved verbatim",
 "Querying prints exactly the stored SRS text of each named file in order; setting it stores exactly the given text, including the empty one, and changes nothing else in the file. Every other application carries the SRS text of its (first) input into its output unchanged.",
 ["inputs", "histories"], "every SRS text up to 65535 bytes and every history of application runs",
 "Only short ASCII texts are tested, and no test follows the SRS through the applications.",
 ["apps/srs/srs.cpp", "apps/srs/srs_cmd.h", "spoc/header.h", "apps"],
 [("get/set branches", "apps/srs/srs.cpp main"), ("clone_empty keeps the SRS", "spoc/file.h")])

prop("P28", "The Python interface sees and writes exactly the same clouds",
 "Clouds read, inspected, modified and written through the Python module have exactly the fields, records, header values and bytes that the C++ library and the applications see, for every field and value. Inconsistent record sets are refused with an exception that leaves the object unchanged, and unreadable or invalid files raise exceptions.",
 ["inputs", "histories"], "every file and every sequence of Python operations on clouds",
 "The Python tests mostly need sample data that is not available and check a few getters on small clouds.",
 ["spocpy/spocpy/spocpy.cpp", "spoc/file.h", "spoc/point_record.h"],
 [("pybind11 bindings", "spocpy/spocpy/spocpy.cpp")])

prop("P29", "Voxel and extent computations are exact partitions",
 "The extent of a cloud is the smallest box containing all its points (at finite coordinates) and the extent of two clouds is the union box; every point lies in exactly one voxel, the one given by rounding down its offset from the anchor corner in units of the resolution; grouping by voxel lists every point index exactly once, in increasing order, under its voxel. Encoding points and extents as bytes and decoding them is the identity.",
 ["inputs"], "every cloud, resolution and anchor",
 "Tests compare counts for random points inside a small box; voxel membership, index order and hash-colliding voxels are not checked.",
 ["spoc/voxel.h", "spoc/extent.h", "spoc/point.h"],
 [("get_extent, get_total_extent, encode/decode", "spoc/extent.h"), ("get_voxel_indexes, get_voxel_index_map", "spoc/voxel.h")])

prop("P30", "Record and header equality is field-wise, and equal values hash equally",
 "Two records (headers, points, extents) compare equal exactly if all their fields are equal, inequality is its negation, and values that compare equal have equal hashes so that hash-based sets hold each value exactly once. Point ordering is a strict total order on locations consistent with equality.",
 ["inputs"], "every pair and triple of records, headers, points, extents and voxel indexes",
 "Tests compare a few hand-written values; single-field differences in every field and the ordering laws are not enumerated.",
 ["spoc/point_record.h", "spoc/point.h", "spoc/header.h", "spoc/extent.h", "spoc/voxel.h"],
 [("operator==, operator!=, operator<, hashes", "spoc/point_record.h, spoc/point.h, spoc/header.h")])

prop("P31", "Cropping and box-relative coordinates are exact",
 "Cropping a point vector to a box keeps exactly the points inside the closed box, unchanged and in their order. Area and volume of a box, centre of a cloud, distance, sum and difference of points are the geometric ones, and comparison to a number of decimals rounds the difference to that many decimals. Coordinates rescaled to a box are its 2^62 parts rounded down: 0 and 2^62 at its corners, monotone, and restoring them gives the coordinates back up to rounding, also for flat boxes.",
 ["inputs"], "every cloud and box (non-NaN coordinates, points to be rescaled inside the box)",
 "Tests crop one random cloud and round-trip random points in one box; boundary points, flat boxes, infinite boxes and decimal ties are not reached.",
 ["spoc/utils.h", "spoc/extent.h", "spoc/point.h"],
 [("crop, get_center", "spoc/utils.h"), ("rescale, restore, get_area, get_volume", "spoc/extent.h"), ("distance, about_equal, operator+ -", "spoc/point.h")])

prop("P32", "Every spelling of a command line means what the documentation says",
 "Each application understands every spelling of its documented options - long names and their unambiguous abbreviations, letters, groups of letters, values attached or separate, names before, between and after options, and '--' ending them - as the same command, and does exactly that command. Options it does not have, missing or surplus values, contradictory commands and unreadable numbers are refused with a message on standard error and a failure status, leaving every file as it was. Help lists every option, version prints the version, and a command that succeeds writes nothing to standard error unless verbose is on (merge also warns unless told to be quiet).",
 ["inputs", "configurations"], "every command line over the option tables of all applications",
 "No test runs the mains of the applications or goes through their option tables; the tests of get_args use a few fixed argument vectors.",
 ["apps/compress/compress_cmd.h", "apps/decompress/decompress_cmd.h", "apps/diff/diff_cmd.h", "apps/filter/filter_cmd.h", "apps/info/info_cmd.h", "apps/merge/merge_cmd.h", "apps/srs/srs_cmd.h", "apps/tile/tile_cmd.h", "apps/tool/tool_cmd.h", "apps/transform/transform_cmd.h", "spoc/app_utils.h", "spoc/cmd.h"],
 [("get_args of each application", "apps/*/*_cmd.h"), ("parsing of option values", "spoc/app_utils.h consume_*, apps/transform/transform_cmd.h")])

prop("P33", "Printed JSON is the notation of exactly the value",
 "Printing a JSON value of the library, compactly or indented, gives the notation of exactly that value: every member of an object once under its key, every element of an array in its place, numbers of every integer and floating type (small integer types included) as numbers, texts in quotes, logical values as true and false, with nothing but white space between the tokens. Both forms denote the same value.",
 ["inputs"], "every value: any nesting of objects and arrays, any member type, any texts without quotes",
 "The unit test prints one hand-written object and compares nothing; empty, deeply nested and mixed values, small integer types and boundaries of the integer types are not covered.",
 ["spoc/json.h", "apps/info/info.h"],
 [("operator<< and pretty_print on objects, arrays and values", "spoc/json.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
