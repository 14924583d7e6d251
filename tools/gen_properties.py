#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

API = "jxl/src/api/"
INNER = API + "inner/"
CP = INNER + "codestream_parser/"

prop("C01", "The decoded result does not depend on how the input is delivered",
 "For every file and every way of delivering its bytes (any split into successive calls, any short read, any skip granularity, any non-zero estimate of how much is available), the decoder reports the same image information, the same frames with bit-identical pixels, the same scanned-frame list, the same total file length and the same success or failure as when the whole file is given at once. A file that is delivered in pieces is never reported complete before the bytes it needs were delivered, and a request for more input always asks for at least one byte.",
 ["inputs", "histories", "fault_sequences"],
 "all files x all partitions of the file into delivered prefixes x all short-read/short-skip answers of the input object",
 "The repository's tests deliver each sample in one piece, byte by byte, and in fixed 123-byte chunks; the partitions of one file are exponentially many and the state kept between calls (bit offsets, read-ahead, partially filled sections) differs for each.",
 [INNER + "process.rs", INNER + "box_parser.rs", CP + "mod.rs", CP + "frame_info.rs", CP + "image_info.rs", API + "input.rs"],
 [("read-ahead buffer with bit offset", INNER + "process.rs SmallBuffer"), ("re-parse on more data", CP + "mod.rs refill_and_parse"), ("section filling/dequeueing", CP + "frame_info.rs fill_sections, dequeue_ready_sections, skip_sections"), ("incremental TOC reader", "jxl/src/headers/toc.rs")],
 ["JxlDecoder::process / skip_frame results and output buffers"])

prop("C02", "The container is transparent: boxes never change what is decoded",
 "Wrapping a codestream in any legal container (one box or many parts, empty parts, parts in any order where the format version allows it, 32-bit, 64-bit or to-end-of-file sizes, unrelated boxes anywhere) yields the same image information, frames, pixels and frame durations as the bare codestream, and the reported file length covers the bytes up to the end of the codestream's last needed box. A container that breaks the rules (missing or repeated file-type box, wrong brand or version, repeated, missing or mixed codestream boxes, a size smaller than its header, a part after the last one) before the codestream is complete is never decoded as if it were whole: it is rejected or left waiting for input, and boxes after that point never contribute to the picture. Files whose frames begin in parts that arrived out of order may be refused, but are never decoded differently.",
 ["inputs", "histories"],
 "all sequences of boxes up to a depth over an alphabet of box kinds, sizes, part numbers and payload cuts x delivery granularities",
 "Only a handful of hand-made containers exist in the test data; the parser's behaviour depends on the sequence of boxes and on where payload and delivery boundaries fall.",
 [INNER + "box_parser.rs", INNER + "process.rs"],
 [("box state machine", INNER + "box_parser.rs advance_to_codestream/parse_box"), ("buffering of out-of-order parts", INNER + "box_parser.rs injected_jxlp/check_ooo_jxlp_done"), ("file length", INNER + "box_parser.rs total_bytes_consumed")],
 ["JxlDecoder results for the container and for the bare codestream", "file_length()"])

prop("C03", "Seeking to any frame gives exactly the frame sequential decoding gives",
 "For every animation and every order of seeks, restarting at a listed frame's seek information (feeding the file from its offset) produces the frame with bit-identical pixels, name and duration to sequential decoding, and continuing from there produces the same following frames up to the first one that depends on a frame before the restart. The listed offset, the number of frames to skip and the keyframe flag are consistent with that for every visible frame, whatever reference and hidden frames precede it and however the codestream is boxed.",
 ["inputs", "histories"],
 "all short animations over an alphabet of frame kinds (visible, hidden, reference-saving, blended on a slot, cropped) x all seek sequences up to a depth x container layouts",
 "Tests seek in two fixed files; which frames a frame depends on is a property of the whole history of reference-slot writes and reads.",
 [CP + "frame_scan_info.rs", CP + "mod.rs", INNER + "box_parser.rs", "jxl/src/frame/decode.rs"],
 [("dependency tracking per slot", CP + "frame_scan_info.rs record"), ("parser checkpoint", INNER + "box_parser.rs state_checkpoint/reset_to_checkpoint"), ("restart", CP + "mod.rs start_new_frame")],
 ["scanned_frames(), start_new_frame(), decoded buffers"])

prop("C04", "Skipping or scanning frames never changes the others",
 "For every multi-frame file and every subset of frames that the caller skips, the frames that are decoded have bit-identical pixels, names and durations to those of a full decode. Scanning without decoding, skipping and decoding all report the same list of frames (offsets, durations, names, last and keyframe flags) and the same file length.",
 ["inputs", "histories"],
 "all skip/decode choice sequences over all frames of each animation of the alphabet, combined with delivery granularities",
 "Tests either decode everything or skip everything; a frame skipped between two decoded ones must still update the reference slots.",
 [CP + "mod.rs", CP + "frame_info.rs", CP + "frame_scan_info.rs"],
 [("per-frame processing mode", CP + "mod.rs ProcessMode"), ("section skipping", CP + "frame_info.rs skip_sections/make_frame")],
 ["skip_frame(), scanned_frames(), decoded buffers"])

prop("C05", "Parallel decoding gives the sequential result under every schedule",
 "Whatever the number of workers and however their steps interleave, and in whatever order the parallel runner executes the work items it is given, decoding terminates and produces bit-identical pixels to single-threaded decoding, without panicking. This includes decoding that is fed incrementally and flushed in between.",
 ["schedules", "inputs"],
 "all thread interleavings up to a preemption bound (at every lock and atomic operation) and all execution orders of the work items, over images with several groups, passes, transforms and filters",
 "Tests run the thread pool a few times or sample random schedules; rare interleavings of the dependency counters and neighbour-readiness flags are not reached.",
 ["jxl/src/frame/render.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/frame/modular/buffers.rs", "jxl/src/render/low_memory_pipeline/group_scheduler.rs", "jxl/src/render/low_memory_pipeline/input_buffers.rs", "jxl/src/util/per_thread_storage.rs", "jxl/src/frame/decode.rs"],
 [("work distribution", "jxl/src/frame/render.rs decode_and_render_hf_groups"), ("transform dependency counters", "jxl/src/frame/modular/mod.rs"), ("neighbour readiness", "jxl/src/render/low_memory_pipeline/group_scheduler.rs")],
 ["JxlParallelRunner::run and output buffers"])

prop("C06", "A failing work item makes the parallel decode fail cleanly",
 "When the data of any group is damaged, or the runner itself reports a failure at any point, decoding with any runner and any order of work items ends with an error (exactly when single-threaded decoding of the same bytes does), without hanging and without panicking. The error is never swallowed: the frame is not reported complete.",
 ["schedules", "inputs", "fault_sequences"],
 "all work-item execution orders and injected runner failures at every call and every item x damaged groups",
 "Tests only run parallel decoding on intact files.",
 ["jxl/src/frame/render.rs", CP + "frame_info.rs", "jxl/src/frame/modular/mod.rs"],
 [("error propagation from work items", "jxl/src/frame/render.rs"), ("section error mapping", CP + "mod.rs process")],
 ["Result of process()"])

prop("C07", "Flushing partial pixels never disturbs the decode",
 "For every file, every delivery and every set of moments at which the caller asks for a partial rendering, the finally decoded pixels, frame information and errors are bit-identical to decoding without any flush. A flush that reports that nothing new was drawn leaves the caller's buffers untouched, and once a frame is complete its buffers no longer depend on anything drawn before.",
 ["inputs", "histories"],
 "all subsets of flush points over all delivery boundaries (exhaustive up to a number of flushes) for files of every coding mode",
 "Tests flush after every 123-byte chunk of each sample and compare an error metric; other flush positions leave different partially decoded state behind.",
 [CP + "frame_info.rs", INNER + "process.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/render.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/frame/lf_preview.rs"],
 [("partial decoding of the global section", CP + "frame_info.rs do_flush"), ("dirty tracking", CP + "frame_info.rs get_and_clear_pixels_dirty"), ("re-rendering", "jxl/src/frame/render.rs")],
 ["flush_pixels() return value and buffers"])

prop("C08", "Every prefix of a valid file waits for more and can be resumed",
 "For every valid file and every proper prefix of what it needs, decoding the prefix ends in a request for more input (never an error, a panic, or a claim of completion), with everything already reported (image information, completed frames) equal to the full decode's. Supplying the rest from that state completes the decode with the full result, and, for files whose parts are stored in order, the number of bytes asked for never exceeds what the rest of the file provides.",
 ["inputs", "crash_points"],
 "all truncation points of all small files of every coding mode, each followed by resumption",
 "Tests truncate nothing systematically; each truncation point leaves the decoder in a different mid-structure state.",
 [CP + "mod.rs", CP + "frame_info.rs", INNER + "process.rs", "jxl/src/bit_reader.rs"],
 [("out-of-bounds as a request for input", API + "mod.rs ProcessingResult::new"), ("section completeness", CP + "frame_info.rs")],
 ["NeedsMoreInput vs. error; resumed result"])

prop("C09", "Damaged input is contained: a clean error or a decode, never a crash",
 "For every byte string, decoding (in one piece or incrementally, with flushes, scanning or skipping) returns in bounded time with an error, a request for more input or a result; it never panics, aborts, hangs or writes outside the caller's buffers. Decoding the same damaged bytes twice, or in pieces, gives the same verdict (accepted or not), and a decoder that returned an error does not crash when it is dropped.",
 ["inputs", "fault_sequences"],
 "all single-byte and single-bit changes, truncations and byte deletions of small files of every coding mode, and pairs of changes in header regions",
 "Fuzz findings are kept as single regression files; the neighbourhood of valid files is not covered exhaustively.",
 ["jxl/src/"],
 [("validated header fields", "jxl/src/headers/"), ("checked sizes and fallible allocation", "jxl/src/image/, jxl/src/util/")],
 ["Result of process(), absence of panics"])

prop("C10", "All output formats describe the same picture and stay inside their rows",
 "For every image, the 8-bit, 16-bit, half-float and float outputs in every channel order, byte order, row stride and choice of included or ignored extra channels are the same picture: each sample equals the float sample converted to the requested type (clamped to its range and rounded to nearest, at the requested bit depth; 8-bit samples may be dithered by less than half a step), opaque where no alpha exists. A picture whose embedded profile cannot be produced is sRGB in every integer format and linear sRGB in every float one. Exactly the requested bytes of each row are written: nothing outside the rows' declared width, and every declared byte.",
 ["inputs", "configurations"],
 "all pixel formats x byte orders x strides x extra-channel selections over images of widths around the vector and group sizes, and all representable sample values",
 "Tests convert a few samples with tolerances; sizes, strides and channel combinations are not enumerated.",
 ["jxl/src/render/save.rs", "jxl/src/render/stages/convert.rs", "jxl/src/render/low_memory_pipeline/save", "jxl/src/render/buffer_splitter.rs", "jxl/src/image/output_buffer.rs", "jxl/src/frame/render.rs"],
 [("conversion stages", "jxl/src/render/stages/convert.rs"), ("interleaving and stores", "jxl/src/render/low_memory_pipeline/save"), ("row/rect splitting", "jxl/src/render/buffer_splitter.rs")],
 ["caller's output buffers including guard bytes"])

prop("C11", "Orientation is exactly the stated rotation or mirror",
 "For every image and each of the eight orientations, decoding with orientation applied yields exactly the corresponding geometric rearrangement of the pixels obtained without applying it, for colour and extra channels, in every output format and size, and the reported size is the rearranged size. This also holds for cropped and blended frames, partial renderings and parallel decoding.",
 ["inputs", "configurations"],
 "8 orientations x image sizes around the chunk and group sizes x formats x frame kinds",
 "Tests decode one picture per orientation and never compare the pixels between orientations.",
 ["jxl/src/render/low_memory_pipeline/save", "jxl/src/render/buffer_splitter.rs", "jxl/src/headers/image_metadata.rs", "jxl/src/frame/render.rs"],
 [("oriented stores", "jxl/src/render/low_memory_pipeline/save"), ("coordinate mapping", "jxl/src/headers/image_metadata.rs Orientation, jxl/src/image/rect.rs")],
 ["output buffers with adjust_orientation on and off"])

prop("C12", "Vector arithmetic equals its scalar meaning on every instruction set",
 "Every vector operation gives, lane by lane, the result of its scalar definition on every instruction-set level the machine offers (exactly for integer, comparison, rounding, load, store, transposition and table operations; up to the documented rounding for fused multiply-add), for all lane values of the alphabet, including the half-float conversions for all 65,536 encodings. Loads and stores touch exactly the elements they are defined to touch.",
 ["inputs", "configurations"],
 "all operations x all pairs/triples of boundary values in every lane position x all instruction-set levels; all 16-bit encodings",
 "The tests compare a few hundred random vectors per operation on whichever level is selected.",
 ["jxl_simd/src/"],
 [("per-level implementations", "jxl_simd/src/x86_64/*.rs, jxl_simd/src/scalar.rs"), ("half-float conversion", "jxl_simd/src/float16.rs, jxl/src/util/float16.rs")],
 ["results of the public vector operations"])

prop("C13", "Entropy-coded data decodes to exactly the symbols that were coded",
 "For every legal code description (prefix codes or asymmetric-numeral-system histograms of each encoding, any hybrid-integer configuration, any context map encoding, with or without back-references) decoding a stream yields exactly the integers a conforming encoder put there, consumes exactly its bits, and verifies the final state. Illegal code descriptions (over- or under-full prefix codes, invalid integer configurations, context-map holes, back-references where forbidden) and streams with a wrong final state are rejected.",
 ["inputs"],
 "all prefix-code shapes, histograms, integer configurations and context maps up to a size, with all symbol sequences up to a length",
 "Tests decode a few fixed streams; code shapes and their combination with back-references and fast paths are not enumerated.",
 ["jxl/src/entropy_coding/ans.rs", "jxl/src/entropy_coding/huffman.rs", "jxl/src/entropy_coding/decode.rs", "jxl/src/entropy_coding/hybrid_uint.rs", "jxl/src/entropy_coding/context_map.rs"],
 [("prefix tables", "jxl/src/entropy_coding/huffman.rs"), ("alias tables", "jxl/src/entropy_coding/ans.rs"), ("back-reference window", "jxl/src/entropy_coding/decode.rs")],
 ["decoded symbols, bit position, error"])

prop("C14", "Bit-level reading returns the file's bits in order, for any read pattern",
 "For every byte string and every sequence of reads, peeks, consumes, skips and byte alignments, the values returned are the corresponding bits of the string in order, the reported position is the sum of what was consumed, and asking beyond the end fails with the number of missing bytes without corrupting later reads. The variable-length field encodings built on it return the value the format defines for every selector and payload.",
 ["inputs", "histories"],
 "all operation sequences up to a depth over an alphabet of widths on strings of all lengths around the refill width",
 "Unit tests check a few sequences; refill behaviour depends on offset, length and history.",
 ["jxl/src/bit_reader.rs", "jxl/src/headers/encodings.rs"],
 [("refill", "jxl/src/bit_reader.rs"), ("field coders", "jxl/src/headers/encodings.rs")],
 ["returned values and positions"])

prop("C15", "Headers decode to the values the format assigns, for every field combination",
 "For every combination of image-header, frame-header and table-of-contents fields, the decoder reports the values the encoder wrote (size, bit depth, channels, orientation, animation timing, tone mapping, preview size, names, durations, last/visible flags, section order) and computes the same group and section layout as the format defines. Values outside the format's limits are rejected, and non-zero padding or a section order that is not a permutation is rejected.",
 ["inputs", "configurations"],
 "all field encodings (every selector, boundary payloads) one and two at a time over the whole header grammar; all permutations of small section tables",
 "Samples exercise the combinations one encoder emits; most selectors and conditional fields never occur in them.",
 ["jxl/src/headers/", "jxl_macros/src/lib.rs"],
 [("derived field readers", "jxl_macros/src/lib.rs"), ("section table and permutation", "jxl/src/headers/toc.rs, jxl/src/headers/permutation.rs")],
 ["basic_info(), frame_header(), scanned_frames(), decoded pixels under permuted sections"])

prop("C16", "Lossless images decode to exactly the encoded integers",
 "For every image, every legal prediction tree (all predictors, all decision properties, any shape), weighted-predictor setting, chain of colour, palette and squeeze transforms, group size and division into groups and passes, the decoder reconstructs exactly the sample values that were encoded. The result does not depend on which specialised decoding path the tree selects.",
 ["inputs", "programs"],
 "all trees up to a size over all predictors and properties x transform chains x image sizes around tile boundaries x small sample alphabets, checked against a plain reference decoder",
 "Tests decode encoder-made samples without known pixel values; trees, predictors and transforms interact and fast paths are chosen by the shape of the tree.",
 ["jxl/src/frame/modular/"],
 [("tree specialisation", "jxl/src/frame/modular/decode/"), ("predictors", "jxl/src/frame/modular/predict.rs"), ("transforms", "jxl/src/frame/modular/transforms/")],
 ["decoded integer samples"])

prop("C17", "Frames are composed exactly as their headers say",
 "For every sequence of frames with any sizes, offsets (also outside the canvas), blend modes, alpha and clamp settings, source and destination slots, each shown picture is the defined composition of the stored pictures and the new frame, for colour and every extra channel; channels and areas not covered by the frame keep the source picture. Zero-duration and hidden frames are composed but not shown, and a referenced slot that was never written counts as transparent black.",
 ["inputs", "histories"],
 "all frame sequences up to a depth over an alphabet of crops, blend modes, slots and extra channels, checked against a plain compositor",
 "Samples contain a few encoder-made compositions without known results; slot contents depend on the whole history.",
 ["jxl/src/features/blending.rs", "jxl/src/render/stages/blending.rs", "jxl/src/render/stages/extend.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/render.rs", "jxl/src/headers/frame_header.rs"],
 [("blending", "jxl/src/features/blending.rs"), ("canvas extension", "jxl/src/render/stages/extend.rs"), ("slot storage", "jxl/src/frame/decode.rs DecoderState")],
 ["decoded frames"])

prop("C18", "An embedded colour profile is returned byte for byte",
 "For every colour profile, the profile reported for an image is exactly the byte string that was embedded, whatever header, tag-table and data-prediction commands the compressed form uses. Malformed compressed profiles (overruns, wrong sizes, unknown commands, trailing data) are rejected with an error.",
 ["inputs"],
 "all command sequences of the compressed-profile language up to a length over boundary arguments, checked against a plain reference interpreter",
 "Tests decode a few profiles; most commands, orders, widths and strides of the prediction language never occur.",
 ["jxl/src/icc/"],
 [("command interpreter", "jxl/src/icc/stream.rs, jxl/src/icc/tag.rs, jxl/src/icc/header.rs"), ("context model", "jxl/src/icc/mod.rs")],
 ["embedded_color_profile()"])

prop("C19", "Colour descriptions turn into correct profiles and transfer curves",
 "For every colour description the format can state (white point, primaries, transfer function, intent), the reported profile is a well-formed profile (sizes, offsets, tags in range) whose white point, primaries and curves agree with the description, and equal descriptions give equal profiles. The transfer curves used for output agree with their defining formulas within the documented error and are monotone over the whole input range.",
 ["inputs", "configurations"],
 "all enumerated colour descriptions and boundary custom values; transfer functions over a dense grid of inputs",
 "Tests compare two or three profiles with stored bytes and sample the curves.",
 ["jxl/src/api/color.rs", "jxl/src/color/tf.rs", "jxl/src/headers/color_encoding.rs"],
 [("profile writer", "jxl/src/api/color.rs"), ("curves", "jxl/src/color/tf.rs")],
 ["as_icc() bytes, decoded pixels"])

prop("C20", "Block transforms are the exact linear maps of the format",
 "For every block shape and size, the inverse block transform applied to any coefficients equals the mathematical inverse transform the format defines, on every instruction-set level, and the low-frequency reconstruction agrees with it. The result for a block does not depend on neighbouring memory.",
 ["inputs", "configurations"],
 "all basis vectors of every transform (which determine a linear map completely) x all instruction-set levels",
 "Tests try random blocks for some sizes with one instruction set.",
 ["jxl_transforms/src/"],
 [("fast transforms", "jxl_transforms/src/idct*.rs, reinterpreting_dct*.rs"), ("dispatch by block kind", "jxl_transforms/src/transform.rs")],
 ["transform output"])

prop("C21", "Group division and rendering order leave no trace in the picture",
 "Every rendering feature (edge-preserving and smoothing filters, upsampling, patches, splines, noise, chroma upsampling, spot colours) yields at every pixel the value its definition gives on the whole picture, regardless of how the picture is divided into groups, in which order and in how many calls the groups arrive. In particular the pixels near group borders are computed from the true neighbouring pixels and picture edges are mirrored.",
 ["inputs", "schedules", "configurations"],
 "features x picture sizes around group borders x group sizes x arrival orders of sections, checked against a plain whole-picture renderer and between divisions",
 "Tests compare two pipelines on encoder-made samples with one group size and arrival order.",
 ["jxl/src/render/", "jxl/src/features/", "jxl/src/frame/render.rs"],
 [("border handling", "jxl/src/render/low_memory_pipeline/"), ("stages", "jxl/src/render/stages/")],
 ["decoded pixels"])

prop("C22", "Resource limits are enforced and memory stays proportionate to the input",
 "An image or frame whose number of samples reaches the caller's limit (width, counted as at least 16, times height times three plus the number of extra channels) is rejected before its pixels are allocated, and one below the limit is accepted, whatever header field makes it large (image, preview, frame crop, extra channels, upsampling). While only a prefix of a file has been delivered, memory use is bounded by a constant, the accepted image size and the delivered bytes, never by unverified sizes and counts claimed in the file, and no claim makes the decoder abort.",
 ["inputs", "configurations"],
 "all header encodings of large sizes x limits around them x delivered prefixes, with allocation measured on every execution",
 "Tests have one or two oversized files.",
 [CP + "mod.rs", CP + "image_info.rs", CP + "frame_info.rs", INNER + "box_parser.rs", "jxl/src/headers/toc.rs"],
 [("sample limit", CP + "mod.rs check_size_limit"), ("incremental section allocation", CP + "frame_info.rs fill_sections"), ("incremental table reader", "jxl/src/headers/toc.rs")],
 ["error, peak allocated bytes"])

prop("C23", "The command-line tool writes the decoded picture faithfully",
 "For every decoded image and each supported output file type, the file written by the command-line decoder parses as that type and contains exactly the decoded samples (size, channel count, depth, byte order, frame count and durations), with alpha and colour information carried where the type supports it. An input that cannot be decoded or a format that cannot represent it leads to a failing exit status, not to a wrong file.",
 ["inputs", "configurations"],
 "output types x image kinds (gray/colour, alpha, depths, animations, odd sizes), read back by independent plain readers",
 "Tests of the tool only check that writing does not fail.",
 ["jxl_cli/src/"],
 [("writers", "jxl_cli/src/enc/"), ("format selection", "jxl_cli/src/main.rs, jxl_cli/src/dec/mod.rs")],
 ["bytes of the output files, exit status"])

prop("C24", "Decoders are independent and deterministic",
 "Decoding the same bytes with the same options always gives the same result, whatever other decoders ran before or are running interleaved with it in the same thread or process, including decoders that failed or were dropped half-way. Asking a decoder for information never changes what it decodes.",
 ["histories", "schedules"],
 "all interleavings of the steps of two decoders over pairs of files of different kinds, and all sequences of files up to a depth",
 "Each test decodes in isolation.",
 ["jxl/src/api/", "jxl/src/util/", "jxl/src/frame/", "jxl/src/render/"],
 [("no shared mutable state between decoders", "jxl/src/")],
 ["outcomes of interleaved decodes"])

prop("C25", "File signature detection is exact and incremental",
 "For every byte prefix, signature detection answers container or codestream exactly for the two defined signatures, says no as soon as no extension of the prefix could match, and otherwise asks for precisely the number of bytes still missing. The decoder itself accepts the file's start exactly when detection does (it may wait for a second byte before refusing).",
 ["inputs"],
 "all prefixes of the signatures with every single-byte change at every position, and all short strings over the signature alphabet",
 "Eight fixed prefixes are tested.",
 [API + "signature.rs", INNER + "box_parser.rs"],
 [("prefix comparison", API + "signature.rs check_signature_internal")],
 ["check_signature() and process()"])

prop("C26", "Decoding options change only what they name",
 "For every file, skipping or showing the preview, premultiplied output, spot-colour rendering, high precision, intensity target and coalescing affect only the aspect they name: hiding the preview leaves the main frames bit-identical, premultiplied colour equals straight colour times alpha with alpha and extra channels unchanged, disabling spot colours changes only pixels with spot ink. An option that does not apply to a file changes nothing.",
 ["configurations", "inputs"],
 "all option combinations (pairwise complete) over files of every kind",
 "Tests check two options on one or two files.",
 [API + "options.rs", "jxl/src/frame/render.rs", "jxl/src/render/stages/premultiply_alpha.rs", "jxl/src/render/stages/spot.rs", CP + "mod.rs"],
 [("option plumbing", CP + "frame_info.rs, jxl/src/frame/render.rs")],
 ["decoded buffers under different options"])

prop("C27", "Lossy (VarDCT) frames decode to the picture their coefficients define",
 "For every VarDCT frame, every pixel of the result is the one its coded data define, within float rounding: low-frequency and high-frequency coefficients scaled by the quantiser fields, the (default or coded) quantisation table of the block's transform and the reconstruction biases, summed over all passes with each pass's shift, placed by the (natural or coded) coefficient order, combined between channels by the per-tile colour correlation, with smoothing or an LF frame where signalled, chroma subsampling, and the block transforms and filters of the frame; whatever block context map, histograms, groups, passes and LF groups are used. Frames with values the format forbids (unknown or misplaced or overlapping transforms, too few blocks, wrong coefficient counts, bad tables, contexts or histogram numbers) are refused.",
 ["inputs", "histories"],
 "all transforms at sizes around their own; every coding choice of a frame (transform mix, context map, tables, orders, passes, histograms, subsampling, filters, quantiser, correlation, extra channels, upsampling, entropy code) alone and mixed; arrival orders of sections; a list of forbidden values at every place",
 "No test compares lossy pixels with anything but another run of the same decoder; most coding choices occur in no sample.",
 ["jxl/src/frame/group.rs", "jxl/src/frame/quant_weights.rs", "jxl/src/frame/block_context_map.rs", "jxl/src/frame/coeff_order.rs", "jxl/src/frame/color_correlation_map.rs", "jxl/src/frame/quantizer.rs", "jxl/src/frame/adaptive_lf_smoothing.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/features/epf.rs", "jxl/src/frame/decode.rs"],
 [("coefficients", "jxl/src/frame/group.rs decode_vardct_group"), ("tables", "jxl/src/frame/quant_weights.rs"), ("LF and block map", "jxl/src/frame/modular/mod.rs decode_vardct_lf, decode_hf_metadata"), ("contexts", "jxl/src/frame/block_context_map.rs")],
 ["decoded buffers"])

prop("C28", "A flush shows the picture that the data received so far define",
 "When the common and low-frequency data of a VarDCT frame are there, flushing at any later point shows, for every group, what the passes received for that group define (with the rest of the frame's pipeline applied): the low-frequency picture enlarged 8 times where nothing of the group has arrived, the sum of the passes so far otherwise; in every order in which the sections arrive and whatever flushes were made before. The final picture is the whole one.",
 ["inputs", "histories"],
 "frames of 1 to 4 passes, 1 to 6 groups and 1 or 2 LF groups, all transforms and subsamplings mixed x orders of arrival x a flush after every section or after every second one",
 "Tests flush but never look at what is shown before the end.",
 ["jxl/src/frame/render.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/group.rs", "jxl/src/render/low_memory_pipeline/mod.rs"],
 [("progressive re-rendering", "jxl/src/frame/render.rs decode_and_render_hf_groups"), ("LF preview", "jxl/src/frame/decode.rs upsample_lf_group"), ("kept coefficients", "jxl/src/frame/group.rs hf_coefficients")],
 ["flush_pixels() buffers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
ids=[p["id"] for p in P]; assert len(set(ids))==len(ids)
for p in P:
    assert len(p["title"])<=80, p["title"]
print(len(P))
