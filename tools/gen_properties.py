#!/usr/bin/env python3
# one-off writer of properties.jsonl (kept so that the file can be regenerated and reviewed)
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No input makes the decoder panic or index out of bounds",
 "For every byte stream and every sequence of calls to the public API, each call returns Ok or Err: it never panics, never overflows an arithmetic operation in a debug build, and never touches memory outside a buffer.",
 ["inputs","histories"],"all byte streams (well-formed or hostile) and all call sequences on one decoder",
 "The crash corpus replays a few dozen stored files; the set of hostile headers, tables and entropy streams is unbounded and most index arithmetic depends on several of them at once.",
 ["src/decoder.rs","src/decoder/lossless.rs","src/parser.rs","src/huffman.rs","src/idct.rs","src/upsampler.rs","src/worker/immediate.rs"],
 [("wrapping arithmetic on hostile coefficients","src/idct.rs, src/decoder.rs decode_block"),("header validation before any size is used","src/parser.rs")],
 ["Decoder::decode","Decoder::read_info","Decoder::scale","Decoder::info"])
p("C02","Entropy-coded bits are delivered in order, unstuffed, up to the marker",
 "The entropy decoder sees exactly the bits of the entropy-coded segment in stream order, most significant first, with each FF 00 read as one FF data byte, FF fill bytes skipped, and the first real marker ending the segment and being handed back to the caller; past the marker only zero bits are delivered. Nothing after the marker is consumed.",
 ["inputs"],"all byte streams and all sequences of bit requests of up to 16 bits",
 "The reference images contain few stuffed bytes at buffer-refill boundaries, and no test looks at what is delivered around a marker for each buffer fill level.",
 ["src/huffman.rs"],[("bit buffer refill, peek, consume","src/huffman.rs HuffmanDecoder::read_bits/peek_bits/consume_bits/get_bits/take_marker")],
 ["pixels of Decoder::decode"],"private bit reader",[("bits,num_bits,marker","unconsumed bits left-aligned, how many are valid, marker met","src/huffman.rs HuffmanDecoder")])
p("C03","Huffman tables decode exactly the canonical code of the DHT segment",
 "For every table a DHT segment can define, decoding a code word yields the symbol that the canonical code construction of ITU-T T.81 Annex C assigns to it and consumes exactly its length, whichever lookup path is used; a bit pattern that is no code word is an error; a length list that over-subscribes the code space is rejected and every other one is accepted.",
 ["inputs"],"all 16-entry length lists, symbol lists and following bits",
 "Tests use the handful of tables of the stored images; code lengths above the lookup width and the combined run/size/value shortcut are reached only for a few codes.",
 ["src/huffman.rs"],[("table derivation","src/huffman.rs derive_huffman_codes, HuffmanTable::new"),("decode","src/huffman.rs HuffmanDecoder::decode, decode_fast_ac, extend")],
 ["pixels of Decoder::decode"],"private table and decoder",[("lut,ac_lut,maxcode,delta","8-bit shortcut, run/value shortcut, canonical ranges","src/huffman.rs HuffmanTable")])
p("C04","Sequential and first-scan blocks decode to the coefficients T.81 defines",
 "For every entropy stream and table pair, decoding one block of a sequential scan, or of a first progressive scan of a band, yields the DC prediction plus difference and the run/size AC coefficients at their zig-zag positions, scaled by the point transform, consumes exactly the bits of that block, and handles end-of-band runs as T.81 F.2.2 and G.1.2.2 define; every other coefficient is left unchanged. A run that leads out of the band (an illegal stream) may give an error or any coefficients inside the band.",
 ["inputs"],"all streams, tables, bands, approximation shifts and pending end-of-band runs",
 "Stored images exercise typical runs; long zero runs, runs that end exactly at the band end, large sizes and every EOB-run length are not covered.",
 ["src/decoder.rs"],[("block decode","src/decoder.rs decode_block"),("zig-zag order","src/decoder.rs UNZIGZAG")],["pixels of Decoder::decode"],"private function")
p("C05","Progressive refinement scans add exactly one bit as T.81 defines",
 "For every entropy stream, a refinement pass over a band adds one bit of magnitude to each already non-zero coefficient in stream order, places new coefficients of plus or minus that bit after the coded number of still-zero positions, continues end-of-band runs across blocks, and leaves every coefficient outside the band unchanged. A run that leads out of the band (an illegal stream) may give an error or any coefficients inside the band.",
 ["inputs"],"all streams, previous coefficient values, bands, shifts and pending end-of-band runs",
 "Only a few progressive files are in the corpus and all come from one encoder's script; correction bits inside ZRL and EOB runs are data dependent.",
 ["src/decoder.rs"],[("refinement","src/decoder.rs decode_block_successive_approximation, refine_non_zeroes")],["pixels of Decoder::decode"],"private function")
p("C06","Every scan visits its blocks in T.81 order and restarts where required",
 "In every DCT scan each data unit of the image is decoded once into its own block, in the MCU order of T.81 A.2 for interleaved scans and in raster order over the component's own blocks otherwise; after every restart interval the matching RSTn is required, and the predictors, bit buffer and end-of-band run are reset.",
 ["inputs","histories"],"all frame geometries, sampling layouts, component subsets and restart intervals",
 "The image corpus has a handful of sizes and sampling layouts; the traversal depends on the product of geometry, scan composition and restart interval.",
 ["src/decoder.rs"],[("scan loop","src/decoder.rs Decoder::decode_scan")],["pixels of Decoder::decode"],"private function")
p("C07","Frame headers are accepted exactly when valid, with T.81 geometry",
 "A frame header is accepted only if its length, precision, dimensions, component count, unique identifiers, sampling factors and table selectors are legal, and then the frame carries exactly the coded values with each component's size equal to ceil(X*Hi/Hmax) by ceil(Y*Vi/Vmax) and its padded block grid equal to whole MCUs; every illegal header is an error.",
 ["inputs"],"all frame header byte strings and all SOF markers",
 "The tests sample a few valid headers; each rejection rule and the rounding in the geometry quantify over 16-bit sizes and all factor combinations.",
 ["src/parser.rs"],[("frame header","src/parser.rs parse_sof, ceil_div, update_component_sizes")],["Decoder::read_info","Decoder::info"],"private function")
p("C08","Scan headers are accepted exactly when legal for their frame",
 "A scan header is accepted only if its length, component references (known, unique, in frame order), table selectors, blocks-per-MCU limit and spectral/approximation parameters are legal for the frame's process, and then the scan carries exactly the coded values; every illegal header is an error.",
 ["inputs"],"all scan header byte strings against all frames",
 "Each rule depends on the frame it follows; tests hold only files that pass every rule plus a few crashers.",
 ["src/parser.rs"],[("scan header","src/parser.rs parse_sos")],["Decoder::decode"],"private function")
p("C09","DQT, DHT and DRI segments install exactly what they carry",
 "Every quantization, Huffman and restart-interval segment is consumed for exactly its coded length, installs each table it carries (the last one for a slot wins) in its slot with quantizer elements moved from zig-zag to raster order, leaves all other slots unchanged, and malformed segments are errors.",
 ["inputs","histories"],"all segment byte strings, any number of tables per segment, any earlier table state",
 "Files in the corpus carry one or two tables per segment with 8-bit elements; multi-table, 16-bit and partially filled segments are a product space.",
 ["src/parser.rs","src/decoder.rs"],[("segment parsers","src/parser.rs parse_dqt, parse_dht, parse_dri"),("installation","src/decoder.rs Decoder::decode_internal")],["pixels of Decoder::decode"],"private function",
 [("quantization_tables, dc_huffman_tables, ac_huffman_tables, restart_interval","decoder table state","src/decoder.rs Decoder")])
p("C10","Application and comment segments are consumed exactly and recognised exactly",
 "Every APPn and COM segment is consumed for exactly its coded length whatever it contains, and JFIF, AVI1, Exif, XMP, ICC, Photoshop and Adobe payloads are recognised only by their full signature in their own APPn and returned byte for byte without the signature; truncated segments and bad lengths are errors.",
 ["inputs"],"all segment byte strings for all 16 APP markers and COM",
 "Tests check a few metadata files; payload lengths at and just below each signature length, and non-matching signatures, are not sampled.",
 ["src/parser.rs"],[("segment parser","src/parser.rs parse_app, parse_com, skip_bytes, read_length")],["Decoder::exif_data","Decoder::xmp_data","Decoder::icc_profile"],"private function")
p("C11","ICC profile is returned iff the chunk set is complete, in sequence order",
 "The ICC profile is returned exactly when the ICC chunks seen all declare the same total, that total equals the number of chunks, and their sequence numbers are 1..total each once; it is then the concatenation of the chunk payloads in sequence order whatever order they arrived in, and otherwise nothing is returned.",
 ["inputs","histories"],"all multisets of up to 255 or more ICC chunks in all arrival orders",
 "Tests hold a few small orderings; permutations and the count limits are not enumerable.",
 ["src/decoder.rs"],[("assembly","src/decoder.rs Decoder::icc_profile")],["Decoder::icc_profile"],"private state",[("icc_markers","chunks in arrival order","src/decoder.rs Decoder")])
p("C12","The full-size inverse DCT is accurate for all legal coefficients",
 "For every block of coefficients and quantizers, with S the sum of the absolute dequantized values: if S is at most 16000, each of the 64 output samples of the portable transform differs by at most 5/8 + S/6000 (less than 1 for S up to 2200) from the exact inverse DCT level-shifted by 128 and clamped to 0..255; for any other values the result is still a defined sample, and in every case only the 8x8 output area is written.",
 ["inputs"],"all 64-element coefficient and quantizer blocks",
 "The one IDCT unit test and the images sample a vanishing part of 2^1024 blocks; error accumulation is worst on blocks no photograph contains.",
 ["src/idct.rs"],[("portable IDCT","src/idct.rs dequantize_and_idct_block_8x8_inner, kernel, kernel_x, kernel_t, stbi_clamp, dequantize")],["pixels of Decoder::decode"],"private function")
p("C13","Reduced-size inverse DCTs equal the scaled transform of the low frequencies",
 "When decoding at 1/2, 1/4 or 1/8 scale each block yields the 4x4, 2x2 or 1x1 inverse DCT of its lowest-frequency coefficients, level-shifted by 128 and clamped - the 2x2 samples rounded exactly, the 1x1 sample within one grey level, the 4x4 samples within 5/8 + S/6000 where S is the sum of the absolute dequantized low-frequency coefficients and at most 16000 - written only to that block's own rows and columns.",
 ["inputs"],"all coefficient and quantizer blocks and all line strides, at each reduced scale",
 "One test image per scale is compared with tolerance; the space of blocks is not sampled at extremes.",
 ["src/idct.rs"],[("scaled IDCTs","src/idct.rs dequantize_and_idct_block_4x4/2x2/1x1, dequantize_and_idct_block")],["Decoder::scale + Decoder::decode"],"private function")
p("C14","SIMD code paths are memory safe and agree with the portable ones",
 "On a machine with SIMD support, colour conversion gives the result of the portable conversion within one grey level for every pixel, the SIMD inverse DCT stays within one grey level of the exact transform for blocks whose absolute dequantized values sum to at most 800, and neither reads or writes outside the slices it was given, for every slice length and stride.",
 ["inputs","configurations"],"all sample values, slice lengths and strides, with and without the SIMD path",
 "The SIMD path is compared with the portable one only through whole images with a tolerance; lane boundaries and rounding ties are data dependent.",
 ["src/arch/ssse3.rs","src/arch/mod.rs","src/decoder.rs","src/idct.rs"],[("SSSE3 kernels","src/arch/ssse3.rs"),("dispatch","src/arch/mod.rs")],["pixels of Decoder::decode"],"private function")
p("C15","Chroma upsampling computes the documented interpolation for every geometry",
 "For every component size and supported sampling ratio each output row and column is the triangle-filter (3:1) or replication interpolation of its nearest input samples, using only samples inside the component, and unsupported ratios are reported as unsupported; edge samples are those of the nearest column and row.",
 ["inputs"],"all component widths, heights, strides, rows and sample values, all sampling ratios",
 "Stored images have a few sizes; odd and one-pixel-wide geometries times the ratios and edge rows are not covered.",
 ["src/upsampler.rs"],[("upsamplers","src/upsampler.rs UpsamplerH1V1..UpsamplerGeneric"),("selection","src/upsampler.rs choose_upsampler, Upsampler::new")],["pixels of Decoder::decode"],"private types")
p("C16","Pixels are colour-converted and interleaved as the chosen transform defines",
 "For every pixel the output bytes are, in order, the components themselves (RGB or no transform), their complement (CMYK), or the BT.601 conversion of Y, Cb, Cr rounded to nearest within one level and clamped, with inverted K for YCCK; every output pixel comes from the samples at its own position.",
 ["inputs"],"all sample values and line lengths, all supported transforms",
 "Images are compared with tolerance on a few conversions; the no-transform path with subsampled data is not tested at all.",
 ["src/decoder.rs"],[("line converters","src/decoder.rs color_convert_line_*, color_no_convert, ycbcr_to_rgb, choose_color_convert_func")],["pixels of Decoder::decode","Decoder::set_color_transform"],"private function")
p("C17","The colour transform follows the caller, then identifiers, JFIF and Adobe",
 "The transform applied is the one the caller set if any; otherwise one component is grayscale, three components follow their identifiers (1,2,3 YCbCr; 'RGB' RGB; big-gamut ones unsupported), then JFIF, then the Adobe flag, then YCbCr, and four components follow the Adobe flag or are CMYK; transforms that do not fit the component count are errors.",
 ["inputs","configurations"],"all identifier triples, presence combinations of JFIF and Adobe segments, and caller settings",
 "The decision is a product of 256^3 identifiers, segment presence and settings; the tests hold about ten of them.",
 ["src/decoder.rs"],[("selection","src/decoder.rs Decoder::determine_color_transform, choose_color_convert_func")],["pixels of Decoder::decode"],"private function")
p("C18","Lossless frames reproduce the coded samples exactly",
 "For every lossless frame whose components are not subsampled and whose restart interval is zero or a whole number of lines, every sample equals the value T.81 Annex H defines from its difference, the selected predictor, the point transform, and the restart positions, modulo 2^16; samples are returned in component-interleaved order at their declared precision.",
 ["inputs"],"all precisions 2..16, predictors 1..7, point transforms, restart intervals, sizes and difference streams",
 "Eight lossless images with point transform 0, no restarts and one scan are all the tests hold.",
 ["src/decoder/lossless.rs"],[("reconstruction","src/decoder/lossless.rs decode_scan_lossless, predict"),("output","src/decoder/lossless.rs compute_image_lossless, convert_to_u8")],["Decoder::decode"],"private function")
p("C19","Output size, reported info, scaling and the buffer limit agree",
 "After a successful decode the returned buffer holds exactly width*height*bytes-per-pixel of the reported info; scaling picks the smallest of 1/8, 1/4, 1/2, 1 that reaches the request in at least one axis and reports ceil(size*scale) for both axes; and an image larger than the configured buffer limit is an error.",
 ["inputs","histories"],"all image sizes, requested sizes, limits, formats and call orders",
 "Tests check one or two scaled sizes; the rounding and the limit quantify over 16-bit sizes and call sequences.",
 ["src/decoder.rs","src/idct.rs","src/parser.rs"],[("scaling","src/decoder.rs Decoder::scale; src/idct.rs choose_idct_size; src/parser.rs FrameInfo::update_idct_size"),("info","src/decoder.rs Decoder::info"),("limit","src/decoder.rs Decoder::decode_planes")],["Decoder::scale","Decoder::info","Decoder::decode"],"private state")
p("C20","Plane assembly is independent of the worker and of threading",
 "The decoded plane of each component is the inverse transform of its coefficient rows placed block by block at their own positions, and the image is the row-by-row conversion of the planes, identically for the immediate, threaded and rayon workers.",
 ["inputs","schedules","configurations"],"all component geometries and scales, all thread schedules, all feature configurations",
 "Each test run sees one schedule and one configuration at a time and compares images with tolerance.",
 ["src/worker/mod.rs","src/worker/immediate.rs","src/worker/multithreaded.rs","src/worker/rayon.rs","src/decoder.rs"],[("row workers","src/worker/immediate.rs, src/worker/rayon.rs, src/worker/multithreaded.rs"),("assembly","src/decoder.rs compute_image; src/worker/mod.rs compute_image_parallel")],["pixels of Decoder::decode"],"private types",
 [("offsets, results","write position and plane per component","src/worker/immediate.rs ImmediateWorker")])
p("C21","Marker sequence rules and unsupported features are reported as such",
 "Decoding requires SOI first, finds the next marker past fill bytes and extraneous data, requires a frame before any scan or end of image, at most one frame, and reports arithmetic coding, hierarchical and differential processes, DNL, unsupported precision and component counts as unsupported and misplaced or reserved markers as format errors; it never reports success for such a stream.",
 ["inputs","histories"],"all marker sequences",
 "The corpus holds mostly legal marker sequences; the order rules quantify over all sequences of 254 marker codes.",
 ["src/decoder.rs","src/marker.rs"],[("marker loop","src/decoder.rs Decoder::decode_internal, read_marker"),("marker codes","src/marker.rs Marker::from_u8, has_length")],["Decoder::decode","Decoder::read_info"],"private function")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
