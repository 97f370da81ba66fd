"""Which proof units, functions and bounded runs belong to each property."""
ORACLE_CFGS = {'default': '', 'rayon': 'cfg_rayon', 'portable': 'cfg_portable'}
BITS = ['HuffmanDecoder::new', 'HuffmanDecoder::reset', 'HuffmanDecoder::peek_bits', 'HuffmanDecoder::consume_bits', 'HuffmanDecoder::read_bits',
        'HuffmanDecoder::get_bits', 'HuffmanDecoder::take_marker', 'Marker::from_u8', 'read_u8']
CODES = ['derive_huffman_codes', 'HuffmanTable::new', 'HuffmanDecoder::decode', 'HuffmanDecoder::decode_fast_ac', 'HuffmanDecoder::receive_extend', 'extend']
PROPS = {
    'C02': dict(level='proof', note='Every obligation of the bit reader is discharged for all inputs; the reader is modelled as a byte sequence whose read_exact may fail.', units={'huffman': BITS}, oracle=[('default', 12)]),
    'C03': dict(level='proof', note='Every obligation of table construction and both lookups is discharged for all tables and bit streams.', units={'huffman': CODES}, oracle=[('default', 12)]),
    'C04': dict(level='proof', note='Every obligation of the sequential / first-scan block decoder is discharged for all streams, tables and bands.', units={'block': ['decode_block', 'UNZIGZAG', 'HuffmanDecoder::decode', 'HuffmanDecoder::decode_fast_ac', 'HuffmanDecoder::receive_extend', 'HuffmanDecoder::get_bits', 'extend']}, oracle=[('default', 12)]),
    'C05': dict(level='proof', note='Every obligation of the refinement block decoder is discharged for all streams and previous coefficients.', units={'block': ['decode_block_successive_approximation', 'refine_non_zeroes', 'UNZIGZAG', 'HuffmanDecoder::decode', 'HuffmanDecoder::get_bits']}, oracle=[('default', 12)]),
    'C07': dict(level='proof', note='Every obligation of the frame header parser and the geometry is discharged for all byte strings and sizes.', kani=['scaled'], units={'header': ['parse_sof', 'ceil_div', 'update_component_sizes', 'FrameInfo::update_idct_size', 'read_length', 'Marker::has_length']}, oracle=[('default', 12)]),
    'C08': dict(level='proof', note='Every obligation of the scan header parser is discharged for all byte strings and frames.', units={'header': ['parse_sos', 'read_length', 'Marker::has_length']}, oracle=[('default', 12)]),
    'C09': dict(level='proof', note='Every obligation of the segment parsers is discharged for all byte strings.', units={'decode': ['Decoder::decode_internal/on_dqt', 'Decoder::decode_internal/on_dht'], 'dht': ['parse_dqt', 'parse_dht', 'parse_dri', 'read_length', 'derive_huffman_codes', 'HuffmanTable::new']}, oracle=[('default', 12)]),
    'C10': dict(level='proof', note='Every obligation of the APPn and COM parsers is discharged for all byte strings and markers.', units={'decode': ['Decoder::decode_internal/on_app'], 'segs': ['parse_app', 'parse_com', 'skip_bytes', 'read_length', 'Marker::has_length']}, oracle=[('default', 12)]),
    'C11': dict(level='proof', note='Every obligation of the profile assembly is discharged for all lists of collected chunks.', units={'decode': ['Decoder::decode_internal/on_app'], 'icc': ['Decoder::icc_profile', 'parse_app']}, oracle=[('default', 12)]),
    'C16': dict(level='proof', note='Every obligation of the colour conversion functions is discharged for all samples and line lengths.', units={'color': '*'}, oracle=[('default', 12), ('portable', 8)]),
    'C17': dict(level='proof', note='Every obligation of the choice of transform and conversion function is discharged for all frames, flags and choices.', units={'decode': ['Decoder::decode_internal/on_app'], 'transform': ['Decoder::determine_color_transform', 'choose_color_convert_func', 'ConvertFn::call', 'parse_app']}, oracle=[('default', 12)]),
    'C12': dict(level='proof', note='Every obligation of the portable full-size inverse transform is discharged for all coefficients and quantization tables; the SIMD routine that may take its place is the subject of C14.', units={'idct8': '*'}, oracle=[('default', 8), ('portable', 8)]),
    'C13': dict(level='proof', note='Every obligation of the reduced-size transforms and the dispatch on the scale is discharged for all coefficients and quantization tables.', units={'idct4': '*'}, oracle=[('default', 8), ('portable', 8)]),
    'C14': dict(level='proof', note='Every obligation of the SSSE3 inverse transform, colour conversion and their dispatch is discharged for all samples, coefficients, tables, slice lengths and strides, memory bounds of every raw load and store included. The intrinsics are assumed to be what the Intel manual defines (and compared with the processor on every run); NEON and WASM code is not compiled on this target and not covered.', units={'ssse3': '*'}, oracle=[('default', 12)]),
    'C15': dict(level='proof', note='Every obligation of the interpolation functions, their choice and the line assembly is discharged for all planes, sizes and rows; the f32 row indices are proved by Kani for every row.', units={'upsample': '*'}, kani=['rows'], oracle=[('default', 12)]),
    'C20': dict(level='proof', note='Every obligation of the immediate and rayon workers, of the shared row interface and of the image assembly is discharged for all components, tables, rows and sizes; the scheduling of rayon tasks on disjoint slices is trusted; the channel worker of the build without rayon is covered by the bounded complement only.', units={'worker': '*', 'wrayon': '*', 'image': ['compute_image', 'compute_image_parallel', 'rayon_compute_image_parallel', 'Upsampler::upsample_and_interleave_row']}, oracle=[('default', 12), ('rayon', 8), ('portable', 8)]),
    'C18': dict(level='proof', note='Every obligation of the lossless scan decoder, its prediction, the restart handling and the output of the samples is discharged for all streams, frames and scans (the reconstruction formula for restart intervals that are whole lines, as T.81 requires).', units={'decode': ['Decoder::decode_internal/on_lossless_scan'], 'lossless': '*'}, oracle=[('default', 12)]),
    'C06': dict(level='proof', note='Every obligation of decode_scan is discharged for all frames, scans, tables and byte strings: block order, restarts, what is handed to the worker and what is returned; the block decoders are used by their contracts (C04, C05).', units={'decode': ['Decoder::decode_internal/on_dct_scan', 'Decoder::decode_internal/mark_finished', 'Decoder::decode_planes'], 'scan': ['Decoder::decode_scan', 'HuffmanDecoder::take_marker', 'HuffmanDecoder::reset', 'fill_default_mjpeg_tables', 'Decoder::read_marker']}, oracle=[('default', 12)]),
    'C19': dict(level='proof', note='Every obligation of scale, choose_idct_size, update_idct_size, info, pixel_bytes, decode and decode_planes is discharged for all frames, requests, limits and call orders; the f32 expressions of the scaled size are proved by Kani for every size. Known finding: lossless images of 3 or 4 components of more than 8 bits.', kani=['scaled'], units={'decode': ['Decoder::scale', 'choose_idct_size', 'Decoder::info', 'PixelFormat::pixel_bytes', 'Decoder::decode', 'Decoder::decode_planes', 'Decoder::set_max_decoding_buffer_size', 'Decoder::new', 'Decoder::read_info', 'ImageInfo', 'PixelFormat'], 'header': ['FrameInfo::update_idct_size', 'update_component_sizes'], 'image': ['compute_image', 'compute_image_parallel', 'rayon_compute_image_parallel'], 'lossless': ['compute_image_lossless']}, oracle=[('default', 12)]),
    'C21': dict(level='proof', note='Every obligation of the marker loop and its branches is discharged for all byte strings and call histories: what decode and read_info return is a run over the marker sequence with the transitions of T.81; termination on an endless reader is not claimed.', units={'decode': ['Decoder::decode_internal', 'Decoder::read_info', 'Decoder::decode', 'Decoder::new'], 'marks': '*'}, oracle=[('default', 12)]),
    'C01': dict(level='proof', note='Every obligation of every function of the decoder but those listed as trusted is discharged: preconditions, index bounds, arithmetic overflow and reachable panics, for all inputs and call histories. Not covered by proof: the channel worker of the build without rayon, memory exhaustion.', novac=True,
                units={u: '*' for u in ('huffman', 'block', 'header', 'dht', 'segs', 'icc', 'color', 'transform', 'ssse3', 'idct8', 'idct4', 'upsample', 'worker', 'wrayon', 'image', 'lossless', 'scan', 'marks', 'decode')}, kani=['scaled', 'rows'], oracle=[('default', 20), ('rayon', 8), ('portable', 8)]),
}
NA = {}
