use alloc::sync::Arc;
//@item src/decoder.rs Decoder
//@sub `pub struct Decoder<R>` => `pub struct Decoder<R: Read>`
pub struct Decoder<R: Read> {
    /*@ pub @*/ reader: R,

    /*@ pub @*/ frame: Option<FrameInfo>,
    /*@ pub @*/ dc_huffman_tables: Vec<Option<HuffmanTable>>,
    /*@ pub @*/ ac_huffman_tables: Vec<Option<HuffmanTable>>,
    /*@ pub @*/ quantization_tables: [Option<Arc<[u16; 64]>>; 4],

    /*@ pub @*/ restart_interval: u16,

    /*@ pub @*/ adobe_color_transform: Option<AdobeColorTransform>,
    /*@ pub @*/ color_transform: Option<ColorTransform>,

    /*@ pub @*/ is_jfif: bool,
    /*@ pub @*/ is_mjpeg: bool,

    /*@ pub @*/ icc_markers: Vec<IccChunk>,

    /*@ pub @*/ exif_data: Option<Vec<u8>>,
    /*@ pub @*/ xmp_data: Option<Vec<u8>>,
    /*@ pub @*/ psir_data: Option<Vec<u8>>,

    /*@ pub @*/ coefficients: Vec<Vec<i16>>,
    /*@ pub @*/ coefficients_finished: [u64; MAX_COMPONENTS],

    /*@ pub @*/ decoding_buffer_size_limit: usize,
}
//@end
