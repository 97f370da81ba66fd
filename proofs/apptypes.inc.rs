//@item src/parser.rs AppData
pub enum AppData {
    Adobe(AdobeColorTransform),
    Jfif,
    Avi1,
    Icc(IccChunk),
    Exif(Vec<u8>),
    Xmp(Vec<u8>),
    Psir(Vec<u8>),
}
//@end
//@item src/parser.rs AdobeColorTransform
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum AdobeColorTransform {
    Unknown,
    YCbCr,
    YCCK,
}
//@end
//@item src/parser.rs IccChunk
pub struct IccChunk {
    pub num_markers: u8,
    pub seq_no: u8,
    pub data: Vec<u8>,
}
//@end
