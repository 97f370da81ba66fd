// Model of std::io: a reader is the sequence of bytes it has still to deliver. An I/O error may occur at any
// call; nothing is known about the reader afterwards.
pub struct IoError { pub opaque: u8 }
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    /// the device has no errors of its own: reads fail at the end of the data only
    spec fn reliable(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), IoError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            old(self).reliable() ==> final(self).reliable() && (old(self).rest().len() >= old(buf)@.len() ==> r is Ok),
            r is Ok ==> old(self).rest().len() >= old(buf)@.len()
                && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int);
}
// Variant payloads that no contract depends on are opaque.
pub enum Error {
    Format(String),
    Unsupported(UnsupportedFeature),
    Io(IoError),
}
pub type Result<T> = core::result::Result<T, Error>;
impl From<IoError> for Error {
//@fn src/error.rs Error::from
fn from(err: IoError) -> /*@ (r: @*/ Error /*@ ) ensures r == Error::Io(err) @*/ {
    Error::Io(err)
}
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> Error { Error::Io(e) }
}
// error texts: opaque
#[verifier::external_body]
pub fn error_text() -> String { String::new() }
// debug assertions are proved
pub fn assert_exec(b: bool) requires b {}

//@item src/error.rs UnsupportedFeature
pub enum UnsupportedFeature {
    Hierarchical,
    ArithmeticEntropyCoding,
    SamplePrecision(u8),
    ComponentCount(u8),
    DNL,
    SubsamplingRatio,
    NonIntegerSubsamplingRatio,
    ColorTransform(ColorTransform),
}
//@end

//@item src/decoder.rs ColorTransform
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum ColorTransform {
    None,
    Unknown,
    Grayscale,
    RGB,
    YCbCr,
    CMYK,
    YCCK,
    JcsBgYcc,
    JcsBgRgb,
}
//@end

//@fn src/lib.rs read_u8
//@sub `R: io::Read` => `R: Read`
//@sub `io::Result<u8>` => `core::result::Result<u8, IoError>`
fn read_u8<R: Read>(reader: &mut R) -> /*@ (r: @*/ core::result::Result<u8, IoError> /*@ )
    ensures r matches Ok(b) ==> old(reader).rest().len() > 0 && b == old(reader).rest()[0]
        && final(reader).rest() == old(reader).rest().skip(1),
        old(reader).reliable() ==> final(reader).reliable() && (old(reader).rest().len() >= 1 ==> r is Ok) @*/
{
    let mut buf = [0];
    reader.read_exact(&mut buf)?;
    Ok(buf[0])
}
//@end
pub open spec fn be16(s: Seq<u8>) -> int { s[0] as int * 256 + s[1] as int }
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == b@[0] as int * 256 + b@[1] as int { u16::from_be_bytes(b) }
//@fn src/lib.rs read_u16_from_be
//@sub `R: io::Read` => `R: Read`
//@sub `u16::from_be_bytes` => `u16_from_be_bytes`
//@sub `io::Result<u16>` => `core::result::Result<u16, IoError>`
fn read_u16_from_be<R: Read>(reader: &mut R) -> /*@ (r: @*/ core::result::Result<u16, IoError> /*@ )
    ensures r matches Ok(b) ==> old(reader).rest().len() >= 2 && b == be16(old(reader).rest())
        && final(reader).rest() == old(reader).rest().skip(2),
        old(reader).reliable() ==> final(reader).reliable() && (old(reader).rest().len() >= 2 ==> r is Ok) @*/
{
    let mut buf = [0, 0];
    reader.read_exact(&mut buf)?;
    Ok(u16_from_be_bytes(buf))
}
//@end
pub open spec fn clampi(v: int) -> int { if v < 0 { 0 } else if v > 255 { 255 } else { v } }
pub fn clamp_u8(v: i32) -> (r: u8) ensures r as int == clampi(v as int) { if v < 0 { 0 } else if v > 255 { 255 } else { v as u8 } }
pub fn min2(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
