// ---- choice of the colour transform --------------------------------------------------------------------------
/// the transform for n components (identifiers id) given the caller's choice, a JFIF header and the Adobe flag
pub open spec fn transform_of(set: Option<ColorTransform>, n: int, id: Seq<u8>, jfif: bool, adobe: Option<AdobeColorTransform>) -> ColorTransform {
    if let Some(t) = set { t }
    else if n == 1 { ColorTransform::Grayscale }
    else if n == 3 {
        if id == seq![1u8, 2, 3] { ColorTransform::YCbCr }
        else if id == seq![1u8, 0x22, 0x23] { ColorTransform::JcsBgYcc }
        else if id == seq![82u8, 71, 66] { ColorTransform::RGB }
        else if id == seq![114u8, 103, 98] { ColorTransform::JcsBgRgb }
        else if jfif { ColorTransform::YCbCr }
        else { match adobe { Some(AdobeColorTransform::Unknown) => ColorTransform::RGB, Some(AdobeColorTransform::YCbCr) => ColorTransform::YCbCr, Some(AdobeColorTransform::YCCK) => ColorTransform::YCCK, None => ColorTransform::YCbCr } }
    } else { match adobe { Some(AdobeColorTransform::Unknown) => ColorTransform::CMYK, Some(AdobeColorTransform::YCbCr) => ColorTransform::YCbCr, Some(AdobeColorTransform::YCCK) => ColorTransform::YCCK, None => ColorTransform::CMYK } }
}
pub open spec fn ids(c: Seq<Component>) -> Seq<u8> { Seq::new(c.len(), |i: int| c[i].identifier) }
impl<R: Read> Decoder<R> {
pub open spec fn transform(&self) -> ColorTransform {
    transform_of(self.color_transform, self.frame->0.components@.len() as int, ids(self.frame->0.components@), self.is_jfif, self.adobe_color_transform)
}
//@fn src/decoder.rs Decoder::determine_color_transform
fn determine_color_transform(&self) -> /*@ (r: @*/ ColorTransform /*@ )
    requires self.frame matches Some(f) && (f.components.len() == 1 || f.components.len() == 3 || f.components.len() == 4), ensures r == self.transform() @*/ {
    if let Some(color_transform) = self.color_transform {
        return color_transform;
    }
    let frame = self.frame.as_ref().unwrap();
    /*@ let ghost id = ids(frame.components@); @*/
    if frame.components.len() == 1 {
        return ColorTransform::Grayscale;
    }
    if frame.components.len() == 3 {
        /*@ proof {
            assert(id.len() == 3); let (a, b, c) = (id[0], id[1], id[2]); assert(id =~= seq![a, b, c]); 
            assert(forall|x: u8, y: u8, z: u8| #![auto] seq![a, b, c] == seq![x, y, z] ==> a == seq![x, y, z][0] && b == seq![x, y, z][1] && c == seq![x, y, z][2]);
        } @*/
        match (frame.components[0].identifier, frame.components[1].identifier, frame.components[2].identifier,) {
            (1, 2, 3) => {
                return ColorTransform::YCbCr;
            }
            (1, 34, 35) => {
                return ColorTransform::JcsBgYcc;
            }
            (82, 71, 66) => {
                return ColorTransform::RGB;
            }
            (114, 103, 98) => {
                return ColorTransform::JcsBgRgb;
            }
            _ => {
            }
        }
        if self.is_jfif {
            return ColorTransform::YCbCr;
        }
    }
    if let Some(colour_transform) = self.adobe_color_transform {
        match colour_transform {
            AdobeColorTransform::Unknown => {
                if frame.components.len() == 3 {
                    return ColorTransform::RGB;
                } else if frame.components.len() == 4 {
                    return ColorTransform::CMYK;
                }
            }
            AdobeColorTransform::YCbCr => {
                return ColorTransform::YCbCr;
            }
            AdobeColorTransform::YCCK => {
                return ColorTransform::YCCK;
            }
        }
    } else if frame.components.len() == 4 {
        return ColorTransform::CMYK;
    }
    if frame.components.len() == 4 {
        ColorTransform::YCCK
    } else if frame.components.len() == 3 {
        ColorTransform::YCbCr
    } else {
        ColorTransform::Unknown
    }
}
//@end
}
