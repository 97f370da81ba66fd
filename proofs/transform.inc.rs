//@include ctrans.inc.rs
/// the conversion for a transform on n components, if it fits
pub open spec fn conv_of(n: int, t: ColorTransform) -> Option<Conv> {
    match t {
        ColorTransform::None => Some(Conv::Plain),
        ColorTransform::RGB => if n == 3 { Some(Conv::Plain) } else { None },
        ColorTransform::YCbCr => if n == 3 { Some(Conv::Ycc) } else { None },
        ColorTransform::CMYK => if n == 4 { Some(Conv::Cmyk) } else { None },
        ColorTransform::YCCK => if n == 4 { Some(Conv::Ycck) } else { None },
        _ => None,
    }
}
/// the functions a conversion can be, as first-order values
pub enum ConvertFn { color_no_convert, color_convert_line_rgb, color_convert_line_ycbcr, color_convert_line_cmyk, color_convert_line_ycck }
impl ConvertFn {
    pub open spec fn fits(self, k: Conv, n: int) -> bool {
        match self {
            ConvertFn::color_no_convert => k == Conv::Plain && (n == 3 || n == 4),
            ConvertFn::color_convert_line_rgb => k == Conv::Plain && n == 3,
            ConvertFn::color_convert_line_ycbcr => k == Conv::Ycc && n == 3,
            ConvertFn::color_convert_line_cmyk => k == Conv::Cmyk && n == 4,
            ConvertFn::color_convert_line_ycck => k == Conv::Ycck && n == 4,
        }
    }
    pub fn call(&self, Ghost(k): Ghost<Conv>, data: &[Vec<u8>], output: &mut [u8])
        requires self.fits(k, data.len() as int), old(output).len() % data.len() == 0, covers(data@, old(output).len() as int / data.len() as int)
        ensures line_ok(k, data@, old(output)@, final(output)@)
    {
        match self {
            ConvertFn::color_no_convert => color_no_convert(data, output),
            ConvertFn::color_convert_line_rgb => color_convert_line_rgb(data, output),
            ConvertFn::color_convert_line_ycbcr => color_convert_line_ycbcr(data, output),
            ConvertFn::color_convert_line_cmyk => color_convert_line_cmyk(data, output),
            ConvertFn::color_convert_line_ycck => color_convert_line_ycck(data, output),
        }
    }
}
//@fn src/decoder.rs choose_color_convert_func
//@rw panic errtext
//@sub `Result < fn ( & [ Vec < u8 > ] , & mut [ u8 ] ) >` => `Result < ConvertFn >`
//@sub `Ok ( $f )` => `Ok ( ConvertFn :: $f )`
pub(crate) fn choose_color_convert_func(component_count: usize, color_transform: ColorTransform,) -> /*@ (r: @*/ Result<ConvertFn> /*@ )
    requires component_count == 3 || component_count == 4,
    ensures match conv_of(component_count as int, color_transform) { Some(k) => r matches Ok(f) && f.fits(k, component_count as int), None => r is Err },
        color_transform == ColorTransform::JcsBgYcc || color_transform == ColorTransform::JcsBgRgb ==> (r matches Err(Error::Unsupported(_))) @*/ {
    match component_count {
        3 => match color_transform {
            ColorTransform::None => Ok(ConvertFn::color_no_convert),
            ColorTransform::Grayscale => Err(Error::Format(error_text())),
            ColorTransform::RGB => Ok(ConvertFn::color_convert_line_rgb),
            ColorTransform::YCbCr => Ok(ConvertFn::color_convert_line_ycbcr),
            ColorTransform::CMYK => Err(Error::Format(error_text())),
            ColorTransform::YCCK => Err(Error::Format(error_text())),
            ColorTransform::JcsBgYcc => Err(Error::Unsupported(UnsupportedFeature::ColorTransform(ColorTransform::JcsBgYcc),)),
            ColorTransform::JcsBgRgb => Err(Error::Unsupported(UnsupportedFeature::ColorTransform(ColorTransform::JcsBgRgb),)),
            ColorTransform::Unknown => Err(Error::Format(error_text())),
        },
        4 => match color_transform {
            ColorTransform::None => Ok(ConvertFn::color_no_convert),
            ColorTransform::Grayscale => Err(Error::Format(error_text())),
            ColorTransform::RGB => Err(Error::Format(error_text())),
            ColorTransform::YCbCr => Err(Error::Format(error_text())),
            ColorTransform::CMYK => Ok(ConvertFn::color_convert_line_cmyk),
            ColorTransform::YCCK => Ok(ConvertFn::color_convert_line_ycck),
            ColorTransform::JcsBgYcc => Err(Error::Unsupported(UnsupportedFeature::ColorTransform(ColorTransform::JcsBgYcc),)),
            ColorTransform::JcsBgRgb => Err(Error::Unsupported(UnsupportedFeature::ColorTransform(ColorTransform::JcsBgRgb),)),
            ColorTransform::Unknown => Err(Error::Format(error_text())),
        },
        _ => unreached(),
    }
}
//@end
