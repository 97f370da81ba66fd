use vstd::pervasive::unreached;
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
//@item src/parser.rs Dimensions
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub struct Dimensions {
    pub width: u16,
    pub height: u16,
}
//@end
//@item src/parser.rs EntropyCoding
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum EntropyCoding {
    Huffman,
    Arithmetic,
}
//@end
//@item src/parser.rs CodingProcess
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum CodingProcess {
    DctSequential,
    DctProgressive,
    Lossless,
}
//@end
//@item src/parser.rs Predictor
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum Predictor {
    NoPrediction,
    Ra,
    Rb,
    Rc,
    RaRbRc1,
    RaRbRc2,
    RaRbRc3,
    RaRb,
}
//@end
//@item src/parser.rs FrameInfo
pub struct FrameInfo {
    pub is_baseline: bool,
    pub is_differential: bool,
    pub coding_process: CodingProcess,
    pub entropy_coding: EntropyCoding,
    pub precision: u8,
    pub image_size: Dimensions,
    pub output_size: Dimensions,
    pub mcu_size: Dimensions,
    pub components: Vec<Component>,
}
//@end
//@item src/parser.rs ScanInfo
pub struct ScanInfo {
    pub component_indices: Vec<usize>,
    pub dc_table_indices: Vec<usize>,
    pub ac_table_indices: Vec<usize>,

    pub spectral_selection: Range<u8>,
    pub predictor_selection: Predictor,
    pub successive_approximation_high: u8,
    pub successive_approximation_low: u8,
    pub point_transform: u8,
}
//@end
//@item src/parser.rs Component
pub struct Component {
    pub identifier: u8,

    pub horizontal_sampling_factor: u8,
    pub vertical_sampling_factor: u8,

    pub quantization_table_index: usize,

    pub dct_scale: usize,

    pub size: Dimensions,
    pub block_size: Dimensions,
}
//@end
// ---- geometry (T.81 A.1.1) -----------------------------------------------------------------------------------
/// a / b rounded up
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn hmax(cs: Seq<Component>, n: int) -> int decreases n {
    if n <= 1 { cs[0].horizontal_sampling_factor as int } else if cs[n - 1].horizontal_sampling_factor > hmax(cs, n - 1) { cs[n - 1].horizontal_sampling_factor as int } else { hmax(cs, n - 1) }
}
pub open spec fn vmax(cs: Seq<Component>, n: int) -> int decreases n {
    if n <= 1 { cs[0].vertical_sampling_factor as int } else if cs[n - 1].vertical_sampling_factor > vmax(cs, n - 1) { cs[n - 1].vertical_sampling_factor as int } else { vmax(cs, n - 1) }
}
pub open spec fn factors_ok(c: Component) -> bool { 1 <= c.horizontal_sampling_factor <= 4 && 1 <= c.vertical_sampling_factor <= 4 && 1 <= c.dct_scale <= 8 }
pub open spec fn all_factors_ok(cs: Seq<Component>) -> bool { cs.len() > 0 && forall|i: int| 0 <= i < cs.len() ==> factors_ok(#[trigger] cs[i]) }
pub open spec fn comp_geom(size: Dimensions, hm: int, vm: int, c: Component) -> bool {
    c.size.width == cdiv(size.width * c.horizontal_sampling_factor * c.dct_scale, 8 * hm)
    && c.size.height == cdiv(size.height * c.vertical_sampling_factor * c.dct_scale, 8 * vm)
    && c.block_size.width == cdiv(size.width as int, 8 * hm) * c.horizontal_sampling_factor
    && c.block_size.height == cdiv(size.height as int, 8 * vm) * c.vertical_sampling_factor
}
pub open spec fn geom(size: Dimensions, cs: Seq<Component>, mcu: Dimensions) -> bool {
    let hm = hmax(cs, cs.len() as int); let vm = vmax(cs, cs.len() as int);
    mcu.width == cdiv(size.width as int, 8 * hm) && mcu.height == cdiv(size.height as int, 8 * vm)
    && forall|i: int| 0 <= i < cs.len() ==> comp_geom(size, hm, vm, #[trigger] cs[i])
}
/// everything but the sizes
pub open spec fn same_coding(a: Component, b: Component) -> bool {
    a.identifier == b.identifier && a.horizontal_sampling_factor == b.horizontal_sampling_factor && a.vertical_sampling_factor == b.vertical_sampling_factor
    && a.quantization_table_index == b.quantization_table_index && a.dct_scale == b.dct_scale
}
pub proof fn max_bounds(cs: Seq<Component>, n: int)
    requires 1 <= n <= cs.len(), all_factors_ok(cs)
    ensures 1 <= hmax(cs, n) <= 4, 1 <= vmax(cs, n) <= 4,
        forall|i: int| 0 <= i < n ==> #[trigger] cs[i].horizontal_sampling_factor <= hmax(cs, n) && cs[i].vertical_sampling_factor <= vmax(cs, n)
    decreases n
{ if n > 1 { max_bounds(cs, n - 1); } assert(factors_ok(cs[n - 1])); }
pub open spec fn same_factors(a: Component, b: Component) -> bool {
    a.horizontal_sampling_factor == b.horizontal_sampling_factor && a.vertical_sampling_factor == b.vertical_sampling_factor
}
pub proof fn max_same(a: Seq<Component>, b: Seq<Component>, n: int)
    requires a.len() == b.len(), 1 <= n <= a.len(), forall|i: int| 0 <= i < a.len() ==> same_factors(#[trigger] a[i], b[i])
    ensures hmax(a, n) == hmax(b, n), vmax(a, n) == vmax(b, n)
    decreases n
{ if n > 1 { max_same(a, b, n - 1); } assert(same_factors(a[n - 1], b[n - 1])); }
pub proof fn cdiv_alt(x: int, y: int) requires x >= 1, y >= 1 ensures cdiv(x, y) == 1 + (x - 1) / y, cdiv(x, y) >= 1
{ assert((x + y - 1) / y == 1 + (x - 1) / y) by (nonlinear_arith) requires x >= 1, y >= 1; assert((x - 1) / y >= 0) by (nonlinear_arith) requires x >= 1, y >= 1; }
pub proof fn scaled_bound(w: int, f: int, s: int, m: int)
    requires 1 <= w, 1 <= f <= m, 1 <= s <= 8
    ensures 1 <= w * f * s <= w * 8 * m, cdiv(w * f * s, 8 * m) <= w
{
    assert(1 <= w * f * s <= w * 8 * m) by (nonlinear_arith) requires 1 <= w, 1 <= f <= m, 1 <= s <= 8;
    let x = w * f * s; let y = 8 * m;
    assert(w * 8 * m == w * y) by (nonlinear_arith) requires y == 8 * m;
    assert((x + y - 1) / y <= w) by (nonlinear_arith) requires x <= w * y, y >= 1;
}
pub proof fn grid_bound(w: int, f: int, m: int)
    requires 1 <= w <= 65535, 1 <= f <= m, m <= 4
    ensures 1 <= cdiv(w, 8 * m) <= 8192, cdiv(w, 8 * m) * f <= 8195, cdiv(w, 8 * m) * 8 * m >= w
{
    let y = 8 * m; let q = (w + y - 1) / y;
    assert(q * y <= w + y - 1 && q >= 1 && q * y >= w) by (nonlinear_arith) requires q == (w + y - 1) / y, y >= 8, w >= 1;
    assert(q * f <= q * m) by (nonlinear_arith) requires f <= m, q >= 1;
    assert(q * y == 8 * (q * m)) by (nonlinear_arith) requires y == 8 * m;
    assert(q * 8 * m == q * y) by (nonlinear_arith) requires y == 8 * m;
    assert(q <= 8192) by (nonlinear_arith) requires q * y <= w + y - 1, y >= 8, w <= 65535, q >= 1;
}
//@fn src/parser.rs ceil_div
//@rw errtext
fn ceil_div(x: u32, y: u32) -> /*@ (r: @*/ Result<u16> /*@ )
    ensures x == 0 || y == 0 ==> r is Err,
        x >= 1 && y >= 1 && cdiv(x as int, y as int) <= 65535 ==> r == Result::<u16>::Ok(cdiv(x as int, y as int) as u16),
        (r is Ok) == (x >= 1 && y >= 1) @*/ {
    if x == 0 || y == 0 {
        return Err(Error::Format(error_text()));
    }
    /*@ proof { cdiv_alt(x as int, y as int); assert((x - 1) / y as int <= x - 1) by (nonlinear_arith) requires x >= 1, y >= 1; } @*/
    Ok((1 + ((x - 1) / y)) as u16)
}
//@end
//@fn src/parser.rs update_component_sizes
//@rw max_field
//@sub `for component in components {` => `for ix in 0 .. components . len ( ) { let component = & mut components [ ix ] ;`
fn update_component_sizes(size: Dimensions, components: &mut [Component]) -> /*@ (r: @*/ Result<Dimensions> /*@ )
    requires all_factors_ok(old(components)@), size.width >= 1, size.height >= 1
    ensures final(components)@.len() == old(components)@.len(),
        forall|i: int| 0 <= i < old(components)@.len() ==> same_coding(#[trigger] final(components)@[i], old(components)@[i]),
        r matches Ok(mcu) && geom(size, final(components)@, mcu) @*/ {
    /*@ let ghost cs = components@; @*/
    let h_max = {
        let mut c = &components[0];
        let mut most = c.horizontal_sampling_factor;
        for ix in 1..components.len() /*@ invariant components@ == cs, 1 <= ix, ix == 1 || ix <= cs.len(), cs.len() >= 1, most == hmax(cs, ix as int) @*/ {
            c = &components[ix];
            if c.horizontal_sampling_factor > most {
                most = c.horizontal_sampling_factor;
            }
        }
        most
    } as u32;
    let v_max = {
        let mut c = &components[0];
        let mut most = c.vertical_sampling_factor;
        for ix in 1..components.len() /*@ invariant components@ == cs, 1 <= ix, ix == 1 || ix <= cs.len(), cs.len() >= 1, most == vmax(cs, ix as int) @*/ {
            c = &components[ix];
            if c.vertical_sampling_factor > most {
                most = c.vertical_sampling_factor;
            }
        }
        most
    } as u32;
    /*@ proof { max_bounds(cs, cs.len() as int); assert(factors_ok(cs[0]));
        grid_bound(size.width as int, 1, h_max as int); grid_bound(size.height as int, 1, v_max as int); } @*/
    let mcu_size = Dimensions {
        width: ceil_div(size.width as u32, h_max * 8)?,
        height: ceil_div(size.height as u32, v_max * 8)?,
    };
    for ix in /*@ it: @*/ 0..components.len() /*@
        invariant it.iter.end == cs.len(), components@.len() == cs.len(), all_factors_ok(cs), size.width >= 1, size.height >= 1,
            h_max == hmax(cs, cs.len() as int), v_max == vmax(cs, cs.len() as int), 1 <= h_max <= 4, 1 <= v_max <= 4,
            mcu_size.width == cdiv(size.width as int, 8 * h_max), mcu_size.height == cdiv(size.height as int, 8 * v_max),
            forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i].horizontal_sampling_factor <= h_max && cs[i].vertical_sampling_factor <= v_max,
            forall|i: int| 0 <= i < cs.len() ==> same_coding(#[trigger] components@[i], cs[i]),
            forall|i: int| 0 <= i < ix ==> comp_geom(size, h_max as int, v_max as int, #[trigger] components@[i]), @*/ {
        /*@ let ghost c0 = components@[ix as int];
        proof { assert(same_coding(c0, cs[ix as int])); assert(factors_ok(cs[ix as int]));
            let hf = c0.horizontal_sampling_factor as int; let vf = c0.vertical_sampling_factor as int; let sc = c0.dct_scale as int;
            scaled_bound(size.width as int, hf, sc, h_max as int); scaled_bound(size.height as int, vf, sc, v_max as int);
            grid_bound(size.width as int, hf, h_max as int); grid_bound(size.height as int, vf, v_max as int);
            assert(size.width * hf <= 65535 * 4) by (nonlinear_arith) requires size.width <= 65535, 1 <= hf <= 4;
            assert(size.height * vf <= 65535 * 4) by (nonlinear_arith) requires size.height <= 65535, 1 <= vf <= 4;
            assert(size.width * hf * sc <= 65535 * 4 * 8) by (nonlinear_arith) requires 0 <= size.width * hf <= 65535 * 4, 1 <= sc <= 8;
            assert(size.height * vf * sc <= 65535 * 4 * 8) by (nonlinear_arith) requires 0 <= size.height * vf <= 65535 * 4, 1 <= sc <= 8;
        } @*/
        let component = &mut components[ix];
        component.size.width = ceil_div(size.width as u32 * component.horizontal_sampling_factor as u32 * component.dct_scale as u32, h_max * 8)?;
        component.size.height = ceil_div(size.height as u32 * component.vertical_sampling_factor as u32 * component.dct_scale as u32, v_max * 8)?;
        component.block_size.width = mcu_size.width * component.horizontal_sampling_factor as u16;
        component.block_size.height = mcu_size.height * component.vertical_sampling_factor as u16;
    }
    /*@ proof {
        assert forall|i: int| 0 <= i < cs.len() implies same_factors(#[trigger] components@[i], cs[i]) by { assert(same_coding(components@[i], cs[i])); }
        max_same(components@, cs, cs.len() as int);
    } @*/
    Ok(mcu_size)
}
//@end
impl FrameInfo {
/// width and height at a scale of n/8
//@fn src/parser.rs FrameInfo::update_idct_size
//@rw for_mut
//@sub `( self . image_size . width as f32 * idct_size as f32 / 8.0 ) . ceil ( ) as u16` => `f32_scaled ( self . image_size . width , idct_size )`
//@sub `( self . image_size . height as f32 * idct_size as f32 / 8.0 ) . ceil ( ) as u16` => `f32_scaled ( self . image_size . height , idct_size )`
pub(crate) fn update_idct_size(&mut self, idct_size: usize) -> /*@ (r: @*/ Result<()> /*@ )
    requires all_factors_ok(old(self).components@), old(self).image_size.width >= 1, old(self).image_size.height >= 1, 1 <= idct_size <= 8
    ensures r is Ok, final(self).components@.len() == old(self).components@.len(),
        forall|i: int| 0 <= i < old(self).components@.len() ==> same_coding(#[trigger] final(self).components@[i], Component { dct_scale: idct_size, ..old(self).components@[i] }),
        (exists|m: Dimensions| #[trigger] geom(old(self).image_size, old(self).components@, m) && m == old(self).mcu_size) ==> geom(old(self).image_size, final(self).components@, old(self).mcu_size),
        exists|m: Dimensions| #[trigger] geom(old(self).image_size, final(self).components@, m),
        *final(self) == (FrameInfo { components: final(self).components, output_size: final(self).output_size, ..*old(self) }),
        final(self).output_size.width == cdiv(old(self).image_size.width * idct_size, 8), final(self).output_size.height == cdiv(old(self).image_size.height * idct_size, 8) @*/ {
    for ix in /*@ it: @*/ 0..self.components.len() /*@
        invariant it.iter.end == old(self).components@.len(), *self == (FrameInfo { components: self.components, ..*old(self) }), self.components@.len() == old(self).components@.len(), 1 <= idct_size <= 8,
            forall|i: int| 0 <= i < ix ==> #[trigger] self.components@[i] == (Component { dct_scale: idct_size, ..old(self).components@[i] }),
            forall|i: int| ix <= i < self.components@.len() ==> #[trigger] self.components@[i] == old(self).components@[i], @*/ {
        let component = &mut self.components[ix];
        component.dct_scale = idct_size;
    }
    /*@ proof { assert forall|i: int| 0 <= i < self.components@.len() implies factors_ok(#[trigger] self.components@[i]) by { assert(factors_ok(old(self).components@[i])); } } @*/
    /*@ let ghost cs1 = self.components@; @*/
    update_component_sizes(self.image_size, &mut self.components)?;
    /*@ proof {
        let cs2 = self.components@; let cs0 = old(self).components@;
        assert forall|i: int| 0 <= i < cs0.len() implies same_factors(#[trigger] cs0[i], cs2[i]) by { assert(same_coding(cs2[i], cs1[i])); }
        max_same(cs0, cs2, cs0.len() as int);
    } @*/
    self.output_size = Dimensions {
        width: f32_scaled(self.image_size.width, idct_size),
        height: f32_scaled(self.image_size.height, idct_size)
    };
    Ok(())
}
//@end
}
/// (w as f32 * n as f32 / 8.0).ceil() as u16
#[verifier::external_body]
pub fn f32_scaled(w: u16, n: usize) -> (r: u16) requires n <= 8 ensures r == cdiv(w * n, 8) { (w as f32 * n as f32 / 8.0).ceil() as u16 }
