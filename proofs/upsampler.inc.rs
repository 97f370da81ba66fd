// ---- choice of the interpolation, one line of the image ------------------------------------------------------
/// horizontal factor, vertical factor, replication; an axis of one sample has nothing to interpolate
pub open spec fn kind(sf: (u8, u8), m: (u8, u8), ow: int, oh: int) -> Option<(int, int, bool)> {
    let h1 = sf.0 == m.0 || ow == 1; let v1 = sf.1 == m.1 || oh == 1; let h2 = sf.0 * 2 == m.0; let v2 = sf.1 * 2 == m.1;
    if (h1 || h2) && (v1 || v2) { Some((if h1 { 1int } else { 2 }, if v1 { 1int } else { 2 }, false)) }
    else if m.0 as int % sf.0 as int != 0 || m.1 as int % sf.1 as int != 0 { None }
    else { Some((m.0 as int / sf.0 as int, m.1 as int / sf.1 as int, true)) }
}
/// the factors are the ratios of the sampling factors
pub proof fn kind_is_ratio(sf: (u8, u8), m: (u8, u8), ow: int, oh: int)
    requires 1 <= sf.0 <= m.0 <= 4, 1 <= sf.1 <= m.1 <= 4
    ensures kind(sf, m, ow, oh) matches Some(k) ==> 1 <= k.0 <= 4 && 1 <= k.1 <= 4 && (k.0 * sf.0 == m.0 || ow == 1 && k.0 == 1) && (k.1 * sf.1 == m.1 || oh == 1 && k.1 == 1),
        kind(sf, m, ow, oh) is None ==> m.0 as int % sf.0 as int != 0 || m.1 as int % sf.1 as int != 0
{
    let (a, b, c, d) = (sf.0 as int, m.0 as int, sf.1 as int, m.1 as int);
    assert(b % a == 0 ==> (b / a) * a == b && 1 <= b / a <= 4) by (nonlinear_arith) requires 1 <= a <= b <= 4;
    assert(d % c == 0 ==> (d / c) * c == d && 1 <= d / c <= 4) by (nonlinear_arith) requires 1 <= c <= d <= 4;
    assert(a == b ==> b % a == 0 && b / a == 1) by (nonlinear_arith) requires a >= 1; assert(c == d ==> d % c == 0 && d / c == 1) by (nonlinear_arith) requires c >= 1;
}
//@fn src/upsampler.rs choose_upsampler
//@sub `dyn Upsample + Sync` => `dyn Upsample`
fn choose_upsampler(sampling_factors: (u8, u8),
                    max_sampling_factors: (u8, u8),
                    output_width: u16,
                    output_height: u16) -> /*@ (r: @*/ Result<Box<dyn Upsample>> /*@ )
    requires 1 <= sampling_factors.0 <= max_sampling_factors.0 <= 4, 1 <= sampling_factors.1 <= max_sampling_factors.1 <= 4,
    ensures match kind(sampling_factors, max_sampling_factors, output_width as int, output_height as int) {
        Some(k) => r matches Ok(b) && b.hf() == k.0 && b.vf() == k.1 && b.nearest() == k.2,
        None => r matches Err(e) && e == Error::Unsupported(UnsupportedFeature::NonIntegerSubsamplingRatio) } @*/ {
    /*@ proof { kind_is_ratio(sampling_factors, max_sampling_factors, output_width as int, output_height as int); } @*/
    let h1 = sampling_factors.0 == max_sampling_factors.0 || output_width == 1;
    let v1 = sampling_factors.1 == max_sampling_factors.1 || output_height == 1;
    let h2 = sampling_factors.0 * 2 == max_sampling_factors.0;
    let v2 = sampling_factors.1 * 2 == max_sampling_factors.1;

    if h1 && v1 {
        Ok(Box::new(UpsamplerH1V1))
    } else if h2 && v1 {
        Ok(Box::new(UpsamplerH2V1))
    } else if h1 && v2 {
        Ok(Box::new(UpsamplerH1V2))
    } else if h2 && v2 {
        Ok(Box::new(UpsamplerH2V2))
    } else if max_sampling_factors.0 % sampling_factors.0 != 0
        || max_sampling_factors.1 % sampling_factors.1 != 0
    {
        Err(Error::Unsupported(
            UnsupportedFeature::NonIntegerSubsamplingRatio,
        ))
    } else {
        Ok(Box::new(UpsamplerGeneric {
            horizontal_scaling_factor: max_sampling_factors.0 / sampling_factors.0,
            vertical_scaling_factor: max_sampling_factors.1 / sampling_factors.1,
        }))
    }
}
//@end
//@item src/upsampler.rs Upsampler
pub struct Upsampler {
    components: Vec<UpsamplerComponent>,
    line_buffer_size: usize
}
//@end
//@item src/upsampler.rs UpsamplerComponent
//@sub `dyn Upsample + Sync` => `dyn Upsample`
struct UpsamplerComponent {
    upsampler: Box<dyn Upsample>,
    width: usize,
    height: usize,
    row_stride: usize,
}
//@end
/// what the geometry guarantees about one component of an image of ow x oh samples: it covers the image at its ratio
pub open spec fn covering(c: Component, hm: int, vm: int, ow: int, oh: int) -> bool {
    1 <= c.size.width && 1 <= c.size.height && 1 <= c.dct_scale <= 8 && c.size.width <= c.block_size.width * c.dct_scale
        && (hm % c.horizontal_sampling_factor as int == 0 ==> c.size.width * hm >= ow * c.horizontal_sampling_factor) && (vm % c.vertical_sampling_factor as int == 0 ==> c.size.height * vm >= oh * c.vertical_sampling_factor)
}
pub open spec fn stride_of(c: Component) -> int { c.block_size.width * c.dct_scale }
pub open spec fn kind_of(cs: Seq<Component>, i: int, ow: int, oh: int) -> Option<(int, int, bool)> {
    kind((cs[i].horizontal_sampling_factor, cs[i].vertical_sampling_factor), (hmax(cs, cs.len() as int) as u8, vmax(cs, cs.len() as int) as u8), ow, oh)
}
pub open spec fn ratios_supported(cs: Seq<Component>, ow: int, oh: int) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] kind_of(cs, i, ow, oh)) is Some }
pub closed spec fn comp_ready(u: UpsamplerComponent, cs: Seq<Component>, i: int, ow: int, oh: int, buf: int) -> bool {
    kind_of(cs, i, ow, oh) matches Some(k) && u.upsampler.hf() == k.0 && u.upsampler.vf() == k.1 && u.upsampler.nearest() == k.2
        && u.width == cs[i].size.width && u.height == cs[i].size.height && u.row_stride == stride_of(cs[i]) && k.0 * cs[i].size.width <= buf
}
impl Upsampler {
    pub closed spec fn ready(&self, cs: Seq<Component>, ow: int, oh: int) -> bool {
        self.components.len() == cs.len() && self.line_buffer_size <= 65535 * 4 && forall|i: int| 0 <= i < cs.len() ==> #[trigger] comp_ready(self.components@[i], cs, i, ow, oh, self.line_buffer_size as int)
    }
}
pub open spec fn widest(cs: Seq<Component>, n: int) -> int decreases n { if n <= 0 { 0 } else { let r = widest(cs, n - 1); if cs[n - 1].size.width > r { cs[n - 1].size.width as int } else { r } } }
pub proof fn widest_bounds(cs: Seq<Component>, n: int) requires 0 <= n <= cs.len() ensures 0 <= widest(cs, n) <= 65535, forall|i: int| 0 <= i < n ==> #[trigger] cs[i].size.width <= widest(cs, n) decreases n { if n > 0 { widest_bounds(cs, n - 1); } }
/// conversion of one line: any of the functions of unit transform, as a first-order value
#[derive(Clone, Copy)] pub struct ConvertFn { pub opaque: u8 }
pub uninterp spec fn conv_ok(f: ConvertFn, lines: Seq<Vec<u8>>, o0: Seq<u8>, o: Seq<u8>) -> bool;
pub uninterp spec fn conv_takes(f: ConvertFn) -> int;
/// the contract of ConvertFn::call in unit transform
#[verifier::external_body]
pub fn call_convert(f: ConvertFn, data: &[Vec<u8>], output: &mut [u8])
    requires data.len() == conv_takes(f), data.len() >= 1, old(output).len() as int % data.len() as int == 0, forall|c: int| 0 <= c < data.len() ==> (#[trigger] data[c])@.len() >= old(output).len() as int / data.len() as int
    ensures conv_ok(f, data@, old(output)@, final(output)@), final(output).len() == old(output).len()
{ unimplemented!() }
pub fn zero_lines(n: usize, count: usize) -> (r: Vec<Vec<u8>>) ensures r.len() == count, forall|i: int| 0 <= i < count ==> (#[trigger] r@[i]).len() == n {
    let mut v: Vec<Vec<u8>> = Vec::new();
    for k in 0..count invariant v.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).len() == n { let mut l: Vec<u8> = Vec::new(); l.resize(n, 0u8); v.push(l); }
    v
}
/// the planes hold every row of their components
pub open spec fn planes_ok(data: Seq<Vec<u8>>, cs: Seq<Component>) -> bool {
    data.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> plane_ok((#[trigger] data[i])@, cs[i].size.width as int, cs[i].size.height as int, stride_of(cs[i]))
}
pub open spec fn lines_ok(lines: Seq<Vec<u8>>, data: Seq<Vec<u8>>, cs: Seq<Component>, ow: int, oh: int, row: int, n: int) -> bool {
    lines.len() == cs.len() && forall|i: int| 0 <= i < n ==> line_of((#[trigger] lines[i])@, data, cs, ow, oh, row, i)
}
pub open spec fn line_of(line: Seq<u8>, data: Seq<Vec<u8>>, cs: Seq<Component>, ow: int, oh: int, row: int, i: int) -> bool {
    kind_of(cs, i, ow, oh) matches Some(k) && line.len() >= ow && line_ok(k.0, k.1, k.2, data[i]@, cs[i].size.width as int, cs[i].size.height as int, stride_of(cs[i]), row, ow, line)
}
/// the sizes that the frame header parser and the scaling derive cover the image
pub proof fn geometry_covers(size: Dimensions, cs: Seq<Component>, mcu: Dimensions, i: int, ow: int, oh: int)
    requires geom(size, cs, mcu), all_factors_ok(cs), 0 <= i < cs.len() <= 255, 1 <= cs[i].dct_scale <= 8, size.width >= 1, size.height >= 1, ow == cdiv(size.width * cs[i].dct_scale, 8), oh == cdiv(size.height * cs[i].dct_scale, 8)
    ensures covering(cs[i], hmax(cs, cs.len() as int), vmax(cs, cs.len() as int), ow, oh)
{
    let c = cs[i]; let (hm, vm) = (hmax(cs, cs.len() as int), vmax(cs, cs.len() as int)); let (h, v, s, w, g) = (c.horizontal_sampling_factor as int, c.vertical_sampling_factor as int, c.dct_scale as int, size.width as int, size.height as int);
    max_bounds(cs, cs.len() as int); assert(factors_ok(c)); assert(comp_geom(size, hm, vm, c));
    axis_covers(w, h, hm, s); axis_covers(g, v, vm, s);
}
pub proof fn axis_covers(w: int, h: int, hm: int, s: int) requires 1 <= w <= 65535, 1 <= h <= hm <= 4, 1 <= s <= 8
    ensures 1 <= cdiv(w * h * s, 8 * hm) <= cdiv(w, 8 * hm) * h * s, hm % h == 0 ==> cdiv(w * h * s, 8 * hm) * hm >= cdiv(w * s, 8) * h
{
    let a = w * s; let q = cdiv(w * h * s, 8 * hm);
    scaled_bound(w, h, s, hm);
    assert(w * h * s == a * h) by (nonlinear_arith) requires a == w * s;
    cdiv_alt(w * h * s, 8 * hm);
    cdiv_alt(a * h, 8 * hm);
    assert(a >= 1) by (nonlinear_arith) requires w >= 1, s >= 1, a == w * s;
    assert(q * (8 * hm) >= a * h && (q - 1) * (8 * hm) < a * h) by (nonlinear_arith) requires q == (a * h + 8 * hm - 1) / (8 * hm), hm >= 1;
    let b = cdiv(w, 8 * hm);
    assert(b * (8 * hm) >= w) by (nonlinear_arith) requires b == (w + 8 * hm - 1) / (8 * hm), hm >= 1;
    assert(b * h * s * (8 * hm) >= a * h) by (nonlinear_arith) requires b * (8 * hm) >= w, a == w * s, h >= 1, s >= 1;
    let z = b * h * s;
    assert(q <= z) by (nonlinear_arith) requires (q - 1) * (8 * hm) < a * h, z * (8 * hm) >= a * h, hm >= 1;
    if hm % h == 0 {
        let k = hm / h; let o = cdiv(a, 8);
        assert(k * h == hm && k >= 1) by (nonlinear_arith) requires k == hm / h, hm % h == 0, 1 <= h <= hm;
        assert(q * k * 8 >= a) by (nonlinear_arith) requires q * (8 * hm) >= a * h, k * h == hm, h >= 1;
        let qk = q * k;
        assert(o <= qk);
        assert(q * hm == qk * h) by (nonlinear_arith) requires k * h == hm, qk == q * k;
        assert(qk * h >= o * h) by (nonlinear_arith) requires o <= qk, h >= 1;
    }
}
/// the row is in range of a component that covers the image
pub proof fn row_fits(c: Component, k: (int, int, bool), hm: int, vm: int, ow: int, oh: int, row: int)
    requires covering(c, hm, vm, ow, oh), 0 <= row < oh, 1 <= ow, 1 <= c.horizontal_sampling_factor <= hm <= 4, 1 <= c.vertical_sampling_factor <= vm <= 4, 1 <= k.0, 1 <= k.1,
        k.0 * c.horizontal_sampling_factor == hm || ow == 1 && k.0 == 1, k.1 * c.vertical_sampling_factor == vm || oh == 1 && k.1 == 1
    ensures row < k.1 * c.size.height, ow <= k.0 * c.size.width
{
    let (h, v, w, g) = (c.horizontal_sampling_factor as int, c.vertical_sampling_factor as int, c.size.width as int, c.size.height as int);
    if k.1 * v == vm { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k.1, v); assert(k.1 * g >= oh) by (nonlinear_arith) requires k.1 * v == vm, g * vm >= oh * v, v >= 1; } else { assert(k.1 * g == g) by (nonlinear_arith) requires k.1 == 1; }
    if k.0 * h == hm { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k.0, h); assert(k.0 * w >= ow) by (nonlinear_arith) requires k.0 * h == hm, w * hm >= ow * h, h >= 1; } else { assert(k.0 * w == w) by (nonlinear_arith) requires k.0 == 1; }
}
impl Upsampler {
//@fn src/upsampler.rs Upsampler::new
//@rw max_field
//@sub `for $c in components {` => `for k in 0 .. components . len ( ) { let $c = & components [ k ] ;`
    pub fn new(components: &[Component], output_width: u16, output_height: u16) -> /*@ (r: @*/ Result<Upsampler> /*@ )
        requires 1 <= components.len() <= 255, all_factors_ok(components@), output_width >= 1, output_height >= 1,
            forall|i: int| 0 <= i < components.len() ==> #[trigger] covering(components@[i], hmax(components@, components.len() as int), vmax(components@, components.len() as int), output_width as int, output_height as int)
        ensures ratios_supported(components@, output_width as int, output_height as int) ==> r is Ok,
            match r { Ok(u) => ratios_supported(components@, output_width as int, output_height as int) && u.ready(components@, output_width as int, output_height as int),
                Err(e) => !ratios_supported(components@, output_width as int, output_height as int) && e == Error::Unsupported(UnsupportedFeature::NonIntegerSubsamplingRatio) } @*/ {
        /*@ let ghost (cs, n, ow, oh) = (components@, components.len() as int, output_width as int, output_height as int); proof { max_bounds(cs, n); max_one(cs); } @*/
        let h_max = {
            let mut c = &components[0];
            let mut most = c.horizontal_sampling_factor;
            for ix in /*@ it: @*/ 1..components.len() /*@ invariant it.iter.end == n, n == components.len(), cs == components@, most == hmax(cs, ix as int) @*/ {
                c = &components[ix];
                if c.horizontal_sampling_factor > most {
                    most = c.horizontal_sampling_factor;
                }
            }
            most
        };
        let v_max = {
            let mut c = &components[0];
            let mut most = c.vertical_sampling_factor;
            for ix in /*@ it: @*/ 1..components.len() /*@ invariant it.iter.end == n, n == components.len(), cs == components@, most == vmax(cs, ix as int) @*/ {
                c = &components[ix];
                if c.vertical_sampling_factor > most {
                    most = c.vertical_sampling_factor;
                }
            }
            most
        };
        let mut upsampler_components = Vec::with_capacity(components.len());
        /*@ proof { widest_bounds(cs, n); } let ghost buf = widest(cs, n) * h_max; assert(buf <= 65535 * 4) by (nonlinear_arith) requires buf == widest(cs, n) * h_max, 0 <= widest(cs, n) <= 65535, h_max <= 4; @*/
        for k in /*@ it: @*/ 0..components.len() /*@ invariant it.iter.end == n, n == components.len(), cs == components@, all_factors_ok(cs), h_max == hmax(cs, n), v_max == vmax(cs, n), 1 <= h_max <= 4, 1 <= v_max <= 4, ow == output_width, oh == output_height,
            upsampler_components.len() == k, buf == widest(cs, n) * h_max, forall|i: int| 0 <= i < n ==> #[trigger] cs[i].horizontal_sampling_factor <= h_max && cs[i].vertical_sampling_factor <= v_max,
            forall|i: int| 0 <= i < n ==> #[trigger] cs[i].size.width <= widest(cs, n),
            forall|i: int| 0 <= i < n ==> #[trigger] covering(cs[i], h_max as int, v_max as int, ow, oh),
            forall|i: int| 0 <= i < k ==> #[trigger] comp_ready(upsampler_components@[i], cs, i, ow, oh, buf) @*/ {
            let component = &components[k];
            /*@ assert(factors_ok(cs[k as int])); assert(covering(cs[k as int], h_max as int, v_max as int, ow, oh)); proof { kind_is_ratio((component.horizontal_sampling_factor, component.vertical_sampling_factor), (h_max, v_max), ow, oh); } 
                assert(kind_of(cs, k as int, ow, oh) == kind((component.horizontal_sampling_factor, component.vertical_sampling_factor), (h_max, v_max), ow, oh));
                let ghost (bw, ds) = (component.block_size.width as int, component.dct_scale as int); assert(0 <= bw * ds <= 65535 * 8) by (nonlinear_arith) requires 0 <= bw <= 65535, 1 <= ds <= 8; @*/
            let upsampler = choose_upsampler((component.horizontal_sampling_factor,
                                              component.vertical_sampling_factor),
                                             (h_max, v_max),
                                             output_width,
                                             output_height)?;
            upsampler_components.push(UpsamplerComponent {
                upsampler,
                width: component.size.width as usize,
                height: component.size.height as usize,
                row_stride: component.block_size.width as usize * component.dct_scale,
            });
            /*@ assert(comp_ready(upsampler_components@[k as int], cs, k as int, ow, oh, buf)) by {
                let u = upsampler_components@[k as int]; let (w, f, m) = (cs[k as int].size.width as int, u.upsampler.hf(), widest(cs, n));
                assert(f <= h_max) by (nonlinear_arith) requires f * component.horizontal_sampling_factor == h_max || f == 1, component.horizontal_sampling_factor >= 1, h_max >= 1, f >= 1;
                assert(f * w <= m * h_max) by (nonlinear_arith) requires 1 <= f <= h_max, 0 <= w <= m;
            } @*/
        }
        /*@ proof { assert(forall|i: int| 0 <= i < n ==> (#[trigger] kind_of(cs, i, ow, oh)) is Some) by { assert forall|i: int| 0 <= i < n implies (#[trigger] kind_of(cs, i, ow, oh)) is Some by { assert(comp_ready(upsampler_components@[i], cs, i, ow, oh, buf)); } } } @*/
        let buffer_size = {
            let mut c = &components[0];
            let mut most = c.size.width;
            for ix in /*@ it: @*/ 1..components.len() /*@ invariant it.iter.end == n, n == components.len(), cs == components@, most == widest(cs, ix as int) @*/ {
                c = &components[ix];
                if c.size.width > most {
                    most = c.size.width;
                }
            }
            most
        } as usize * h_max as usize;

        Ok(Upsampler {
            components: upsampler_components,
            line_buffer_size: buffer_size
        })
    }
//@end
//@fn src/upsampler.rs Upsampler::upsample_and_interleave_row
//@sub `color_convert : fn ( & [ Vec < u8 > ] , & mut [ u8 ] )` => `color_convert : ConvertFn`
//@sub `vec ! [ vec ! [ 0u8 ; $$n ] ; $$c ]` => `zero_lines ( $$n , $$c )`
//@sub `debug_assert_eq ! ( $$a , $$b ) ;` => `assert_exec ( $$a == $$b ) ;`
//@sub `for ( $i , $c ) in self . components . iter ( ) . enumerate ( ) {` => `for $i in 0 .. self . components . len ( ) { let $c = & self . components [ $i ] ;`
//@sub `color_convert ( $$a )` => `call_convert ( color_convert , $$a )`
//@sub `& mut line_buffers [ i ]` => `line_buffers [ i ] . as_mut_slice ( )`
//@sub `upsample_row ( & component_data [ i ]` => `upsample_row ( component_data [ i ] . as_slice ( )`
//@sub `& line_buffers` => `line_buffers . as_slice ( )`
    pub fn upsample_and_interleave_row(&self, /*@ Ghost(cs): Ghost<Seq<Component>>, Ghost(oh): Ghost<int>, @*/ component_data: &[Vec<u8>], row: usize, output_width: usize, output: &mut [u8], color_convert: ConvertFn) /*@
        requires self.ready(cs, output_width as int, oh), all_factors_ok(cs), 1 <= cs.len() <= 255, planes_ok(component_data@, cs), 0 <= row < oh <= 65535, output_width >= 1, conv_takes(color_convert) == cs.len(), old(output).len() == output_width * cs.len(),
            forall|i: int| 0 <= i < cs.len() ==> #[trigger] covering(cs[i], hmax(cs, cs.len() as int), vmax(cs, cs.len() as int), output_width as int, oh)
        ensures final(output).len() == old(output).len(), exists|lines: Seq<Vec<u8>>| lines_ok(lines, component_data@, cs, output_width as int, oh, row as int, cs.len() as int) && #[trigger] conv_ok(color_convert, lines, old(output)@, final(output)@) @*/ {
        /*@ let ghost (ow, n, hm, vm) = (output_width as int, cs.len() as int, hmax(cs, cs.len() as int), vmax(cs, cs.len() as int)); proof { max_bounds(cs, n); } @*/
        let component_count = component_data.len();
        let mut line_buffers = zero_lines(self.line_buffer_size, component_count);

        assert_exec(component_count == self.components.len());

        for i in /*@ it: @*/ 0..self.components.len() /*@ invariant it.iter.end == n, self.ready(cs, ow, oh), all_factors_ok(cs), n == cs.len(), n <= 255, planes_ok(component_data@, cs), 0 <= row < oh <= 65535, ow == output_width, ow >= 1, hm == hmax(cs, n), vm == vmax(cs, n), 1 <= hm <= 4, 1 <= vm <= 4,
            forall|i: int| 0 <= i < n ==> #[trigger] cs[i].horizontal_sampling_factor <= hm && cs[i].vertical_sampling_factor <= vm,
            forall|i: int| 0 <= i < n ==> #[trigger] covering(cs[i], hm, vm, ow, oh), line_buffers.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] line_buffers@[k]).len() == self.line_buffer_size,
            lines_ok(line_buffers@, component_data@, cs, ow, oh, row as int, i as int) @*/ {
            let component = &self.components[i];
            /*@ assert(comp_ready(self.components@[i as int], cs, i as int, ow, oh, self.line_buffer_size as int)); assert(factors_ok(cs[i as int])); assert(covering(cs[i as int], hm, vm, ow, oh)); assert(plane_ok(component_data@[i as int]@, cs[i as int].size.width as int, cs[i as int].size.height as int, stride_of(cs[i as int])));
                let ghost kk = kind_of(cs, i as int, ow, oh)->0; let ghost before = line_buffers@;
                proof { kind_is_ratio((cs[i as int].horizontal_sampling_factor, cs[i as int].vertical_sampling_factor), (hm as u8, vm as u8), ow, oh); row_fits(cs[i as int], kk, hm, vm, ow, oh, row as int); } @*/
            component.upsampler.upsample_row(component_data[i].as_slice(),
                                             component.width,
                                             component.height,
                                             component.row_stride,
                                             row,
                                             output_width,
                                             line_buffers[i].as_mut_slice());
            /*@ assert(line_of(line_buffers@[i as int]@, component_data@, cs, ow, oh, row as int, i as int));
                assert forall|k: int| 0 <= k < i + 1 implies line_of((#[trigger] line_buffers@[k])@, component_data@, cs, ow, oh, row as int, k) by { if k < i { assert(line_buffers@[k] == before[k]); assert(line_of(before[k]@, component_data@, cs, ow, oh, row as int, k)); } } @*/
        }
        /*@ assert(ow * n / n == ow && (ow * n) % n == 0) by (nonlinear_arith) requires n >= 1; 
            assert forall|c: int| 0 <= c < n implies (#[trigger] line_buffers@[c])@.len() >= ow by { assert(line_of(line_buffers@[c]@, component_data@, cs, ow, oh, row as int, c)); } @*/
        call_convert(color_convert, line_buffers.as_slice(), output);
    }
//@end
}
pub proof fn max_one(cs: Seq<Component>) requires cs.len() >= 1, all_factors_ok(cs) ensures hmax(cs, 1) == cs[0].horizontal_sampling_factor, vmax(cs, 1) == cs[0].vertical_sampling_factor, widest(cs, 1) == cs[0].size.width
{ assert(factors_ok(cs[0])); assert(hmax(cs, 0) <= 0 || true); reveal_with_fuel(hmax, 3); reveal_with_fuel(vmax, 3); reveal_with_fuel(widest, 3); }
