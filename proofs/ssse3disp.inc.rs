// ---- dispatch: crate::arch, and the call sites' contracts --------------------------------------------------------
/// is_x86_feature_detected!("ssse3"): whether the processor executes the SSSE3 instructions
pub uninterp spec fn cpu_ssse3() -> bool;
#[verifier::external_body]
pub fn detect_ssse3() -> (r: bool) ensures r == cpu_ssse3() { unimplemented!() }
/// the functions behind the returned pointers, as first-order values
#[derive(Clone, Copy)] pub enum LineFn { Ssse3 }
#[derive(Clone, Copy)] pub enum BlockFn { Ssse3 }
/// functions compiled with target_feature(ssse3) must not be called without it
pub fn needs(Ghost(b): Ghost<bool>) requires b { }
impl LineFn {
    pub fn call(&self, y: &[u8], cb: &[u8], cr: &[u8], output: &mut [u8]) -> (n: usize)
        requires cpu_ssse3(), old(output).len() % 3 == 0, y@.len() >= old(output).len() / 3, cb@.len() >= old(output).len() / 3, cr@.len() >= old(output).len() / 3,
        ensures n <= old(output).len() / 3, pixels_done(old(output)@, final(output)@, y@, cb@, cr@, n as int)
    { needs(Ghost(cpu_ssse3())); color_convert_line_ycbcr(y, cb, cr, output) }
}
impl BlockFn {
    pub fn call(&self, coefficients: &[i16; 64], quantization_table: &[u16; 64], output_linestride: usize, output: &mut [u8])
        requires cpu_ssse3(), output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
        ensures outside(old(output)@, final(output)@, output_linestride as int, 8), simd_block(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8))
    { needs(Ghost(cpu_ssse3())); dequantize_and_idct_block_8x8(coefficients, quantization_table, output_linestride, output) }
}
//@fn src/arch/mod.rs get_color_convert_line_ycbcr
//@sub `-> Option < unsafe fn ( & [ u8 ] , & [ u8 ] , & [ u8 ] , & mut [ u8 ] ) -> usize >` => `-> Option < LineFn >`
//@sub `is_x86_feature_detected ! ( "ssse3" )` => `detect_ssse3 ( )`
//@sub `ssse3 :: color_convert_line_ycbcr` => `LineFn :: Ssse3`
//@sub `{ return Some ( neon :: $f ) ; }` => ``
//@sub `{ return Some ( wasm :: $f ) ; }` => ``
pub fn get_color_convert_line_ycbcr() -> /*@ (r: @*/ Option<LineFn> /*@ ) ensures r is Some ==> cpu_ssse3() @*/ {
    {
        if detect_ssse3() {
            return Some(LineFn::Ssse3);
        }
    }
    None
}
//@end
//@fn src/arch/mod.rs get_dequantize_and_idct_block_8x8
//@sub `-> Option < unsafe fn ( & [ i16 ; 64 ] , & [ u16 ; 64 ] , usize , & mut [ u8 ] ) >` => `-> Option < BlockFn >`
//@sub `is_x86_feature_detected ! ( "ssse3" )` => `detect_ssse3 ( )`
//@sub `ssse3 :: dequantize_and_idct_block_8x8` => `BlockFn :: Ssse3`
//@sub `{ return Some ( neon :: $f ) ; }` => ``
//@sub `{ return Some ( wasm :: $f ) ; }` => ``
pub fn get_dequantize_and_idct_block_8x8() -> /*@ (r: @*/ Option<BlockFn> /*@ ) ensures r is Some ==> cpu_ssse3() @*/ {
    {
        if detect_ssse3() {
            return Some(BlockFn::Ssse3);
        }
    }
    None
}
//@end
/// what the units color and idct8 assume of the dispatch (arch_convert, arch_idct there): proved here
pub fn arch_convert_holds(y: &Vec<u8>, cb: &Vec<u8>, cr: &Vec<u8>, output: &mut [u8]) -> (n: usize)
    requires old(output).len() % 3 == 0, y@.len() >= old(output).len() as int / 3, cb@.len() >= old(output).len() as int / 3, cr@.len() >= old(output).len() as int / 3
    ensures n <= old(output).len() as int / 3, final(output).len() == old(output).len(),
        forall|p: int| 0 <= p < n ==> #[trigger] bt601(final(output)@[p * 3], final(output)@[p * 3 + 1], final(output)@[p * 3 + 2], y@[p], cb@[p], cr@[p]),
        forall|i: int| n * 3 <= i < old(output).len() ==> #[trigger] final(output)@[i] == old(output)@[i],
{
    hide(bt601); let ghost o0 = output@;
    if let Some(f) = get_color_convert_line_ycbcr() {
        let n = f.call(y.as_slice(), cb.as_slice(), cr.as_slice(), output);
        proof { assert forall|p: int| 0 <= p < n implies #[trigger] bt601(output@[p * 3], output@[p * 3 + 1], output@[p * 3 + 2], y@[p], cb@[p], cr@[p]) by { assert(simd_px(output@[p * 3], output@[p * 3 + 1], output@[p * 3 + 2], y@[p], cb@[p], cr@[p])); } }
        n
    } else { 0 }
}
pub fn arch_idct_holds(coefficients: &[i16; 64], quantization_table: &[u16; 64], output_linestride: usize, output: &mut [u8]) -> (r: bool)
    requires output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
    ensures r ==> outside(old(output)@, final(output)@, output_linestride as int, 8) && simd_block(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8)), !r ==> final(output)@ == old(output)@,
{
    hide(outside); hide(simd_block); hide(cut);
    if let Some(f) = get_dequantize_and_idct_block_8x8() { f.call(coefficients, quantization_table, output_linestride, output); true } else { false }
}
