/// out is the clamped value of x / 1000000 rounded to nearest, give or take one level
pub open spec fn near(out: u8, x: int) -> bool { exists|v: int| #[trigger] clampi(v) == out && -1500000 <= 1000000 * v - x <= 1500000 }
pub open spec fn bt_r(y: u8, cb: u8, cr: u8) -> int { 1000000 * y + 1402000 * (cr - 128) }
pub open spec fn bt_g(y: u8, cb: u8, cr: u8) -> int { 1000000 * y - 344136 * (cb - 128) - 714136 * (cr - 128) }
pub open spec fn bt_b(y: u8, cb: u8, cr: u8) -> int { 1000000 * y + 1772000 * (cb - 128) }
pub open spec fn bt601(r: u8, g: u8, b: u8, y: u8, cb: u8, cr: u8) -> bool { near(r, bt_r(y, cb, cr)) && near(g, bt_g(y, cb, cr)) && near(b, bt_b(y, cb, cr)) }

/// the fixed-point formula of the portable conversion
pub open spec fn port_r(y: u8, cb: u8, cr: u8) -> int { clampi((1048576 * y + 524288 + 1470104 * (cr - 128)) / 1048576) }
pub open spec fn port_g(y: u8, cb: u8, cr: u8) -> int { clampi((1048576 * y + 524288 - 360857 * (cb - 128) - 748830 * (cr - 128)) / 1048576) }
pub open spec fn port_b(y: u8, cb: u8, cr: u8) -> int { clampi((1048576 * y + 524288 + 1858077 * (cb - 128)) / 1048576) }
//@item src/decoder.rs FIXED_POINT_OFFSET
const FIXED_POINT_OFFSET: i32 = 20;
//@end
//@item src/decoder.rs HALF
//@sub `const HALF : i32 = $$e ;` => `exec const HALF : i32 { $$e }`
/*@ @*/ exec const HALF: i32 /*@ ensures HALF == 524288 @*/ { /*@ assert(1i32 << 20 == 0x100000i32) by (bit_vector); @*/ (1 << FIXED_POINT_OFFSET) / 2 }
//@end
pub proof fn lemma_shr20(v: i32) ensures (v >> 20) as int * 1048576 <= v < ((v >> 20) as int + 1) * 1048576
{ assert((v >> 20) as i64 * 1048576 <= v as i64 && (v as i64) < ((v >> 20) as i64 + 1) * 1048576) by (bit_vector); }
//@fn src/decoder.rs clamp_fixed_point
//@rw clamp
fn clamp_fixed_point(value: i32) -> /*@ (r: @*/ u8 /*@ ) ensures r == clampi(value as int / 1048576), exists|v: int| v * 1048576 <= value < (v + 1) * 1048576 && #[trigger] clampi(v) == r @*/ {
    /*@ proof { lemma_shr20(value); assert(clampi((value >> 20) as int) == clampi((value >> 20) as int)); } @*/
    clamp_u8(value >> FIXED_POINT_OFFSET)
}
//@end
//@fn src/decoder.rs ycbcr_to_rgb
//@rw f2f
fn ycbcr_to_rgb(y: u8, cb: u8, cr: u8) -> /*@ (r: @*/ (u8, u8, u8) /*@ ) ensures bt601(r.0, r.1, r.2, y, cb, cr), r.0 == port_r(y, cb, cr), r.1 == port_g(y, cb, cr), r.2 == port_b(y, cb, cr) @*/ {
    /*@ let ghost (y0, cb0, cr0) = (y, cb, cr); assert(1i32 << 20 == 0x100000i32) by (bit_vector); @*/
    let y = y as i32 * (1 << FIXED_POINT_OFFSET) + HALF;
    let cb = cb as i32 - 128;
    let cr = cr as i32 - 128;
    let r = clamp_fixed_point(y + 1470104i32 * cr);
    let g = clamp_fixed_point(y - 360857i32 * cb - 748830i32 * cr);
    let b = clamp_fixed_point(y + 1858077i32 * cb);
    (r, g, b)
}
//@end
