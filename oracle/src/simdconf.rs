//! The contracts which proofs/simd.inc.rs assumes of the SSE2/SSSE3 intrinsics, written out as functions and
//! compared with the processor: a bounded test of a trusted assumption, not part of any proof.
#[cfg(target_arch = "x86_64")]
pub fn run(seed: u64, rounds: u64) -> Option<u64> {
    if !std::is_x86_feature_detected!("ssse3") { return None; }
    Some(unsafe { all(seed, rounds) })
}
#[cfg(not(target_arch = "x86_64"))]
pub fn run(_: u64, _: u64) -> Option<u64> { None }

#[cfg(target_arch = "x86_64")]
#[target_feature(enable = "ssse3")]
unsafe fn all(seed: u64, rounds: u64) -> u64 {
    use std::arch::x86_64::*;
    let by = |x: __m128i| -> [u8; 16] { let mut o = [0u8; 16]; _mm_storeu_si128(o.as_mut_ptr() as *mut _, x); o };
    let l = |v: &[u8; 16], k: usize| -> i64 { let x = v[2 * k] as i64 + 256 * v[2 * k + 1] as i64; s16(x) };
    fn s16(x: i64) -> i64 { if x < 32768 { x } else { x - 65536 } }
    fn cl16(x: i64) -> i64 { x.clamp(-32768, 32767) }
    fn hrs(a: i64, c: i64) -> i64 { if a == -32768 && c == -32768 { -32768 } else { (a * c + 16384).div_euclid(32768) } }
    fn clampi(x: i64) -> u8 { x.clamp(0, 255) as u8 }
    let mut r = crate::util::Rng::new(seed);
    let mut n = 0;
    for _ in 0..rounds {
        let mut v = [[0u8; 16]; 2];
        for x in v.iter_mut() {
            match r.below(3) {
                0 => for b in x.iter_mut() { *b = r.byte(); },
                1 => for k in 0..8 { let w = r.pick(&[0i16, 1, -1, 32767, -32768, 16384, -16384, 255, 256, 128, -128, 23170]); x[2 * k..2 * k + 2].copy_from_slice(&w.to_le_bytes()); },
                _ => for b in x.iter_mut() { *b = r.pick(&[0u8, 1, 15, 16, 127, 128, 129, 143, 255]); },
            }
        }
        let (a, b) = (v[0], v[1]);
        let (x, y) = (_mm_loadu_si128(a.as_ptr() as *const _), _mm_loadu_si128(b.as_ptr() as *const _));
        let mut lanes = |name: &str, got: __m128i, f: &dyn Fn(usize) -> i64| { let g = by(got); for k in 0..8 { assert_eq!(l(&g, k), f(k), "{name} lane {k} of {a:?} {b:?}"); n += 1; } };
        lanes("adds", _mm_adds_epi16(x, y), &|k| cl16(l(&a, k) + l(&b, k)));
        lanes("subs", _mm_subs_epi16(x, y), &|k| cl16(l(&a, k) - l(&b, k)));
        lanes("mulhrs", _mm_mulhrs_epi16(x, y), &|k| hrs(l(&a, k), l(&b, k)));
        lanes("mullo", _mm_mullo_epi16(x, y), &|k| s16((l(&a, k) * l(&b, k)).rem_euclid(65536)));
        lanes("slli", _mm_slli_epi16(x, 3), &|k| s16((l(&a, k) * 8).rem_euclid(65536)));
        lanes("slli", _mm_slli_epi16(x, 6), &|k| s16((l(&a, k) * 64).rem_euclid(65536)));
        lanes("srai", _mm_srai_epi16(x, 6), &|k| l(&a, k).div_euclid(64));
        lanes("srai", _mm_srai_epi16(x, 3), &|k| l(&a, k).div_euclid(8));
        lanes("unpacklo16", _mm_unpacklo_epi16(x, y), &|k| if k % 2 == 0 { l(&a, k / 2) } else { l(&b, k / 2) });
        lanes("unpackhi16", _mm_unpackhi_epi16(x, y), &|k| if k % 2 == 0 { l(&a, 4 + k / 2) } else { l(&b, 4 + k / 2) });
        lanes("unpacklo32", _mm_unpacklo_epi32(x, y), &|k| if k % 4 < 2 { l(&a, 2 * (k / 4) + k % 2) } else { l(&b, 2 * (k / 4) + k % 2) });
        lanes("unpackhi32", _mm_unpackhi_epi32(x, y), &|k| if k % 4 < 2 { l(&a, 4 + 2 * (k / 4) + k % 2) } else { l(&b, 4 + 2 * (k / 4) + k % 2) });
        lanes("unpacklo64", _mm_unpacklo_epi64(x, y), &|k| if k < 4 { l(&a, k) } else { l(&b, k - 4) });
        lanes("unpackhi64", _mm_unpackhi_epi64(x, y), &|k| if k < 4 { l(&a, 4 + k) } else { l(&b, k) });
        let c = i16::from_le_bytes([a[0], a[1]]);
        lanes("set1", _mm_set1_epi16(c), &|_| c as i64);
        lanes("zero", _mm_setzero_si128(), &|_| 0);
        let mut bytes = |name: &str, got: __m128i, f: &dyn Fn(usize) -> u8| { let g = by(got); for k in 0..16 { assert_eq!(g[k], f(k), "{name} byte {k} of {a:?} {b:?}"); n += 1; } };
        bytes("packus", _mm_packus_epi16(x, y), &|k| clampi(if k < 8 { l(&a, k) } else { l(&b, k - 8) }));
        bytes("shuffle", _mm_shuffle_epi8(x, y), &|k| if b[k] >= 128 { 0 } else { a[(b[k] % 16) as usize] });
        bytes("alignr15", _mm_alignr_epi8(x, y, 15), &|k| if k + 15 < 16 { b[k + 15] } else { a[k + 15 - 16] });
        bytes("alignr5", _mm_alignr_epi8(x, y, 5), &|k| if k + 5 < 16 { b[k + 5] } else { a[k + 5 - 16] });
        bytes("add8", _mm_add_epi8(x, y), &|k| ((a[k] as u32 + b[k] as u32) % 256) as u8);
        bytes("or", _mm_or_si128(x, y), &|k| a[k] | b[k]);
        bytes("set1_8", _mm_set1_epi8(a[3] as i8), &|_| a[3]);
        let e = |i: usize| a[i] as i8;
        bytes("setr", _mm_setr_epi8(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15)), &|k| a[k]);
    }
    n
}
