//! Random numbers, bit writer and canonical Huffman tables (written from T.81, independent of the crate).

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 { r.u64(); }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % (n as u64)) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())] }
    pub fn byte(&mut self) -> u8 { self.u64() as u8 }
}

pub struct BitWriter { pub out: Vec<u8>, acc: u32, n: u32 }
impl BitWriter {
    pub fn new() -> BitWriter { BitWriter { out: vec![], acc: 0, n: 0 } }
    pub fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                let b = self.acc as u8;
                self.out.push(b);
                if b == 0xFF { self.out.push(0); }
                self.acc = 0; self.n = 0;
            }
        }
    }
    pub fn flush(&mut self, ones: bool) {
        while self.n != 0 { self.put(ones as u32, 1); }
    }
}

/// Canonical code per Annex C: list of (symbol, code, length).
#[derive(Clone, Debug)]
pub struct Huff { pub bits: [u8; 16], pub vals: Vec<u8>, pub codes: Vec<(u8, u32, u32)>, pub maxc: [i32; 17], pub minc: [i32; 17], pub valptr: [usize; 17] }
impl Huff {
    /// None when the length list over-subscribes the code space.
    pub fn new(bits: [u8; 16], vals: Vec<u8>) -> Option<Huff> {
        let mut codes = vec![];
        let mut code: u32 = 0;
        let mut k = 0;
        let (mut maxc, mut minc, mut valptr) = ([-1i32; 17], [0i32; 17], [0usize; 17]);
        for l in 1..=16usize {
            let n = bits[l - 1] as usize;
            if n > 0 { minc[l] = code as i32; valptr[l] = k; }
            for _ in 0..n {
                if code >= 1 << l { return None; }
                codes.push((*vals.get(k)?, code, l as u32));
                code += 1; k += 1;
            }
            if n > 0 { maxc[l] = code as i32 - 1; }
            code <<= 1;
        }
        Some(Huff { bits, vals, codes, maxc, minc, valptr })
    }
    pub fn code(&self, sym: u8) -> Option<(u32, u32)> { self.codes.iter().find(|c| c.0 == sym).map(|c| (c.1, c.2)) }

    /// Random prefix code containing all of `syms` (and some extra symbols), `skew` favours long codes.
    pub fn random(r: &mut Rng, syms: &[u8], extra: usize, skew: bool) -> Huff {
        let mut all: Vec<u8> = vec![];
        for &s in syms { if !all.contains(&s) { all.push(s); } }
        for _ in 0..extra { let s = r.byte(); if !all.contains(&s) { all.push(s); } }
        if all.is_empty() { all.push(0); }
        // shuffle
        for i in (1..all.len()).rev() { let j = r.below(i + 1); all.swap(i, j); }
        let full = r.chance(1, 4);
        let want = all.len() + if full && all.len() > 1 { 0 } else { 1 };
        // sometimes every code is long, so that the lookup table is empty
        let base = if skew && all.len() < 100 && r.chance(1, 5) { if all.len() > 20 { 9 } else { 9 + r.below(3) as u8 } } else { 0 };
        let mut leaves: Vec<u8> = vec![base];
        let mut guard = 0;
        while leaves.len() < want {
            guard += 1;
            let i = if skew && r.chance(3, 4) && guard < 4000 {
                let m = (0..leaves.len()).filter(|&i| leaves[i] < 16).max_by_key(|&i| leaves[i]).expect("room for another code");
                m
            } else { r.below(leaves.len()) };
            if leaves[i] >= 16 { continue; }
            leaves[i] += 1;
            let d = leaves[i];
            leaves.push(d);
        }
        leaves.sort();
        if want > all.len() && leaves.len() > 1 { leaves.pop(); }
        let mut bits = [0u8; 16];
        if leaves.iter().any(|&d| d == 0) { leaves = vec![1]; }
        for &d in &leaves {
            if bits[d as usize - 1] == 255 { return Huff::random(r, syms, 0, false); }
            bits[d as usize - 1] += 1;
        }
        Huff::new(bits, all).expect("constructed code is prefix free")
    }
}

pub const ZZ: [usize; 64] = {
    // zig-zag scan generated from its definition (T.81 figure 5)
    let mut z = [0usize; 64];
    let (mut x, mut y) = (0i32, 0i32);
    let mut i = 0;
    while i < 64 {
        z[i] = (y * 8 + x) as usize;
        if (x + y) % 2 == 0 {
            if x == 7 { y += 1; } else if y == 0 { x += 1; } else { x += 1; y -= 1; }
        } else if y == 7 { x += 1; } else if x == 0 { y += 1; } else { x -= 1; y += 1; }
        i += 1;
    }
    z
};
