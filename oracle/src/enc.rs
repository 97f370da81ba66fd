//! JPEG writer at the coefficient / difference level (independent of the crate under test).
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proc { Seq, Prog, Lossless }

#[derive(Clone, Debug)]
pub struct Comp { pub id: u8, pub h: usize, pub v: usize, pub tq: usize,
    /// padded block grid
    pub bw: usize, pub bh: usize,
    /// own sample size
    pub w: usize, pub hgt: usize,
    /// coefficients in zig-zag order, padded grid raster order
    pub coefs: Vec<[i32; 64]>,
}

#[derive(Clone, Debug)]
pub struct Scan { pub comps: Vec<usize>, pub td: Vec<usize>, pub ta: Vec<usize>, pub ss: usize, pub se: usize, pub ah: usize, pub al: usize, pub ri: usize }

#[derive(Clone, Debug)]
pub struct Frame { pub proc_: Proc, pub sof: u8, pub prec: u8, pub w: usize, pub h: usize, pub comps: Vec<Comp>, pub q: [[u16; 64]; 4] }

pub fn div_up(a: usize, b: usize) -> usize { (a + b - 1) / b }

impl Frame {
    pub fn hmax(&self) -> usize { self.comps.iter().map(|c| c.h).max().unwrap() }
    pub fn vmax(&self) -> usize { self.comps.iter().map(|c| c.v).max().unwrap() }
    pub fn layout(&mut self) {
        let (hm, vm) = (self.hmax(), self.vmax());
        let (mw, mh) = (div_up(self.w, 8 * hm), div_up(self.h, 8 * vm));
        for c in &mut self.comps {
            c.bw = mw * c.h; c.bh = mh * c.v;
            c.w = div_up(self.w * c.h, hm); c.hgt = div_up(self.h * c.v, vm);
            c.coefs = vec![[0; 64]; c.bw * c.bh];
        }
    }
    pub fn mcus(&self) -> (usize, usize) { (div_up(self.w, 8 * self.hmax()), div_up(self.h, 8 * self.vmax())) }
    /// data units of a scan in coding order, grouped by MCU: (position of component in scan, block index)
    pub fn units(&self, s: &Scan) -> Vec<Vec<(usize, usize)>> {
        let mut out = vec![];
        if s.comps.len() == 1 {
            let c = &self.comps[s.comps[0]];
            for y in 0..div_up(c.hgt, 8) { for x in 0..div_up(c.w, 8) { out.push(vec![(0, y * c.bw + x)]); } }
        } else {
            let (mw, mh) = self.mcus();
            for my in 0..mh { for mx in 0..mw {
                let mut m = vec![];
                for (i, &ci) in s.comps.iter().enumerate() {
                    let c = &self.comps[ci];
                    for v in 0..c.v { for h in 0..c.h { m.push((i, (my * c.v + v) * c.bw + mx * c.h + h)); } }
                }
                out.push(m);
            } }
        }
        out
    }
}

/// One element of an entropy-coded segment before Huffman coding.
#[derive(Clone, Debug)]
pub enum Tok { Sym { class: usize, slot: usize, sym: u8 }, Bits(u32, u32), Rst(u8) }

pub fn cat(v: i32) -> u32 { let mut a = v.unsigned_abs(); let mut n = 0; while a > 0 { n += 1; a >>= 1; } n }
fn mag(v: i32, n: u32) -> u32 { if v < 0 { (v - 1) as u32 & ((1u32 << n) - 1) } else { v as u32 } }

/// Tokens of a DCT scan.
pub fn scan_tokens(f: &Frame, s: &Scan) -> Vec<Tok> {
    let mut t = vec![];
    let mut pred = [0i32; 4];
    let mut eobrun: u32 = 0;
    let mut pend: Vec<u32> = vec![]; // correction bits attached to the pending EOB run
    let prog = f.proc_ == Proc::Prog;
    let mcus = f.units(s);
    let flush = |t: &mut Vec<Tok>, eobrun: &mut u32, pend: &mut Vec<u32>, ta: usize| {
        if *eobrun > 0 {
            let n = 31 - eobrun.leading_zeros();
            t.push(Tok::Sym { class: 1, slot: ta, sym: (n << 4) as u8 });
            if n > 0 { t.push(Tok::Bits(*eobrun & ((1 << n) - 1), n)); }
            *eobrun = 0;
            for &b in pend.iter() { t.push(Tok::Bits(b, 1)); }
            pend.clear();
        }
    };
    let mut rst = 0u8;
    for (mi, m) in mcus.iter().enumerate() {
        if s.ri > 0 && mi > 0 && mi % s.ri == 0 {
            flush(&mut t, &mut eobrun, &mut pend, s.ta[0]);
            t.push(Tok::Rst(rst)); rst = (rst + 1) % 8;
            pred = [0; 4];
        }
        for &(i, bi) in m {
            let b = &f.comps[s.comps[i]].coefs[bi];
            let (td, ta) = (s.td[i], s.ta[i]);
            if s.ah == 0 {
                if s.ss == 0 {
                    let v = b[0] >> s.al;
                    let d = v - pred[i]; pred[i] = v;
                    let n = cat(d);
                    t.push(Tok::Sym { class: 0, slot: td, sym: n as u8 });
                    if n > 0 { t.push(Tok::Bits(mag(d, n), n)); }
                }
                let lo = s.ss.max(1);
                if s.se >= lo {
                    let mut run = 0;
                    for k in lo..=s.se {
                        let v = if b[k] < 0 { -((-b[k]) >> s.al) } else { b[k] >> s.al };
                        if v == 0 { run += 1; continue; }
                        flush(&mut t, &mut eobrun, &mut pend, ta);
                        while run >= 16 { t.push(Tok::Sym { class: 1, slot: ta, sym: 0xF0 }); run -= 16; }
                        let n = cat(v);
                        t.push(Tok::Sym { class: 1, slot: ta, sym: ((run as u32) << 4 | n) as u8 });
                        t.push(Tok::Bits(mag(v, n), n));
                        run = 0;
                    }
                    if run > 0 {
                        if prog {
                            eobrun += 1;
                            if eobrun == 0x7FFF { flush(&mut t, &mut eobrun, &mut pend, ta); }
                        } else { t.push(Tok::Sym { class: 1, slot: ta, sym: 0 }); }
                    }
                }
            } else if s.ss == 0 {
                t.push(Tok::Bits(((b[0] >> s.al) & 1) as u32, 1));
            } else {
                // AC refinement, figure G.7
                let a: Vec<i32> = (0..64).map(|k| b[k].abs() >> s.al).collect();
                let mut eob = s.ss as i32 - 1;
                for k in s.ss..=s.se { if a[k] == 1 { eob = k as i32; } }
                let mut run = 0;
                let mut corr: Vec<u32> = vec![];
                for k in s.ss..=s.se {
                    if a[k] == 0 { run += 1; continue; }
                    while run > 15 && k as i32 <= eob {
                        flush(&mut t, &mut eobrun, &mut pend, ta);
                        t.push(Tok::Sym { class: 1, slot: ta, sym: 0xF0 });
                        run -= 16;
                        for &c in &corr { t.push(Tok::Bits(c, 1)); }
                        corr.clear();
                    }
                    if a[k] > 1 { corr.push((a[k] & 1) as u32); continue; }
                    flush(&mut t, &mut eobrun, &mut pend, ta);
                    t.push(Tok::Sym { class: 1, slot: ta, sym: (run << 4 | 1) as u8 });
                    t.push(Tok::Bits((b[k] > 0) as u32, 1));
                    for &c in &corr { t.push(Tok::Bits(c, 1)); }
                    corr.clear();
                    run = 0;
                }
                if run > 0 || !corr.is_empty() {
                    eobrun += 1;
                    pend.extend(corr.iter());
                    if eobrun == 0x7FFF || pend.len() > 900 { flush(&mut t, &mut eobrun, &mut pend, ta); }
                }
            }
        }
    }
    flush(&mut t, &mut eobrun, &mut pend, s.ta[0]);
    t
}

pub fn write_tokens(out: &mut Vec<u8>, toks: &[Tok], tabs: &[[Option<Huff>; 4]; 2], pad_ones: bool, fill: usize) {
    let mut w = BitWriter::new();
    for t in toks {
        match *t {
            Tok::Sym { class, slot, sym } => { let (c, n) = tabs[class][slot].as_ref().unwrap().code(sym).expect("symbol has a code"); w.put(c, n); }
            Tok::Bits(v, n) => w.put(v, n),
            Tok::Rst(k) => {
                w.flush(pad_ones);
                for _ in 0..fill { w.out.push(0xFF); }
                w.out.push(0xFF); w.out.push(0xD0 + k);
            }
        }
    }
    w.flush(pad_ones);
    out.extend_from_slice(&w.out);
}

pub fn seg(out: &mut Vec<u8>, marker: u8, body: &[u8]) {
    out.push(0xFF); out.push(marker);
    out.extend_from_slice(&((body.len() + 2) as u16).to_be_bytes());
    out.extend_from_slice(body);
}
pub fn sof_body(f: &Frame) -> Vec<u8> {
    let mut b = vec![f.prec];
    b.extend_from_slice(&(f.h as u16).to_be_bytes());
    b.extend_from_slice(&(f.w as u16).to_be_bytes());
    b.push(f.comps.len() as u8);
    for c in &f.comps { b.extend_from_slice(&[c.id, (c.h << 4 | c.v) as u8, c.tq as u8]); }
    b
}
pub fn sos_body(f: &Frame, s: &Scan) -> Vec<u8> {
    let mut b = vec![s.comps.len() as u8];
    for (i, &c) in s.comps.iter().enumerate() { b.push(f.comps[c].id); b.push((s.td[i] << 4 | s.ta[i]) as u8); }
    b.extend_from_slice(&[s.ss as u8, s.se as u8, (s.ah << 4 | s.al) as u8]);
    b
}
pub fn dht_entry(class: usize, slot: usize, h: &Huff) -> Vec<u8> {
    let mut b = vec![(class << 4 | slot) as u8];
    b.extend_from_slice(&h.bits);
    b.extend_from_slice(&h.vals);
    b
}
/// q given in zig-zag order
pub fn dqt_entry(slot: usize, q: &[u16; 64], wide: bool) -> Vec<u8> {
    let mut b = vec![((wide as usize) << 4 | slot) as u8];
    for &x in q.iter() { if wide { b.extend_from_slice(&x.to_be_bytes()); } else { b.push(x as u8); } }
    b
}
