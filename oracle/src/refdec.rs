//! Reference decoder written from ITU-T T.81 and the crate's documented deviations. It yields, for a byte
//! stream and a set of API options, what the public API has to return. `Unspec` = nothing but "no panic".
use crate::enc::{div_up, Proc};
use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un { Hier, Arith, Prec(u8), Comps(u8), Dnl, Ratio, Ct }
#[derive(Clone, Debug, PartialEq)]
pub enum Class { Bad, Un(Un), /// rejected, whichever error is reported
Any }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ct { None, Unknown, Gray, Rgb, YCbCr, Cmyk, Ycck, BgYcc, BgRgb }

#[derive(Clone, Debug, Default)]
pub struct Opts { pub ct: Option<u8>, pub scale: Option<(u16, u16)>, pub limit: Option<usize>, pub info_first: bool, pub short_reads: bool, pub again: bool }
impl Opts {
    pub fn ct(&self) -> Option<Ct> {
        self.ct.map(|c| [Ct::None, Ct::Unknown, Ct::Gray, Ct::Rgb, Ct::YCbCr, Ct::Cmyk, Ct::Ycck, Ct::BgYcc, Ct::BgRgb][c as usize % 9])
    }
}

#[derive(Clone, Debug)]
pub struct Img { pub w: usize, pub h: usize, pub ncomp: usize, pub bytes_per: usize, pub proc_: Proc,
    /// allowed interval of every output byte (8-bit) or exact 16-bit value
    pub lo: Vec<u16>, pub hi: Vec<u16>,
    pub icc: Option<Vec<u8>>, pub exif: Option<Vec<u8>>, pub xmp: Option<Vec<u8>>,
    pub scaled: Option<(u16, u16)> }
#[derive(Clone, Debug)]
pub enum Out { Ok(Img), Err(Class), Unspec(&'static str) }

/// How plane samples are obtained: exact real inverse DCT with tolerance, or measured through the crate
/// itself by decoding each component as a grayscale image (then everything after the IDCT is exact).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Interval, Measured }

pub type Meas<'a> = &'a dyn Fn(&[[i32; 64]], usize, usize, &[u16; 64], usize) -> Option<Vec<u8>>;

pub struct RComp { pub id: u8, pub h: usize, pub v: usize, pub tq: usize, pub bw: usize, pub bh: usize, pub coefs: Vec<[i32; 64]>, pub seen: u64, pub q: Option<[u16; 64]>, pub started: bool, pub done: bool, pub samples: Vec<u16> }
pub struct RFrame { pub sof: u8, pub proc_: Proc, pub prec: u8, pub w: usize, pub h: usize, pub comps: Vec<RComp>, pub hm: usize, pub vm: usize }

enum Stop { E(Class), U(&'static str) }
type R<T> = Result<T, Stop>;
fn bad<T>() -> R<T> { Err(Stop::E(Class::Bad)) }
fn un<T>(u: Un) -> R<T> { Err(Stop::E(Class::Un(u))) }

struct Rd<'a> { d: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn u8(&mut self) -> R<u8> { if self.p < self.d.len() { self.p += 1; Ok(self.d[self.p - 1]) } else { self.p = self.d.len(); bad() } }
    fn u16(&mut self) -> R<usize> { let a = self.u8()? as usize; let b = self.u8()? as usize; Ok(a << 8 | b) }
    fn body(&mut self) -> R<&'a [u8]> {
        let l = self.u16()?;
        if l < 2 { return bad(); }
        if self.p + l - 2 > self.d.len() { self.p = self.d.len(); return bad(); }
        self.p += l - 2;
        Ok(&self.d[self.p - (l - 2)..self.p])
    }
}

/// bits of one entropy-coded interval
struct Bits { b: Vec<u8>, pos: usize, tail: u8 }
impl Bits {
    fn bit(&mut self) -> u32 { let r = if self.pos / 8 < self.b.len() { (self.b[self.pos / 8] >> (7 - self.pos % 8)) & 1 } else { 0 }; self.pos += 1; r as u32 }
    fn get(&mut self, n: u32) -> u32 { let mut v = 0; for _ in 0..n { v = v << 1 | self.bit(); } v }
    fn sym(&mut self, h: &Huff) -> R<u8> {
        let mut code = 0i32;
        for l in 1..=16 { code = code << 1 | self.bit() as i32; if code <= h.maxc[l] && h.bits[l - 1] > 0 { return Ok(h.vals[h.valptr[l] + (code - h.minc[l]) as usize]); } }
        bad()
    }
    fn ext(&mut self, n: u32) -> i32 { if n == 0 { return 0; } let v = self.get(n) as i32; if v < 1 << (n - 1) { v - (1 << n) + 1 } else { v } }
}

pub fn k_tables() -> [[Huff; 2]; 2] {
    let dcv: Vec<u8> = (0..12).collect();
    let l_ac = [0x01,0x02,0x03,0x00,0x04,0x11,0x05,0x12,0x21,0x31,0x41,0x06,0x13,0x51,0x61,0x07,0x22,0x71,0x14,0x32,0x81,0x91,0xa1,0x08,0x23,0x42,0xb1,0xc1,0x15,0x52,0xd1,0xf0,0x24,0x33,0x62,0x72,0x82,0x09,0x0a,0x16,0x17,0x18,0x19,0x1a,0x25,0x26,0x27,0x28,0x29,0x2a,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa];
    let c_ac = [0x00,0x01,0x02,0x03,0x11,0x04,0x05,0x21,0x31,0x06,0x12,0x41,0x51,0x07,0x61,0x71,0x13,0x22,0x32,0x81,0x08,0x14,0x42,0x91,0xa1,0xb1,0xc1,0x09,0x23,0x33,0x52,0xf0,0x15,0x62,0x72,0xd1,0x0a,0x16,0x24,0x34,0xe1,0x25,0xf1,0x17,0x18,0x19,0x1a,0x26,0x27,0x28,0x29,0x2a,0x35,0x36,0x37,0x38,0x39,0x3a,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa];
    let h = |b: [u8; 16], v: &[u8]| Huff::new(b, v.to_vec()).unwrap();
    [[h([0,1,5,1,1,1,1,1,1,0,0,0,0,0,0,0], &dcv), h([0,3,1,1,1,1,1,1,1,1,1,0,0,0,0,0], &dcv)],
     [h([0,2,1,3,3,2,4,3,5,5,4,4,0,0,1,0x7d], &l_ac), h([0,2,1,2,4,4,3,4,7,5,4,4,0,1,2,0x77], &c_ac)]]
}

struct Dec<'a> { r: Rd<'a>, f: Option<RFrame>, q: [Option<[u16; 64]>; 4], ht: [[Option<Huff>; 4]; 2], ri: usize,
    adobe: Option<u8>, jfif: bool, avi: bool, icc: Vec<(u8, u8, Vec<u8>)>, exif: Option<Vec<u8>>, xmp: Option<Vec<u8>>, scans: usize }

fn ok_or_unspec<T>(c: bool, v: T, why: &'static str) -> R<T> { if c { Ok(v) } else { Err(Stop::U(why)) } }

impl<'a> Dec<'a> {
    fn sof(&mut self, m: u8) -> R<()> {
        if self.f.is_some() { return un(Un::Hier); }
        let k = m - 0xC0;
        let proc_ = match k & 3 { 0 | 1 => Proc::Seq, 2 => Proc::Prog, _ => Proc::Lossless };
        let b = match self.r.body() { Ok(b) => b, Err(_) => return Err(Stop::E(Class::Any)) };
        if b.len() < 6 { return Err(Stop::E(Class::Any)); }
        let mut bads = false; let mut uns: Vec<Un> = vec![];
        let prec = b[0];
        let (h, w) = ((b[1] as usize) << 8 | b[2] as usize, (b[3] as usize) << 8 | b[4] as usize);
        let n = b[5] as usize;
        if !(prec == 8 || (prec == 12 && k != 0) || (proc_ == Proc::Lossless && prec <= 16)) { bads = true; }
        if h == 0 { uns.push(Un::Dnl); }
        if w == 0 { bads = true; }
        if n == 0 || (proc_ == Proc::Prog && n > 4) { bads = true; }
        if b.len() != 6 + 3 * n { bads = true; }
        let mut comps: Vec<RComp> = vec![];
        if !bads {
            for i in 0..n {
                let (id, hv, tq) = (b[6 + 3 * i], b[7 + 3 * i], b[8 + 3 * i]);
                let (hh, vv) = ((hv >> 4) as usize, (hv & 15) as usize);
                if comps.iter().any(|c| c.id == id) || hh == 0 || hh > 4 || vv == 0 || vv > 4 || tq > 3 || (proc_ == Proc::Lossless && tq != 0) { bads = true; }
                comps.push(RComp { id, h: hh.max(1), v: vv.max(1), tq: tq as usize, bw: 0, bh: 0, coefs: vec![], seen: 0, q: None, started: false, done: false, samples: vec![] });
            }
        }
        if bads { return if uns.is_empty() { bad() } else { Err(Stop::E(Class::Any)) }; }
        if uns.len() == 1 { return un(uns[0]); }
        if k & 4 != 0 { uns.push(Un::Hier); }
        if k >= 9 { uns.push(Un::Arith); }
        if (prec != 8 && proc_ != Proc::Lossless) || prec < 2 { uns.push(Un::Prec(prec)); }
        if n != 1 && n != 3 && n != 4 { uns.push(Un::Comps(n as u8)); }
        if uns.len() > 1 { return Err(Stop::E(Class::Any)); }
        if uns.len() == 1 { return un(uns[0]); }
        let hm = comps.iter().map(|c| c.h).max().unwrap();
        let vm = comps.iter().map(|c| c.v).max().unwrap();
        for c in &comps { if ratio(c.h, c.v, hm, vm, w, h).is_none() { return un(Un::Ratio); } }
        let (mw, mh) = (div_up(w, 8 * hm), div_up(h, 8 * vm));
        for c in &mut comps { c.bw = mw * c.h; c.bh = mh * c.v; }
        self.f = Some(RFrame { sof: k, proc_, prec, w, h, comps, hm, vm });
        Ok(())
    }
    fn dqt(&mut self) -> R<()> {
        let mut b = self.r.body()?;
        let mut new = self.q;
        while !b.is_empty() {
            let (p, i) = ((b[0] >> 4) as usize, (b[0] & 15) as usize);
            if p > 1 || i > 3 || b.len() < 65 + 64 * p { return bad(); }
            let mut t = [0u16; 64];
            for j in 0..64 { t[j] = if p == 0 { b[1 + j] as u16 } else { (b[1 + 2 * j] as u16) << 8 | b[2 + 2 * j] as u16 }; }
            if t.contains(&0) { return bad(); }
            new[i] = Some(t);
            b = &b[65 + 64 * p..];
        }
        self.q = new; Ok(())
    }
    fn dht(&mut self) -> R<()> {
        let base = self.f.as_ref().map_or(false, |f| f.sof == 0);
        let mut b = self.r.body()?;
        while b.len() > 17 {
            let (c, i) = ((b[0] >> 4) as usize, (b[0] & 15) as usize);
            if c > 1 || i > 3 || (base && i > 1) { return bad(); }
            let mut bits = [0u8; 16]; bits.copy_from_slice(&b[1..17]);
            let n: usize = bits.iter().map(|&x| x as usize).sum();
            if n == 0 || n > 256 || n > b.len() - 17 { return bad(); }
            match Huff::new(bits, b[17..17 + n].to_vec()) { Some(h) => self.ht[c][i] = Some(h), None => return bad() }
            b = &b[17 + n..];
        }
        if !b.is_empty() { return bad(); }
        Ok(())
    }
    fn app(&mut self, n: u8) -> R<()> {
        let b = self.r.body()?;
        match n {
            0 => { if b.starts_with(b"JFIF\0") { self.jfif = true } else if b.starts_with(b"AVI1\0") { self.avi = true } }
            1 => { if let Some(x) = b.strip_prefix(b"Exif\0\0") { self.exif = Some(x.to_vec()) } else if let Some(x) = b.strip_prefix(b"http://ns.adobe.com/xap/1.0/\0") { self.xmp = Some(x.to_vec()) } }
            2 => { if b.len() > 14 && b.starts_with(b"ICC_PROFILE\0") { self.icc.push((b[12], b[13], b[14..].to_vec())) } }
            14 => { if b.len() >= 12 && b.starts_with(b"Adobe\0") { if b[11] > 2 { return bad(); } self.adobe = Some(b[11]) } }
            _ => {}
        }
        Ok(())
    }
    fn profile(&self) -> Option<Vec<u8>> {
        let n = self.icc.len();
        if n == 0 || n > 255 || self.icc.iter().any(|c| c.1 as usize != n) { return None; }
        let mut v: Vec<_> = self.icc.iter().collect();
        v.sort_by_key(|c| c.0);
        if !v.iter().enumerate().all(|(i, c)| c.0 as usize == i + 1) { return None; }
        Some(v.iter().flat_map(|c| c.2.iter().copied()).collect())
    }
    /// entropy bytes up to the next marker (unstuffed); leaves the position just after the marker.
    fn interval(&mut self) -> R<Bits> {
        let mut b = vec![];
        loop {
            let x = self.r.u8()?;
            if x != 0xFF { b.push(x); continue; }
            let mut y = self.r.u8()?;
            if y == 0 { b.push(0xFF); continue; }
            while y == 0xFF { y = self.r.u8()?; }
            if y == 0 { return Err(Stop::U("FF FF 00 in entropy-coded data")); }
            return Ok(Bits { b, pos: 0, tail: y });
        }
    }
    /// returns the marker that ended the scan
    fn sos(&mut self) -> R<u8> {
        if self.f.is_none() { return bad(); }
        let b = self.r.body()?.to_vec();
        if b.is_empty() { return bad(); }
        let n = b[0] as usize;
        if n == 0 || n > 4 || b.len() != 4 + 2 * n { return bad(); }
        let mut f = self.f.take().unwrap();
        let r = self.sos2(&mut f, &b, n);
        self.f = Some(f);
        r
    }
    fn sos2(&mut self, f: &mut RFrame, b: &[u8], n: usize) -> R<u8> {
        let (mut idx, mut td, mut ta) = (vec![], vec![], vec![]);
        for i in 0..n {
            let Some(ci) = f.comps.iter().position(|c| c.id == b[1 + 2 * i]) else { return bad() };
            if let Some(&l) = idx.last() { if ci <= l { return bad(); } }
            idx.push(ci);
            let (d, a) = ((b[2 + 2 * i] >> 4) as usize, (b[2 + 2 * i] & 15) as usize);
            let m = if f.sof == 0 { 1 } else { 3 };
            if d > m || a > m { return bad(); }
            td.push(d); ta.push(a);
        }
        if n > 1 && idx.iter().map(|&i| f.comps[i].h * f.comps[i].v).sum::<usize>() > 10 { return bad(); }
        let (ss, mut se, ah, al) = (b[1 + 2 * n] as usize, b[2 + 2 * n] as usize, (b[3 + 2 * n] >> 4) as usize, (b[3 + 2 * n] & 15) as usize);
        match f.proc_ {
            Proc::Prog => {
                if se > 63 || ss > se || (ss == 0 && se != 0) || (ss != 0 && n != 1) || ah > 13 || al > 13 || (ah != 0 && ah != al + 1) { return bad(); }
                if al >= 8 { return bad(); } // documented deviation: point transform must be below the 8-bit precision
            }
            Proc::Lossless => { if ss > 7 || se != 0 || ah != 0 || al >= f.prec as usize { return bad(); } }
            Proc::Seq => { if se == 0 { se = 63; } if ss != 0 || se != 63 || ah != 0 || al != 0 { return bad(); } }
        }
        if f.proc_ == Proc::Lossless { return self.lossless(f, &idx, &td, ss, al); }
        for &i in &idx { if self.q[f.comps[i].tq].is_none() { return bad(); } }
        if self.avi { let k = k_tables(); for i in 0..2 { for c in 0..2 { if self.ht[c][i].is_none() && (if c == 0 { &td } else { &ta }).contains(&i) { self.ht[c][i] = Some(k[c][i].clone()); } } } }
        if ss == 0 && td.iter().any(|&t| self.ht[0][t].is_none()) { return bad(); }
        if se > 0 && ta.iter().any(|&t| self.ht[1][t].is_none()) { return bad(); }
        for &i in &idx {
            let c = &mut f.comps[i];
            if f.proc_ == Proc::Seq && c.started { return Err(Stop::U("component coded twice in sequential mode")); }
            if c.done { return Err(Stop::U("scan of a finished component")); }
            c.started = true;
            if c.coefs.is_empty() { c.coefs = vec![[0; 64]; c.bw * c.bh]; }
            for k in ss..=se {
                // an approximation pass must follow its predecessor, a first pass must be first
                let _ = k;
            }
            match c.q { None => c.q = self.q[c.tq], Some(q) => if Some(q) != self.q[c.tq] { return Err(Stop::U("quantizer redefined between scans")); } }
        }
        // traversal
        let mut bits = self.interval()?;
        let mut pred = [0i32; 4];
        let mut eobrun = 0u32;
        let mut rst = 0u8; let mut mi = 0usize;
        let units: Vec<Vec<(usize, usize)>> = units(f, &idx);
        for m in &units {
            if self.ri > 0 && mi > 0 && mi % self.ri == 0 {
                if div_up(bits.pos, 8) < bits.b.len() { return Err(Stop::U("surplus data before RST")); }
                if bits.tail != 0xD0 + rst { return bad(); }
                rst = (rst + 1) % 8;
                bits = self.interval()?; pred = [0; 4]; eobrun = 0;
            }
            mi += 1;
            for &(i, bi) in m {
                let c = &mut f.comps[idx[i]];
                let bl = &mut c.coefs[bi];
                if ah == 0 {
                    if ss == 0 {
                        let t = bits.sym(self.ht[0][td[i]].as_ref().unwrap())?;
                        if t > 11 { return bad(); }
                        pred[i] = (pred[i] + bits.ext(t as u32)) as i16 as i32;
                        bl[0] = ((pred[i] as i16) << al) as i32;
                        if bl[0] != pred[i] << al { return Err(Stop::U("DC overflow")); }
                    }
                    let lo = ss.max(1);
                    if se >= lo {
                        if eobrun > 0 { eobrun -= 1; continue; }
                        let mut k = lo;
                        while k <= se {
                            let rs = bits.sym(self.ht[1][ta[i]].as_ref().unwrap())?;
                            let (r, s) = ((rs >> 4) as usize, (rs & 15) as u32);
                            if s == 0 {
                                if r == 15 { k += 16; continue; }
                                if r > 0 && f.proc_ == Proc::Seq { return Err(Stop::U("EOBn in a sequential scan")); }
                                eobrun = (1 << r) - 1 + bits.get(r as u32);
                                break;
                            }
                            k += r;
                            if k > se { return Err(Stop::U("run beyond the band")); }
                            let v = bits.ext(s);
                            if f.proc_ == Proc::Prog && bl[ZZ[k]] != 0 { return Err(Stop::U("first pass over non-zero coefficient")); }
                            bl[ZZ[k]] = ((v as i16) << al) as i32;
                            if bl[ZZ[k]] != v << al { return Err(Stop::U("AC overflow")); }
                            k += 1;
                        }
                        if k > se + 1 { return Err(Stop::U("ZRL beyond the band")); }
                    }
                } else if ss == 0 {
                    if bits.bit() == 1 { bl[0] |= 1 << al; }
                } else {
                    let p = 1i32 << al;
                    let mut k = ss;
                    let refine = |x: &mut i32, bits: &mut Bits| -> R<()> {
                        if bits.bit() == 1 && *x & p == 0 { *x += if *x > 0 { p } else { -p }; if *x as i16 as i32 != *x { return bad(); } }
                        Ok(())
                    };
                    if eobrun == 0 {
                        while k <= se {
                            let rs = bits.sym(self.ht[1][ta[i]].as_ref().unwrap())?;
                            let (mut r, s) = ((rs >> 4) as i32, rs & 15);
                            let mut val = 0;
                            if s == 0 {
                                if r != 15 { eobrun = (1 << r) + bits.get(r as u32); break; }
                            } else if s == 1 { val = if bits.bit() == 1 { p } else { -p }; } else { return bad(); }
                            loop {
                                if k > se { if val != 0 || r > 0 { return Err(Stop::U("refinement run beyond the band")); } break; }
                                let x = &mut bl[ZZ[k]];
                                if *x != 0 { refine(x, &mut bits)?; } else { if r == 0 { *x = val; break; } r -= 1; }
                                k += 1;
                            }
                            k += 1;
                        }
                    }
                    if eobrun > 0 {
                        while k <= se { let x = &mut bl[ZZ[k]]; if *x != 0 { refine(x, &mut bits)?; } k += 1; }
                        eobrun -= 1;
                    }
                }
            }
        }
        for &i in &idx {
            let c = &mut f.comps[i];
            if al == 0 { for k in ss..=se { c.seen |= 1 << k; } }
            if c.seen == !0 { c.done = true; }
        }
        self.scans += 1;
        if bits.tail & 0xF8 == 0xD0 {
            if div_up(bits.pos, 8) < bits.b.len() { return Err(Stop::U("surplus data before a trailing RST")); }
            // trailing RSTs after the scan are skipped
            return self.skip_rst();
        }
        Ok(bits.tail)
    }
    fn skip_rst(&mut self) -> R<u8> { loop { let m = self.marker()?; if m & 0xF8 != 0xD0 { return Ok(m); } } }
    fn marker(&mut self) -> R<u8> {
        loop {
            while self.r.u8()? != 0xFF {}
            let mut b = self.r.u8()?;
            while b == 0xFF { b = self.r.u8()?; }
            if b != 0 { return Ok(b); }
        }
    }
    fn lossless(&mut self, f: &mut RFrame, idx: &[usize], td: &[usize], pred: usize, pt: usize) -> R<u8> {
        if td.iter().any(|&t| self.ht[0][t].is_none()) { return bad(); }
        if f.comps.iter().any(|c| c.h != f.hm || c.v != f.vm) { return Err(Stop::U("subsampled lossless")); }
        if idx.len() > 1 && f.hm * f.vm != 1 { return Err(Stop::U("lossless MCU larger than one sample")); }
        if pred == 0 { return Err(Stop::U("predictor 0")); }
        if self.ri % f.w != 0 { return Err(Stop::U("lossless restart interval not whole rows")); }
        let (w, h) = (f.w, f.h);
        let mut bits = self.interval()?;
        let mut out = vec![vec![0u16; w * h]; idx.len()];
        let mut rst = 0;
        let rows = if self.ri > 0 { self.ri / w } else { usize::MAX };
        for y in 0..h {
            if y > 0 && y % rows == 0 {
                if div_up(bits.pos, 8) < bits.b.len() { return Err(Stop::U("surplus data before RST")); }
                if bits.tail != 0xD0 + rst { return bad(); }
                rst = (rst + 1) % 8;
                bits = self.interval()?;
            }
            let first = y % rows == 0;
            for x in 0..w { for i in 0..idx.len() {
                let t = bits.sym(self.ht[0][td[i]].as_ref().unwrap())?;
                let d = match t { 0 => 0, 1..=15 => bits.ext(t as u32), 16 => 32768, _ => return bad() };
                let at = |yy: usize, xx: usize| out[i][yy * w + xx] as i32;
                let px = if first { if x == 0 { 1 << (f.prec as usize - pt - 1) } else { at(y, x - 1) } }
                    else if x == 0 { at(y - 1, 0) }
                    else {
                        let (a, b, c) = (at(y, x - 1), at(y - 1, x), at(y - 1, x - 1));
                        match pred { 1 => a, 2 => b, 3 => c, 4 => a + b - c, 5 => a + ((b - c) >> 1), 6 => b + ((a - c) >> 1), _ => (a + b) >> 1 }
                    };
                out[i][y * w + x] = (px + d) as u16;
            } }
        }
        for (i, &ci) in idx.iter().enumerate() {
            if f.comps[ci].started { return Err(Stop::U("component coded twice in lossless mode")); }
            f.comps[ci].started = true; f.comps[ci].done = true;
            for &x in &out[i] { if (x as u32) << pt >= 1 << f.prec { return Err(Stop::U("sample exceeds precision")); } }
            f.comps[ci].samples = out[i].iter().map(|&x| x << pt).collect();
        }
        self.scans += 1;
        if bits.tail & 0xF8 == 0xD0 {
            if div_up(bits.pos, 8) < bits.b.len() { return Err(Stop::U("surplus data before a trailing RST")); } return self.skip_rst(); }
        Ok(bits.tail)
    }
}

pub fn units(f: &RFrame, idx: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let mut out = vec![];
    if idx.len() == 1 {
        let c = &f.comps[idx[0]];
        let (uw, uh) = (div_up(div_up(f.w * c.h, f.hm), 8), div_up(div_up(f.h * c.v, f.vm), 8));
        for y in 0..uh { for x in 0..uw { out.push(vec![(0, y * c.bw + x)]); } }
    } else {
        for my in 0..div_up(f.h, 8 * f.vm) { for mx in 0..div_up(f.w, 8 * f.hm) {
            let mut m = vec![];
            for (i, &ci) in idx.iter().enumerate() { let c = &f.comps[ci]; for v in 0..c.v { for h in 0..c.h { m.push((i, (my * c.v + v) * c.bw + mx * c.h + h)); } } }
            out.push(m);
        } }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Up { H1V1, H2V1, H1V2, H2V2, Rep(usize, usize) }
pub fn ratio(h: usize, v: usize, hm: usize, vm: usize, ow: usize, oh: usize) -> Option<Up> {
    let (h1, v1) = (h == hm || ow == 1, v == vm || oh == 1);
    let (h2, v2) = (2 * h == hm, 2 * v == vm);
    Some(match () {
        _ if h1 && v1 => Up::H1V1,
        _ if h2 && v1 => Up::H2V1,
        _ if h1 && v2 => Up::H1V2,
        _ if h2 && v2 => Up::H2V2,
        _ if hm % h == 0 && vm % v == 0 => Up::Rep(hm / h, vm / v),
        _ => return None,
    })
}

/// exact inverse DCT sample (real), natural-order dequantized block, output size n in {8,4,2,1}
pub fn idct_real(block: &[i32; 64], q: &[u16; 64], n: usize) -> Vec<f64> {
    let mut f = [0f64; 64];
    for k in 0..64 { f[ZZ[k]] = 0.0; let _ = k; }
    for k in 0..64 { f[ZZ[k]] = block[ZZ[k]] as f64 * q[k] as f64; }
    let mut out = vec![0f64; n * n];
    let c = |u: usize| if u == 0 { (0.5f64).sqrt() } else { 1.0 };
    let mut tab = [[0f64; 8]; 8];
    for x in 0..n { for u in 0..n { tab[x][u] = c(u) * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / (2 * n) as f64).cos(); } }
    for y in 0..n { for x in 0..n {
        let mut s = 0.0;
        for v in 0..n { for u in 0..n { let g = f[v * 8 + u]; if g != 0.0 { s += g * tab[x][u] * tab[y][v]; } } }
        // orthonormal n-point transform (2/n) with the low-frequency scaling n/8
        out[y * n + x] = s * (2.0 / n as f64) * (n as f64 / 8.0) + 128.0;
    } }
    out
}

type Plane = (Vec<u8>, Vec<u8>, usize); // lo, hi, stride

fn planes(f: &RFrame, s: usize, mode: Mode, meas: Meas) -> R<Vec<Plane>> {
    let mut out = vec![];
    for c in &f.comps {
        let stride = c.bw * s;
        let q = c.q.unwrap();
        if mode == Mode::Measured {
            match meas(&c.coefs, c.bw, c.bh, &q, s) { Some(p) => { out.push((p.clone(), p, stride)); continue; } None => return Err(Stop::U("plane not measurable")) }
        }
        let (mut lo, mut hi) = (vec![0u8; stride * c.bh * s], vec![0u8; stride * c.bh * s]);
        for (bi, b) in c.coefs.iter().enumerate() {
            let tot: f64 = (0..64).map(|k| (b[ZZ[k]] as f64 * q[k] as f64).abs()).sum();
            // arithmetic is only meaningful within the DCT range; larger blocks are unspecified
            let big = (0..64).any(|k| (b[ZZ[k]] as i64 * q[k] as i64).abs() > 2047) || tot > SUM_LIMIT;
            let e = idct_real(b, &q, s);
            for y in 0..s { for x in 0..s {
                let o = ((bi / c.bw) * s + y) * stride + (bi % c.bw) * s + x;
                let v = e[y * s + x];
                if big { lo[o] = 0; hi[o] = 255; } else {
                    let t = 1.0 + IDCT_SLACK;
                    lo[o] = (v - t).ceil().clamp(0.0, 255.0) as u8;
                    hi[o] = (v + t).floor().clamp(0.0, 255.0) as u8;
                }
            } }
        }
        out.push((lo, hi, stride));
    }
    Ok(out)
}
pub const TOO_LARGE: &str = "too large for the reference";
pub const IDCT_SLACK: f64 = 0.5;
/// Blocks whose dequantized magnitudes add up to more are not constrained: the SIMD inverse DCT works with
/// saturating 16-bit arithmetic, the portable one with constants of 12 fractional bits. Reduced sizes are
/// always computed by the portable code.
pub const SUM_LIMIT: f64 = if cfg!(feature = "cfg_portable") { 4000.0 } else { 800.0 };

fn up_sample(p: &[u8], stride: usize, w: usize, h: usize, up: Up, x: usize, y: usize) -> u32 {
    let at = |yy: usize, xx: usize| p[yy * stride + xx] as u32;
    let far = |i: usize, n: usize| -> usize { if i % 2 == 0 { (i / 2).saturating_sub(1) } else { (i / 2 + 1).min(n - 1) } };
    match up {
        Up::H1V1 => at(y, x),
        Up::H2V1 => { let k = x / 2; let g = far(x, w); if g == k { at(y, k) } else { (3 * at(y, k) + at(y, g) + 2) >> 2 } }
        Up::H1V2 => (3 * at(y / 2, x) + at(far(y, h), x) + 2) >> 2,
        Up::H2V2 => {
            let t = |i: usize| 3 * at(y / 2, i) + at(far(y, h), i);
            let k = x / 2; let g = far(x, w);
            if g == k { (t(k) + 2) >> 2 } else { (3 * t(k) + t(g) + 8) >> 4 }
        }
        Up::Rep(a, b) => at(y / b, x / a),
    }
}

fn choose(d: &Dec, f: &RFrame, o: &Opts) -> Ct {
    if let Some(c) = o.ct() { return c; }
    match f.comps.len() {
        1 => Ct::Gray,
        3 => match (f.comps[0].id, f.comps[1].id, f.comps[2].id) {
            (1, 2, 3) => Ct::YCbCr, (1, 34, 35) => Ct::BgYcc, (82, 71, 66) => Ct::Rgb, (114, 103, 98) => Ct::BgRgb,
            _ if d.jfif => Ct::YCbCr,
            _ => match d.adobe { Some(0) => Ct::Rgb, Some(2) => Ct::Ycck, _ => Ct::YCbCr },
        },
        _ => match d.adobe { Some(1) => Ct::YCbCr, Some(2) => Ct::Ycck, _ => Ct::Cmyk },
    }
}

pub fn run(data: &[u8], o: &Opts, mode: Mode, meas: Meas) -> Out {
    let mut d = Dec { r: Rd { d: data, p: 0 }, f: None, q: [None; 4], ht: Default::default(), ri: 0, adobe: None, jfif: false, avi: false, icc: vec![], exif: None, xmp: None, scans: 0 };
    match go(&mut d, o, mode, meas) { Ok(i) => Out::Ok(i), Err(Stop::E(c)) => Out::Err(c), Err(Stop::U(w)) => Out::Unspec(w) }
}

fn go(d: &mut Dec, o: &Opts, mode: Mode, meas: Meas) -> R<Img> {
    if d.r.u8()? != 0xFF || d.r.u8()? != 0xD8 { return bad(); }
    let mut prev = 0xD8u8;
    let mut pend: Option<u8> = None;
    loop {
        let m = match pend.take() { Some(m) => m, None => d.marker()? };
        match m {
            0xC4 => d.dht()?, 0xCC => return un(Un::Arith), 0xC8 => return bad(),
            0xC0..=0xCF => {
                d.sof(m)?;
                let f = d.f.as_ref().unwrap();
                if f.w * f.h > 1 << 21 || f.comps.iter().map(|c| c.bw * c.bh).sum::<usize>() > 1 << 15 { return Err(Stop::U(TOO_LARGE)); }
            }
            0xDA => { pend = Some(d.sos()?); }
            0xDB => d.dqt()?,
            0xDD => { let b = d.r.body()?; if b.len() != 2 { return bad(); } d.ri = (b[0] as usize) << 8 | b[1] as usize; }
            0xFE => { d.r.body()?; }
            0xE0..=0xEF => d.app(m - 0xE0)?,
            0xD0..=0xD7 => if prev != 0xDA { return bad(); },
            0xDC => return if prev != 0xDA || d.scans != 1 { bad() } else { un(Un::Dnl) },
            0xDE | 0xDF => return un(Un::Hier),
            0xD9 => break,
            _ => return bad(),
        }
        prev = m;
    }
    let Some(f) = d.f.as_ref() else { return bad() };
    let n = f.comps.len();
    // scaling
    let mut s = 8;
    let mut scaled = None;
    if let Some((rw, rh)) = o.scale {
        for t in [1usize, 2, 4, 8] { s = t; if t == 8 || div_up(f.w * t, 8) >= rw as usize || div_up(f.h * t, 8) >= rh as usize { break; } }
        if f.proc_ == Proc::Lossless { s = 8; }
        scaled = Some((div_up(f.w * s, 8) as u16, div_up(f.h * s, 8) as u16));
    }
    let (ow, oh) = (div_up(f.w * s, 8), div_up(f.h * s, 8));
    let bytes_per = if f.prec > 8 { 2 } else { 1 };
    let mut img = Img { w: ow, h: oh, ncomp: n, bytes_per, proc_: f.proc_, lo: vec![], hi: vec![], icc: d.profile(), exif: d.exif.clone(), xmp: d.xmp.clone(), scaled };
    if let Some(l) = o.limit { if ow * oh * n * bytes_per > l { return bad(); } }
    if f.proc_ == Proc::Lossless {
        if f.comps.iter().any(|c| !c.done) { return bad(); }
        if n > 1 && bytes_per == 2 { return Err(Stop::U("known finding: multi-component lossless above 8 bits")); }
        for i in 0..ow * oh { for c in &f.comps { img.lo.push(c.samples[i]); } }
        img.hi = img.lo.clone();
        return Ok(img);
    }
    if f.comps.iter().any(|c| c.q.is_none()) {
        // progressive frames render what is there once any scan was read
        return if f.proc_ == Proc::Prog && f.comps.iter().any(|c| c.started) { Err(Stop::U("component never coded in progressive mode")) } else { bad() };
    }
    if f.comps.iter().any(|c| !c.done && f.proc_ == Proc::Seq) { return bad(); }
    let ct = choose(d, f, o);
    match (n, ct) {
        (1, _) | (3, Ct::None | Ct::Rgb | Ct::YCbCr) | (4, Ct::None | Ct::Cmyk | Ct::Ycck) => {}
        (_, Ct::BgYcc | Ct::BgRgb) => return un(Un::Ct),
        _ => return bad(),
    }
    let pl = planes(f, s, mode, meas)?;
    img.lo = vec![0; ow * oh * n]; img.hi = vec![0; ow * oh * n];
    let mut ups = vec![];
    for c in &f.comps { match ratio(c.h, c.v, f.hm, f.vm, ow, oh) { Some(u) => ups.push(u), None => return un(Un::Ratio) } }
    for y in 0..oh { for x in 0..ow {
        let (mut l, mut h) = ([0f64; 4], [0f64; 4]);
        for (i, c) in f.comps.iter().enumerate() {
            let (cw, ch) = (div_up(f.w * c.h * s, f.hm * 8), div_up(f.h * c.v * s, f.vm * 8));
            let (u, st) = (if n == 1 { Up::H1V1 } else { ups[i] }, pl[i].2);
            l[i] = up_sample(&pl[i].0, st, cw, ch, u, x, y) as f64;
            h[i] = if mode == Mode::Measured { l[i] } else { up_sample(&pl[i].1, st, cw, ch, u, x, y) as f64 };
        }
        let o = (y * ow + x) * n;
        let mut put = |k: usize, a: f64, b: f64, t: f64| {
            img.lo[o + k] = (a - t).ceil().clamp(0.0, 255.0) as u16;
            img.hi[o + k] = (b + t).floor().clamp(0.0, 255.0) as u16;
        };
        match if n == 1 { Ct::None } else { ct } {
            Ct::YCbCr | Ct::Ycck => {
                let t = 1.0 + 0.5; // nearest, within one level
                put(0, l[0] + 1.402 * (l[2] - 128.0), h[0] + 1.402 * (h[2] - 128.0), t);
                put(1, l[0] - 0.34414 * (h[1] - 128.0) - 0.71414 * (h[2] - 128.0), h[0] - 0.34414 * (l[1] - 128.0) - 0.71414 * (l[2] - 128.0), t);
                put(2, l[0] + 1.772 * (l[1] - 128.0), h[0] + 1.772 * (h[1] - 128.0), t);
                if ct == Ct::Ycck { put(3, 255.0 - h[3], 255.0 - l[3], 0.0); }
            }
            Ct::Cmyk => for k in 0..4 { put(k, 255.0 - h[k], 255.0 - l[k], 0.0); },
            _ => for k in 0..n { put(k, l[k], h[k], 0.0); },
        }
    } }
    Ok(img)
}
