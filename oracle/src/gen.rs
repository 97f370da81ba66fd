//! Random JPEG streams, weighted per property.
use crate::enc::*;
use crate::refdec::{k_tables, Mode, Opts};
use crate::util::*;

pub struct Case { pub bytes: Vec<u8>, pub opts: Opts, pub mode: Mode, pub note: String }

#[derive(Clone)]
pub struct Cfg {
    pub procs: Vec<Proc>, pub maxw: usize, pub maxh: usize, pub ncomps: Vec<usize>,
    /// 0: no subsampling, 1: common (1,2), 2: any legal
    pub samp: usize, pub density: usize, pub dri: usize, pub skew: usize, pub extra: usize,
    pub multiscan: usize, pub dense_q: bool, pub mutate: Mut, pub apps: usize, pub ct: usize, pub scale: usize,
    pub mode: Mode, pub junk: usize, pub ids: usize, pub prec: Vec<u8>, pub rand_bits: usize, pub avi: usize, pub icc: usize, pub wide_q: usize, pub incomplete: usize, pub redefine: usize, pub limit: usize, pub trunc: usize, pub fill: usize, pub early_marker: usize, pub huge: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mut { None, Sof, Sos, Tables, App, Markers, Any }

pub fn cfg(prop: &str, r: &mut Rng) -> Cfg {
    let mut c = Cfg { procs: vec![Proc::Seq, Proc::Prog], maxw: 40, maxh: 40, ncomps: vec![1, 3, 3, 4], samp: 1, density: 8, dri: 30, skew: 50, extra: 6, multiscan: 40,
        dense_q: false, mutate: Mut::None, apps: 15, ct: 70, scale: 0, mode: Mode::Interval, junk: 0, ids: 20, prec: vec![8], rand_bits: 0, avi: 0, icc: 0, wide_q: 20, incomplete: 10, redefine: 30, limit: 0, trunc: 0, fill: 10, early_marker: 0, huge: matches!(prop, "C01" | "C06" | "C07" | "C18" | "C19" | "C20") };
    match prop {
        "C01" => { c.mutate = Mut::Any; c.procs.push(Proc::Lossless); c.samp = 2; c.scale = 30; c.rand_bits = 40; c.trunc = 10; c.junk = 20; c.early_marker = 10; }
        "C02" => { c.procs.push(Proc::Lossless); c.skew = 80; c.rand_bits = 40; c.early_marker = 40; c.dri = 50; c.ncomps = vec![1, 1, 3]; c.fill = 30; c.density = 20; }
        "C03" => { c.extra = 120; c.skew = 70; c.density = 20; c.ncomps = vec![1]; c.rand_bits = 50; c.dri = 5; c.mutate = if r.chance(1, 5) { Mut::Tables } else { Mut::None }; }
        "C04" => { c.ncomps = vec![1, 1, 3]; c.density = r.pick(&[1, 3, 12, 40]); c.rand_bits = 40; c.dri = 10; }
        "C05" => { c.procs = vec![Proc::Prog]; c.ncomps = vec![1, 1, 3]; c.density = r.pick(&[1, 3, 12, 40]); c.rand_bits = 10; c.multiscan = 90; c.dri = 15; }
        "C06" => { c.samp = 2; c.maxw = 100; c.maxh = 100; c.density = 3; c.dri = 60; c.multiscan = 60; }
        "C07" => { c.procs.push(Proc::Lossless); c.samp = 2; c.maxw = 150; c.maxh = 150; c.density = 1; c.mutate = if r.chance(2, 3) { Mut::Sof } else { Mut::None }; c.ids = 60; c.scale = 15; c.prec = vec![8, 8, 2, 12, 16]; }
        "C08" => { c.procs.push(Proc::Lossless); c.samp = 2; c.density = 2; c.maxw = 24; c.maxh = 24; c.mutate = if r.chance(3, 4) { Mut::Sos } else { Mut::None }; c.ids = 60; c.prec = vec![8, 4, 12]; }
        "C09" => { c.density = 10; c.mutate = if r.chance(1, 2) { Mut::Tables } else { Mut::None }; c.redefine = 80; c.wide_q = 60; c.dri = 50; c.maxw = 24; c.maxh = 24; }
        "C10" => { c.apps = 90; c.density = 1; c.maxw = 16; c.maxh = 16; c.mutate = if r.chance(1, 2) { Mut::App } else { Mut::None }; c.icc = 20; }
        "C11" => { c.apps = 10; c.icc = 100; c.density = 1; c.maxw = 8; c.maxh = 8; c.ncomps = vec![1]; c.procs = vec![Proc::Seq]; c.mutate = if r.chance(1, 5) { Mut::App } else { Mut::None }; }
        "C12" => { c.ncomps = vec![1]; c.density = r.pick(&[1, 2, 8, 40, 64]); c.procs = vec![Proc::Seq]; c.dri = 0; c.dense_q = true; c.maxw = 64; c.maxh = 64; c.skew = 0; }
        "C13" => { c.ncomps = vec![1, 3]; c.density = r.pick(&[1, 2, 8, 40, 64]); c.procs = vec![Proc::Seq]; c.dri = 0; c.scale = 100; c.dense_q = true; c.maxw = 64; c.maxh = 64; c.skew = 0; }
        "C14" => { c.ncomps = vec![1, 3, 3, 3]; c.density = r.pick(&[2, 8, 40]); c.procs = vec![Proc::Seq]; c.dense_q = true; c.maxw = 120; c.maxh = 20; c.samp = r.below(2); c.skew = 0; c.ct = 30; if r.chance(1, 2) { c.mode = Mode::Measured; } }
        "C15" => { c.ncomps = vec![3, 4]; c.samp = 2; c.density = 6; c.mode = Mode::Measured; c.procs = vec![Proc::Seq]; c.maxw = 70; c.maxh = 50; c.ct = 100; c.scale = 20; c.skew = 0; c.dri = 0; }
        "C16" => { c.ncomps = vec![3, 4]; c.samp = 1; c.density = 20; c.mode = Mode::Measured; c.procs = vec![Proc::Seq]; c.maxw = 70; c.maxh = 24; c.ct = 40; c.dense_q = true; c.skew = 0; c.dri = 0; c.apps = 40; c.ids = 30; c.scale = 10; }
        "C17" => { c.ncomps = vec![1, 3, 3, 4, 4]; c.samp = 0; c.density = 8; c.mode = Mode::Measured; c.procs = vec![Proc::Seq]; c.ids = 80; c.apps = 80; c.ct = 30; c.maxw = 16; c.maxh = 16; c.skew = 0; }
        "C18" => { c.procs = vec![Proc::Lossless]; c.ncomps = vec![1, 1, 3, 4]; c.samp = 0; c.prec = (2..=16).collect(); c.dri = 40; c.multiscan = 40; c.maxw = 24; c.maxh = 24; }
        "C19" => { c.procs.push(Proc::Lossless); c.scale = 60; c.limit = 40; c.samp = 2; c.density = 1; c.maxw = 90; c.maxh = 90; c.prec = vec![8, 12, 5, 16]; c.ct = 40; }
        "C20" => { c.samp = 2; c.maxw = 220; c.maxh = 220; c.density = 3; c.scale = 30; c.dri = 5; c.mode = if r.chance(1, 2) { Mode::Measured } else { Mode::Interval }; }
        "C21" => { c.procs.push(Proc::Lossless); c.mutate = Mut::Markers; c.density = 1; c.maxw = 16; c.maxh = 16; c.junk = 40; c.apps = 40; }
        _ => {}
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C19" | "C21") && r.chance(1, 2) { c.mode = Mode::Measured; }
    c
}

fn dim(r: &mut Rng, m: usize) -> usize {
    match r.below(6) { 0 => 1 + r.below(3), 1 => 1 + r.below(m.min(10)), 2 => (8 * (1 + r.below((m / 8).max(1)))).min(m), 3 => (8 * (1 + r.below((m / 8).max(1))) + 1).min(m), _ => 1 + r.below(m) }
}

pub fn frame(r: &mut Rng, c: &Cfg) -> Frame {
    let proc_ = r.pick(&c.procs);
    let n = r.pick(&c.ncomps);
    let sof = match proc_ { Proc::Seq => if r.chance(1, 2) { 0xC0 } else { 0xC1 }, Proc::Prog => 0xC2, Proc::Lossless => 0xC3 };
    let prec = if proc_ == Proc::Lossless { let p = r.pick(&c.prec); if n > 1 && p > 8 { 2 + (p % 7) } else { p } } else { 8 };
    let (mut w, mut h) = (dim(r, c.maxw), dim(r, c.maxh));
    if c.huge && r.chance(1, 150) { let (a, b) = (65520 + r.below(16), 1 + r.below(5)); if r.chance(1, 2) { w = a; h = b } else { w = b; h = a } }
    let mut comps = vec![];
    loop {
        comps.clear();
        let style = r.below(4);
        for i in 0..n {
            let (hh, vv) = match (c.samp, proc_) {
                (_, Proc::Lossless) => (1, 1),
                (0, _) => (1, 1),
                (1, _) => if i == 0 || i == 3 { [(1, 1), (2, 1), (1, 2), (2, 2)][style] } else { (1, 1) },
                _ => (1 + r.below(4), 1 + r.below(4)),
            };
            comps.push(Comp { id: 0, h: hh, v: vv, tq: 0, bw: 0, bh: 0, w: 0, hgt: 0, coefs: vec![] });
        }
        let (hm, vm) = (comps.iter().map(|c| c.h).max().unwrap(), comps.iter().map(|c| c.v).max().unwrap());
        if comps.iter().all(|k| crate::refdec::ratio(k.h, k.v, hm, vm, w, h).is_some()) || r.chance(1, 40) { break; }
    }
    let rid = r.chance(c.ids, 100);
    let std = r.below(5);
    let b0 = r.byte();
    for (i, k) in comps.iter_mut().enumerate() {
        k.id = if rid { match std { 0 => [82, 71, 66, 75][i], 1 => [1, 34, 35, 4][i], 2 => [114, 103, 98, 1][i], _ => b0.wrapping_add((i as u8) * (1 + std as u8)) } } else { 1 + i as u8 };
        k.tq = if proc_ == Proc::Lossless { 0 } else { r.below(4) };
    }
    if rid && std == 3 { // near misses of the well-known identifier triples
        let t = r.pick(&[[1u8, 2, 3], [82, 71, 66], [1, 34, 35], [114, 103, 98]]);
        for (i, k) in comps.iter_mut().enumerate().take(3) { k.id = t[i]; }
        let j = r.below(3.min(n)); comps[j].id = comps[j].id.wrapping_add(if r.chance(1, 2) { 100 } else { 7 });
        for i in 0..n { for j in 0..i { if comps[i].id == comps[j].id { comps[i].id = 200 + i as u8; } } }
    }
    let mut q = [[1u16; 64]; 4];
    for t in q.iter_mut() {
        let style = r.below(4);
        for (k, x) in t.iter_mut().enumerate() {
            *x = match style { 0 => 1 + r.below(4) as u16, 1 => 16 + r.below(32) as u16, 2 => 8 + (k as u16) * 2 + r.below(3) as u16, _ => if c.dense_q { 1 + r.below(255) as u16 } else { 24 } };
        }
    }
    let mut f = Frame { proc_, sof, prec, w, h, comps, q };
    f.layout();
    let amp_cap = if c.mode == Mode::Interval { crate::refdec::SUM_LIMIT.min(3000.0) - 10.0 } else if r.chance(1, 3) { 1900.0 } else { 900.0 };
    for ci in 0..n {
        let tq = f.comps[ci].tq;
        let nb = f.comps[ci].coefs.len();
        let dens = c.density;
        for b in 0..nb {
            let q = f.q[tq];
            let blk = &mut f.comps[ci].coefs[b];
            let dc = r.range(-(amp_cap.min(900.0) as i64), amp_cap.min(900.0) as i64) as f64 / q[0] as f64;
            blk[0] = dc as i32;
            let mut budget = amp_cap - (blk[0] as f64 * q[0] as f64).abs();
            let cnt = if r.chance(1, 4) { 0 } else { r.below(dens + 1) };
            for _ in 0..cnt {
                let k = if r.chance(1, 2) { 1 + r.below(63) } else { 1 + r.below(8) };
                let m = (budget / q[k] as f64 / (1.0 + r.below(6) as f64)) as i64;
                if m < 1 { continue; }
                let m = if r.chance(1, 3) { m.min(1 + r.below(3) as i64) } else { m };
                let v = r.range(1, m.min(1023)) * if r.chance(1, 2) { 1 } else { -1 };
                if blk[k] != 0 { continue; }
                blk[k] = v as i32;
                budget -= (v.abs() as f64) * q[k] as f64;
            }
        }
    }
    f
}

fn script(r: &mut Rng, c: &Cfg, f: &Frame) -> Vec<Scan> {
    let n = f.comps.len();
    let lim = if f.sof == 0xC0 { 2 } else { 4 };
    let mk = |r: &mut Rng, comps: Vec<usize>, ss, se, ah, al| { let k = comps.len(); Scan { td: (0..k).map(|_| r.below(lim)).collect(), ta: (0..k).map(|_| r.below(lim)).collect(), comps, ss, se, ah, al, ri: 0 } };
    // grouping of components into interleaved scans
    let group = |r: &mut Rng, c: &Cfg| -> Vec<Vec<usize>> {
        let sum: usize = f.comps.iter().map(|c| c.h * c.v).sum();
        if !(r.chance(c.multiscan, 100)) && (sum <= 10 || n == 1) { return vec![(0..n).collect()]; }
        let mut g: Vec<Vec<usize>> = vec![];
        for i in 0..n {
            let k = r.below(g.len() + 1);
            if k < g.len() && g[k].iter().chain([&i]).map(|&j| f.comps[j].h * f.comps[j].v).sum::<usize>() <= 10 { g[k].push(i); } else { g.push(vec![i]); }
        }
        for i in (1..g.len()).rev() { let j = r.below(i + 1); g.swap(i, j); }
        g
    };
    match f.proc_ {
        Proc::Lossless => { let p = 1 + r.below(7); let pt = if r.chance(1, 3) { r.below(f.prec as usize) } else { 0 }; group(r, c).into_iter().map(|g| mk(r, g, p, 0, 0, pt)).collect() }
        Proc::Seq => group(r, c).into_iter().map(|g| mk(r, g, 0, 63, 0, 0)).collect(),
        Proc::Prog => {
            let mut chains: Vec<Vec<Scan>> = vec![];
            let a0 = r.below(4);
            for g in group(r, c) {
                let mut ch = vec![mk(r, g.clone(), 0, 0, 0, a0)];
                for al in (0..a0).rev() { ch.push(mk(r, g.clone(), 0, 0, al + 1, al)); }
                chains.push(ch);
            }
            let mut all: Vec<Scan> = chains.iter_mut().map(|c| c.remove(0)).collect();
            for i in 0..n {
                let mut lo = 1;
                while lo <= 63 {
                    let hi = if r.chance(1, 2) { 63 } else { lo + r.below(64 - lo) };
                    let a = r.below(4);
                    let mut ch = vec![mk(r, vec![i], lo, hi, 0, a)];
                    for al in (0..a).rev() { ch.push(mk(r, vec![i], lo, hi, al + 1, al)); }
                    chains.push(ch);
                    lo = hi + 1;
                }
            }
            while chains.iter().any(|c| !c.is_empty()) { let k = r.below(chains.len()); if !chains[k].is_empty() { all.push(chains[k].remove(0)); } }
            if r.chance(c.incomplete, 100) { let k = 1 + r.below(all.len()); let first = all.len().min(n); all.truncate(k.max(first)); }
            all
        }
    }
}

fn lossless_tokens(r: &mut Rng, f: &Frame, s: &Scan, samples: &[Vec<i32>]) -> Vec<Tok> {
    let _ = r;
    let (w, h, pt) = (f.w, f.h, s.al);
    let mut t = vec![]; let mut rst = 0;
    let rows = if s.ri > 0 { s.ri / w } else { usize::MAX };
    for y in 0..h {
        if rows != usize::MAX && y > 0 && y % rows == 0 { t.push(Tok::Rst(rst)); rst = (rst + 1) % 8; }
        for x in 0..w { for (i, &ci) in s.comps.iter().enumerate() {
            let p = &samples[ci];
            let at = |yy: usize, xx: usize| p[yy * w + xx] >> pt;
            let first = if rows == usize::MAX { y == 0 } else { y % rows == 0 };
            let px = if first { if x == 0 { 1 << (f.prec as usize - pt - 1) } else { at(y, x - 1) } } else if x == 0 { at(y - 1, 0) } else {
                let (a, b, c) = (at(y, x - 1), at(y - 1, x), at(y - 1, x - 1));
                match s.ss { 1 => a, 2 => b, 3 => c, 4 => a + b - c, 5 => a + ((b - c) >> 1), 6 => b + ((a - c) >> 1), _ => (a + b) >> 1 }
            };
            let mut d = (at(y, x) - px) & 0xFFFF;
            if d > 32768 { d -= 65536; }
            let n = if d == 32768 { 16 } else { cat(d) };
            t.push(Tok::Sym { class: 0, slot: s.td[i], sym: n as u8 });
            if n > 0 && n < 16 { t.push(Tok::Bits((if d < 0 { (d - 1) as u32 } else { d as u32 }) & ((1 << n) - 1), n)); }
        } }
    }
    t
}

fn apps(r: &mut Rng, c: &Cfg, out: &mut Vec<Vec<u8>>) {
    let mut one = |m: u8, b: &[u8]| { let mut o = vec![]; seg(&mut o, m, b); out.push(o); };
    let tail = |r: &mut Rng| -> Vec<u8> { let n = match r.below(4) { 0 => 0, 1 => r.below(4), 2 => r.below(40), _ => r.below(300) }; (0..n).map(|_| r.byte()).collect() };
    let sigs: [(&[u8], u8); 7] = [(b"JFIF\0", 0), (b"AVI1\0", 0), (b"Exif\0\0", 1), (b"http://ns.adobe.com/xap/1.0/\0", 1), (b"ICC_PROFILE\0", 2), (b"Photoshop 3.0\0", 13), (b"Adobe\0", 14)];
    if r.chance(c.icc, 100) {
        let n = match r.below(12) { 0 => 1, 1 => 255, 2 => 254, 3 => 256, 4 => 30 + r.below(200), _ => 1 + r.below(6) };
        let mut seq: Vec<(u8, u8)> = (0..n).map(|i| ((i + 1) as u8, n as u8)).collect();
        for i in (1..n).rev() { let j = r.below(i + 1); seq.swap(i, j); }
        match r.below(10) { 0 => { seq.pop(); } 1 => { let j = r.below(seq.len()); seq[j].0 = r.byte(); } 2 => { let j = r.below(seq.len()); seq[j].1 = r.byte(); } 3 => { let j = r.below(seq.len()); let x = seq[j]; seq.push(x); } 4 => { let j = r.below(seq.len()); seq[j].0 = 0; } _ => {} }
        for (a, b) in seq { let mut v = b"ICC_PROFILE\0".to_vec(); v.push(a); v.push(b); let t = if n > 20 { vec![r.byte(), r.byte()] } else { let mut t = tail(r); if t.is_empty() && !r.chance(1, 10) { t.push(7); } t }; v.extend(t); one(0xE2, &v); }
    }
    let k = r.below(4);
    for _ in 0..k {
        if !r.chance(c.apps, 100) { continue; }
        let (s, mut n) = r.pick(&sigs);
        if s == b"AVI1\0" && r.chance(1, 2) { continue; }
        let mut v = s.to_vec();
        match r.below(8) { 0 => { let j = r.below(v.len()); v[j] ^= 1 << r.below(8); } 1 => { let j = r.below(v.len() + 1); v.truncate(j); } 2 => n = r.below(16) as u8, _ => {} }
        if n == 14 { let len = r.pick(&[12usize, 12, 12, 11, 13, 20]); while v.len() < len { v.push(0); } if v.len() > 11 && r.chance(9, 10) { v[11] = r.below(4) as u8; if v[11] == 3 { v[11] = r.below(3) as u8; } } }
        if n == 2 && s == b"ICC_PROFILE\0" { if r.chance(1, 2) { v.push(1); v.push(1); } }
        if !(n == 14 && v.len() >= 11) { v.extend(tail(r)); }
        one(0xE0 + n, &v);
    }
    if r.chance(c.apps, 400) { let t = tail(r); one(0xFE, &t); }
    if r.chance(c.apps, 400) { let t = tail(r); one(0xE0 + r.below(16) as u8, &t); }
}

pub fn case(prop: &str, r: &mut Rng) -> Case {
    let c = cfg(prop, r);
    let f = frame(r, &c);
    let scans = script(r, &c, &f);
    let mut note = format!("{:?} sof{:x} {}x{} prec{} comps {:?}", f.proc_, f.sof, f.w, f.h, f.prec, f.comps.iter().map(|c| (c.id, c.h, c.v, c.tq)).collect::<Vec<_>>());
    let mut pieces: Vec<Vec<u8>> = vec![vec![0xFF, 0xD8]]; // each a unit the mutator may touch
    let mut kinds: Vec<char> = vec!['i'];
    let mut ap = vec![]; apps(r, &c, &mut ap);
    let late = r.chance(1, 3);
    if !late { for a in ap.drain(..) { pieces.push(a); kinds.push('a'); } }
    let avi = r.chance(c.avi, 100) && f.proc_ == Proc::Seq;
    if f.proc_ != Proc::Lossless {
        let mut body = vec![];
        let mut order = vec![0, 1, 2, 3]; for i in (1..4).rev() { let j = r.below(i + 1); order.swap(i, j); }
        for &i in &order {
            if !f.comps.iter().any(|k| k.tq == i) && r.chance(1, 2) { continue; }
            let wide = r.chance(c.wide_q, 100);
            if r.chance(1, 6) { let g: [u16; 64] = std::array::from_fn(|_| 1 + r.below(255) as u16); body.extend(dqt_entry(i, &g, false)); }
            body.extend(dqt_entry(i, &f.q[i], wide));
            if r.chance(1, 2) { let mut o = vec![]; seg(&mut o, 0xDB, &body); pieces.push(o); kinds.push('q'); body.clear(); }
        }
        if !body.is_empty() { let mut o = vec![]; seg(&mut o, 0xDB, &body); pieces.push(o); kinds.push('q'); }
    }
    { let mut o = vec![]; seg(&mut o, f.sof, &sof_body(&f)); pieces.push(o); kinds.push('f'); }
    for a in ap.drain(..) { pieces.push(a); kinds.push('a'); }
    // lossless samples
    let samples: Vec<Vec<i32>> = if f.proc_ == Proc::Lossless {
        let pt = scans[0].al;
        f.comps.iter().map(|_| {
            let style = r.below(3); let m = (1i64 << f.prec) - 1; let mut cur = r.range(0, m);
            (0..f.w * f.h).map(|_| { cur = match style { 0 => r.range(0, m), 1 => (cur + r.range(-3, 3)).clamp(0, m), _ => if r.chance(1, 5) { r.pick(&[0, m, m / 2]) } else { cur } }; ((cur as i32) >> pt) << pt }).collect()
        }).collect()
    } else { vec![] };
    let mut tabs: [[Option<Huff>; 4]; 2] = Default::default();
    let mut ri = 0usize;
    let kt = k_tables();
    for s in &scans {
        let mut s = s.clone();
        if r.chance(c.dri, 100) {
            ri = if f.proc_ == Proc::Lossless { f.w * (1 + r.below(f.h)) } else { 1 + r.below(12) };
            if r.chance(1, 10) { ri = 0; }
            if ri > 65535 { ri = 0; }
            let mut o = vec![]; seg(&mut o, 0xDD, &(ri as u16).to_be_bytes()); pieces.push(o); kinds.push('d');
        }
        s.ri = ri;
        let toks = if f.proc_ == Proc::Lossless { lossless_tokens(r, &f, &s, &samples) } else { scan_tokens(&f, &s) };
        // tables
        let mut body = vec![];
        let mut emitted = vec![];
        for class in 0..2 { for slot in 0..4 {
            let mut used: Vec<u8> = vec![];
            for t in &toks { if let Tok::Sym { class: c2, slot: s2, sym } = t { if *c2 == class && *s2 == slot && !used.contains(sym) { used.push(*sym); } } }
            let refd = if class == 0 { s.td.contains(&slot) && (s.ss == 0 || f.proc_ == Proc::Lossless) } else { s.ta.contains(&slot) && s.se > 0 };
            if used.is_empty() && !refd && !r.chance(1, 20) { continue; }
            if f.sof == 0xC0 && slot > 1 { continue; }
            let covers = tabs[class][slot].as_ref().map_or(false, |h| used.iter().all(|&u| h.code(u).is_some()));
            if covers && !r.chance(c.redefine, 100) { continue; }
            if avi && slot < 2 && tabs[class][slot].is_none() && used.iter().all(|&u| kt[class][slot].code(u).is_some()) { tabs[class][slot] = Some(kt[class][slot].clone()); continue; }
            let skew = r.chance(c.skew, 100);
            let h = Huff::random(r, &used, c.extra, skew);
            body.extend(dht_entry(class, slot, &h));
            emitted.push((class, slot));
            tabs[class][slot] = Some(h);
            if r.chance(1, 2) { let mut o = vec![]; seg(&mut o, 0xC4, &body); pieces.push(o); kinds.push('h'); body.clear(); }
        } }
        if !body.is_empty() { let mut o = vec![]; seg(&mut o, 0xC4, &body); pieces.push(o); kinds.push('h'); }
        let mut o = vec![]; seg(&mut o, 0xDA, &sos_body(&f, &s)); pieces.push(o); kinds.push('s');
        let mut e = vec![];
        let fill = if r.chance(c.fill, 100) { 1 + r.below(3) } else { 0 };
        let pad = r.chance(2, 3);
        write_tokens(&mut e, &toks, &tabs, pad, fill);
        if r.chance(c.rand_bits, 100) {
            let k = r.below(4);
            if k == 0 { let n = 8 + r.below(400); e = (0..n).map(|_| { let b = r.byte(); if b == 0xFF { 0xFE } else { b } }).collect(); note += " random-entropy"; }
            else { for _ in 0..k { if e.is_empty() { break; } let j = r.below(e.len()); if e[j] != 0xFF && (j == 0 || e[j - 1] != 0xFF) { e[j] ^= 1 << r.below(8); if e[j] == 0xFF { e[j] = 0xFE; } } } note += " flipped-entropy"; }
        }
        if r.chance(c.early_marker, 100) {
            let mut j = r.below(e.len() + 1);
            if j > 0 && e[j - 1] == 0xFF { j -= 1; }
            e.truncate(j); note += " early-marker";
        }
        if fill > 0 && r.chance(1, 2) { for _ in 0..fill { e.push(0xFF); } }
        pieces.push(e); kinds.push('e');
        if r.chance(c.junk, 300) { let n = 1 + r.below(20); pieces.push((0..n).map(|_| r.pick(&[0u8, 1, 0x7F, 0xD9, 0xC0, 0xDA])).collect()); kinds.push('j'); }
    }
    pieces.push(vec![0xFF, 0xD9]); kinds.push('E');
    if r.chance(1, 3) { let n = r.below(12); pieces.push((0..n).map(|_| r.byte()).collect()); kinds.push('t'); }
    mutate(r, &c, &mut pieces, &mut kinds, &mut note);
    let mut bytes = pieces.concat();
    if r.chance(c.trunc, 100) { let n = r.below(bytes.len()); bytes.truncate(n); }
    let mut opts = Opts::default();
    if r.chance(c.ct, 100) { opts.ct = Some(if r.chance(3, 4) || prop == "C15" { 0 } else { r.below(9) as u8 }); }
    if (prop == "C16" || prop == "C17") && r.chance(c.ct, 100) { opts.ct = Some(r.below(9) as u8); if prop == "C16" { opts.ct = Some(r.pick(&[0u8, 3, 4, 5, 6])); } }
    if r.chance(c.scale, 100) { let d = r.pick(&[1usize, 1, 2, 4, 8]); let k = 1 + r.below(3); opts.scale = Some(match r.below(4) { 0 => (r.below(2 * f.w + 2) as u16, r.below(2 * f.h + 2) as u16), 1 => (0, 0), _ => ((f.w * d / 8 + k - 1).min(65535) as u16, (f.h * d / 8 + k - 1).min(65535) as u16) }); }
    if r.chance(c.limit, 100) { let full = f.w * f.h * f.comps.len() * if f.prec > 8 { 2 } else { 1 }; opts.limit = Some(match r.below(4) { 0 => full, 1 => full.saturating_sub(1), 2 => r.below(full + 2), _ => full + 1 }); }
    opts.info_first = r.chance(1, 3);
    opts.short_reads = r.chance(1, 5);
    opts.again = r.chance(if prop == "C01" { 50 } else { 4 }, 100);
    Case { bytes, opts, mode: c.mode, note }
}

fn mutate(r: &mut Rng, c: &Cfg, p: &mut Vec<Vec<u8>>, k: &mut Vec<char>, note: &mut String) {
    let set: &[char] = match c.mutate { Mut::None => return, Mut::Sof => &['f'], Mut::Sos => &['s'], Mut::Tables => &['q', 'h', 'd'], Mut::App => &['a'], Mut::Markers => &['i', 'a', 'q', 'h', 'd', 'f', 's', 'E'], Mut::Any => &['i', 'a', 'q', 'h', 'd', 'f', 's', 'E', 'e'] };
    let cand: Vec<usize> = (0..p.len()).filter(|&i| set.contains(&k[i]) && p[i].len() >= 2).collect();
    if cand.is_empty() { return; }
    let i = r.pick(&cand);
    let structural = c.mutate == Mut::Markers || (c.mutate == Mut::Any && r.chance(1, 3));
    if structural {
        match r.below(9) {
            0 => { let x = p[i].clone(); let kk = k[i]; let j = r.below(p.len() + 1); p.insert(j, x); k.insert(j, kk); *note += " dup-segment"; }
            1 => { p.remove(i); k.remove(i); *note += " drop-segment"; }
            2 => { let j = r.below(p.len()); p.swap(i, j); k.swap(i, j); *note += " swap-segment"; }
            3 | 4 => { p[i][1] = r.byte(); *note += " marker-code"; }
            5 => { let m = if r.chance(1, 2) { 0xC0 + r.below(16) as u8 } else { 0xD0 + r.below(48) as u8 }; let j = 1 + r.below(p.len()); let mut o = vec![]; let n = r.below(8); let b: Vec<u8> = (0..n).map(|_| r.byte()).collect(); if r.chance(1, 2) { seg(&mut o, m, &b); } else { o = vec![0xFF, m]; } p.insert(j.min(p.len()), o); k.insert(j.min(k.len()), 'x'); *note += " insert-marker"; }
            6 => { let n = 1 + r.below(3); for _ in 0..n { p[i].insert(0, 0xFF); } *note += " fill"; }
            7 => { let n = 1 + r.below(6); let jn: Vec<u8> = (0..n).map(|_| r.pick(&[0u8, 0x55, 0xD8, 0x01])).collect(); p.insert(i, jn); k.insert(i, 'j'); *note += " junk-before"; }
            _ => { if let Some(j) = k.iter().position(|&x| x == 'f') { p[j][1] = 0xC0 + r.below(16) as u8; *note += " sof-kind"; } }
        }
        return;
    }
    let n = if r.chance(4, 5) { 1 } else { 2 };
    for _ in 0..n {
        let len = p[i].len();
        let j = if r.chance(1, 2) { 2 + r.below((len - 2).max(1)) } else { 2 + r.below((len - 2).max(1).min(22)) };
        if j >= len { continue; }
        p[i][j] = match r.below(7) { 0 => r.byte(), 5 => { let o = 2 + r.below(len - 2); p[i][o] }, 6 => { let o = 2 + r.below((len - 2).min(22)); p[i][o] } 1 => p[i][j].wrapping_add(1), 2 => p[i][j].wrapping_sub(1), 3 => 0, _ => p[i][j] ^ (1 << r.below(8)) };
        *note += &format!(" mutate {}[{}]", k[i], j);
    }
    if r.chance(1, 8) { let l = p[i].len(); if l > 4 { if r.chance(1, 2) { p[i].truncate(l - 1); } else { p[i].push(r.byte()); } *note += " resize"; if r.chance(2, 3) { let l = (p[i].len() - 2) as u16; p[i][2..4].copy_from_slice(&l.to_be_bytes()); } } }
}
