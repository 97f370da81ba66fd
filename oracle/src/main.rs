mod util; mod enc; mod refdec; mod gen; mod simdconf;
use refdec::*;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Src { d: Vec<u8>, p: usize, short: bool }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.d.len() - self.p);
        if self.short && n > 1 { n = 1 + (self.p * 7) % n.min(3); }
        b[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

#[derive(Clone, Debug)]
struct Actual { res: Result<Vec<u8>, Class>, info: Option<(u16, u16, &'static str, &'static str)>, icc: Option<Vec<u8>>, exif: Option<Vec<u8>>, xmp: Option<Vec<u8>>, scaled: Option<(u16, u16)>, err: String }

fn class(e: &jpeg_decoder::Error) -> Class {
    use jpeg_decoder::{Error, UnsupportedFeature as U};
    match e {
        Error::Unsupported(u) => Class::Un(match u {
            U::Hierarchical => Un::Hier, U::ArithmeticEntropyCoding => Un::Arith, U::SamplePrecision(p) => Un::Prec(*p), U::ComponentCount(c) => Un::Comps(*c),
            U::DNL => Un::Dnl, U::SubsamplingRatio | U::NonIntegerSubsamplingRatio => Un::Ratio, U::ColorTransform(_) => Un::Ct, _ => return Class::Bad }),
        _ => Class::Bad,
    }
}

fn actual(bytes: &[u8], o: &Opts) -> Result<Actual, String> {
    use jpeg_decoder::*;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d = Decoder::new(Src { d: bytes.to_vec(), p: 0, short: o.short_reads });
        if let Some(c) = o.ct() {
            d.set_color_transform(match c { Ct::None => ColorTransform::None, Ct::Unknown => ColorTransform::Unknown, Ct::Gray => ColorTransform::Grayscale, Ct::Rgb => ColorTransform::RGB, Ct::YCbCr => ColorTransform::YCbCr, Ct::Cmyk => ColorTransform::CMYK, Ct::Ycck => ColorTransform::YCCK, Ct::BgYcc => ColorTransform::JcsBgYcc, Ct::BgRgb => ColorTransform::JcsBgRgb });
        }
        if let Some(l) = o.limit { d.set_max_decoding_buffer_size(l); }
        let mut a = Actual { res: Err(Class::Bad), info: None, icc: None, exif: None, xmp: None, scaled: None, err: String::new() };
        if o.info_first { if let Err(e) = d.read_info() { a.res = Err(class(&e)); a.err = e.to_string(); return a; } let _ = d.info(); }
        if let Some((w, h)) = o.scale { match d.scale(w, h) { Ok(s) => a.scaled = Some(s), Err(e) => { a.res = Err(class(&e)); a.err = e.to_string(); return a; } } }
        match d.decode() { Ok(p) => a.res = Ok(p), Err(e) => { a.res = Err(class(&e)); a.err = e.to_string(); } }
        a.info = d.info().map(|i| (i.width, i.height, match i.pixel_format { PixelFormat::L8 => "L8", PixelFormat::L16 => "L16", PixelFormat::RGB24 => "RGB24", PixelFormat::CMYK32 => "CMYK32" }, match i.coding_process { CodingProcess::DctSequential => "Seq", CodingProcess::DctProgressive => "Prog", CodingProcess::Lossless => "Lossless" }));
        a.icc = d.icc_profile(); a.exif = d.exif_data().map(|x| x.to_vec()); a.xmp = d.xmp_data().map(|x| x.to_vec());
        if o.again {
            // any further call may fail but must not panic
            let _ = d.decode(); let _ = d.info(); let _ = d.read_info();
            let _ = d.scale(1, 1); let _ = d.info(); let _ = d.decode(); let _ = d.scale(9, 70); let _ = d.decode(); let _ = d.icc_profile(); let _ = d.exif_data(); let _ = d.info();
        }
        a
    }));
    r.map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

/// Huge frames are only opened, not decoded.
fn info_only(bytes: &[u8], o: &Opts) -> Result<Actual, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d = jpeg_decoder::Decoder::new(Src { d: bytes.to_vec(), p: 0, short: o.short_reads });
        let _ = d.read_info(); let _ = d.info();
        if let Some((w, h)) = o.scale { let _ = d.scale(w, h); }
        Actual { res: Err(Class::Any), info: None, icc: None, exif: None, xmp: None, scaled: None, err: String::new() }
    }));
    r.map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

/// plane samples of one component through the crate itself, as a grayscale image over the padded grid
fn measure(coefs: &[[i32; 64]], bw: usize, bh: usize, q: &[u16; 64], s: usize) -> Option<Vec<u8>> {
    use enc::*;
    if bw * 8 > 65535 || bh * 8 > 65535 { return None; }
    let zz: Vec<[i32; 64]> = coefs.iter().map(|b| { let mut z = [0; 64]; for k in 0..64 { z[k] = b[util::ZZ[k]]; } z }).collect();
    let mut f = Frame { proc_: Proc::Seq, sof: 0xC1, prec: 8, w: bw * 8, h: bh * 8, comps: vec![Comp { id: 1, h: 1, v: 1, tq: 0, bw: 0, bh: 0, w: 0, hgt: 0, coefs: vec![] }], q: [*q; 4] };
    f.layout();
    f.comps[0].coefs = zz;
    let sc = Scan { comps: vec![0], td: vec![0], ta: vec![0], ss: 0, se: 63, ah: 0, al: 0, ri: 0 };
    let toks = scan_tokens(&f, &sc);
    let mut tabs: [[Option<util::Huff>; 4]; 2] = Default::default();
    let mut out = vec![0xFF, 0xD8];
    seg(&mut out, 0xDB, &dqt_entry(0, q, true));
    seg(&mut out, 0xC1, &sof_body(&f));
    for class in 0..2 {
        let mut used = vec![];
        for t in &toks { if let Tok::Sym { class: c, sym, .. } = t { if *c == class && !used.contains(sym) { used.push(*sym); } } }
        if class == 0 && used.iter().any(|&s| s > 11) || class == 1 && used.iter().any(|&s| s & 15 > 10) { return None; }
        if used.is_empty() { used.push(0); }
        let n = used.len(); // fixed-length 8-bit codes or shorter
        let mut bits = [0u8; 16];
        if n <= 128 { bits[7] = n as u8; } else { bits[8] = n.min(255) as u8; if n > 255 { return None; } }
        let h = util::Huff::new(bits, used)?;
        seg(&mut out, 0xC4, &dht_entry(class, 0, &h));
        tabs[class][0] = Some(h);
    }
    seg(&mut out, 0xDA, &sos_body(&f, &sc));
    write_tokens(&mut out, &toks, &tabs, true, 0);
    out.extend_from_slice(&[0xFF, 0xD9]);
    let o = Opts { scale: if s == 8 { None } else { Some(((bw * s) as u16, (bh * s) as u16)) }, ..Default::default() };
    let a = actual(&out, &o).ok()?;
    let p = a.res.ok()?;
    if p.len() != bw * s * bh * s { return None; }
    Some(p)
}

/// None: as required. Some(msg): what differs.
/// known finding: lossless images of several components of more than 8 bits have two bytes per sample, which no PixelFormat tells
fn two_bytes(a: &Actual) -> bool {
    match (&a.res, &a.info) { (Ok(p), Some(i)) => i.3 == "Lossless" && (i.2 == "RGB24" || i.2 == "CMYK32") && p.len() == i.0 as usize * i.1 as usize * 2 * if i.2 == "RGB24" { 3 } else { 4 }, _ => false }
}
fn compare(exp: &Out, act: &Result<Actual, String>) -> Option<String> {
    let a = match act { Err(p) => return Some(format!("panic: {}", p)), Ok(a) => a };
    match exp {
        Out::Unspec(_) => {
            if let (Ok(p), Some(i)) = (&a.res, &a.info) {
                let bpp = match i.2 { "L8" => 1, "L16" => 2, "RGB24" => 3, _ => 4 };
                if p.len() != i.0 as usize * i.1 as usize * bpp && !two_bytes(a) { return Some(format!("buffer of {} bytes for {}x{} {}", p.len(), i.0, i.1, i.2)); }
            }
            None
        }
        Out::Err(Class::Any) => match &a.res { Ok(_) => Some("accepted a stream that must be rejected".into()), Err(_) => None },
        Out::Err(Class::Bad) => match &a.res { Ok(_) => Some("accepted a stream that must be rejected".into()), Err(Class::Bad) => None, Err(c) => Some(format!("reported {:?} instead of a format or I/O error", c)) },
        Out::Err(c) => match &a.res { Ok(_) => Some(format!("accepted a stream that must be rejected as {:?}", c)), Err(d) if d == c => None, Err(d) => Some(format!("reported {:?} ({}) instead of {:?}", d, a.err, c)) },
        Out::Ok(i) => {
            let p = match &a.res { Ok(p) => p, Err(e) => return Some(format!("rejected a valid stream: {:?} {}", e, a.err)) };
            let fmt = match (i.ncomp, i.bytes_per) { (1, 1) => "L8", (1, _) => "L16", (3, _) => "RGB24", _ => "CMYK32" };
            let pr = match i.proc_ { enc::Proc::Seq => "Seq", enc::Proc::Prog => "Prog", enc::Proc::Lossless => "Lossless" };
            if a.info != Some((i.w as u16, i.h as u16, fmt, pr)) { return Some(format!("info {:?}, expected {}x{} {} {}", a.info, i.w, i.h, fmt, pr)); }
            if a.scaled != i.scaled { return Some(format!("scale() returned {:?}, expected {:?}", a.scaled, i.scaled)); }
            if p.len() != i.lo.len() * i.bytes_per { return Some(format!("{} bytes returned, expected {}", p.len(), i.lo.len() * i.bytes_per)); }
            for k in 0..i.lo.len() {
                let v = if i.bytes_per == 2 { u16::from_ne_bytes([p[2 * k], p[2 * k + 1]]) } else { p[k] as u16 };
                if v < i.lo[k] || v > i.hi[k] { let px = k / i.ncomp; return Some(format!("sample {} of pixel ({},{}) is {}, allowed {}..={}", k % i.ncomp, px % i.w, px / i.w, v, i.lo[k], i.hi[k])); }
            }
            if a.icc != i.icc { return Some(format!("icc profile {:?} bytes, expected {:?}", a.icc.as_ref().map(|x| x.len()), i.icc.as_ref().map(|x| x.len()))); }
            if a.exif != i.exif { return Some("exif data differ".into()); }
            if a.xmp != i.xmp { return Some("xmp data differ".into()); }
            None
        }
    }
}

fn opts_str(o: &Opts, mode: Mode) -> String {
    format!("ct={} scale={} limit={} info_first={} short_reads={} again={} mode={:?}", o.ct.map_or("-".into(), |c| c.to_string()), o.scale.map_or("-".into(), |s| format!("{}x{}", s.0, s.1)), o.limit.map_or("-".into(), |l| l.to_string()), o.info_first, o.short_reads, o.again, mode)
}
fn opts_parse(s: &str) -> (Opts, Mode) {
    let mut o = Opts::default(); let mut m = Mode::Interval;
    for kv in s.split_whitespace() { let Some((k, v)) = kv.split_once('=') else { continue }; if v == "-" { continue; } match k {
        "ct" => o.ct = v.parse().ok(), "scale" => { let (a, b) = v.split_once('x').unwrap(); o.scale = Some((a.parse().unwrap(), b.parse().unwrap())); }
        "limit" => o.limit = v.parse().ok(), "info_first" => o.info_first = v == "true", "short_reads" => o.short_reads = v == "true", "again" => o.again = v == "true", "mode" => if v == "Measured" { m = Mode::Measured }, _ => {} } }
    (o, m)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 3 && a[1] == "replay" {
        let bytes = std::fs::read(&a[2]).unwrap();
        let (o, m) = opts_parse(&a[3..].join(" "));
        let e = run(&bytes, &o, m, &measure);
        let r = if matches!(e, Out::Unspec(w) if w == TOO_LARGE) { info_only(&bytes, &o) } else { actual(&bytes, &o) };
        if a.iter().any(|x| x == "strict=true") { if let Ok(x) = &r { if two_bytes(x) { println!("FAILS: the buffer holds two bytes per sample, the format reported has one"); std::process::exit(1) } } }
        match compare(&e, &r) { Some(m) => { println!("FAILS: {}", m); std::process::exit(1) } None => { println!("as required ({})", match e { Out::Ok(_) => "decoded".into(), Out::Err(c) => format!("{:?}", c), Out::Unspec(w) => format!("unspecified: {}", w) }); } }
        return;
    }
    if a.len() >= 4 && a[1] == "dump" { let bytes = std::fs::read(&a[2]).unwrap(); let (o, _) = opts_parse(&a[4..].join(" ")); let r = actual(&bytes, &o); std::fs::write(&a[3], format!("{:?}", r)).unwrap(); return; }
    // oracle fuzz PROP seed seconds outdir threads
    let (prop, seed, secs, outdir, th) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].clone(), a[6].parse::<u64>().unwrap());
    let max_cases: u64 = a.get(7).map_or(u64::MAX, |x| x.parse().unwrap());
    if prop == "C14" { match std::panic::catch_unwind(|| simdconf::run(seed, 20_000)) { Ok(n) => println!("INTRINSICS\t{}", n.map_or("not available on this machine".into(), |n| format!("{} lanes as assumed", n))), Err(_) => { println!("INTRINSICS\tthe processor differs from the assumed contracts"); std::process::exit(3); } } }
    let t0 = std::time::Instant::now();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    // (case number + 1, start in ms) of every worker: a case that does not come back is a finding
    let now: std::sync::Arc<Vec<(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicU64)>> = std::sync::Arc::new((0..th).map(|_| Default::default()).collect());
    {
        let (now, prop, outdir) = (now.clone(), prop.clone(), outdir.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for w in now.iter() {
                let i = w.0.load(std::sync::atomic::Ordering::Relaxed);
                if i > 0 && t0.elapsed().as_millis() as u64 > w.1.load(std::sync::atomic::Ordering::Relaxed) + 60_000 && w.0.load(std::sync::atomic::Ordering::Relaxed) == i {
                    let c = gen::case(&prop, &mut util::Rng::new(seed.wrapping_mul(1_000_003) ^ ((i - 1) << 20) ^ (i - 1)));
                    let path = format!("{}/{}-{}-{}.jpg", outdir, prop, seed, i - 1);
                    std::fs::write(&path, &c.bytes).unwrap();
                    println!("FOUND\t{}\t{}\tdoes not return within a minute\t{}", path, opts_str(&c.opts, c.mode), c.note);
                    std::process::exit(1);
                }
            }
        });
    }
    let trace = std::env::var("ORACLE_TRACE").is_ok();
    let hs: Vec<_> = (0..th).map(|t| {
        let now = now.clone();
        let (prop, outdir, stop) = (prop.clone(), outdir.clone(), stop.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let (mut n, mut okc, mut errc, mut uns, mut digest) = (0u64, 0u64, 0u64, 0u64, std::collections::HashSet::new());
            let mut i = t;
            let mut found = None;
            let mut sample = String::new();
            while t0.elapsed().as_secs_f64() < secs && i < max_cases && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let mut r = util::Rng::new(seed.wrapping_mul(1_000_003) ^ (i << 20) ^ i);
                let c = gen::case(&prop, &mut r);
                now[t as usize].1.store(t0.elapsed().as_millis() as u64, std::sync::atomic::Ordering::Relaxed);
                now[t as usize].0.store(i + 1, std::sync::atomic::Ordering::Relaxed);
                if trace { std::fs::write(format!("{}/case-{}.jpg", outdir, t), &c.bytes).unwrap(); std::fs::write(format!("{}/current-{}.txt", outdir, t), opts_str(&c.opts, c.mode)).unwrap(); }
                let e = run(&c.bytes, &c.opts, c.mode, &measure);
                let act = if matches!(e, Out::Unspec(w) if w == TOO_LARGE) { info_only(&c.bytes, &c.opts) } else { actual(&c.bytes, &c.opts) };
                n += 1;
                match &e { Out::Ok(_) => okc += 1, Out::Err(_) => errc += 1, _ => uns += 1 }
                if !matches!(e, Out::Unspec(_)) { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); c.bytes.hash(&mut h); digest.insert(h.finish()); }
                if sample.is_empty() && matches!(e, Out::Ok(_)) { sample = format!("case {}: {} [{}]", i, c.note, opts_str(&c.opts, c.mode)); }
                if let Some(msg) = compare(&e, &act).filter(|m| prop != "C01" || m.starts_with("panic")) {
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    let path = format!("{}/{}-{}-{}.jpg", outdir, prop, seed, i);
                    std::fs::write(&path, &c.bytes).unwrap();
                    found = Some(format!("FOUND\t{}\t{}\t{}\t{}", path, opts_str(&c.opts, c.mode), msg, c.note));
                    break;
                }
                i += th;
            }
            now[t as usize].0.store(0, std::sync::atomic::Ordering::Relaxed);
            (n, okc, errc, uns, digest.len(), found, sample)
        }).unwrap()
    }).collect();
    let (mut n, mut okc, mut errc, mut uns, mut d, mut found, mut sample) = (0, 0, 0, 0, 0, vec![], String::new());
    for h in hs { let x = h.join().unwrap(); n += x.0; okc += x.1; errc += x.2; uns += x.3; d += x.4; if let Some(f) = x.5 { found.push(f) } if sample.is_empty() { sample = x.6 } }
    println!("STATS\tevaluations={}\tdistinct={}\tdecoded={}\trejected={}\tunspecified={}\tsecs={:.1}", n, d, okc, errc, uns, t0.elapsed().as_secs_f64());
    println!("SAMPLE\t{}", sample);
    for f in &found { println!("{}", f); }
    std::process::exit(if found.is_empty() { 0 } else { 1 });
}
