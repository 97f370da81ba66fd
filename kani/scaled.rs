// Scaled sizes are computed in f32: the expressions of the current source, for every size and scale.
//@cap src/parser.rs FrameInfo::update_idct_size `width : ( self . image_size . width as f32 $$a ) . ceil ( ) as u16` => `fn width ( w : u16 , idct_size : usize ) -> u16 { ( w as f32 $$a ) . ceil ( ) as u16 }`
//@cap src/parser.rs FrameInfo::update_idct_size `height : ( self . image_size . height as f32 $$a ) . ceil ( ) as u16` => `fn height ( w : u16 , idct_size : usize ) -> u16 { ( w as f32 $$a ) . ceil ( ) as u16 }`
fn expected(w: u16, n: usize) -> u16 { ((w as usize * n + 7) / 8) as u16 }
#[cfg(kani)]
#[kani::proof]
fn width_scaled() {
    let w: u16 = kani::any();
    let mut n = 1;
    while n <= 8 { assert!(width(w, n) == expected(w, n)); n += 1; }
}
#[cfg(kani)]
#[kani::proof]
fn height_scaled() {
    let w: u16 = kani::any();
    let mut n = 1;
    while n <= 8 { assert!(height(w, n) == expected(w, n)); n += 1; }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let w: u16 = a[2].parse().unwrap();
    let mut ok = true;
    for n in 1..=8 {
        let v = if a[1] == "width_scaled" { width(w, n) } else { height(w, n) };
        if v != expected(w, n) { ok = false; println!("{} size {} at {}/8: expected {}, computed {}", a[1], w, n, expected(w, n), v); }
    }
    std::process::exit(if ok { 0 } else { 1 });
}
