// The row indices of the interpolation are computed in f32: the expressions of the current source, for every row.
//@cap src/upsampler.rs UpsamplerH1V2::upsample_row `let row_near = $$a ; let row_far = $$b ;` => `fn h1v2 ( row : usize , input_height : usize ) -> ( usize , usize ) { let row_near = $$a ; let row_far = $$b ; ( row_near as usize , row_far as usize ) }`
//@cap src/upsampler.rs UpsamplerH2V2::upsample_row `let row_near = $$a ; let row_far = $$b ;` => `fn h2v2 ( row : usize , input_height : usize ) -> ( usize , usize ) { let row_near = $$a ; let row_far = $$b ; ( row_near as usize , row_far as usize ) }`
fn expected(row: usize, n: usize) -> (usize, usize) {
    (row / 2, if row % 2 == 0 { if row == 0 { 0 } else { row / 2 - 1 } } else if row / 2 + 1 < n { row / 2 + 1 } else { n - 1 })
}
fn h1v2_ok(row: usize, n: usize) -> bool { h1v2(row, n) == expected(row, n) }
fn h2v2_ok(row: usize, n: usize) -> bool { h2v2(row, n) == expected(row, n) }
#[cfg(kani)]
fn any_row() -> (usize, usize) {
    let (row, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(row < 131072 && n >= 1 && n <= 65535 && row / 2 < n);
    (row, n)
}
#[cfg(kani)]
#[kani::proof]
fn h1v2_rows() { let (row, n) = any_row(); assert!(h1v2_ok(row, n)); }
#[cfg(kani)]
#[kani::proof]
fn h2v2_rows() { let (row, n) = any_row(); assert!(h2v2_ok(row, n)); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<usize> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    let ok = match a[1].as_str() { "h1v2_rows" => h1v2_ok(v[0], v[1]), _ => h2v2_ok(v[0], v[1]) };
    println!("{} row {} of a component of {} rows: expected {:?}, computed {:?}", a[1], v[0], v[1], expected(v[0], v[1]), if a[1] == "h1v2_rows" { h1v2(v[0], v[1]) } else { h2v2(v[0], v[1]) });
    std::process::exit(if ok { 0 } else { 1 });
}
