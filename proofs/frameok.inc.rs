/// what every frame the decoder works with satisfies
pub open spec fn frame_ok(f: FrameInfo) -> bool {
    &&& all_factors_ok(f.components@) && f.components@.len() <= 255 && f.image_size.width >= 1 && f.image_size.height >= 1
    &&& forall|i: int| 0 <= i < f.components@.len() ==> #[trigger] f.components@[i].quantization_table_index <= 3
    &&& forall|i: int, j: int| 0 <= i < j < f.components@.len() ==> (#[trigger] f.components@[i]).identifier != (#[trigger] f.components@[j]).identifier
    &&& f.coding_process == CodingProcess::DctProgressive ==> f.components@.len() <= 4
    &&& f.coding_process != CodingProcess::Lossless ==> f.precision == 8 || f.precision == 12
    &&& f.precision <= 16
}
