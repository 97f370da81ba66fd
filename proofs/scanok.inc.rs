/// what every scan the decoder works with satisfies
pub open spec fn scan_ok(f: FrameInfo, c: ScanInfo) -> bool {
    let n = c.component_indices@.len();
    &&& 1 <= n <= 4 && c.dc_table_indices@.len() == n && c.ac_table_indices@.len() == n
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.component_indices@[i] < f.components@.len()
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] c.component_indices@[i] < #[trigger] c.component_indices@[j]
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.dc_table_indices@[i] <= 3
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.ac_table_indices@[i] <= 3
    &&& c.point_transform < f.precision && c.point_transform == c.successive_approximation_low && c.point_transform <= 15
    &&& f.coding_process != CodingProcess::Lossless ==> c.spectral_selection.start < c.spectral_selection.end <= 64 && c.successive_approximation_low <= 13
    &&& f.coding_process == CodingProcess::DctSequential ==> c.spectral_selection.start == 0 && c.spectral_selection.end == 64 && c.successive_approximation_high == 0 && c.successive_approximation_low == 0
    &&& f.coding_process == CodingProcess::DctProgressive ==> (c.successive_approximation_high != 0 ==> c.successive_approximation_high == c.successive_approximation_low + 1)
        && (c.spectral_selection.start != 0 ==> n == 1) && (c.spectral_selection.start == 0 ==> c.spectral_selection.end == 1)
}
