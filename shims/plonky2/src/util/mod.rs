pub mod reducing;
pub mod timing {
    #[derive(Debug, Default)]
    pub struct TimingTree;
    impl TimingTree {
        pub fn default() -> Self { Self }
        pub fn new(_n: &str, _l: u32) -> Self { Self }
        pub fn print(&self) {}
        pub fn filter(&self, _d: std::time::Duration) -> Self { Self }
    }
}
pub fn log2_ceil(n: usize) -> usize { n.next_power_of_two().trailing_zeros() as usize }
pub fn log2_strict(n: usize) -> usize { assert!(n.is_power_of_two(), "Not a power of two: {n}"); n.trailing_zeros() as usize }
pub const fn ceil_div_usize(a: usize, b: usize) -> usize { (a + b - 1) / b }
pub fn transpose<T: Clone>(m: &[Vec<T>]) -> Vec<Vec<T>> {
    if m.is_empty() { return vec![]; }
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect()
}
