use std::cell::Cell;
thread_local!(static S: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) });
pub fn seed(s: u64) {
    S.with(|c| c.set(s ^ 0x9E3779B97F4A7C15));
}
pub fn next() -> u64 {
    S.with(|c| {
        let mut z = c.get().wrapping_add(0x9E3779B97F4A7C15);
        c.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
/// Uniform in [0, 1).
pub fn unit() -> f64 {
    (next() >> 11) as f64 / (1u64 << 53) as f64
}
pub fn normal() -> f64 {
    let (a, b) = (unit().max(1e-300), unit());
    (-2.0 * a.ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos()
}
