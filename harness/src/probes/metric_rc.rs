// a metric that is not made for several threads
#[cfg(wrong)]
type P<T> = Rc<T>;
#[cfg(not(wrong))]
type P<T> = Arc<T>;
struct M(P<Vec<f32>>);
impl Distance<f32> for M {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        let w: Vec<P<Vec<f32>>> = (0..50).map(|_| self.0.clone()).collect();
        a.iter().zip(b).zip(w[7].iter()).map(|((x, y), w)| w * (x - y).abs()).sum()
    }
}
fn main() {
    for r in 0..20 {
        let h = Hnsw::<f32, M>::new(8, N, 16, 20, M(P::new(vec![1.; D])));
        let vs: Vec<Vec<f32>> = (0..N).map(v).collect();
        let l: Vec<(&Vec<f32>, usize)> = vs.iter().zip(0..).collect();
        h.parallel_insert(&l);
        h.parallel_search(&vs, 3, 10);
    }
}
