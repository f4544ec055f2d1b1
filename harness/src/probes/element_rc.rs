// elements that are not made for several threads
#[cfg(wrong)]
type P<T> = Rc<T>;
#[cfg(not(wrong))]
type P<T> = Arc<T>;
#[derive(Clone)]
struct E(P<Vec<f32>>);
#[derive(Default)]
struct M;
impl Distance<E> for M {
    fn eval(&self, a: &[E], b: &[E]) -> f32 {
        let (a, b) = (a.to_vec(), b.to_vec());
        a[0].0.iter().zip(b[0].0.iter()).map(|(x, y)| (x - y).abs()).sum()
    }
}
fn main() {
    for r in 0..20 {
        let h = Hnsw::<E, M>::new(8, N, 16, 20, M);
        let vs: Vec<Vec<E>> = (0..N).map(|i| vec![E(P::new(v(i)))]).collect();
        let l: Vec<(&Vec<E>, usize)> = vs.iter().zip(0..).collect();
        h.parallel_insert(&l);
        h.parallel_search(&vs, 3, 10);
    }
}
