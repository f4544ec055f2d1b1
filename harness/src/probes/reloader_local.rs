// a mapped index leaves the function its reloader is local to
#[cfg(wrong)]
fn load(b: &str) -> Hnsw<'static, f32, DistL2> {
    let mut io = mapped(b);
    io.load_hnsw::<f32, DistL2>().unwrap()
}
#[cfg(not(wrong))]
fn load(b: &str) -> Hnsw<'static, f32, DistL2> {
    let io = Box::leak(Box::new(mapped(b)));
    io.load_hnsw::<f32, DistL2>().unwrap()
}
fn main() {
    let b = dumped();
    let h = load(&b);
    used(&h);
}
