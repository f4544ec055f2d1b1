// a reloader is used again while the first mapped index lives
fn main() {
    let b = dumped();
    let mut io = mapped(&b);
    let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
    #[cfg(not(wrong))]
    drop((used(&h), h));
    let g: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
    #[cfg(wrong)]
    used(&h);
    used(&g);
}
