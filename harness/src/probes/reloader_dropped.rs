// the reloader is dropped before the mapped index
fn main() {
    let b = dumped();
    let mut io = mapped(&b);
    let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
    used(&h);
    #[cfg(wrong)]
    drop(io);
    used(&h);
}
