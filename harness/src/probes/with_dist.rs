// an index reloaded with its metric by a reloader that maps, which is dropped first
fn main() {
    let b = dumped();
    let mut io = mapped(&b);
    {
        let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
        used(&h);
    }
    let h: Hnsw<f32, DistL2> = io.load_hnsw_with_dist(DistL2 {}).unwrap();
    #[cfg(wrong)]
    drop(io);
    used(&h);
}
