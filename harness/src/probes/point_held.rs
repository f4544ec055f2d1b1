// a point of a mapped index is read after the drop of index and reloader
fn main() {
    let b = dumped();
    let mut io = mapped(&b);
    let pts: Vec<_>;
    {
        let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
        pts = h.get_point_indexation().into_iter().collect::<Vec<_>>();
    }
    #[cfg(wrong)]
    drop(io);
    for p in &pts {
        assert_eq!(p.get_v(), &v(p.get_origin_id())[..]);
    }
}
