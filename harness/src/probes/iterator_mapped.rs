// points taken by a layer iterator of a mapped index, read after the drop of the reloader
fn main() {
    let b = dumped();
    let mut io = mapped(&b);
    let mut pts = vec![];
    {
        let h: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
        for l in 0..=h.get_max_level_observed() as usize {
            pts.extend(h.get_point_indexation().get_layer_iterator(l));
        }
    }
    #[cfg(wrong)]
    drop(io);
    for p in &pts {
        assert_eq!(p.get_v(), &v(p.get_origin_id())[..]);
    }
}
