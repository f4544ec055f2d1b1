// an iterator over a layer is used after the drop of the index
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, N, 16, 20, DistL2 {});
    for i in 0..N {
        h.insert((&v(i), i));
    }
    let it = h.get_point_indexation().get_layer_iterator(0);
    #[cfg(wrong)]
    drop(h);
    for p in it {
        assert_eq!(p.get_v(), &v(p.get_origin_id())[..]);
    }
}
