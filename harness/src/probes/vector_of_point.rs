// the vector of a point is read after the drop of point and index
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, N, 16, 20, DistL2 {});
    for i in 0..N {
        h.insert((&v(i), i));
    }
    let p = h.get_point_indexation().into_iter().next().unwrap();
    let (i, s) = (p.get_origin_id(), p.get_v());
    #[cfg(wrong)]
    {
        drop(h);
        drop(p);
    }
    assert_eq!(s, &v(i)[..]);
}
