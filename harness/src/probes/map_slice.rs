// a slice of a data map is used after the drop of the map
fn main() {
    let b = dumped();
    let m = DataMap::from_hnswdump::<f32>(Path::new("."), &b).unwrap();
    let s: Vec<&[f32]> = (0..N).map(|i| m.get_data::<f32>(&i).unwrap()).collect();
    #[cfg(wrong)]
    drop(m);
    for i in 0..N {
        assert_eq!(s[i], &v(i)[..]);
    }
}
