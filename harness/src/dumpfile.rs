//! Reader of dump files independent of the library, giving the place of every magic number.

use crate::core::{GPt, Nb};
use std::path::Path;

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Header {
    pub mode: u8,
    pub m: u8,
    pub scale: f64,
    pub nb_layer: u8,
    pub ef: usize,
    pub nb_point: usize,
    pub dim: usize,
    pub dname: String,
    pub tname: String,
}

#[derive(Debug, Default, Clone)]
pub struct Dump {
    pub h: Header,
    pub pts: Vec<GPt>,
    pub entry: (usize, u8, i32),
    /// (file: 0 graph 1 data, offset) of magic numbers
    pub magics: Vec<(u8, usize)>,
    pub graph_len: usize,
    pub data_len: usize,
    pub data_dim: usize,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.p {
            return Err(format!("file ends at {} where {} bytes are needed at {}", self.b.len(), n, self.p));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_ne_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn i32(&mut self) -> Result<i32, String> {
        Ok(i32::from_ne_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn f32(&mut self) -> Result<f32, String> {
        Ok(f32::from_ne_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn f64(&mut self) -> Result<f64, String> {
        Ok(f64::from_ne_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn us(&mut self) -> Result<usize, String> {
        Ok(usize::from_ne_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn str(&mut self) -> Result<String, String> {
        let n = self.us()?;
        Ok(String::from_utf8_lossy(self.take(n)?).into_owned())
    }
    fn magic(&mut self, want: u32, what: &str) -> Result<usize, String> {
        let at = self.p;
        let m = self.u32()?;
        if m != want {
            return Err(format!("{what}: magic {m:x} at {at}"));
        }
        Ok(at)
    }
}

pub fn paths(dir: &Path, base: &str) -> (std::path::PathBuf, std::path::PathBuf) {
    (dir.join(format!("{base}.hnsw.graph")), dir.join(format!("{base}.hnsw.data")))
}

pub fn parse(dir: &Path, base: &str) -> Result<Dump, String> {
    let (gp, dp) = paths(dir, base);
    let gb = std::fs::read(gp).map_err(|e| e.to_string())?;
    let db = std::fs::read(dp).map_err(|e| e.to_string())?;
    parse_bytes(&gb, &db)
}

pub fn parse_bytes(gb: &[u8], db: &[u8]) -> Result<Dump, String> {
    let mut d = Dump {
        graph_len: gb.len(),
        data_len: db.len(),
        ..Default::default()
    };
    let mut g = Cur { b: gb, p: 0 };
    let mut r = Cur { b: db, p: 0 };
    d.magics.push((0, g.magic(0x002a6779, "description")?));
    d.h.mode = g.u8()?;
    d.h.m = g.u8()?;
    d.h.scale = g.f64()?;
    d.h.nb_layer = g.u8()?;
    d.h.ef = g.us()?;
    d.h.nb_point = g.us()?;
    d.h.dim = g.us()?;
    d.h.dname = g.str()?;
    d.h.tname = g.str()?;
    d.magics.push((1, r.magic(0xa67f0000, "data header")?));
    d.data_dim = r.us()?;
    let nl = g.u8()?;
    for l in 0..nl {
        d.magics.push((0, g.magic(0x000a676f, "layer")?));
        let n = g.us()?;
        for _ in 0..n {
            d.magics.push((0, g.magic(0x000a678f, "point")?));
            let id = g.us()?;
            let pid = (g.u8()?, g.i32()?);
            if pid.0 != l {
                return Err(format!("point {pid:?} in layer {l}"));
            }
            let mut nb = Vec::new();
            for _ in 0..16 {
                let k = g.us()?;
                let mut v = Vec::new();
                for _ in 0..k {
                    let id = g.us()?;
                    let pid = (g.u8()?, g.i32()?);
                    let dd = g.f32()?;
                    v.push(Nb { id, pid, d: dd });
                }
                nb.push(v);
            }
            d.magics.push((1, r.magic(0xa67f0000, "data record")?));
            let did = r.us()?;
            if did != id {
                return Err(format!("id {id} in graph, {did} in data"));
            }
            let len = r.us()?;
            let bytes = r.take(len)?.to_vec();
            d.pts.push(GPt { id, pid, bytes, nb });
        }
    }
    d.entry = (g.us()?, g.u8()?, g.i32()?);
    if g.p != gb.len() {
        return Err(format!("{} bytes left in graph file", gb.len() - g.p));
    }
    if r.p != db.len() {
        return Err(format!("{} bytes left in data file", db.len() - r.p));
    }
    Ok(d)
}
