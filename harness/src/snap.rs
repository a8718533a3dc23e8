//! Independent view of a .vpx file: CFB streams and BIFF records.
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, Write};

pub type Snap = BTreeMap<String, Vec<u8>>;

pub fn snap(bytes: &[u8]) -> Result<Snap, String> {
    snap_from(Cursor::new(bytes))
}
pub fn snap_from<F: Read + Seek>(f: F) -> Result<Snap, String> {
    let mut c = cfb::CompoundFile::open(f).map_err(|e| format!("not a compound file: {e}"))?;
    let paths: Vec<_> = c.walk().filter(|e| e.is_stream()).map(|e| e.path().to_path_buf()).collect();
    let mut m = Snap::new();
    for p in paths {
        let mut s = c.open_stream(&p).map_err(|e| e.to_string())?;
        let mut v = vec![];
        s.read_to_end(&mut v).map_err(|e| e.to_string())?;
        m.insert(p.to_string_lossy().into_owned(), v);
    }
    Ok(m)
}
/// build a compound file from streams, without the code under test
pub fn build(s: &Snap) -> Vec<u8> {
    let mut c = cfb::CompoundFile::create(Cursor::new(Vec::new())).unwrap();
    // streams alone do not show an empty storage
    c.create_storage_all("/GameStg").unwrap();
    c.create_storage_all("/TableInfo").unwrap();
    for (p, d) in s {
        let path = std::path::Path::new(p);
        if let Some(par) = path.parent() {
            let _ = c.create_storage_all(par);
        }
        let mut st = c.create_stream(path).unwrap();
        st.write_all(d).unwrap();
        st.flush().unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

pub fn diff(a: &Snap, b: &Snap) -> Option<String> {
    diff_except(a, b, &[])
}
pub fn diff_except(a: &Snap, b: &Snap, except: &[&str]) -> Option<String> {
    for (k, v) in a {
        if except.contains(&k.as_str()) {
            continue;
        }
        match b.get(k) {
            None => return Some(format!("stream {k} missing")),
            Some(w) if w != v => {
                return Some(format!("stream {k} differs: {}", bdiff(v, w)));
            }
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) && !except.contains(&k.as_str()) {
            return Some(format!("unexpected stream {k}"));
        }
    }
    None
}
/// category of a stream, for signatures
pub fn cat(d: &str) -> String {
    d.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}
pub fn bdiff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let win = |v: &[u8]| {
        let s = i.saturating_sub(12);
        let e = (i + 20).min(v.len());
        format!("{:?}", String::from_utf8_lossy(&v[s.min(v.len())..e]))
    };
    format!("len {} vs {}, first difference at byte {i}: {} vs {}", a.len(), b.len(), win(a), win(b))
}

#[derive(Clone, PartialEq, Debug)]
pub struct Rec {
    pub tag: String,
    pub data: Vec<u8>,
    /// records nested in a DPNT / JPEG
    pub sub: Vec<Rec>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    GameData,
    Item,
    Image,
}

fn rd_u32(d: &[u8], p: usize) -> Result<u32, String> {
    d.get(p..p + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("truncated at {p}"))
}

/// strict parser: every record framed, terminated by ENDB, nothing after it
pub fn parse(d: &[u8], kind: Kind) -> Result<Vec<Rec>, String> {
    let start = if kind == Kind::Item { 4 } else { 0 };
    let (r, end) = parse_at(d, start, kind)?;
    if end != d.len() {
        return Err(format!("{} bytes after ENDB", d.len() - end));
    }
    Ok(r)
}
pub fn parse_at(d: &[u8], mut p: usize, kind: Kind) -> Result<(Vec<Rec>, usize), String> {
    let mut out = vec![];
    loop {
        let len = rd_u32(d, p)? as usize;
        if len < 4 {
            return Err(format!("record length {len} at {p}"));
        }
        let tagb = d.get(p + 4..p + 8).ok_or("truncated tag")?;
        let tag: String = tagb.iter().map(|b| *b as char).collect();
        if !(tagb[..3].iter().all(|b| b.is_ascii_graphic()) && (tagb[3] == 0 || tagb[3].is_ascii_graphic())) {
            return Err(format!("bad tag {tagb:?} at {p}"));
        }
        let body = p + 8;
        if tag == "ENDB" {
            if len != 4 {
                return Err(format!("ENDB length {len}"));
            }
            return Ok((out, body));
        }
        let special = len == 4;
        match tag.as_str() {
            "CODE" if kind == Kind::GameData => {
                if !special {
                    return Err(format!("CODE length {len}"));
                }
                let n = rd_u32(d, body)? as usize;
                let data = d.get(body + 4..body + 4 + n).ok_or("truncated CODE")?;
                out.push(Rec { tag, data: data.to_vec(), sub: vec![] });
                p = body + 4 + n;
            }
            "FONT" if kind == Kind::Item && special => {
                let n = *d.get(body + 10).ok_or("truncated FONT")? as usize;
                let data = d.get(body..body + 11 + n).ok_or("truncated FONT")?;
                out.push(Rec { tag, data: data.to_vec(), sub: vec![] });
                p = body + 11 + n;
            }
            "DPNT" if kind == Kind::Item => {
                let (sub, e) = parse_at(d, body, Kind::Plain)?;
                if len != 4 && p + 4 + len != e {
                    return Err(format!("DPNT length {len} but its records end at {e} (start {p})"));
                }
                out.push(Rec { tag, data: vec![], sub });
                p = e;
            }
            "JPEG" if kind == Kind::Image && special => {
                let (sub, e) = parse_at(d, body, Kind::Plain)?;
                out.push(Rec { tag, data: vec![], sub });
                p = e;
            }
            "BITS" if kind == Kind::Image && special => {
                // the LZW code stream is self-delimiting (end code)
                let q = match crate::oracle::lzw_decode(&d[body..]) {
                    Ok((_, n)) if d.get(body + n..body + n + 8).is_some_and(|t| t[..4] == 8u32.to_le_bytes() && t[4..].iter().all(|b| b.is_ascii_uppercase())) => body + n,
                    _ => {
                        // opaque data: ends at the next framed ALTV
                        let i = d[body..].windows(8).position(|w| w == b"\x08\0\0\0ALTV").ok_or("BITS has no end")?;
                        body + i
                    }
                };
                let data = d.get(body..q).ok_or("truncated BITS")?;
                out.push(Rec { tag, data: data.to_vec(), sub: vec![] });
                p = q;
            }
            _ => {
                let e = p + 4 + len;
                let data = d.get(body..e).ok_or_else(|| format!("record {tag} runs past the end"))?;
                out.push(Rec { tag, data: data.to_vec(), sub: vec![] });
                p = e;
            }
        }
    }
}
/// inverse of parse
pub fn emit(recs: &[Rec], kind: Kind, out: &mut Vec<u8>) {
    for r in recs {
        let special = match r.tag.as_str() {
            "CODE" => kind == Kind::GameData,
            "FONT" => kind == Kind::Item,
            "JPEG" | "BITS" => kind == Kind::Image,
            _ => false,
        };
        if r.tag == "DPNT" && kind == Kind::Item {
            let mut inner = vec![];
            emit(&r.sub, Kind::Plain, &mut inner);
            out.extend_from_slice(&(4 + inner.len() as u32).to_le_bytes());
            out.extend_from_slice(b"DPNT");
            out.extend(inner);
            continue;
        }
        let n = if special { 4 } else { 4 + r.data.len() as u32 };
        out.extend_from_slice(&n.to_le_bytes());
        out.extend(r.tag.bytes());
        if r.tag == "CODE" && special {
            out.extend_from_slice(&(r.data.len() as u32).to_le_bytes());
        }
        if r.tag == "JPEG" && special {
            emit(&r.sub, Kind::Plain, out);
        } else {
            out.extend_from_slice(&r.data);
        }
    }
    out.extend_from_slice(b"\x04\0\0\0ENDB");
}

/// what kind of BIFF a stream holds; None = not BIFF
pub fn stream_kind(path: &str) -> Option<Kind> {
    let name = path.strip_prefix("/GameStg/")?;
    if name == "GameData" {
        Some(Kind::GameData)
    } else if name.starts_with("GameItem") {
        Some(Kind::Item)
    } else if name.starts_with("Image") {
        Some(Kind::Image)
    } else if name.starts_with("Collection") || name == "CustomInfoTags" {
        Some(Kind::Plain)
    } else {
        None
    }
}
