//! Reference implementations, independent of the code under test.
use crate::snap::{Kind, Rec, Snap, parse};
use md2::{Digest, Md2};

/// LZW (GIF flavour, 8-bit, LSB first, deferred clear) over length-prefixed
/// blocks.  Returns the data and the number of block bytes consumed.
pub fn lzw_decode(d: &[u8]) -> Result<(Vec<u8>, usize), String> {
    struct Bits<'a> {
        d: &'a [u8],
        p: usize,
        left: usize, // bytes left in the current block
        acc: u32,
        n: u32,
    }
    impl Bits<'_> {
        fn code(&mut self, w: u32) -> Result<u32, String> {
            while self.n < w {
                while self.left == 0 {
                    let b = *self.d.get(self.p).ok_or("out of blocks")?;
                    self.p += 1;
                    self.left = b as usize;
                }
                let b = *self.d.get(self.p).ok_or("truncated block")?;
                self.p += 1;
                self.left -= 1;
                self.acc |= (b as u32) << self.n;
                self.n += 8;
            }
            let c = self.acc & ((1 << w) - 1);
            self.acc >>= w;
            self.n -= w;
            Ok(c)
        }
    }
    const CLEAR: u32 = 256;
    const END: u32 = 257;
    let mut b = Bits { d, p: 0, left: 0, acc: 0, n: 0 };
    let mut table: Vec<(u32, u8, u32)> = vec![]; // (prefix, byte, length)
    let reset = |t: &mut Vec<(u32, u8, u32)>| {
        t.clear();
        for i in 0..258u32 {
            t.push((u32::MAX, i as u8, 1));
        }
    };
    reset(&mut table);
    let mut width = 9;
    let mut prev: Option<u32> = None;
    let mut out: Vec<u8> = vec![];
    let expand = |t: &Vec<(u32, u8, u32)>, mut c: u32| -> Vec<u8> {
        let mut v = Vec::with_capacity(t[c as usize].2 as usize);
        loop {
            let (p, b, _) = t[c as usize];
            v.push(b);
            if p == u32::MAX {
                break;
            }
            c = p;
        }
        v.reverse();
        v
    };
    loop {
        let c = b.code(width)?;
        if c == CLEAR {
            reset(&mut table);
            width = 9;
            prev = None;
            continue;
        }
        if c == END {
            // the rest of the current block is padding
            let p = b.p + b.left;
            return Ok((out, p));
        }
        let s = if (c as usize) < table.len() {
            expand(&table, c)
        } else if c as usize == table.len() && prev.is_some() {
            let mut s = expand(&table, prev.unwrap());
            s.push(s[0]);
            s
        } else {
            return Err(format!("code {c} out of range ({} entries)", table.len()));
        };
        if let Some(p) = prev {
            if table.len() < 4096 {
                let l = table[p as usize].2 + 1;
                table.push((p, s[0], l));
            }
        }
        out.extend_from_slice(&s);
        prev = Some(c);
        if table.len() == (1 << width) && width < 12 {
            width += 1;
        }
    }
}

/// Signature a table must carry, computed from its streams alone.
pub fn mac(s: &Snap) -> Result<Vec<u8>, String> {
    let mut h = Md2::new();
    h.update(b"Visual Pinball");
    let raw = |h: &mut Md2, p: &str| {
        if let Some(d) = s.get(p) {
            h.update(d);
        }
    };
    fn biff(h: &mut Md2, d: &[u8], k: Kind) -> Result<Vec<Rec>, String> {
        let recs = parse(d, k)?;
        for r in &recs {
            h.update(r.tag.as_bytes());
            h.update(&r.data);
        }
        h.update(b"ENDB");
        Ok(recs)
    }
    raw(&mut h, "/GameStg/Version");
    for n in ["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"] {
        raw(&mut h, &format!("/TableInfo/{n}"));
    }
    if let Some(d) = s.get("/GameStg/CustomInfoTags") {
        let recs = biff(&mut h, d, Kind::Plain)?;
        for r in recs.iter().filter(|r| r.tag == "CUST") {
            let n = u32::from_le_bytes(r.data[..4].try_into().unwrap()) as usize;
            let name: String = r.data[4..4 + n].iter().map(|b| *b as char).collect();
            let p = format!("/TableInfo/{name}");
            // compound file names compare case-insensitively
            if let Some((_, d)) = s.iter().find(|(k, _)| k.to_uppercase() == p.to_uppercase()) {
                h.update(d);
            }
        }
    }
    if let Some(d) = s.get("/GameStg/GameData") {
        biff(&mut h, d, Kind::GameData)?;
    }
    let mut i = 0;
    while let Some(d) = s.get(&format!("/GameStg/Collection{i}")) {
        biff(&mut h, d, Kind::Plain)?;
        i += 1;
    }
    Ok(h.finalize().to_vec())
}
