//! C12: damaged and malicious input.  Each case runs in a child process that
//! announces what it is about to do, so that a death can be attributed; a
//! counting allocator and the CPU clock of the process watch every stage.
use super::expand::{FORMATS, ext_of, opts};
use crate::meter;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::Scene;
use crate::snap::{self, Snap};
use crate::util::Scratch;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::{self, VPX};

const MB: u64 = 1 << 20;

// ---------------------------------------------------------------- damage

fn nasty_u32(r: &mut R, len: usize) -> u32 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.below(8) as u32,
        3 => u32::MAX - r.below(8) as u32,
        4 => 0x7fff_ffff,
        5 => 0x8000_0000,
        6 => len as u32,
        7 => (len as u32).wrapping_add(r.below(9) as u32).wrapping_sub(4),
        8 => 1 << r.below(32),
        9 => r.below(4096) as u32,
        10 => [f32::NAN, f32::INFINITY, f32::MAX, -1e30, 1e9, -0.0, 1e-40][r.below(7)].to_bits(),
        _ => r.u64() as u32,
    }
}
fn put32(b: &mut [u8], at: usize, v: u32) {
    for (i, x) in v.to_le_bytes().iter().enumerate() {
        if let Some(d) = b.get_mut(at + i) {
            *d = *x;
        }
    }
}

/// damage to the bytes of any file
fn damage_bytes(r: &mut R, b: &mut Vec<u8>) -> &'static str {
    let n = b.len();
    match r.below(11) {
        0 => {
            b.truncate(r.below(n + 1));
            "truncated"
        }
        1 => {
            b.truncate(r.below(n / 512 + 1) * 512);
            "truncated to sectors"
        }
        2 if n > 0 => {
            for _ in 0..1 + r.below(8) {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            "flipped bits"
        }
        3 if n > 8 => {
            for _ in 0..1 + r.below(4) {
                let at = r.below(n.min(512) / 4) * 4;
                let v = nasty_u32(r, n);
                put32(b, at, v);
            }
            "header words"
        }
        4 if n > 8 => {
            for _ in 0..1 + r.below(8) {
                let at = r.below(n / 4) * 4;
                let v = nasty_u32(r, n);
                put32(b, at, v);
            }
            "words"
        }
        5 if n > 1024 => {
            let s = *r.pick(&[512, 4096, 64, 128]);
            let m = n / s;
            if m > 1 {
                let (x, y) = (r.below(m) * s, r.below(m) * s);
                let t = b[x..x + s].to_vec();
                if r.bool() {
                    let u = b[y..y + s].to_vec();
                    b[x..x + s].copy_from_slice(&u);
                }
                b[y..y + s].copy_from_slice(&t);
            }
            "swapped sectors"
        }
        6 if n > 0 => {
            let x = r.below(n);
            let y = (x + r.below(600)).min(n);
            let v = *r.pick(&[0u8, 0xff, 0xfe, 0x20]);
            b[x..y].fill(v);
            "filled range"
        }
        7 if n > 0 => {
            let x = r.below(n);
            let y = (x + r.below(600)).min(n);
            b.drain(x..y);
            "removed range"
        }
        8 => {
            let k = r.below(700);
            let g = r.bytes(k);
            let at = if r.bool() { n } else { r.below(n + 1) };
            b.splice(at..at, g);
            "inserted range"
        }
        9 => {
            let k = r.below(5000);
            let mut g = r.bytes(k);
            if r.bool() {
                let h = b.len().min(r.below(600));
                g.splice(0..h.min(g.len()), b[..h].iter().copied());
            }
            *b = g;
            "random file"
        }
        _ => {
            // sector words of the tables that chain sectors
            if n >= 8192 {
                let s = if b.get(30) == Some(&12) { 4096 } else { 512 };
                for _ in 0..1 + r.below(5) {
                    let at = s + r.below((n - s).min(4 * s) / 4) * 4;
                    let v = if r.bool() { r.below(n / s + 2) as u32 } else { nasty_u32(r, n / s) };
                    put32(b, at, v);
                }
            }
            "sector chains"
        }
    }
}

/// positions that look like the start of a record: length, four letter tag
fn records(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for p in 0..b.len().saturating_sub(7) {
        let t = &b[p + 4..p + 8];
        if t[..3].iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_') && (t[3] == 0 || t[3].is_ascii_alphanumeric()) {
            let len = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
            if (4..=b.len() - p).contains(&len) {
                v.push(p);
            }
        }
    }
    v
}

fn damage_records(r: &mut R, b: &mut Vec<u8>) -> &'static str {
    let recs = records(b);
    if recs.is_empty() {
        return damage_bytes(r, b);
    }
    let k = r.below(recs.len());
    let p = recs[k];
    let len = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    let end = (p + 4 + len).min(b.len());
    match r.below(13) {
        0 | 1 => {
            let v = nasty_u32(r, len);
            put32(b, p, v);
            "record length"
        }
        2 | 3 | 4 => {
            // payload words: counts, string lengths, coordinates
            if end > p + 8 {
                let words = (end - p - 8).div_ceil(4);
                for _ in 0..1 + r.below(3) {
                    let at = p + 8 + if r.bool() { 0 } else { 4 * r.below(words) };
                    let v = nasty_u32(r, len);
                    put32(b, at, v);
                }
            }
            "record payload"
        }
        5 => {
            let q = *r.pick(&recs);
            let t = b[q + 4..q + 8].to_vec();
            b[p + 4..p + 8].copy_from_slice(&t);
            "record tag"
        }
        6 => {
            b.drain(p..end);
            "record removed"
        }
        7 => {
            let d = b[p..end].to_vec();
            let n = if r.chance(1, 4) { (200_000 / d.len().max(1)).min(5000) } else { 1 + r.below(3) };
            let q = *r.pick(&recs);
            b.splice(q..q, d.repeat(n));
            "record repeated"
        }
        8 => {
            b.truncate(p + r.below(12).min(b.len() - p));
            "cut inside a record"
        }
        9 => {
            if let Some(e) = (0..b.len().saturating_sub(3)).rev().find(|e| &b[*e..*e + 4] == b"ENDB") {
                if r.bool() {
                    b.truncate(e.saturating_sub(4));
                } else {
                    b[e..e + 4].copy_from_slice(b"ENDX");
                }
            }
            "no end record"
        }
        10 => {
            // deeply nested points or links
            let tag: &[u8] = *r.pick(&[b"DPNT", b"LINK", b"JPEG", b"FONT", b"CODE", b"BITS"]);
            let n = *r.pick(&[1, 2, 100, 3000, 60_000]);
            let mut g = vec![];
            for _ in 0..n {
                g.extend_from_slice(&4u32.to_le_bytes());
                g.extend_from_slice(tag);
            }
            b.splice(p..p, g);
            "nested records"
        }
        11 if end >= p + 8 => {
            b[p + 8..end].reverse();
            "payload reversed"
        }
        _ => {
            if end > p + 8 {
                let m = r.below(end - p - 8);
                b.drain(p + 8..p + 8 + m);
                if r.bool() {
                    put32(b, p, (len - m) as u32);
                }
            }
            "payload shortened"
        }
    }
}

fn damage_streams(r: &mut R, s: &mut Snap) -> &'static str {
    let names: Vec<String> = s.keys().cloned().collect();
    let a = r.pick(&names).clone();
    let b = r.pick(&names).clone();
    match r.below(8) {
        0 => {
            s.remove(&a);
            "stream removed"
        }
        1 => {
            s.insert(a, vec![]);
            "stream empty"
        }
        2 => {
            let d = s[&b].clone();
            s.insert(a, d);
            "stream replaced by another"
        }
        3 => {
            let k = r.below(3000);
            let d = r.bytes(k);
            s.insert(a, d);
            "stream random"
        }
        4 => {
            let d = s[&b].clone();
            s.get_mut(&a).unwrap().extend(d);
            "stream with another appended"
        }
        5 => {
            // one more item than the table says, or another type of item
            let n = r.below(20);
            let d = s[&b].clone();
            s.insert(format!("/GameStg/{}{n}", ["GameItem", "Image", "Sound", "Font", "Collection"][r.below(5)]), d);
            "stream added"
        }
        6 => {
            // the words that say how many streams there are
            if let Some(d) = s.get_mut("/GameStg/GameData") {
                for t in [b"SEDT", b"SSND", b"SIMG", b"SFNT", b"SCOL"] {
                    if r.bool() {
                        if let Some(p) = d.windows(4).position(|w| w == t) {
                            let v = nasty_u32(r, 3);
                            put32(d, p + 4, v);
                        }
                    }
                }
            }
            "counts"
        }
        _ => {
            if let Some(v) = s.get_mut("/GameStg/Version") {
                let x = nasty_u32(r, 1080);
                *v = x.to_le_bytes().to_vec();
                if r.chance(1, 4) {
                    v.truncate(r.below(4));
                }
            }
            "version"
        }
    }
}

/// absurd positions, sizes and angles in some items
fn wild(r: &mut R, s: &mut Snap) -> String {
    let items: Vec<String> = s.keys().filter(|k| k.contains("/GameItem")).cloned().collect();
    let mut how = BTreeSet::new();
    for _ in 0..1 + r.below(3) {
        if items.is_empty() {
            break;
        }
        let b = s.get_mut(r.pick(&items)).unwrap();
        let recs: Vec<usize> = records(b).into_iter().filter(|p| [8, 12, 16].contains(&u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()))).collect();
        if recs.is_empty() {
            continue;
        }
        let all = r.chance(1, 4);
        let vcen = r.bool();
        for p in &recs {
            let point = matches!(&b[p + 4..p + 8], b"VCEN");
            if (all && r.bool()) || (vcen && point && r.chance(1, 3)) || r.chance(1, recs.len()) {
                let n = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize / 4 - 1;
                let v = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e30, -1e30, 1e9, 1e7, 1e6, -1e5, 1e4, 0.0, -0.0, 1e-40, 1e-10, -1.0]);
                let v = if r.chance(1, 6) { nasty_u32(r, 4) } else { v.to_bits() };
                put32(b, p + 8 + 4 * r.below(n), v);
                how.insert(String::from_utf8_lossy(&b[p + 4..p + 8]).into_owned());
            }
        }
    }
    format!("absurd {}", how.into_iter().collect::<Vec<_>>().join(" "))
}

fn table(r: &mut R) -> (VPX, bool) {
    if r.bool() { (Scene::table(r, 8), true) } else { (g_vpx(r, &Cfg::expanded()), false) }
}

/// a damaged table file and what was done to it
pub fn hostile_table(r: &mut R) -> (Vec<u8>, String) {
    let v = table(r).0;
    let good = vpx::to_bytes(&v).expect("base table");
    let mut how = BTreeSet::new();
    let level = r.below(10);
    if level < 7 {
        let mut s = snap::snap(&good).expect("base streams");
        for _ in 0..1 + r.below(3) {
            if level < 1 {
                how.insert(damage_streams(r, &mut s));
                if s.is_empty() {
                    break;
                }
                continue;
            }
            let names: Vec<String> = s.keys().cloned().collect();
            // game items are many: give the rest its share
            let n = if r.chance(1, 4) { "/GameStg/GameData".to_string() } else { r.pick(&names).clone() };
            let Some(d) = s.get_mut(&n) else { continue };
            how.insert(if r.chance(1, 6) { damage_bytes(r, d) } else { damage_records(r, d) });
        }
        let mut b = snap::build(&s);
        if r.chance(1, 8) {
            how.insert(damage_bytes(r, &mut b));
        }
        (b, how.into_iter().collect::<Vec<_>>().join("+"))
    } else {
        let mut b = good;
        for _ in 0..1 + r.below(2) {
            how.insert(damage_bytes(r, &mut b));
        }
        (b, format!("file: {}", how.into_iter().collect::<Vec<_>>().join("+")))
    }
}

/// meshes and pictures that unpack to much more, or to something else, than
/// they promise
fn bomb(r: &mut R, v: &mut VPX) -> String {
    use vpin::vpx::gameitem::GameItemEnum as G;
    let mut how = vec![];
    for g in v.gameitems.iter_mut() {
        if let G::Primitive(p) = g {
            match r.below(7) {
                0 => p.num_vertices = Some(nasty_u32(r, 100)),
                1 => p.num_indices = Some(nasty_u32(r, 100)),
                2 => {
                    let n = r.below(4000);
                    let d = if r.bool() { r.bytes(n) } else { vec![r.u8(); n] };
                    p.compressed_vertices_data = Some(zlib(&d, 6));
                    p.compressed_vertices_len = Some(nasty_u32(r, n));
                }
                3 => {
                    let n = r.below(4000);
                    let d = r.bytes(n);
                    p.compressed_indices_data = Some(zlib(&d, 6));
                }
                4 => {
                    // random floats: NaN, infinities, huge coordinates
                    let n = 1 + r.below(40);
                    let d: Vec<u8> = (0..n * 8).flat_map(|_| nasty_u32(r, n).to_le_bytes()).collect();
                    p.num_vertices = Some(n as u32);
                    p.compressed_vertices_data = Some(zlib(&d, 6));
                    p.compressed_vertices_len = Some(1);
                    let ix: Vec<u8> = (0..3 * n).flat_map(|_| (r.below(n + 1) as u16).to_le_bytes()).collect();
                    p.num_indices = Some(3 * n as u32);
                    p.compressed_indices_data = Some(zlib(&ix, 6));
                    p.compressed_indices_len = Some(1);
                }
                5 => {
                    let d = vec![0; r.below(3) * 4_000_000];
                    p.compressed_vertices_data = Some(zlib(&d, 6));
                    p.num_vertices = Some((d.len() / 32) as u32);
                }
                _ => p.compressed_animation_vertices_data = Some((0..r.below(4)).map(|_| zlib(&vec![7; 1 + r.below(4000)], 6)).collect()),
            }
            how.push("mesh");
        }
    }
    for i in v.images.iter_mut() {
        match r.below(4) {
            0 => {
                i.width = nasty_u32(r, 16);
                i.height = nasty_u32(r, 16);
                // no pixels but billions of rows: see DESIGN.md
                if i.width == 0 {
                    i.height &= 0xffff;
                }
            }
            1 => {
                if let Some(b) = &mut i.bits {
                    let n = r.below(4000);
                    b.lzw_compressed_data = if r.bool() { r.bytes(n) } else { lzw(&vec![3; 100 * n]) };
                }
            }
            2 => {
                if let Some(j) = &mut i.jpeg {
                    damage_bytes(r, &mut j.data);
                }
            }
            _ => i.name = "x".repeat(*r.pick(&[0, 300, 70_000])),
        }
        how.push("image");
    }
    for s in v.sounds.iter_mut() {
        if r.bool() {
            let n = r.below(300);
            s.data = r.bytes(n);
            s.wave_form.samples_per_sec = nasty_u32(r, 1);
            s.wave_form.avg_bytes_per_sec = nasty_u32(r, 1);
            s.wave_form.channels = r.u16();
            s.wave_form.bits_per_sample = r.u16();
        }
        how.push("sound");
    }
    how.sort();
    how.dedup();
    how.join("+")
}

fn damage_json(r: &mut R, v: &mut serde_json::Value, how: &mut BTreeSet<&'static str>) {
    use serde_json::Value as J;
    match v {
        J::Object(m) if !m.is_empty() && r.chance(9, 10) => {
            let k: Vec<String> = m.keys().cloned().collect();
            let k = r.pick(&k).clone();
            if r.chance(1, 12) {
                m.remove(&k);
                how.insert("key removed");
            } else {
                damage_json(r, &mut m[&k], how);
            }
        }
        J::Array(a) if !a.is_empty() && r.chance(9, 10) => {
            let i = r.below(a.len());
            match r.below(8) {
                0 => {
                    a.remove(i);
                    how.insert("element removed");
                }
                1 => {
                    let x = a[i].clone();
                    for _ in 0..*r.pick(&[1, 2, 500]) {
                        a.push(x.clone());
                    }
                    how.insert("element repeated");
                }
                _ => damage_json(r, &mut a[i], how),
            }
        }
        x => {
            how.insert("value replaced");
            *x = match r.below(12) {
                0 => J::Null,
                1 => json!(nasty_u32(r, 10)),
                2 => json!(-1),
                3 => json!(u64::MAX),
                4 => json!(1e300),
                5 => json!(""),
                6 => json!("../../../../etc/passwd"),
                7 => json!("a".repeat(5000)),
                8 => json!([]),
                9 => json!({}),
                10 => json!(r.bool()),
                _ => json!(r.below(100000)),
            };
        }
    }
}

fn damage_text(r: &mut R, b: &mut Vec<u8>) -> &'static str {
    let s = String::from_utf8_lossy(b).into_owned();
    let mut l: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    if l.is_empty() {
        return damage_bytes(r, b);
    }
    let i = r.below(l.len());
    let k = match r.below(8) {
        0 => {
            l.remove(i);
            "line removed"
        }
        1 => {
            let x = l[i].clone();
            let n = *r.pick(&[1, 3, 2000]);
            l.splice(i..i, std::iter::repeat_n(x, n));
            "line repeated"
        }
        2 => {
            let j = r.below(l.len());
            l.swap(i, j);
            "lines swapped"
        }
        3 => {
            l.truncate(i);
            "lines cut"
        }
        _ => {
            let w: Vec<&str> = l[i].split(' ').collect();
            let j = r.below(w.len());
            let mut w: Vec<String> = w.iter().map(|x| x.to_string()).collect();
            w[j] = match r.below(10) {
                0 => "NaN".into(),
                1 => "inf".into(),
                2 => "-1".into(),
                3 => "0".into(),
                4 => "4294967296".into(),
                5 => "99999999999999999999999".into(),
                6 => "1e39".into(),
                7 => "1//".into(),
                8 => "1000000/1000000/1000000".into(),
                _ => String::new(),
            };
            l[i] = w.join(" ");
            "word replaced"
        }
    };
    *b = l.join("\n").into_bytes();
    k
}

type Files = BTreeMap<PathBuf, Vec<u8>>;

fn damage_dir(r: &mut R, f: &mut Files) -> String {
    let mut how = BTreeSet::new();
    for _ in 0..1 + r.below(2) {
        let names: Vec<PathBuf> = f.keys().cloned().collect();
        if names.is_empty() {
            break;
        }
        let mut p = r.pick(&names).clone();
        // meshes and lists are what is parsed
        if r.bool() {
            let m: Vec<&PathBuf> = names.iter().filter(|p| p.extension().is_some_and(|e| ["obj", "glb", "gltf", "bin", "wav", "png", "bmp", "exr"].iter().any(|x| e == *x))).collect();
            if !m.is_empty() {
                p = (*r.pick(&m)).clone();
            }
        }
        let ext = p.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        let q = r.pick(&names).clone();
        let other = f[&q].clone();
        let b = f.get_mut(&p).unwrap();
        let what: String = match ext.as_str() {
            _ if r.chance(1, 12) => {
                *b = other;
                "content of another file".into()
            }
            "json" | "gltf" if r.chance(7, 8) => match serde_json::from_slice::<serde_json::Value>(b) {
                Ok(mut j) => {
                    let mut h = BTreeSet::new();
                    for _ in 0..1 + r.below(3) {
                        damage_json(r, &mut j, &mut h);
                    }
                    *b = serde_json::to_vec(&j).unwrap();
                    h.into_iter().collect::<Vec<_>>().join("+")
                }
                Err(_) => damage_bytes(r, b).into(),
            },
            "json" | "gltf" => {
                let n = *r.pick(&[1, 100, 100_000]);
                *b = [b"[".as_slice(), b"{\"a\":", b"[1,"][r.below(3)].repeat(n);
                "nested json".into()
            }
            "obj" | "mtl" | "vbs" if r.chance(3, 4) => damage_text(r, b).into(),
            "glb" if b.len() > 20 && r.chance(3, 4) => {
                // the JSON part, with lengths made to match
                let jl = u32::from_le_bytes(b[12..16].try_into().unwrap()) as usize;
                match b.get(20..20 + jl).and_then(|x| serde_json::from_slice::<serde_json::Value>(x).ok()) {
                    Some(mut j) => {
                        let mut h = BTreeSet::new();
                        for _ in 0..1 + r.below(2) {
                            damage_json(r, &mut j, &mut h);
                        }
                        let mut t = serde_json::to_vec(&j).unwrap();
                        while t.len() % 4 != 0 {
                            t.push(b' ');
                        }
                        let rest = b[20 + jl..].to_vec();
                        b.truncate(20);
                        put32(b, 12, t.len() as u32);
                        b.extend(t);
                        b.extend(rest);
                        let n = b.len() as u32;
                        put32(b, 8, n);
                        h.into_iter().collect::<Vec<_>>().join("+")
                    }
                    None => damage_bytes(r, b).into(),
                }
            }
            _ => damage_bytes(r, b).into(),
        };
        how.insert(format!("{ext}: {what}"));
    }
    how.into_iter().collect::<Vec<_>>().join(", ")
}

// ----------------------------------------------------------------- child

struct Stages {
    i: u64,
    size: u64,
}
impl Stages {
    fn run<T>(&self, name: &str, f: impl FnOnce() -> Result<T, String>) -> Option<T> {
        say(&format!("S {} {name}", self.i));
        meter::start();
        let r = guarded(f);
        let (cpu, peak) = meter::stop();
        let end = match &r {
            Ok(Ok(_)) => "ok".to_string(),
            Ok(Err(e)) => format!("err {}", e.chars().take(60).collect::<String>().replace('\n', " ")),
            Err(p) => format!("panic {}", p.sig().replace('\n', " ")),
        };
        say(&format!("D {} {cpu} {peak} {} {name}\t{end}", self.i, self.size));
        r.ok()?.ok()
    }
}
fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
fn es(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// `tame`: the outlines of the items are plausible, so that generated
/// geometry is bounded
fn outputs(st: &Stages, v: &VPX, r: &mut R, tame: bool) {
    for k in [r.below(3), 3 + r.below(3)] {
        if k > 2 && !tame {
            continue;
        }
        let fs = MonFs::new();
        let derived = tame && r.chance(1, 4);
        let p = Path::new("/x/t.glb");
        match k {
            0..=2 => {
                let f = FORMATS[k];
                st.run(&format!("extract {}", ext_of(f)), || vpx::expanded::write_fs(v, &Path::new("/x"), &opts(f, derived), &fs).map_err(es))
            }
            3 | 4 => {
                let format = if k == 3 { GltfFormat::Glb } else { GltfFormat::Gltf };
                let e = GltfExportOptions { format, export_invisible_items: true, ..Default::default() };
                st.run(if k == 3 { "export glb" } else { "export gltf" }, || export_gltf(v, p, &fs, &e).map(|_| ()).map_err(es))
            }
            _ => {
                let e = ObjExportOptions { extract_textures: true, ..Default::default() };
                st.run("export obj", || export_obj(v, Path::new("/x/t.obj"), &fs, &e).map(|_| ()).map_err(es))
            }
        };
    }
    if r.chance(1, 3) {
        st.run("write", || vpx::to_bytes(v).map_err(es));
    }
}

fn same(st: &Stages, p: &Path, want: &[u8], what: &str) {
    if std::fs::read(p).ok().as_deref() != Some(want) {
        say(&format!("V {} {what} changed the file", st.i));
    }
}

fn case(sub: &str, r: &mut R, i: u64, dir: &Path) {
    match sub {
        "table" => {
            let (b, how) = hostile_table(r);
            let st = Stages { i, size: b.len() as u64 };
            say(&format!("H {i} {how}"));
            let v = st.run("from_bytes", || vpx::from_bytes(&b).map_err(es));
            if r.chance(1, 3) {
                let p = dir.join("t.vpx");
                std::fs::write(&p, &b).expect("scratch file");
                let pv = st.run("read", || vpx::read(&p).map_err(es));
                if pv.is_some() != v.is_some() {
                    say(&format!("V {i} read and from_bytes disagree about a damaged file"));
                }
                if let (Some(a), Some(b)) = (&pv, &v) {
                    // by text: not-a-number equals itself
                    let words = |s: String| {
                        // font styles are a set, printed in any order
                        let mut w: Vec<String> = s.split(|c: char| c.is_whitespace() || "{}[](),".contains(c)).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
                        w.sort();
                        w
                    };
                    let t = |v: &VPX| words(format!("{:?}", (&v.version, &v.custominfotags, &v.gamedata, &v.gameitems, &v.images, &v.sounds, &v.fonts, &v.collections)));
                    if t(a) != t(b) || a.info != b.info {
                        let d = t(a).into_iter().zip(t(b)).find(|(x, y)| x != y).map(|(x, y)| format!("{x} vs {y}")).unwrap_or("table info".into());
                        say(&format!("V {i} read and from_bytes read different tables from a damaged file\t{d}"));
                    }
                }
                drop(pv);
                st.run("verify", || Ok(matches!(vpx::verify(&p), vpx::VerifyResult::Ok(_))));
                st.run("open and read parts", || {
                    let mut f = vpx::open(&p).map_err(es)?;
                    let ver = guarded(|| f.read_version().map(|_| ()));
                    let _ = guarded(|| f.read_tableinfo().map(|_| ()));
                    let _ = guarded(|| f.is_locked());
                    let _ = guarded(|| f.read_custominfotags().map(|_| ()));
                    let _ = guarded(|| f.read_gamedata().map(|_| ()));
                    let _ = guarded(|| f.read_gameitems().map(|_| ()));
                    let _ = guarded(|| f.read_images().map(|_| ()));
                    let _ = guarded(|| f.read_sounds().map(|_| ()));
                    let _ = guarded(|| f.read_fonts().map(|_| ()));
                    let _ = guarded(|| f.read_collections().map(|_| ()));
                    drop(ver);
                    Ok(())
                });
                let vbs = dir.join("t.vbs");
                st.run("extract script", || vpx::extractvbs(&p, Some(vbs.clone()), true).map(|_| ()).map_err(es));
                st.run("list", || Ok(vpx::expanded::extract_directory_list(&p)));
                same(&st, &p, &b, "reading");
                if st.run("compact", || vpx::compact(&p).map_err(es)).is_none() {
                    same(&st, &p, &b, "a failed compaction");
                }
                for e in std::fs::read_dir(dir).expect("scratch").flatten() {
                    let _ = std::fs::remove_file(e.path());
                }
            }
            if let Some(v) = v {
                outputs(&st, &v, r, false);
            }
        }
        "bomb" => {
            let (mut v, tame) = table(r);
            let how = bomb(r, &mut v);
            say(&format!("H {i} bomb {how}"));
            // as a reader gets it
            let Ok(Ok(b)) = guarded(|| vpx::to_bytes(&v)) else { return };
            let st = Stages { i, size: b.len() as u64 };
            if let Some(v) = st.run("from_bytes", || vpx::from_bytes(&b).map_err(es)) {
                outputs(&st, &v, r, tame);
            }
        }
        "geometry" => {
            let good = vpx::to_bytes(&Scene::table(r, 4)).expect("base table");
            let mut s = snap::snap(&good).expect("base streams");
            let how = wild(r, &mut s);
            let b = snap::build(&s);
            say(&format!("H {i} {how}"));
            let st = Stages { i, size: b.len() as u64 };
            if let Some(v) = st.run("from_bytes", || vpx::from_bytes(&b).map_err(es)) {
                outputs(&st, &v, r, true);
            }
        }
        _ => {
            let (v, tame) = table(r);
            let f = FORMATS[r.below(FORMATS.len())];
            let fs = MonFs::new();
            let derived = tame && r.chance(1, 3);
            if !matches!(guarded(|| vpx::expanded::write_fs(&v, &Path::new("/x"), &opts(f, derived), &fs)), Ok(Ok(()))) {
                return;
            }
            let mut files = fs.files();
            let how = damage_dir(r, &mut files);
            say(&format!("H {i} dir {how}"));
            let st = Stages { i, size: files.values().map(|b| b.len() as u64).sum() };
            let fs = MonFs::from_files(&files);
            if let Some(v) = st.run(&format!("assemble {}", ext_of(f)), || vpx::expanded::read_fs(&Path::new("/x"), &fs).map_err(es)) {
                st.run("write", || vpx::to_bytes(&v).map_err(es));
                if r.chance(1, 3) {
                    outputs(&st, &v, r, false);
                }
            }
            if fs.log().iter().any(|o| !matches!(o, Op::Read(_))) {
                say(&format!("V {i} assembly changed the directory"));
            }
        }
    }
}

/// vpmon hostile <sub> <first> <step> <end> <dir> <seed of sub>
pub fn child(a: &[String]) {
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (sub, first, step, end, dir) = (a[0].clone(), num(1), num(2), num(3), PathBuf::from(&a[4]));
    let seed: u64 = a[5].parse().unwrap();
    let id = a[6].clone();
    unsafe {
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    rayon::ThreadPoolBuilder::new().num_threads(2).stack_size(64 << 20).build_global().expect("pool");
    let mut ctx = Ctx::new("C12", "quick", seed, String::new());
    let _ = &mut ctx;
    let _ = id;
    // the same case computed forever: CPU time of this process
    let kill = if sub == "geometry" { 10 * CPU_KILL } else { CPU_KILL };
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut i = first;
            while i < end {
                let mut r = R::new(ctx.case_seed(&sub, i));
                say(&format!("B {i}"));
                if let Err(p) = guarded(|| case(&sub, &mut r, i, &dir)) {
                    say(&format!("P {i} {} {}", p.ours, p.sig()));
                }
                say(&format!("E {i}"));
                i += step;
            }
        })
        .unwrap();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if meter::cpu_since_start() > kill {
                say("T");
                unsafe { libc::_exit(77) };
            }
        }
    });
    h.join().unwrap();
}

const CPU_KILL: u64 = 60_000;
/// (milliseconds, bytes) allowed for one stage on `size` bytes of input
fn allowed(stage: &str, size: u64) -> (u64, u64) {
    // the signature covers the value of a custom tag as often as it is listed
    let read = ["from_bytes", "read", "open and read parts", "extract script", "list", "compact"].contains(&stage);
    if read { (4_000 + size / 1000, 24 * MB + 60 * size) } else { (40_000 + size / 100, 128 * MB + 2000 * size) }
}

// ---------------------------------------------------------------- parent

fn watch(ctx: &Ctx, sub: &str, first: u64, step: u64, end: u64, dir: &Path) {
    let mut from = first;
    while from < end {
        let errf = dir.join(format!("err{first}"));
        let exe = "/proc/self/exe";
        let d = dir.join(format!("w{first}"));
        let _ = std::fs::create_dir_all(&d);
        let mut ch = match Command::new(exe)
            .args(["hostile", sub, &from.to_string(), &step.to_string(), &end.to_string()])
            .arg(&d)
            .args([ctx.seed.to_string(), ctx.prop.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&errf).expect("scratch"))
            .spawn()
        {
            Ok(c) => c,
            Err(e) => return ctx.inconclusive(format!("child not started: {e}")),
        };
        let out = BufReader::new(ch.stdout.take().unwrap());
        let (mut cur, mut stage, mut how, mut timed) = (from, String::new(), String::new(), false);
        let mut ended = true;
        let at = |i: u64| CaseRef { sub: sub.into(), idx: i };
        for l in out.lines() {
            let Ok(l) = l else { break };
            let (k, rest) = l.split_at(1.min(l.len()));
            let rest = rest.trim_start();
            let (num, tail) = rest.split_once(' ').unwrap_or((rest, ""));
            match k {
                "B" => {
                    cur = num.parse().unwrap_or(cur);
                    ended = false;
                    stage = "preparation".into();
                    how.clear();
                    ctx.evals.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
                "H" => how = tail.into(),
                "S" => stage = tail.into(),
                "T" => timed = true,
                "E" => {
                    ended = true;
                    ctx.count(&format!("cases:{sub}"), 1);
                }
                "V" => {
                    let (sig, d) = tail.split_once('\t').unwrap_or((tail, ""));
                    ctx.report(at(cur), Viol { sig: sig.into(), detail: format!("{tail} {d}; damage: {how}") })
                }
                "P" => {
                    let (ours, sig) = tail.split_once(' ').unwrap_or(("true", tail));
                    // generation ran the library on good data: other checks' business
                    if ours == "true" {
                        ctx.inconclusive(format!("harness error in {sub}/{cur}: {sig}"));
                    } else {
                        ctx.count("skipped: preparation panicked", 1);
                    }
                }
                "D" => {
                    let mut w = tail.splitn(4, ' ');
                    let mut n = || w.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    let (cpu, peak, size) = (n(), n(), n());
                    let (name, res) = w.next().unwrap_or("").split_once('\t').unwrap_or(("", ""));
                    let kind = res.split(' ').next().unwrap_or("");
                    ctx.count(&format!("{name}: {kind}"), 1);
                    ctx.distinct(hash_str(&format!("{sub} {name} {res} {}", if kind == "ok" { how.as_str() } else { "" })));
                    ctx.max(&format!("max ms {name}"), cpu);
                    ctx.max(&format!("max KB {name}"), peak / 1024);
                    if std::env::var("VERIF_TRACE").is_ok() && (cpu > 1500 || peak > 64 * MB + 30 * size) {
                        eprintln!("{sub}/{cur} {name} {cpu} ms, {} KB for {size} bytes: {res} ({how})", peak / 1024);
                    }
                    let (ms, bytes) = allowed(name, size);
                    // triangulating a tangled outline takes long
                    let (ms, bytes) = if sub == "geometry" { (ms * 10, bytes.max(2048 * MB)) } else { (ms, bytes) };
                    if cpu > ms {
                        ctx.report(at(cur), Viol { sig: format!("{name}: CPU time out of proportion"), detail: format!("{cpu} ms for {size} bytes of input; damage: {how}") });
                    }
                    if peak > bytes {
                        ctx.report(at(cur), Viol { sig: format!("{name}: memory out of proportion"), detail: format!("{peak} bytes of heap for {size} bytes of input ({res}); damage: {how}") });
                    }
                }
                _ => {}
            }
        }
        let st = ch.wait().expect("wait");
        if st.success() && ended {
            return;
        }
        let err = std::fs::read(&errf).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ").chars().take(400).collect();
        let class = if timed {
            "does not end"
        } else if err.contains("overflowed its stack") {
            "stack overflow"
        } else if err.contains("memory allocation of") || err.contains("capacity overflow") {
            "memory exhausted"
        } else {
            "process killed"
        };
        if stage == "preparation" || (st.signal() == Some(libc::SIGKILL) && !timed) {
            // not the library's doing on the damaged input
            ctx.inconclusive(format!("child of {sub}/{cur} died in {stage}: {st}: {tail}"));
        } else {
            ctx.report(at(cur), Viol { sig: format!("{stage}: {class}"), detail: format!("{st}: {tail}; damage: {how}") });
        }
        ctx.count("child deaths", 1);
        from = cur + step;
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("distinct: workload, stage and outcome (with the kind of damage when it succeeded)");
    ctx.assume("bounds: reading and the other operations on a file take at most 4 s + 1 us/byte of CPU and 24 MB + 60 bytes/byte of heap in this unoptimised build; verifying, which hashes the value of a custom tag as often as it is listed, and assembling, extracting and exporting, which unpack compressed data, 40 s + 10 us/byte and 128 MB + 2000 bytes/byte; with absurd positions and sizes 400 s and 2 GB");
    ctx.assume("extraction and export go to a recording in-memory file system whose files count as memory");
    let dir = Scratch::new("c12");
    let w = nthreads() as u64;
    let k = if ctx.thorough() { 60 } else { 1 };
    for (sub, n) in [("table", 9000 * k), ("bomb", 2000 * k), ("dir", 4500 * k), ("geometry", 500 * k)] {
        if let Some(o) = &ctx.only {
            if o.sub == sub {
                watch(ctx, sub, o.idx, 1, o.idx + 1, &dir.0);
            }
            continue;
        }
        let t0 = std::time::Instant::now();
        std::thread::scope(|s| {
            for first in 0..w {
                let d = &dir.0;
                s.spawn(move || watch(ctx, sub, first, w, n, d));
            }
        });
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("[C12] {sub}: {n} in {:.1}s", t0.elapsed().as_secs_f64());
        }
        ctx.require(&format!("cases:{sub}"), n * 9 / 10);
    }
    ctx.sample(json!({"workloads": "table: damaged containers, streams and records; bomb: valid files that unpack to something else; dir: damaged extracted directories"}));
    ctx.require("from_bytes: ok", 100);
    ctx.require("from_bytes: err", 100);
}
