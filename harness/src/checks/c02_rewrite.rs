//! C02: reading and writing an existing file keeps every record, in whatever
//! order and combination they come.
use crate::ensure;
use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::snap::{self, Kind, Rec, Snap};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use vpin::vpx;

/// how an input stream was disturbed
#[derive(Default, Debug)]
struct Done {
    shuffled: u64,
    dropped: u64,
    added: u64,
}

/// records that may not be dropped: others depend on them
const KEEP: &[&str] = &["MASI", "MATE", "PHMA", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "BITS", "ALTV", "SIZE", "DATA", "M3AY", "M3AX", "JPEG"];

fn known_tags(kind: Kind, recs: &[Rec]) -> BTreeSet<String> {
    let _ = kind;
    recs.iter().map(|r| r.tag.clone()).collect()
}
/// an unknown record: its tag is none the format uses anywhere
fn unknown(r: &mut R, i: usize) -> Rec {
    let t = *r.pick(&["ZQX", "QZW", "X0Y"]);
    Rec { tag: format!("{t}{i}"), data: r.blob(), sub: vec![] }
}

/// permute, thin out and interleave the records of one object
fn disturb(r: &mut R, recs: Vec<Rec>, nested: &dyn Fn(&mut R, &Rec) -> Option<Rec>, drop: bool, add: bool, done: &mut Done) -> Vec<Rec> {
    // records that must stay together travel as one unit
    let mut units: Vec<Vec<Rec>> = vec![];
    let mut i = 0;
    while i < recs.len() {
        let mut u = vec![recs[i].clone()];
        if recs[i].tag == "BITS" {
            while i + 1 < recs.len() && u.last().unwrap().tag != "ALTV" {
                i += 1;
                u.push(recs[i].clone());
            }
        } else if recs[i].tag == "M3AY" || recs[i].tag == "SIZE" {
            if i + 1 < recs.len() && (recs[i + 1].tag == "M3AX" || recs[i + 1].tag == "DATA") {
                i += 1;
                u.push(recs[i].clone());
            }
        }
        units.push(u);
        i += 1;
    }
    if drop {
        let n = units.len();
        units.retain(|u| u.iter().any(|x| KEEP.contains(&x.tag.as_str())) || !r.chance(1, 6));
        done.dropped += (n - units.len()) as u64;
    }
    for u in units.iter_mut() {
        for x in u.iter_mut() {
            if let Some(y) = nested(r, x) {
                *x = y;
            }
        }
    }
    // a random order in which repeated tags keep theirs
    let mut order: Vec<usize> = (0..units.len()).collect();
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    let mut seq: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, u) in units.iter().enumerate() {
        seq.entry(u[0].tag.clone()).or_default().push(i);
    }
    let mut taken: BTreeMap<String, usize> = BTreeMap::new();
    let mut out: Vec<Rec> = vec![];
    for i in order {
        let t = units[i][0].tag.clone();
        let k = taken.entry(t.clone()).or_insert(0);
        let j = seq[&t][*k];
        *k += 1;
        if add && r.chance(1, 12) {
            let n = out.len() % 10;
            out.push(unknown(r, n));
            done.added += 1;
        }
        out.extend(units[j].iter().cloned());
    }
    // the legacy material list is read with the count before it
    if let Some(m) = out.iter().position(|x| x.tag == "MASI") {
        let x = out.remove(m);
        let at = out.iter().position(|x| x.tag == "MATE" || x.tag == "PHMA").unwrap_or(m).min(m);
        out.insert(at, x);
    }
    done.shuffled += 1;
    out
}

fn nested_plain(r: &mut R, x: &Rec, drop: bool, add: bool) -> Option<Rec> {
    let none: &dyn Fn(&mut R, &Rec) -> Option<Rec> = &|_, _| None;
    let mut d = Done::default();
    match x.tag.as_str() {
        "DPNT" => Some(Rec { sub: disturb(r, x.sub.clone(), none, drop, add, &mut d), ..x.clone() }),
        "JPEG" => Some(Rec { sub: disturb(r, x.sub.clone(), none, false, add, &mut d), ..x.clone() }),
        _ => None,
    }
}
fn nested_gamedata(r: &mut R, x: &Rec, drop: bool, add: bool) -> Option<Rec> {
    let none: &dyn Fn(&mut R, &Rec) -> Option<Rec> = &|_, _| None;
    let mut d = Done::default();
    if x.tag == "MATR" || x.tag == "RPRB" {
        let (sub, end) = snap::parse_at(&x.data, 0, Kind::Plain).ok()?;
        let y = disturb(r, sub, none, drop, add, &mut d);
        let mut o = vec![];
        snap::emit(&y, Kind::Plain, &mut o);
        o.extend_from_slice(&x.data[end..]);
        return Some(Rec { data: o, ..x.clone() });
    }
    None
}

/// records by tag, in order; nested records likewise compared by tag
fn canon(recs: &[Rec], game: bool) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for x in recs {
        let s = if !x.sub.is_empty() || x.tag == "DPNT" || x.tag == "JPEG" {
            format!("{:?}", canon(&x.sub, false))
        } else if game && (x.tag == "MATR" || x.tag == "RPRB") {
            match snap::parse_at(&x.data, 0, Kind::Plain) {
                Ok((sub, e)) => format!("{:?} {:02x?}", canon(&sub, false), &x.data[e..]),
                Err(e) => e,
            }
        } else {
            format!("{:02x?}", x.data)
        };
        m.entry(x.tag.clone()).or_default().push(s);
    }
    m
}
/// every record of `a` that is not unknown is in `b` with the same content
fn lost(a: &[Rec], b: &[Rec], game: bool, partial: bool) -> Option<String> {
    let (x, y) = (canon(a, game), canon(b, game));
    for (t, v) in &x {
        if is_unknown(t) {
            continue;
        }
        match y.get(t) {
            None => return Some(format!("record {t} is gone")),
            Some(w) if w != v && !(partial && nested_tag(t)) => {
                let k = v.iter().zip(w).position(|(p, q)| p != q).unwrap_or(v.len().min(w.len()));
                return Some(format!("record {t} changed: {} -> {} of them; first difference in #{k}: {} vs {}", v.len(), w.len(), short(v.get(k)), short(w.get(k))));
            }
            Some(w) if w.len() != v.len() => return Some(format!("{} records {t} became {}", v.len(), w.len())),
            _ => {}
        }
    }
    None
}
fn short(s: Option<&String>) -> String {
    s.map(|x| x.chars().take(160).collect()).unwrap_or_else(|| "-".into())
}
fn is_unknown(t: &str) -> bool {
    t.len() == 4 && (t.starts_with("ZQX") || t.starts_with("QZW") || t.starts_with("X0Y"))
}
fn nested_tag(t: &str) -> bool {
    matches!(t, "DPNT" | "JPEG" | "MATR" | "RPRB")
}
/// nested objects: compare the records that were given, one by one
fn lost_nested(a: &[Rec], b: &[Rec], game: bool) -> Option<String> {
    let get = |v: &[Rec], t: &str| -> Vec<(Vec<Rec>, Vec<u8>)> {
        v.iter()
            .filter(|x| x.tag == t)
            .map(|x| {
                if game {
                    let (s, e) = snap::parse_at(&x.data, 0, Kind::Plain).unwrap_or_default();
                    (s, x.data[e..].to_vec())
                } else {
                    (x.sub.clone(), vec![])
                }
            })
            .collect()
    };
    for t in if game { ["MATR", "RPRB"] } else { ["DPNT", "JPEG"] } {
        let (x, y) = (get(a, t), get(b, t));
        if x.len() != y.len() {
            return Some(format!("{} records {t} became {}", x.len(), y.len()));
        }
        for (i, (p, q)) in x.iter().zip(&y).enumerate() {
            if let Some(d) = lost(&p.0, &q.0, false, false) {
                return Some(format!("{t} #{i}: {d}"));
            }
            if p.1 != q.1 {
                return Some(format!("{t} #{i}: the bytes after it changed"));
            }
        }
    }
    None
}

fn case(ctx: &Ctx, r: &mut R, i: u64, drop: bool, add: bool) -> Res {
    // opaque image data is told from what follows by the first framed record
    let cfg = Cfg { img: if i % 2 == 0 { ImgMode::Binary } else { ImgMode::Expanded }, generic: true, items: 10, ..Cfg::binary() };
    r.p_opt = *r.pick(&[0, 128, 128, 256]);
    let v = g_vpx(r, &cfg);
    let bytes = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
    let s0 = snap::snap(&bytes).map_err(|e| Viol { sig: "written file unreadable".into(), detail: e })?;
    let mut s1 = s0.clone();
    let mut done = Done::default();
    let mut inputs: BTreeMap<String, (Vec<Rec>, Kind)> = BTreeMap::new();
    for (p, d) in &s0 {
        let Some(kind) = snap::stream_kind(p) else { continue };
        if p.ends_with("CustomInfoTags") {
            continue;
        }
        if kind == Kind::Item && u32::from_le_bytes([d[0], d[1], d[2], d[3]]) >= 100 {
            // unknown item type: kept as it is, its own order included
            continue;
        }
        let recs = snap::parse(d, kind).map_err(|e| Viol { sig: "written stream is not a record sequence".into(), detail: format!("{p}: {e}") })?;
        let game = kind == Kind::GameData;
        let nest = move |r: &mut R, x: &Rec| if game { nested_gamedata(r, x, drop, add) } else { nested_plain(r, x, drop, add) };
        let recs = disturb(r, recs, &nest, drop, add, &mut done);
        let mut o = if kind == Kind::Item { d[..4].to_vec() } else { vec![] };
        snap::emit(&recs, kind, &mut o);
        s1.insert(p.clone(), o);
        inputs.insert(p.clone(), (recs, kind));
    }
    // unlisted info streams are user properties, too
    if r.bool() {
        s1.insert(format!("/TableInfo/unlisted {}", r.below(9)), "v\u{e9}".encode_utf16().flat_map(|c| c.to_le_bytes()).collect());
    }
    let file = snap::build(&s1);
    let w = sut_ok("read of a reordered file", || vpx::from_bytes(&file))?;
    if !drop {
        // nothing was taken away: it is the same table
        let mut e = v;
        e.gamedata.is_10_8_0_beta1_to_beta4 = w.gamedata.is_10_8_0_beta1_to_beta4;
        let mut w2 = sut_ok("read again", || vpx::from_bytes(&file))?;
        w2.info.properties.retain(|k, _| !k.starts_with("unlisted "));
        ensure!(w2 == e, format!("a table with reordered records is read as another table: {}", first_word(&model_diff(&e, &w2))), "case {i}: {}", model_diff(&e, &w2));
        ctx.count("reordered_tables_equal", 1);
    }
    let out = sut_ok("to_bytes of a reordered file", || vpx::to_bytes(&w))?;
    let s2 = snap::snap(&out).map_err(|e| Viol { sig: "rewritten file unreadable".into(), detail: e })?;
    for (p, d) in &s1 {
        if p.ends_with("/MAC") {
            continue;
        }
        let Some(d2) = s2.get(p) else { return viol(format!("stream {} is gone after rewriting", snap::cat(p)), p.clone()) };
        match inputs.get(p) {
            None => ensure!(d == d2, format!("stream {} changed by rewriting", snap::cat(p)), "{p}: {}", snap::bdiff(d, d2)),
            Some((recs, kind)) => {
                let back = snap::parse(d2, *kind).map_err(|e| Viol { sig: "rewritten stream is not a record sequence".into(), detail: format!("{p}: {e}") })?;
                let game = *kind == Kind::GameData;
                let ty = if *kind == Kind::Item { format!(" (type {})", d[0]) } else { String::new() };
                if let Some(l) = lost(recs, &back, game, true).or_else(|| lost_nested(recs, &back, game)) {
                    return viol(format!("{}{ty}: {}", snap::cat(p), l.split([':', '#']).next().unwrap_or("").trim()), format!("{p} (case {i}): {l}"));
                }
                // what was not there is written with its default at most once
                if !drop {
                    let known = known_tags(*kind, recs);
                    for x in &back {
                        ensure!(known.contains(&x.tag), format!("{}{ty}: record {} appears from nowhere", snap::cat(p), x.tag), "{p}");
                    }
                }
                ctx.count("objects_compared", 1);
                ctx.count("records_compared", recs.len() as u64);
            }
        }
    }
    for p in s2.keys() {
        ensure!(s1.contains_key(p), format!("stream {} appears from nowhere", snap::cat(p)), "{p}");
    }
    // rewriting is stable
    let w3 = sut_ok("read of the rewritten file", || vpx::from_bytes(&out))?;
    ensure!(w3 == w, "the rewritten file reads as another table", "case {i}: {}", model_diff(&w, &w3));
    let s3 = snap::snap(&sut_ok("third write", || vpx::to_bytes(&w3))?).unwrap();
    if let Some(d) = snap::diff(&s2, &s3) {
        return viol("rewriting twice differs from rewriting once", d);
    }
    ctx.count("unknown_records_interleaved", done.added);
    ctx.count("records_left_out", done.dropped);
    ctx.count("objects_shuffled", done.shuffled);
    ctx.distinct(shape(&w) ^ mix(done.dropped, done.added));
    Ok(())
}

/// values as other programs and older versions left them
fn foreign(ctx: &Ctx, r: &mut R, i: u64) -> Res {
    let cfg = Cfg { items: 10, generic: false, version: Some(*r.pick(&[1080, 1072, 1060])), mat: Some(*r.pick(&[MatMode::LegacyOnly, MatMode::Both])), ..Cfg::binary() };
    let v = g_vpx(r, &cfg);
    let bytes = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
    let mut s: Snap = snap::snap(&bytes).unwrap();
    let mut g = snap::parse(&s["/GameStg/GameData"], Kind::GameData).unwrap();
    let mut hits = 0;
    for x in g.iter_mut() {
        // garbage after the NUL of a fixed size name, and in padding
        if x.tag == "MATE" || x.tag == "PHMA" {
            let n = v.gamedata.materials_size as usize;
            if n == 0 {
                continue;
            }
            let sz = x.data.len() / n;
            for k in 0..n {
                let name = &mut x.data[k * sz..k * sz + 32];
                if let Some(z) = name.iter().position(|b| *b == 0) {
                    for b in &mut name[z + 1..] {
                        *b = r.u8();
                    }
                }
            }
            hits += 1;
        }
    }
    let mut d = vec![];
    snap::emit(&g, Kind::GameData, &mut d);
    s.insert("/GameStg/GameData".into(), d);
    // booleans other than 0 and 1 count as true
    let keys: Vec<String> = s.keys().filter(|k| k.starts_with("/GameStg/GameItem")).cloned().collect();
    for k in keys {
        let d = s[&k].clone();
        let mut recs = snap::parse(&d, Kind::Item).unwrap();
        for x in recs.iter_mut() {
            if (x.tag == "LOCK" || x.tag == "TMON") && x.data == [1, 0, 0, 0] && r.bool() {
                x.data = vec![r.u8() | 1, r.u8(), r.u8(), r.u8()];
                hits += 1;
            }
        }
        let mut o = d[..4].to_vec();
        snap::emit(&recs, Kind::Item, &mut o);
        s.insert(k, o);
    }
    let w = sut_ok("read of a foreign file", || vpx::from_bytes(&snap::build(&s)))?;
    ensure!(w == v, format!("a file with garbage beside names or flags reads as another table: {}", first_word(&model_diff(&v, &w))), "case {i}: {}", model_diff(&v, &w));
    ctx.count("foreign_values", hits);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("random tables written, then the records of every object (and of nested drag points, image files, materials and probes) permuted, thinned out and interleaved with unknown records by an independent parser and emitter, read and written back; every record given must come back with its bytes, nothing may appear from nowhere, and the result is stable; distinct by (table shape, records left out, unknown records)");
    ctx.assume("records the format reads in a fixed sequence (bitmap data up to its ALTV, a size and its data, the material count before the legacy lists) are kept in sequence");
    let m = if ctx.thorough() { 40 } else { 1 };
    let cap = if ctx.thorough() { 300.0 } else { 15.0 };
    ctx.cases("reordered", 1500 * m, cap, |r, i| case(ctx, r, i, false, false));
    ctx.cases("with_unknown_records", 1500 * m, cap, |r, i| case(ctx, r, i, false, true));
    ctx.cases("optional_records_left_out", 2000 * m, cap, |r, i| case(ctx, r, i, true, true));
    ctx.cases("foreign", 800 * m, cap, |r, i| foreign(ctx, r, i));
    ctx.require("objects_compared", 3000);
    ctx.require("unknown_records_interleaved", 1000);
    ctx.require("records_left_out", 1000);
}
