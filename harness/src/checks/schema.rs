//! C17: every field of the model is stored under its tag, in its encoding,
//! and nowhere else; and a record with that tag is read into that field.
use crate::ensure;
use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::snap::{self, Kind, Rec, Snap};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use vpin::vpx;
use vpin::vpx::gameitem::GameItemEnum;

const SCHEMA: &str = include_str!("../../data/schema.json");

/// one field of one kind of object, set to a known value
pub struct Obs {
    pub subject: String,
    pub field: String,
    pub enc: Enc,
    pub dbg: String,
    pub base: Vec<Rec>,
    pub var: Vec<Rec>,
}
fn latin(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
fn pre(v: Vec<u8>) -> Vec<u8> {
    [&(v.len() as u32).to_le_bytes()[..], &v].concat()
}
fn u16s(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}
/// every encoding the format knows for a value of this kind
fn encodings(e: &Enc) -> Vec<(&'static str, Vec<u8>)> {
    match e {
        Enc::F32(f) => vec![("f32", f.to_le_bytes().to_vec()), ("f32_as_u32", (*f as u32).to_le_bytes().to_vec())],
        Enc::F32s(v) => {
            let d: Vec<u8> = v.iter().flat_map(|f| f.to_le_bytes()).collect();
            let mut p = d.clone();
            p.extend([0; 4]);
            vec![("floats", d), ("floats_padded", p)]
        }
        Enc::Q8(f) => vec![("q8", ((*f as f64 * 255.0).round() as u32).to_le_bytes().to_vec()), ("f32", f.to_le_bytes().to_vec())],
        Enc::Bool(b) => vec![("bool32", (*b as u32).to_le_bytes().to_vec()), ("bool8", vec![*b as u8])],
        Enc::Str(s) => vec![("latin1", pre(latin(s)))],
        Enc::Wide(s) => vec![("utf16", pre(u16s(s))), ("latin1", pre(latin(s)))],
        Enc::U32(n) => vec![("u32", n.to_le_bytes().to_vec())],
        Enc::U8(n) => vec![("u8", vec![*n]), ("u32", (*n as u32).to_le_bytes().to_vec())],
        Enc::Color(n) => vec![("colorref", n.to_le_bytes().to_vec())],
        Enc::Bytes(b) => vec![("bytes", b.clone()), ("prefixed_bytes", pre(b.clone()))],
        Enc::Absent | Enc::Other => vec![],
    }
}
fn tags_changed(a: &[Rec], b: &[Rec]) -> BTreeSet<String> {
    let g = |v: &[Rec]| {
        let mut m: BTreeMap<String, Vec<Rec>> = BTreeMap::new();
        for r in v {
            m.entry(r.tag.clone()).or_default().push(r.clone());
        }
        m
    };
    let (x, y) = (g(a), g(b));
    x.keys().chain(y.keys()).filter(|k| x.get(*k) != y.get(*k)).cloned().collect()
}

fn vpx_base() -> vpx::VPX {
    let mut v = vpx::VPX::default();
    v.info.table_name = Some("t".into());
    v
}
fn write_items(items: Vec<GameItemEnum>) -> Result<Vec<Vec<Rec>>, Viol> {
    let mut v = vpx_base();
    let n = items.len();
    v.gamedata.gameitems_size = n as u32;
    v.gameitems = items;
    let s = streams(&v)?;
    (0..n)
        .map(|i| {
            let k = format!("/GameStg/GameItem{i}");
            let d = s.get(&k).ok_or_else(|| Viol { sig: "an item has no stream".into(), detail: k.clone() })?;
            snap::parse(d, Kind::Item).map_err(|e| Viol { sig: "an item's stream is not a record sequence".into(), detail: format!("{k}: {e}") })
        })
        .collect()
}
fn streams(v: &vpx::VPX) -> Result<Snap, Viol> {
    let b = sut_ok("to_bytes", || vpx::to_bytes(v))?;
    snap::snap(&b).map_err(|e| Viol { sig: "written file unreadable".into(), detail: e })
}
fn gd_recs(v: &vpx::VPX) -> Result<Vec<Rec>, Viol> {
    let s = streams(v)?;
    snap::parse(&s["/GameStg/GameData"], Kind::GameData).map_err(|e| Viol { sig: "game data is not a record sequence".into(), detail: e })
}

fn item_obs(r: &mut R, k: usize, random_base: bool) -> Result<Vec<Obs>, Viol> {
    let bseed = r.u64();
    let mk = || -> GameItemEnum { if random_base { g_item(&mut R::new(bseed), k) } else { default_item(k) } };
    let mut items = vec![mk()];
    let mut meta = vec![];
    for (i, f) in ITEM_FIELDS[k].iter().enumerate() {
        if *f == "timer" {
            for tf in 0..2 {
                let mut it = mk();
                let Some(t) = timer_mut(&mut it) else { continue };
                let (en, iv) = (r.bool(), r.i32());
                let enc = if tf == 0 {
                    t.is_enabled = en;
                    Enc::Bool(en)
                } else {
                    t.interval = iv;
                    Enc::U32(iv as u32)
                };
                items.push(it);
                meta.push((format!("timer.{}", ["is_enabled", "interval"][tf]), enc, String::new()));
            }
            continue;
        }
        let s = r.u64();
        let mut it = mk();
        set_item_field(&mut it, i, &mut R::new(s));
        let enc = enc_item(k, i, &mut R::new(s));
        meta.push((f.to_string(), enc, dbg_item_field(&it, i)));
        items.push(it);
    }
    let recs = write_items(items)?;
    Ok(meta
        .into_iter()
        .enumerate()
        .map(|(j, (field, enc, dbg))| Obs { subject: ITEM_NAMES[k].into(), field, enc, dbg, base: recs[0].clone(), var: recs[j + 1].clone() })
        .collect())
}
fn gamedata_obs(r: &mut R, random_base: bool, only: usize) -> Result<Vec<Obs>, Viol> {
    let bseed = r.u64();
    let mk = || {
        let mut v = vpx_base();
        if random_base {
            let mut q = R::new(bseed);
            for i in 0..FIELDS_GAMEDATA.len() {
                set_gamedata(&mut v.gamedata, i, &mut q);
            }
        }
        v
    };
    let base = gd_recs(&mk())?;
    let mut out = vec![];
    for (i, f) in FIELDS_GAMEDATA.iter().enumerate() {
        if i % 8 != only {
            continue;
        }
        let s = r.u64();
        let mut v = mk();
        set_gamedata(&mut v.gamedata, i, &mut R::new(s));
        let enc = enc_gamedata(i, &mut R::new(s));
        let dbg = dbg_gamedata(&v.gamedata, i);
        out.push(Obs { subject: "GameData".into(), field: f.to_string(), enc, dbg, base: base.clone(), var: gd_recs(&v)? });
    }
    Ok(out)
}
fn material_obs(r: &mut R, random_base: bool) -> Result<Vec<Obs>, Viol> {
    let bseed = r.u64();
    let mk = || if random_base { g_material(&mut R::new(bseed)) } else { vpx::material::Material::default() };
    let mut ms = vec![mk()];
    let mut meta = vec![];
    for (i, f) in FIELDS_MATERIAL.iter().enumerate() {
        let s = r.u64();
        let mut m = mk();
        set_material(&mut m, i, &mut R::new(s));
        meta.push((f.to_string(), enc_material(i, &mut R::new(s)), dbg_material(&m, i)));
        ms.push(m);
    }
    let n = ms.len();
    let mut v = vpx_base();
    v.gamedata.materials = Some(ms);
    let g = gd_recs(&v)?;
    let recs: Vec<Vec<Rec>> = g
        .iter()
        .filter(|x| x.tag == "MATR")
        .map(|x| snap::parse(&x.data, Kind::Plain).map_err(|e| Viol { sig: "a material is not a record sequence".into(), detail: e }))
        .collect::<Result<_, _>>()?;
    ensure!(recs.len() == n, "wrong number of material records", "{} for {n} materials", recs.len());
    Ok(meta.into_iter().enumerate().map(|(j, (field, enc, dbg))| Obs { subject: "Material".into(), field, enc, dbg, base: recs[0].clone(), var: recs[j + 1].clone() }).collect())
}
fn dragpoint_obs(r: &mut R, random_base: bool) -> Result<Vec<Obs>, Viol> {
    let bseed = r.u64();
    let mk = || if random_base { g_dragpoint(&mut R::new(bseed)) } else { Default::default() };
    let mut ps = vec![mk()];
    let mut meta = vec![];
    for (i, f) in FIELDS_DRAGPOINT.iter().enumerate() {
        let s = r.u64();
        let mut m = mk();
        set_dragpoint(&mut m, i, &mut R::new(s));
        meta.push((f.to_string(), enc_dragpoint(i, &mut R::new(s)), dbg_dragpoint(&m, i)));
        ps.push(m);
    }
    let n = ps.len();
    let mut w = vpx::gameitem::wall::Wall::default();
    w.drag_points = ps;
    let it = write_items(vec![GameItemEnum::Wall(w)])?;
    let recs: Vec<Vec<Rec>> = it[0].iter().filter(|x| x.tag == "DPNT").map(|x| x.sub.clone()).collect();
    ensure!(recs.len() == n, "wrong number of drag point records", "{} for {n} points", recs.len());
    Ok(meta.into_iter().enumerate().map(|(j, (field, enc, dbg))| Obs { subject: "DragPoint".into(), field, enc, dbg, base: recs[0].clone(), var: recs[j + 1].clone() }).collect())
}
fn collection_obs(r: &mut R, random_base: bool) -> Result<Vec<Obs>, Viol> {
    let bseed = r.u64();
    let mk = || {
        let mut c = g_collection(&mut R::new(bseed));
        if !random_base {
            c.items = vec!["a".into()];
        }
        c
    };
    let mut cs = vec![mk()];
    let mut meta = vec![];
    for (i, f) in FIELDS_COLLECTION.iter().enumerate() {
        let s = r.u64();
        let mut m = mk();
        set_collection(&mut m, i, &mut R::new(s));
        meta.push((f.to_string(), enc_collection(i, &mut R::new(s)), dbg_collection(&m, i)));
        cs.push(m);
    }
    let n = cs.len();
    let mut v = vpx_base();
    v.gamedata.collections_size = n as u32;
    v.collections = cs;
    let s = streams(&v)?;
    let recs: Vec<Vec<Rec>> = (0..n)
        .map(|i| snap::parse(s.get(&format!("/GameStg/Collection{i}")).map(|v| &v[..]).unwrap_or(b""), Kind::Plain).map_err(|e| Viol { sig: "a collection is not a record sequence".into(), detail: e }))
        .collect::<Result<_, _>>()?;
    Ok(meta.into_iter().enumerate().map(|(j, (field, enc, dbg))| Obs { subject: "Collection".into(), field, enc, dbg, base: recs[0].clone(), var: recs[j + 1].clone() }).collect())
}

fn is_enum_text(d: &str) -> bool {
    let d = d.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')).unwrap_or(d);
    d.starts_with(|c: char| c.is_ascii_uppercase()) && d.chars().all(|c| c.is_ascii_alphanumeric() || c == '(' || c == ')')
}
fn enum_text(d: &str) -> &str {
    d.strip_prefix("Some(").and_then(|x| x.strip_suffix(')')).unwrap_or(d)
}
fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

#[derive(Default, Clone)]
struct Learn {
    tags: BTreeSet<String>,
    /// tags present in every observation of a present value
    forms: BTreeMap<String, BTreeSet<&'static str>>,
    enums: BTreeMap<String, String>,
    absent_ok: bool,
}

fn all_obs(r: &mut R, i: u64) -> Result<Vec<Obs>, Viol> {
    let k = (i % (N_ITEM_TYPES as u64 + 11)) as usize;
    let rb = r.bool();
    r.p_opt = 128;
    if k < N_ITEM_TYPES {
        item_obs(r, k, rb)
    } else {
        match k - N_ITEM_TYPES {
            0 => material_obs(r, rb),
            1 => dragpoint_obs(r, rb),
            2 => collection_obs(r, rb),
            n => gamedata_obs(r, rb, n - 3),
        }
    }
}

/// `vpmon learn`: records the schema of the current tree (audited by hand
/// against the tag documentation, then committed; never run by a check)
pub fn learn(out: &str) {
    let m: Mutex<BTreeMap<String, Learn>> = Default::default();
    for i in 0..4000u64 {
        let mut r = R::new(mix(77, i));
        for o in all_obs(&mut r, i).unwrap_or_else(|v| panic!("{v:?}")) {
            let mut g = m.lock().unwrap();
            let l = g.entry(format!("{}.{}", o.subject, o.field)).or_default();
            l.tags.extend(tags_changed(&o.base, &o.var));
            if o.enc == Enc::Absent || (o.dbg == "None" && !o.var.iter().any(|x| l.tags.contains(&x.tag))) {
                l.absent_ok = true;
            }
        }
    }
    for i in 0..4000u64 {
        let mut r = R::new(mix(78, i));
        for o in all_obs(&mut r, i).unwrap() {
            let mut g = m.lock().unwrap();
            let l = g.entry(format!("{}.{}", o.subject, o.field)).or_default();
            for t in l.tags.clone() {
                let Some(rec) = o.var.iter().find(|x| x.tag == t) else { continue };
                if matches!(o.enc, Enc::Other) {
                    if is_enum_text(&o.dbg) && !o.dbg.contains("(r") {
                        let e = enum_text(&o.dbg);
                        if !e.contains('(') {
                            l.enums.insert(e.to_string(), hex(&rec.data));
                        } else {
                            l.enums.insert("(n)".into(), "u32".into());
                        }
                    }
                } else if o.enc != Enc::Absent {
                    let f: BTreeSet<&'static str> = encodings(&o.enc).into_iter().filter(|(_, d)| *d == rec.data).map(|x| x.0).collect();
                    l.forms.entry(t.clone()).and_modify(|x| *x = x.intersection(&f).cloned().collect()).or_insert(f);
                }
            }
        }
    }
    let mut o = serde_json::Map::new();
    for (k, l) in m.into_inner().unwrap() {
        let mut j = json!({"tags": l.tags});
        if !l.forms.is_empty() {
            j["forms"] = json!(l.forms);
        }
        if !l.enums.is_empty() {
            j["values"] = json!(l.enums);
        }
        if l.absent_ok {
            j["optional"] = json!(true);
        }
        o.insert(k, j);
    }
    let mut s = String::from("{\n");
    let n = o.len();
    for (i, (k, v)) in o.iter().enumerate() {
        s += &format!(" {}: {}{}\n", json!(k), v, if i + 1 < n { "," } else { "" });
    }
    s += "}\n";
    std::fs::write(out, s).unwrap();
}

struct Field {
    tags: Vec<String>,
    forms: BTreeMap<String, Vec<String>>,
    values: BTreeMap<String, String>,
}
fn schema() -> BTreeMap<String, Field> {
    let j: Value = serde_json::from_str(SCHEMA).expect("schema");
    let strs = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
    j.as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| {
            let forms = v.get("forms").map(|f| f.as_object().unwrap().iter().map(|(t, l)| (t.clone(), strs(l))).collect()).unwrap_or_default();
            let values = v.get("values").map(|f| f.as_object().unwrap().iter().map(|(t, l)| (t.clone(), l.as_str().unwrap().to_string())).collect()).unwrap_or_default();
            (k.clone(), Field { tags: strs(&v["tags"]), forms, values })
        })
        .collect()
}

fn check_obs(ctx: &Ctx, sch: &BTreeMap<String, Field>, o: &Obs) -> Res {
    let key = format!("{}.{}", o.subject, o.field);
    let Some(f) = sch.get(&key) else {
        ctx.count("fields_without_schema", 1);
        return Ok(());
    };
    // 1. nothing but the field's own records changed
    for t in tags_changed(&o.base, &o.var) {
        ensure!(f.tags.contains(&t), format!("setting {key} changes the record {t}"), "its own records are {:?}; value {} / {:?}", f.tags, o.dbg, o.enc);
    }
    // 2. its record holds the value
    for t in &f.tags {
        let recs: Vec<&Rec> = o.var.iter().filter(|x| &x.tag == t).collect();
        if o.enc == Enc::Absent {
            ensure!(recs.is_empty(), format!("{key} is unset but its record {t} is written"), "{:02x?}", recs[0].data);
            ctx.count("absent_fields_checked", 1);
            continue;
        }
        if let Some(forms) = f.forms.get(t).filter(|x| !x.is_empty()) {
            ensure!(recs.len() == 1, format!("{key} is set but there is not one record {t}"), "{} records", recs.len());
            let want: Vec<Vec<u8>> = encodings(&o.enc).into_iter().filter(|(n, _)| forms.iter().any(|x| x == n)).map(|x| x.1).collect();
            ensure!(want.contains(&recs[0].data), format!("{key} has another encoding than {:?} in {t}", forms), "value {:?}: record {:02x?}, expected {:02x?}", o.enc, trunc(&recs[0].data), want.first().map(|w| trunc(w).to_vec()));
            ctx.count("values_checked", 1);
        } else if !f.values.is_empty() {
            let e = if o.dbg == "None" && !f.values.contains_key("None") { "" } else { enum_text(&o.dbg) };
            if o.dbg == "None" && (recs.is_empty() || !f.values.contains_key("None")) {
                ensure!(recs.is_empty(), format!("{key} is unset but its record {t} is written"), "{:02x?}", recs[0].data);
                continue;
            }
            ensure!(recs.len() == 1, format!("{key} is set but there is not one record {t}"), "{} records", recs.len());
            if let Some(w) = f.values.get(e) {
                ensure!(*w == hex(&recs[0].data), format!("{key}: value {e} has another number"), "{} instead of {w}", hex(&recs[0].data));
            } else if let Some(n) = e.split_once('(').and_then(|x| x.1.trim_end_matches(')').parse::<u32>().ok()) {
                ensure!(hex(&n.to_le_bytes()) == hex(&recs[0].data), format!("{key}: numbered value has another number"), "{} for {e}", hex(&recs[0].data));
            } else {
                // a variant this schema does not know yet
                ctx.count("unknown_enum_values", 1);
                continue;
            }
            ctx.count("enum_values_checked", 1);
        }
    }
    ctx.distinct(hash_str(&format!("{key}{}", o.enc.kind())) ^ if o.enc == Enc::Other { hash_str(&o.dbg) } else { 0 });
    Ok(())
}
fn trunc(d: &[u8]) -> &[u8] {
    &d[..d.len().min(40)]
}

fn with_item_streams(n: usize, type_id: [u8; 4], recs: &[Vec<Rec>]) -> Result<Vec<GameItemEnum>, Viol> {
    let mut v = vpx_base();
    for _ in 0..n {
        v.gameitems.push(default_item(2));
    }
    v.gamedata.gameitems_size = n as u32;
    let mut s = streams(&v)?;
    for (i, r) in recs.iter().enumerate() {
        let mut d = type_id.to_vec();
        snap::emit(r, Kind::Item, &mut d);
        s.insert(format!("/GameStg/GameItem{i}"), d);
    }
    let b = snap::build(&s);
    Ok(sut_ok("from_bytes", || vpx::from_bytes(&b))?.gameitems)
}

/// a stream that holds just the record(s) of one field, read and written again
fn check_reading(ctx: &Ctx, sch: &BTreeMap<String, Field>, r: &mut R, k: usize) -> Res {
    let random_base = r.bool();
    let obs = item_obs(r, k, random_base)?;
    let type_id = {
        let mut v = vpx_base();
        v.gamedata.gameitems_size = 1;
        v.gameitems = vec![default_item(k)];
        let s = streams(&v)?;
        let d = &s["/GameStg/GameItem0"];
        [d[0], d[1], d[2], d[3]]
    };
    ensure!(u32::from_le_bytes(type_id) == TYPE_IDS[k], format!("{} has another type number", ITEM_NAMES[k]), "{type_id:?}");
    let mut inputs: Vec<Vec<Rec>> = vec![vec![]];
    let mut used = vec![];
    for o in &obs {
        let Some(f) = sch.get(&format!("{}.{}", o.subject, o.field)) else { continue };
        let given: Vec<Rec> = o.var.iter().filter(|x| f.tags.contains(&x.tag)).cloned().collect();
        inputs.push(given.clone());
        used.push((o, f, given));
    }
    let items = with_item_streams(inputs.len(), type_id, &inputs)?;
    for it in &items {
        ensure!(it.type_name() == items[0].type_name(), "an item read from a partial stream has another type", "{} vs {}", it.type_name(), items[0].type_name());
    }
    let recs = write_items(items)?;
    for (j, (o, f, given)) in used.iter().enumerate() {
        let key = format!("{}.{}", o.subject, o.field);
        let (r0, r1) = (&recs[0], &recs[j + 1]);
        for t in tags_changed(r0, r1) {
            ensure!(f.tags.contains(&t), format!("reading the record of {key} sets {t}"), "given {:?}", given.iter().map(|x| (x.tag.clone(), trunc(&x.data).to_vec())).collect::<Vec<_>>());
        }
        let back: Vec<Rec> = r1.iter().filter(|x| f.tags.contains(&x.tag)).cloned().collect();
        if !given.is_empty() {
            ensure!(back == *given, format!("reading the record of {key} does not set it"), "given {:?}, after reading {:?}", given.iter().map(|x| (&x.tag, trunc(&x.data))).collect::<Vec<_>>(), back.iter().map(|x| (&x.tag, trunc(&x.data))).collect::<Vec<_>>());
            ctx.count("fields_read_alone", 1);
        }
    }
    Ok(())
}
/// the same for the objects that are not game items
fn check_reading_other(ctx: &Ctx, sch: &BTreeMap<String, Field>, r: &mut R, w: usize) -> Res {
    let rb = r.bool();
    let obs = match w {
        0 => material_obs(r, rb)?,
        1 => dragpoint_obs(r, rb)?,
        2 => collection_obs(r, rb)?,
        n => gamedata_obs(r, rb, n - 3)?,
    };
    let mut inputs: Vec<Vec<Rec>> = vec![vec![]];
    let mut used = vec![];
    for o in &obs {
        let Some(f) = sch.get(&format!("{}.{}", o.subject, o.field)) else { continue };
        let given: Vec<Rec> = o.var.iter().filter(|x| f.tags.contains(&x.tag)).cloned().collect();
        inputs.push(given.clone());
        used.push((o, f, given));
    }
    let recs = rewrite_other(w, &inputs)?;
    ensure!(recs.len() == inputs.len(), "objects are lost when reading partial streams", "{} of {}", recs.len(), inputs.len());
    for (j, (o, f, given)) in used.iter().enumerate() {
        let key = format!("{}.{}", o.subject, o.field);
        for t in tags_changed(&recs[0], &recs[j + 1]) {
            // game data: the read image has no counters, but never gains any
            ensure!(f.tags.contains(&t), format!("reading the record of {key} sets {t}"), "given {:?}", given.iter().map(|x| (x.tag.clone(), trunc(&x.data).to_vec())).collect::<Vec<_>>());
        }
        let back: Vec<Rec> = recs[j + 1].iter().filter(|x| f.tags.contains(&x.tag)).cloned().collect();
        if !given.is_empty() {
            ensure!(back == *given, format!("reading the record of {key} does not set it"), "given {:?}, after reading {:?}", given.iter().map(|x| (&x.tag, trunc(&x.data))).collect::<Vec<_>>(), back.iter().map(|x| (&x.tag, trunc(&x.data))).collect::<Vec<_>>());
            ctx.count("fields_read_alone", 1);
        }
    }
    Ok(())
}
fn rewrite_other(w: usize, inputs: &[Vec<Rec>]) -> Result<Vec<Vec<Rec>>, Viol> {
    let n = inputs.len();
    let mut v = vpx_base();
    let plain = |d: &[u8]| snap::parse(d, Kind::Plain).map_err(|e| Viol { sig: "rewritten object is not a record sequence".into(), detail: e });
    match w {
        0 => {
            // materials: MATR records of the game data
            let mut s = streams(&v)?;
            let mut g = snap::parse(&s["/GameStg/GameData"], Kind::GameData).unwrap();
            let at = g.iter().position(|x| x.tag == "MASI").unwrap_or(g.len()) + 1;
            for (i, m) in inputs.iter().enumerate() {
                let mut d = vec![];
                snap::emit(m, Kind::Plain, &mut d);
                g.insert(at + i, Rec { tag: "MATR".into(), data: d, sub: vec![] });
            }
            let mut d = vec![];
            snap::emit(&g, Kind::GameData, &mut d);
            s.insert("/GameStg/GameData".into(), d);
            let v = sut_ok("from_bytes", || vpx::from_bytes(&snap::build(&s)))?;
            gd_recs(&v)?.iter().filter(|x| x.tag == "MATR").map(|x| plain(&x.data)).collect()
        }
        1 => {
            let recs: Vec<Rec> = inputs.iter().map(|i| Rec { tag: "DPNT".into(), data: vec![], sub: i.clone() }).collect();
            let items = with_item_streams(1, [0; 4], &[recs])?;
            let out = write_items(items)?;
            Ok(out[0].iter().filter(|x| x.tag == "DPNT").map(|x| x.sub.clone()).collect())
        }
        2 => {
            for _ in 0..n {
                v.collections.push(vpx::collection::Collection { name: "c".into(), items: vec![], fire_events: false, stop_single_events: false, group_elements: false });
            }
            v.gamedata.collections_size = n as u32;
            let mut s = streams(&v)?;
            for (i, m) in inputs.iter().enumerate() {
                let mut d = vec![];
                snap::emit(m, Kind::Plain, &mut d);
                s.insert(format!("/GameStg/Collection{i}"), d);
            }
            let v = sut_ok("from_bytes", || vpx::from_bytes(&snap::build(&s)))?;
            let s = streams(&v)?;
            (0..n).map(|i| plain(s.get(&format!("/GameStg/Collection{i}")).map(|x| &x[..]).unwrap_or(b""))).collect()
        }
        _ => {
            let base = streams(&v)?;
            inputs
                .iter()
                .map(|m| {
                    let mut s = base.clone();
                    let mut d = vec![];
                    snap::emit(m, Kind::GameData, &mut d);
                    s.insert("/GameStg/GameData".into(), d);
                    let v = sut_ok("from_bytes", || vpx::from_bytes(&snap::build(&s)))?;
                    gd_recs(&v)
                })
                .collect()
        }
    }
}

/// records whose value is not one scalar
fn check_composite(ctx: &Ctx, r: &mut R) -> Res {
    let f4 = |v: &[f32]| -> Vec<u8> { v.iter().flat_map(|f| f.to_le_bytes()).collect() };
    let one = |recs: &[Rec], t: &str| -> Result<Vec<u8>, Viol> {
        let l: Vec<&Rec> = recs.iter().filter(|x| x.tag == t).collect();
        ensure!(l.len() == 1, format!("not exactly one record {t}"), "{}", l.len());
        Ok(l[0].data.clone())
    };
    // drag points
    let pts: Vec<_> = (0..1 + r.below(5)).map(|_| g_dragpoint(r)).collect();
    let xy: Vec<(f32, f32)> = pts.iter().map(|p| (p.x, p.y)).collect();
    let mut items = vec![];
    for k in 0..N_ITEM_TYPES {
        let mut it = default_item(k);
        // drag points are not Clone: rebuild them for each item
        let ps = || -> Vec<vpx::gameitem::dragpoint::DragPoint> {
            xy.iter()
                .map(|p| {
                    let mut d = vpx::gameitem::dragpoint::DragPoint::default();
                    d.x = p.0;
                    d.y = p.1;
                    d
                })
                .collect()
        };
        match &mut it {
            GameItemEnum::Wall(x) => x.drag_points = ps(),
            GameItemEnum::Ramp(x) => x.drag_points = ps(),
            GameItemEnum::Rubber(x) => x.drag_points = ps(),
            GameItemEnum::Light(x) => x.drag_points = ps(),
            GameItemEnum::Trigger(x) => x.drag_points = ps(),
            GameItemEnum::Flasher(x) => x.drag_points = ps(),
            _ => continue,
        }
        items.push(it);
    }
    for recs in write_items(items)? {
        let got: Vec<Vec<u8>> = recs.iter().filter(|x| x.tag == "DPNT").map(|x| one(&x.sub, "VCEN")).collect::<Result<_, _>>()?;
        let want: Vec<Vec<u8>> = xy.iter().map(|p| f4(&[p.0, p.1])).collect();
        ensure!(got == want, "drag points are not written in order with x and y in VCEN", "{got:02x?} vs {want:02x?}");
        ctx.count("drag_point_lists", 1);
    }
    // primitive: rotation and translation slots, mesh data
    let mut p = vpx::gameitem::primitive::Primitive::default();
    let rt: [f32; 9] = std::array::from_fn(|_| r.f32());
    p.rot_and_tra = rt;
    let (nv, cl, cd, ni, il, id) = (r.u32(), r.u32(), r.blob(), r.u32(), r.u32(), r.blob());
    p.num_vertices = Some(nv);
    p.compressed_vertices_len = Some(cl);
    p.compressed_vertices_data = Some(cd.clone());
    p.num_indices = Some(ni);
    p.compressed_indices_len = Some(il);
    p.compressed_indices_data = Some(id.clone());
    let an: Vec<Vec<u8>> = (0..r.below(4)).map(|_| r.blob()).collect();
    if !an.is_empty() {
        p.compressed_animation_vertices_len = Some(an.iter().map(|a| a.len() as u32).collect());
        p.compressed_animation_vertices_data = Some(an.clone());
    }
    let recs = write_items(vec![GameItemEnum::Primitive(p)])?.remove(0);
    for (i, v) in rt.iter().enumerate() {
        ensure!(one(&recs, &format!("RTV{i}"))? == f4(&[*v]), format!("RTV{i} does not hold slot {i}"), "{v}");
    }
    for (t, w) in [("M3VN", nv.to_le_bytes().to_vec()), ("M3CY", cl.to_le_bytes().to_vec()), ("M3CX", cd), ("M3FN", ni.to_le_bytes().to_vec()), ("M3CJ", il.to_le_bytes().to_vec()), ("M3CI", id)] {
        ensure!(one(&recs, t)? == w, format!("mesh record {t} does not hold its value"), "{:02x?}", trunc(&w));
    }
    let pairs: Vec<(String, Vec<u8>)> = recs.iter().filter(|x| x.tag == "M3AY" || x.tag == "M3AX").map(|x| (x.tag.clone(), x.data.clone())).collect();
    let want: Vec<(String, Vec<u8>)> = an.iter().flat_map(|a| [("M3AY".to_string(), (a.len() as u32).to_le_bytes().to_vec()), ("M3AX".to_string(), a.clone())]).collect();
    ensure!(pairs == want, "animation frames are not written as pairs in order", "{} records for {} frames", pairs.len(), an.len());
    // game data: custom colours, counters, script, probes
    let mut v = vpx_base();
    let cols: [vpx::color::Color; 16] = std::array::from_fn(|_| g_color(r));
    let cb: Vec<u8> = cols.iter().flat_map(|c| c.to_win_color().to_le_bytes()).collect();
    v.gamedata.custom_colors = cols;
    v.gamedata.code = g_code(r);
    let code: Vec<u8> = match v.gamedata.code.encoding {
        vpx::model::StringEncoding::Utf8 => v.gamedata.code.string.as_bytes().to_vec(),
        _ => latin(&v.gamedata.code.string),
    };
    let n = [1 + r.below(3), 1 + r.below(3), 1 + r.below(3), r.below(3), 1 + r.below(3)];
    v.gameitems = (0..n[0]).map(|_| { let k = r.below(N_ITEM_TYPES); g_item(r, k) }).collect();
    v.images = (0..n[1]).map(|_| g_image(r, ImgMode::Expanded)).collect();
    let ver = *r.pick(&[1080u32, 1072, 1031, 1030, 1010]);
    v.version = vpx::version::Version::new(ver);
    v.sounds = (0..n[2]).map(|_| g_sound(r, ver, ImgMode::Binary)).collect();
    v.fonts = (0..n[3]).map(|_| g_fontdata(r)).collect();
    v.collections = (0..n[4]).map(|_| g_collection(r)).collect();
    v.gamedata.gameitems_size = n[0] as u32;
    v.gamedata.images_size = n[1] as u32;
    v.gamedata.sounds_size = n[2] as u32;
    v.gamedata.fonts_size = n[3] as u32;
    v.gamedata.collections_size = n[4] as u32;
    let (info, tags) = g_info(r);
    v.info = info;
    v.custominfotags = tags;
    let s = streams(&v)?;
    let g = snap::parse(&s["/GameStg/GameData"], Kind::GameData).map_err(|e| Viol { sig: "game data is not a record sequence".into(), detail: e })?;
    ensure!(one(&g, "CCUS")? == cb, "custom colours are not 16 colour values in order", "");
    ensure!(one(&g, "CODE")? == code, "the script record does not hold the script", "");
    for (t, k) in [("SEDT", 0), ("SIMG", 1), ("SSND", 2), ("SFNT", 3), ("SCOL", 4)] {
        ensure!(one(&g, t)? == (n[k] as u32).to_le_bytes(), format!("counter {t} is wrong"), "");
    }
    ensure!(s["/GameStg/Version"] == ver.to_le_bytes(), "the version stream does not hold the version", "{:02x?}", s["/GameStg/Version"]);
    for (k, c) in v.collections.iter().enumerate() {
        let recs = snap::parse(&s[&format!("/GameStg/Collection{k}")], Kind::Plain).unwrap();
        let it: Vec<Vec<u8>> = recs.iter().filter(|x| x.tag == "ITEM").map(|x| x.data.clone()).collect();
        ensure!(it == c.items.iter().map(|x| pre(u16s(x))).collect::<Vec<_>>(), "collection items are not written in order", "");
    }
    // images
    for (k, im) in v.images.iter().enumerate() {
        let recs = snap::parse(&s[&format!("/GameStg/Image{k}")], Kind::Image).map_err(|e| Viol { sig: "an image is not a record sequence".into(), detail: e })?;
        let mut want: BTreeMap<&str, Vec<u8>> = BTreeMap::new();
        want.insert("NAME", pre(latin(&im.name)));
        want.insert("PATH", pre(latin(&im.path)));
        want.insert("WDTH", im.width.to_le_bytes().to_vec());
        want.insert("HGHT", im.height.to_le_bytes().to_vec());
        want.insert("ALTV", im.alpha_test_value.to_le_bytes().to_vec());
        if let Some(x) = &im.internal_name {
            want.insert("INME", pre(latin(x)));
        }
        if let Some(x) = im.link {
            want.insert("LINK", x.to_le_bytes().to_vec());
        }
        if let Some(x) = im.is_opaque {
            want.insert("OPAQ", (x as u32).to_le_bytes().to_vec());
        }
        if let Some(x) = im.is_signed {
            want.insert("SIGN", (x as u32).to_le_bytes().to_vec());
        }
        if let Some(x) = &im.md5_hash {
            want.insert("MD5H", x.to_vec());
        }
        if let Some(x) = &im.bits {
            want.insert("BITS", x.lzw_compressed_data.clone());
        }
        let got: BTreeMap<&str, Vec<u8>> = recs.iter().filter(|x| x.tag != "JPEG").map(|x| (x.tag.as_str(), x.data.clone())).collect();
        for (t, w) in &want {
            ensure!(got.get(t) == Some(w), format!("image record {t} does not hold its value"), "{:02x?} instead of {:02x?}", got.get(t).map(|x| trunc(x)), trunc(w));
        }
        for t in got.keys() {
            ensure!(want.contains_key(t), format!("unexpected image record {t}"), "");
        }
        let j: Vec<&Rec> = recs.iter().filter(|x| x.tag == "JPEG").collect();
        ensure!(j.len() == im.jpeg.is_some() as usize, "image file record missing or repeated", "{}", j.len());
        if let Some(x) = &im.jpeg {
            for (t, w) in [("NAME", pre(latin(&x.name))), ("PATH", pre(latin(&x.path))), ("SIZE", (x.data.len() as u32).to_le_bytes().to_vec()), ("DATA", x.data.clone())] {
                ensure!(one(&j[0].sub, t)? == w, format!("image file record {t} does not hold its value"), "");
            }
            let inme: Vec<&Rec> = j[0].sub.iter().filter(|r| r.tag == "INME").collect();
            ensure!(inme.first().map(|r| r.data.clone()) == x.internal_name.as_ref().map(|n| pre(latin(n))), "image file record INME does not hold its value", "");
        }
        ctx.count("image_layouts", 1);
    }
    for (k, so) in v.sounds.iter().enumerate() {
        let w = sound_layout(so, ver);
        let g = &s[&format!("/GameStg/Sound{k}")];
        ensure!(*g == w, "sound stream has another layout", "version {ver}: {}", snap::bdiff(&w, g));
        ctx.count("sound_layouts", 1);
    }
    for (k, f) in v.fonts.iter().enumerate() {
        let recs = snap::parse(&s[&format!("/GameStg/Font{k}")], Kind::Plain).map_err(|e| Viol { sig: "a font is not a record sequence".into(), detail: e })?;
        for (t, w) in [("NAME", pre(latin(&f.name))), ("PATH", pre(latin(&f.path))), ("SIZE", (f.data.len() as u32).to_le_bytes().to_vec()), ("DATA", f.data.clone())] {
            ensure!(one(&recs, t)? == w, format!("font record {t} does not hold its value"), "");
        }
        ctx.count("font_layouts", 1);
    }
    // info streams
    let i = &v.info;
    let std: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("TableName", i.table_name.as_deref().map(u16s)),
        ("AuthorName", i.author_name.as_deref().map(u16s)),
        ("TableBlurb", i.table_blurb.as_deref().map(u16s)),
        ("TableRules", i.table_rules.as_deref().map(u16s)),
        ("AuthorEmail", i.author_email.as_deref().map(u16s)),
        ("ReleaseDate", i.release_date.as_deref().map(u16s)),
        ("TableSaveRev", i.table_save_rev.as_deref().map(u16s)),
        ("TableVersion", i.table_version.as_deref().map(u16s)),
        ("AuthorWebSite", i.author_website.as_deref().map(u16s)),
        ("TableSaveDate", i.table_save_date.as_deref().map(u16s)),
        ("TableDescription", i.table_description.as_deref().map(u16s)),
        ("Screenshot", i.screenshot.clone()),
    ];
    let mut want: BTreeMap<String, Vec<u8>> = std.into_iter().filter_map(|(k, v)| v.map(|v| (format!("/TableInfo/{k}"), v))).collect();
    for (k, v) in &i.properties {
        want.insert(format!("/TableInfo/{k}"), u16s(v));
    }
    let got: BTreeMap<String, Vec<u8>> = s.iter().filter(|x| x.0.starts_with("/TableInfo/")).map(|(k, v)| (k.clone(), v.clone())).collect();
    if let Some(d) = snap::diff(&want, &got) {
        return viol(format!("table info: {}", d.split(':').next().unwrap_or("")), d);
    }
    let ci = snap::parse(&s["/GameStg/CustomInfoTags"], Kind::Plain).map_err(|e| Viol { sig: "custom info tags are not a record sequence".into(), detail: e })?;
    ensure!(ci.iter().all(|x| x.tag == "CUST") && ci.iter().map(|x| x.data.clone()).collect::<Vec<_>>() == v.custominfotags.iter().map(|t| pre(latin(t))).collect::<Vec<_>>(), "custom info tags are not written in order as latin-1 strings", "");
    ctx.count("tables_with_layout_checked", 1);
    Ok(())
}
fn sound_layout(s: &vpx::sound::SoundData, version: u32) -> Vec<u8> {
    let mut o = pre(latin(&s.name));
    o.extend(pre(latin(&s.path)));
    o.extend(if s.internal_name.is_empty() { vec![1, 0, 0, 0, 0] } else { pre(latin(&s.internal_name)) });
    let file = s.path.rsplit('/').next().unwrap_or("");
    let ext = match file.rfind('.') {
        Some(i) if i > 0 => &file[i + 1..],
        _ => "",
    };
    if ext.is_empty() || ext.eq_ignore_ascii_case("wav") {
        let w = &s.wave_form;
        o.extend(w.format_tag.to_le_bytes());
        o.extend(w.channels.to_le_bytes());
        o.extend(w.samples_per_sec.to_le_bytes());
        o.extend(w.avg_bytes_per_sec.to_le_bytes());
        o.extend(w.block_align.to_le_bytes());
        o.extend(w.bits_per_sample.to_le_bytes());
        o.extend(w.cb_size.to_le_bytes());
    }
    o.extend(pre(s.data.clone()));
    o.push(if s.output_target == vpx::sound::OutputTarget::Table { 0 } else { 1 });
    if version >= 1031 {
        for n in [s.volume, s.balance, s.fade, s.volume] {
            o.extend(n.to_le_bytes());
        }
    }
    o
}
const TYPE_IDS: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22, 23, 24];

pub fn run_c17(ctx: &Ctx) {
    ctx.rule("every public field of all 21 item types, game data, materials, drag points and collections set alone on a default and on a random base object; the record sets before and after and the bytes of the field's record compared with a committed table of tags and encodings (audited against the format documentation); streams holding only one field's record read back; plus hand-written layouts for images, sounds, fonts, render probes, info streams, mesh data and counters; distinct by (field, encoding, enum value)");
    ctx.assume("the table of tags (harness/data/schema.json) was recorded from the base revision and checked against the tag names in its documentation and the Visual Pinball sources as far as they are quoted there");
    let sch = schema();
    let n = if ctx.thorough() { 60_000 } else { 1_300 };
    ctx.cases("fields", n, if ctx.thorough() { 900.0 } else { 40.0 }, |r, i| {
        for o in all_obs(r, i)? {
            check_obs(ctx, &sch, &o)?;
        }
        Ok(())
    });
    ctx.cases("reading", (N_ITEM_TYPES * if ctx.thorough() { 1000 } else { 30 }) as u64, 40.0, |r, i| check_reading(ctx, &sch, r, i as usize % N_ITEM_TYPES));
    ctx.cases("reading_other", 11 * if ctx.thorough() { 2000 } else { 60 }, 40.0, |r, i| check_reading_other(ctx, &sch, r, i as usize % 11));
    ctx.cases("composite", if ctx.thorough() { 50_000 } else { 1500 }, 40.0, |r, _| check_composite(ctx, r));
    ctx.require("sound_layouts", 300);
    ctx.require("image_layouts", 300);
    ctx.require("values_checked", 15_000);
    ctx.require("enum_values_checked", 300);
    ctx.require("absent_fields_checked", 800);
    ctx.require("fields_read_alone", 8_000);
}
