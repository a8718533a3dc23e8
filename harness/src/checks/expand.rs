//! C03, C14, C15: the expanded directory format.
use crate::ensure;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use crate::snap;
use crate::util::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::{self, VPX};

pub const FORMATS: [PrimitiveMeshFormat; 3] = [PrimitiveMeshFormat::Obj, PrimitiveMeshFormat::Glb, PrimitiveMeshFormat::Gltf];
pub fn opts(f: PrimitiveMeshFormat, derived: bool) -> ExpandOptions {
    ExpandOptions::new().mesh_format(f).generate_derived_meshes(derived)
}
pub fn ext_of(f: PrimitiveMeshFormat) -> &'static str {
    match f {
        PrimitiveMeshFormat::Obj => "obj",
        PrimitiveMeshFormat::Glb => "glb",
        PrimitiveMeshFormat::Gltf => "gltf",
    }
}

/// meshes compared by content: the two sides may compress differently
pub fn unpack_meshes(v: &mut VPX) -> Result<(), Viol> {
    let un = |d: &[u8]| unzlib(d).or_else(|e| viol("mesh data cannot be decompressed", e));
    for it in &mut v.gameitems {
        let GameItemEnum::Primitive(p) = it else { continue };
        if let Some(d) = &p.compressed_vertices_data {
            ensure!(p.compressed_vertices_len == Some(d.len() as u32), "stored mesh length is not the length of the mesh data", "{}", p.name);
            let d = un(d)?;
            p.compressed_vertices_len = Some(d.len() as u32);
            p.compressed_vertices_data = Some(d);
        }
        if let Some(d) = &p.compressed_indices_data {
            ensure!(p.compressed_indices_len == Some(d.len() as u32), "stored mesh length is not the length of the mesh data", "{}", p.name);
            let d = un(d)?;
            p.compressed_indices_len = Some(d.len() as u32);
            p.compressed_indices_data = Some(d);
        }
        if let (Some(fs), Some(ls)) = (&mut p.compressed_animation_vertices_data, &mut p.compressed_animation_vertices_len) {
            ensure!(fs.len() == ls.len(), "animation frame count", "{} frames, {} lengths", fs.len(), ls.len());
            for (f, l) in fs.iter_mut().zip(ls) {
                ensure!(*l == f.len() as u32, "stored frame length is not the length of the frame data", "{}", p.name);
                *f = un(f)?;
                *l = f.len() as u32;
            }
        }
    }
    Ok(())
}

/// the file written from a table, meshes unpacked
fn streams(v: &VPX) -> Result<snap::Snap, Viol> {
    let b = sut_ok("to_bytes", || vpx::to_bytes(v))?;
    snap::snap(&b).or_else(|e| viol("written file is not a readable container", e))
}

/// same table?  `what` prefixes the signature
fn same(what: &str, want: &mut VPX, got: &mut VPX) -> Res {
    unpack_meshes(want)?;
    unpack_meshes(got)?;
    // regenerated legacy lists hold whole names, the file has 31 bytes of them
    for v in [&mut *want, &mut *got] {
        let cut = |s: &mut String| *s = s.chars().take(31).collect();
        v.gamedata.materials_old.iter_mut().for_each(|m| cut(&mut m.name));
        if let Some(l) = &mut v.gamedata.materials_physics_old {
            l.iter_mut().for_each(|m| cut(&mut m.name));
        }
    }
    if want != got {
        let d = model_diff(want, got);
        return viol(format!("{what}: {}", first_word(&d)), d);
    }
    // and the very same file, compared stream by stream
    let (a, b) = (streams(want)?, streams(got)?);
    if let Some(d) = snap::diff(&a, &b) {
        return viol(format!("{what}: the file written from it differs: {}", first_word(&d)), d);
    }
    Ok(())
}

fn json_at(files: &BTreeMap<PathBuf, Vec<u8>>, root: &Path, n: &str) -> Result<Value, Viol> {
    let Some(b) = files.get(&root.join(n)) else { return viol(format!("{n} missing"), "") };
    serde_json::from_slice(b).or_else(|e| viol(format!("{n} is not JSON"), format!("{e}")))
}

/// the content of each asset file is the asset
fn assets(files: &BTreeMap<PathBuf, Vec<u8>>, root: &Path, v: &VPX, ctx: &Ctx) -> Res {
    let sub = |d: &str| -> Vec<&Vec<u8>> { files.iter().filter(|(p, _)| p.parent() == Some(&root.join(d))).map(|(_, b)| b).collect() };
    let imgs = sub("images");
    let stored: Vec<_> = v.images.iter().filter(|i| i.link.is_none()).collect();
    ensure!(imgs.len() == stored.len(), "number of image files", "{} files for {} images", imgs.len(), stored.len());
    for i in &stored {
        if let Some(j) = &i.jpeg {
            ensure!(imgs.iter().any(|b| **b == j.data), "no file holds the bytes of an image", "{} {}", i.name, i.path);
        }
        ctx.count("image files", 1);
    }
    let snds = sub("sounds");
    ensure!(snds.len() == v.sounds.len(), "number of sound files", "{} files for {} sounds", snds.len(), v.sounds.len());
    for s in &v.sounds {
        ensure!(snds.iter().any(|b| b.ends_with(&s.data) || b.windows(s.data.len().max(1)).any(|w| w == s.data)), "no file holds the bytes of a sound", "{} {}", s.name, s.path);
        ctx.count("sound files", 1);
    }
    let fnts = sub("fonts");
    ensure!(fnts.len() == v.fonts.len(), "number of font files", "{} files for {} fonts", fnts.len(), v.fonts.len());
    for f in &v.fonts {
        ensure!(fnts.iter().any(|b| **b == f.data), "no file holds the bytes of a font", "{} {}", f.name, f.path);
        ctx.count("font files", 1);
    }
    let idx = json_at(files, root, "gameitems.json")?;
    let n = idx.as_array().map(|a| a.len()).unwrap_or(0);
    ensure!(n == v.gameitems.len(), "gameitems.json length", "{n} vs {}", v.gameitems.len());
    let mut seen = BTreeSet::new();
    for (e, it) in idx.as_array().unwrap().iter().zip(&v.gameitems) {
        let f = e["file_name"].as_str().unwrap_or("");
        ensure!(files.contains_key(&root.join("gameitems").join(f)), "an item listed in gameitems.json has no file", "{f}");
        ensure!(seen.insert(f.to_lowercase()), "two items share a file", "{f}");
        ensure!(f.starts_with(&it.type_name()), "item file is not named after its type", "{f} {}", it.type_name());
    }
    if let Some(s) = &v.info.screenshot {
        ensure!(files.get(&root.join("screenshot.png")) == Some(s), "screenshot.png is not the screenshot", "");
    }
    let code: Vec<u8> = v.gamedata.code.clone().into();
    ensure!(files.get(&root.join("script.vbs")) == Some(&code), "script.vbs is not the script", "");
    Ok(())
}

/// give tables of the expanded workloads names that collide
pub fn collide(v: &mut VPX, r: &mut R) {
    fn twist(r: &mut R, n: &str) -> String {
        match r.below(7) {
            0 => n.to_string(),
            1 => n.to_uppercase(),
            2 => n.to_lowercase(),
            3 => format!("{n}?"),
            4 => format!("{n}/"),
            5 => format!("{n}_dedup1"),
            _ => format!("*{n}"),
        }
    }
    for i in 1..v.images.len() {
        if r.chance(1, 3) {
            let j = r.below(i);
            v.images[i].name = twist(r, &v.images[j].name.clone());
            if r.bool() {
                v.images[i].path = if v.images[i].bits.is_some() == v.images[j].bits.is_some() { v.images[j].path.clone() } else { v.images[i].path.clone() };
            }
        }
    }
    for i in 0..v.images.len() {
        if r.chance(1, 8) && v.images[i].bits.is_none() {
            v.images[i].path = odd_path(r);
        }
    }
    for i in 0..v.fonts.len() {
        if r.chance(1, 6) {
            v.fonts[i].path = odd_path(r);
        }
    }
    for i in 1..v.sounds.len() {
        if r.chance(1, 3) {
            let j = r.below(i);
            v.sounds[i].name = twist(r, &v.sounds[j].name.clone());
        }
    }
    for i in 1..v.fonts.len() {
        if r.chance(1, 3) {
            let j = r.below(i);
            v.fonts[i].name = twist(r, &v.fonts[j].name.clone());
            v.fonts[i].path = v.fonts[j].path.clone();
        }
    }
    for i in 1..v.gameitems.len() {
        if r.chance(1, 5) {
            let j = r.below(i);
            let n = v.gameitems[j].name().to_string();
            let n = match r.below(6) {
                0 => n.to_uppercase(),
                1 => format!("{n}_anim_0"),
                2 => format!("{n}__1"),
                3 => n.replace(|c: char| !c.is_alphanumeric(), "_"),
                4 => format!("{n}-generated"),
                _ => n,
            };
            set_item_name(&mut v.gameitems[i], n);
        }
    }
}

const WORDS: &[&str] = &[
    "\u{e9}t\u{e9}", "\u{c9}T\u{c9}", "\u{c9}t\u{e9}", "\u{e9}t\u{e9}__1", "\u{c9}T\u{c9}__1", "\u{e9}t\u{e9}__2", "\u{e9}t\u{e9}_dedup1", "\u{c9}T\u{c9}_DEDUP2", "", "unnamed", "UNNAMED", "Unnamed__1", "_dedup1", "_dedup2",
    "x", "X", "x", "x_anim_a", "x_anim_10", "x_anim_11", "x_anim_0", "x_anim_1", "x_anim_", "x_anim_12", "x?anim?0", "X_ANIM_0", "x_anim_0_", "x_anim_1_anim_2", "x_anim_a_anim_0", "a", "a?", "a/", "A", "A?", "a_dedup1", "a_dedup10", "a.b", "a_b", "?", "..", "\u{df}", "SS", "ss", "\u{fe}", "\u{de}",
];
/// a few things of one kind whose names nearly all collide
fn dense(r: &mut R, kind: usize) -> VPX {
    let n = 3 + r.below(14);
    let mut v = crowd(r, kind, n, true);
    let few = 1 + r.below(6);
    let some: Vec<&str> = (0..few).map(|_| *r.pick(WORDS)).collect();
    let mut name = |r: &mut R| if r.chance(3, 4) { r.pick(&some).to_string() } else { r.pick(WORDS).to_string() };
    let item = *r.pick(&[2, 15, 15, 19]);
    for g in &mut v.gameitems {
        if r.chance(3, 4) {
            *g = g_item(r, item);
            if let GameItemEnum::Primitive(p) = g {
                let mut m = g_mesh(r, false);
                m.verts.truncate(3);
                m.faces = vec![[0, 1, 2]];
                let anim = r.chance(3, 4);
                set_mesh(p, &m, r, anim);
            }
        }
        set_item_name(g, name(r));
    }
    v.images.iter_mut().for_each(|x| x.name = name(r));
    v.sounds.iter_mut().for_each(|x| x.name = name(r));
    v.fonts.iter_mut().for_each(|x| x.name = name(r));
    v
}

fn odd_path(r: &mut R) -> String {
    (*r.pick(&["noext", "", "/home/a.b/file", "C:\\x.y\\file", "/home/me/file.tar.gz", "dir/./x", "../up.jpg", "a.b/../c", ".hidden", "trailing."])).to_string()
}

fn gen_pair(r: &mut R, cfg: &Cfg) -> (VPX, VPX) {
    let s = r.u64();
    let (p, tame) = (r.p_opt, r.tame);
    let mk = || {
        let mut q = R::new(s);
        q.p_opt = p;
        q.tame = tame;
        let mut v = g_vpx(&mut q, cfg);
        collide(&mut v, &mut q);
        v
    };
    (mk(), mk())
}

pub fn run_c03(ctx: &Ctx) {
    ctx.rule("random tables (every item type and field, real meshes and animation frames, images of every kind, sounds, fonts, materials of both forms, names of any characters, colliding and case-differing names) extracted in each mesh format to memory or disk, read back, compared field by field and as written files; asset files compared with the assets; distinct = table shape x format x medium");
    ctx.assume("images stored as raw bits have a .bmp path and others do not (the writer asserts it); wave sounds are PCM; material lists of the two forms agree; floats in JSON-stored fields are finite");
    let n = if ctx.thorough() { 40_000 } else { 3000 };
    ctx.cases("roundtrip", n, if ctx.thorough() { 1500.0 } else { 14.0 }, |r, i| {
        let cfg = Cfg::expanded();
        r.p_opt = *r.pick(&[128, 30, 230, 255]);
        let (v, mut want) = if i % 4 == 3 {
            let (s, k) = (r.u64(), r.below(4));
            ctx.count("tables of colliding names", 1);
            (dense(&mut R::new(s), k), dense(&mut R::new(s), k))
        } else {
            gen_pair(r, &cfg)
        };
        let f = FORMATS[(i % 3) as usize];
        let o = opts(f, false);
        let disk = r.chance(1, 4);
        let mut got;
        let files;
        let root;
        if disk {
            let s = Scratch::new("c03");
            root = PathBuf::new();
            let d = s.path("t");
            std::fs::create_dir(&d).expect("mkdir");
            sut_ok("extraction", || expanded::write(&v, &d, &o))?;
            files = tree(&d);
            got = sut_ok("assembly", || expanded::read(&d))?;
            ctx.count("on disk", 1);
        } else {
            let fs = MonFs::new();
            root = PathBuf::from("/x");
            sut_ok("extraction", || expanded::write_fs(&v, &root, &o, &fs))?;
            files = fs.files();
            got = sut_ok("assembly", || expanded::read_fs(&root, &fs))?;
            ctx.count("in memory", 1);
        }
        ctx.distinct(mix(shape(&v), i % 3 + 7 * disk as u64));
        for it in &v.gameitems {
            if let GameItemEnum::Primitive(p) = it {
                if p.compressed_vertices_data.is_some() {
                    ctx.count(&format!("meshes as {}", ext_of(f)), 1);
                }
                if let Some(a) = &p.compressed_animation_vertices_data {
                    ctx.count("animation frames", a.len() as u64);
                }
            }
        }
        ctx.count("items", v.gameitems.len() as u64);
        assets(&files, &root, &v, ctx)?;
        same("the reassembled table differs", &mut want, &mut got)?;
        if i < 3 {
            ctx.sample(json!({"items": v.gameitems.len(), "images": v.images.len(), "sounds": v.sounds.len(), "fonts": v.fonts.len(), "format": ext_of(f), "disk": disk, "files": files.len()}));
        }
        Ok(())
    });
    // more than a thousand things of one kind, of one name or each its own
    ctx.cases("crowds", if ctx.thorough() { 40 } else { 8 }, if ctx.thorough() { 300.0 } else { 10.0 }, |r, i| {
        let n = 1001 + r.below(60);
        let (s, k, same_name) = (r.u64(), [0, 1, 2, 3][(i % 4) as usize], i % 8 < 4);
        let (v, mut want) = (crowd(&mut R::new(s), k, n, same_name), crowd(&mut R::new(s), k, n, same_name));
        let fs = MonFs::new();
        let root = PathBuf::from("/x");
        sut_ok("extraction", || expanded::write_fs(&v, &root, &opts(FORMATS[0], false), &fs))?;
        assets(&fs.files(), &root, &v, ctx)?;
        let mut got = sut_ok("assembly", || expanded::read_fs(&root, &fs))?;
        same("the reassembled table differs", &mut want, &mut got)?;
        ctx.count("things in crowds", n as u64);
        Ok(())
    });
    // a second trip is the identity on the directory as well
    ctx.cases("second trip", n / 5, if ctx.thorough() { 300.0 } else { 4.0 }, |r, i| {
        let cfg = Cfg::expanded();
        let (v, _) = gen_pair(r, &cfg);
        let o = opts(FORMATS[(i % 3) as usize], false);
        let root = PathBuf::from("/x");
        let (a, b) = (MonFs::new(), MonFs::new());
        sut_ok("extraction", || expanded::write_fs(&v, &root, &o, &a))?;
        let w = sut_ok("assembly", || expanded::read_fs(&root, &a))?;
        sut_ok("second extraction", || expanded::write_fs(&w, &root, &o, &b))?;
        let (x, y) = (a.files(), b.files());
        let (ka, kb): (Vec<_>, Vec<_>) = (x.keys().collect(), y.keys().collect());
        ensure!(ka == kb, "extracting the reassembled table gives other files", "{ka:?} vs {kb:?}");
        for (p, d) in &x {
            if p.file_name().unwrap() == "info.json" || p.extension().is_some_and(|e| e == "json") {
                let (j, k): (Value, Value) = (serde_json::from_slice(d).unwrap_or_default(), serde_json::from_slice(&y[p]).unwrap_or_default());
                ensure!(eq_unordered(&j, &k), format!("{} differs after a second trip", p.file_name().unwrap().to_string_lossy().split('.').next().unwrap()), "{} {j} vs {k}", p.display());
            } else {
                ensure!(*d == y[p], format!("a .{} file differs after a second trip", p.extension().unwrap_or_default().to_string_lossy()), "{}", p.display());
            }
        }
        ctx.count("second trips", 1);
        Ok(())
    });
    // what an author changes in the directory is what changes in the table
    ctx.cases("edited directory", n / 2, if ctx.thorough() { 300.0 } else { 5.0 }, |r, i| {
        let (v, mut want) = gen_pair(r, &Cfg::expanded());
        let fs = MonFs::new();
        let root = PathBuf::from("/x");
        sut_ok("extraction", || expanded::write_fs(&v, &root, &opts(FORMATS[(i % 3) as usize], false), &fs))?;
        let mut files = fs.files();
        let read_index = |files: &BTreeMap<PathBuf, Vec<u8>>, n: &str| json_at(files, &root, n);
        let what = r.below(8);
        let mut flags = None;
        match what {
            0 => {
                // game items in another order, some left out
                let mut idx = read_index(&files, "gameitems.json")?;
                let l = idx.as_array_mut().unwrap();
                let mut order: Vec<usize> = (0..l.len()).filter(|_| !r.chance(1, 4)).collect();
                for k in (1..order.len()).rev() {
                    order.swap(k, r.below(k + 1));
                }
                let old = l.clone();
                *l = order.iter().map(|k| old[*k].clone()).collect();
                files.insert(root.join("gameitems.json"), serde_json::to_vec(&idx).unwrap());
                let mut items: Vec<Option<GameItemEnum>> = want.gameitems.drain(..).map(Some).collect();
                want.gameitems = order.iter().map(|k| items[*k].take().unwrap()).collect();
                want.gamedata.gameitems_size = want.gameitems.len() as u32;
            }
            1 => {
                let mut idx = read_index(&files, "gameitems.json")?;
                let l = idx.as_array_mut().unwrap();
                if l.is_empty() {
                    return Ok(());
                }
                let k = r.below(l.len());
                let layer = if r.bool() { json!("new layer") } else { json!("") };
                if l[k].get("is_locked").is_some() {
                    l[k]["is_locked"] = json!(r.bool());
                }
                l[k]["editor_layer_name"] = layer;
                l[k]["editor_layer_visibility"] = json!(r.bool());
                l[k]["editor_layer"] = json!(r.below(12));
                flags = Some((k, l[k].clone()));
                files.insert(root.join("gameitems.json"), serde_json::to_vec(&idx).unwrap());
            }
            2 => {
                let t = g_code(r);
                want.gamedata.code = t.clone();
                files.insert(root.join("script.vbs"), t.into());
            }
            3 => {
                let t = r.blob();
                if t.is_empty() {
                    files.remove(&root.join("screenshot.png"));
                    want.info.screenshot = None;
                } else {
                    files.insert(root.join("screenshot.png"), t.clone());
                    want.info.screenshot = Some(t);
                }
            }
            4 => {
                // the asset is what its file holds
                let Some(j) = want.images.iter_mut().filter_map(|i| i.jpeg.as_mut()).next() else { return Ok(()) };
                let at: Vec<PathBuf> = files.iter().filter(|(p, b)| p.parent() == Some(&root.join("images")) && **b == j.data).map(|(p, _)| p.clone()).collect();
                if at.len() != 1 {
                    return Ok(());
                }
                j.data.extend([1, 2, 3]);
                files.insert(at[0].clone(), j.data.clone());
            }
            5 => {
                let Some(j) = want.fonts.first_mut() else { return Ok(()) };
                let at: Vec<PathBuf> = files.iter().filter(|(p, b)| p.parent() == Some(&root.join("fonts")) && **b == j.data).map(|(p, _)| p.clone()).collect();
                if at.len() != 1 {
                    return Ok(());
                }
                j.data = r.blob();
                files.insert(at[0].clone(), j.data.clone());
            }
            6 => {
                // a picture stored anew as WebP under the same name
                let pick = want.images.iter().position(|i| i.jpeg.is_some() && i.path.ends_with(".png"));
                let Some(k) = pick else { return Ok(()) };
                let im = &mut want.images[k];
                let j = im.jpeg.as_mut().unwrap();
                let at: Vec<PathBuf> = files.iter().filter(|(p, b)| p.parent() == Some(&root.join("images")) && **b == j.data).map(|(p, _)| p.clone()).collect();
                let Ok(dims) = image::ImageReader::new(std::io::Cursor::new(&j.data)).with_guessed_format().unwrap().into_dimensions() else { return Ok(()) };
                if at.len() != 1 || (im.width, im.height) != dims || files.contains_key(&at[0].with_extension("webp")) {
                    return Ok(());
                }
                let d = g_real_image(r, image::ImageFormat::WebP, dims.0, dims.1, true);
                files.remove(&at[0]);
                files.insert(PathBuf::from(format!("{}.webp", at[0].to_string_lossy().strip_suffix(".png").unwrap_or_default())), d.clone());
                j.data = d;
                im.path = im.path.replace(".png", ".webp");
                ctx.count("pictures stored anew", 1);
                // whether the path kept with the data follows is not part of this
                flags = Some((usize::MAX, json!(k)));
            }
            _ => {
                // collections in another order
                let mut idx = read_index(&files, "collections.json")?;
                let Some(l) = idx.as_array_mut() else { return viol("collections.json is not a list", "") };
                l.reverse();
                files.insert(root.join("collections.json"), serde_json::to_vec(&idx).unwrap());
                want.collections.reverse();
            }
        }
        let fs = MonFs::from_files(&files);
        let mut got = sut_ok("assembly", || expanded::read_fs(&root, &fs))?;
        match flags {
            Some((usize::MAX, k)) => {
                let k = k.as_u64().unwrap() as usize;
                let p = got.images[k].jpeg.as_ref().map(|j| j.path.clone()).unwrap_or_default();
                want.images[k].jpeg.as_mut().unwrap().path = p;
            }
            Some((k, e)) => {
                let g = &got.gameitems[k];
                let (l, n, vis) = (g.is_locked(), g.editor_layer_name().clone(), g.editor_layer_visibility());
                if l.is_some() {
                    ensure!(e.get("is_locked").and_then(|x| x.as_bool()) == l, "the lock flag in gameitems.json is not the item's", "{e} {l:?}");
                    ensure!(n.as_deref() == e["editor_layer_name"].as_str(), "the layer name in gameitems.json is not the item's", "{e} {n:?}");
                    ensure!(vis == e["editor_layer_visibility"].as_bool(), "the layer visibility in gameitems.json is not the item's", "{e} {vis:?}");
                    ensure!(matches!(g, GameItemEnum::PartGroup(_)) || g.editor_layer().map(|x| x as u64) == e["editor_layer"].as_u64(), "the layer in gameitems.json is not the item's", "{e} {:?}", g.editor_layer());
                }
                want.gameitems.remove(k);
                got.gameitems.remove(k);
            }
            None => {}
        }
        same("after an edit of the directory the table differs", &mut want, &mut got)?;
        ctx.count("edited directories", 1);
        Ok(())
    });
    ctx.require("edited directories", 100);
    ctx.require("animation frames", 50);
    ctx.require("on disk", 50);
    ctx.require("image files", 200);
    ctx.require("second trips", 30);
}

/// JSON equality that ignores the order of font style sets
fn eq_unordered(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            if x.iter().all(|v| v.is_string()) && !x.is_empty() {
                let (mut p, mut q): (Vec<_>, Vec<_>) = (x.iter().map(|v| v.to_string()).collect(), y.iter().map(|v| v.to_string()).collect());
                p.sort();
                q.sort();
                return p == q;
            }
            x.iter().zip(y).all(|(a, b)| eq_unordered(a, b))
        }
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| eq_unordered(v, w))),
        _ => a == b,
    }
}

/// names and paths no table should contain, but any file can
fn hostile(r: &mut R) -> String {
    let evil = ["..", ".", "../../etc/x", "/etc/passwd", "/tmp/x", "a/../../b", "..\\..\\up", "C:\\x", "//host/share", "CON", "nul.txt", "a\0b", "x\n../y", "~", "%2e%2e%2f", "\u{202e}gpj", "a:b", "\u{ff0f}etc", "ENDB", " ", "..\u{2024}/", "./x", "x/", "-rf", "$(id)", "screenshot.png", "../gamedata", "../script", "İ", "ß", "K"];
    match r.below(5) {
        0 => (*r.pick(&evil)).to_string(),
        1 => format!("{}{}", r.pick(&evil), r.word()),
        2 => format!("{}/{}", r.pick(&evil), r.pick(&evil)),
        3 => format!("a{}", r.below(3)),
        _ => r.wide(),
    }
}

/// every created file inside, once, and distinct even where case does not count
fn created_ok(log: &[Op], root: &Path, ctx: &Ctx) -> Result<usize, Viol> {
    let mut seen: BTreeMap<String, PathBuf> = BTreeMap::new();
    let mut n = 0;
    for op in log {
        match op {
            Op::Create(p) => {
                n += 1;
                ensure!(p.starts_with(root) && p != root, "a file is created outside of the chosen directory", "{}", p.display());
                if let Some(q) = seen.insert(p.to_string_lossy().to_lowercase(), p.clone()) {
                    return viol(if q == *p { "a file is written twice" } else { "two files differ only by case" }, format!("{} {}", q.display(), p.display()));
                }
            }
            Op::Mkdir(p) => ensure!(p.starts_with(root), "a directory is created outside of the chosen directory", "{}", p.display()),
            Op::Read(_) => {}
        }
    }
    ctx.count("files created", n as u64);
    Ok(n)
}

pub fn run_c14(ctx: &Ctx) {
    ctx.rule("tables whose item, image, sound and font names and paths are hostile (traversal, absolute, separators, control characters, device names, case variants, names that look like the writer's own suffixes) extracted in every mesh format and with derived meshes into a recording file system that only stores in memory; every creation is checked for containment and uniqueness ignoring case, every asset for its own file; distinct = set of created names");
    ctx.assume("created paths are resolved lexically; file names are compared by their lower-case form");
    let n = if ctx.thorough() { 100_000 } else { 12_000 };
    ctx.cases("extract", n, if ctx.thorough() { 1200.0 } else { 12.0 }, |r, i| {
        let mut cfg = Cfg::expanded();
        cfg.assets = 6;
        cfg.items = 10;
        r.tame = true;
        let (mut v, p) = if i % 4 == 2 {
            let k = r.below(4);
            (dense(r, k), 0)
        } else {
            let mut v = g_vpx(r, &cfg);
            collide(&mut v, r);
            (v, 1 + r.below(4))
        };
        for im in &mut v.images {
            if r.chance(p, 4) {
                im.name = hostile(r);
            }
            if r.chance(p, 8) && im.bits.is_none() {
                im.path = hostile(r);
            }
        }
        for s in &mut v.sounds {
            if r.chance(p, 4) {
                s.name = hostile(r);
            }
        }
        for s in &mut v.fonts {
            if r.chance(p, 4) {
                s.name = hostile(r);
            }
            if r.chance(p, 8) {
                s.path = hostile(r);
            }
        }
        for it in &mut v.gameitems {
            if r.chance(p, 4) {
                set_item_name(it, hostile(r));
            }
        }
        if i % 5 == 0 {
            // all collisions of one kind at once
            let n = hostile(r);
            for s in &mut v.sounds {
                s.name = if r.bool() { n.clone() } else { n.to_uppercase() };
            }
            for s in &mut v.images {
                s.name = if r.bool() { n.clone() } else { format!("{n}_dedup{}", 1 + r.below(3)) };
            }
        }
        let fs = MonFs::new();
        let root = PathBuf::from(*r.pick(&["/out/dir", "/x", "rel/dir", "/out/d.x"]));
        let f = FORMATS[(i % 3) as usize];
        sut_ok("extraction", || expanded::write_fs(&v, &root, &opts(f, false), &fs))?;
        created_ok(&fs.log(), &root, ctx)?;
        let files = fs.files();
        assets(&files, &root, &v, ctx)?;
        // every mesh file belongs to its own item
        let meshes: usize = v
            .gameitems
            .iter()
            .map(|g| match g {
                GameItemEnum::Primitive(p) if p.compressed_vertices_data.is_some() => 1 + p.compressed_animation_vertices_data.as_ref().map_or(0, |a| a.len()),
                _ => 0,
            })
            .sum();
        let ext = ext_of(f);
        let found = files.keys().filter(|p| p.parent() == Some(&root.join("gameitems")) && p.extension().is_some_and(|e| e == ext)).count();
        ensure!(found == meshes, "number of mesh files", "{found} for {meshes} meshes and frames");
        ctx.count("mesh files", found as u64);
        ctx.count("items", v.gameitems.len() as u64);
        for p in files.keys() {
            ctx.distinct(hash_str(&p.to_string_lossy()));
        }
        if i < 2 {
            ctx.sample(json!({"created": files.keys().map(|p| p.to_string_lossy().to_string()).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    // the listing names exactly what an extraction would create
    ctx.cases("listing", n / 40, 4.0, |r, _| {
        let mut cfg = Cfg::expanded();
        cfg.items = 6;
        let mut v = g_vpx(r, &cfg);
        collide(&mut v, r);
        let s = Scratch::new("c14");
        let p = s.path("some table.vpx");
        sut_ok("write", || vpx::write(&p, &v))?;
        let before = std::fs::read(&p).expect("read");
        let l = sut("extract_directory_list", || expanded::extract_directory_list(&p))?;
        let w = sut_ok("read", || vpx::read(&p))?;
        let fs = MonFs::new();
        let root = PathBuf::from("some table");
        sut_ok("extraction", || expanded::write_fs(&w, &root, &opts(PrimitiveMeshFormat::Obj, false), &fs))?;
        let want: Vec<String> = fs.files().keys().map(|p| p.to_string_lossy().to_string()).collect();
        let mut got: Vec<String> = l.clone();
        got.sort();
        let mut want2 = want.clone();
        want2.sort();
        ensure!(got == want2, "the listing does not name the files of the extraction", "{got:?} vs {want2:?}");
        ensure!(std::fs::read(&p).ok() == Some(before), "listing changed the table", "");
        ensure!(std::fs::read_dir(&s.0).expect("dir").count() == 1, "listing created files", "");
        ctx.count("listings", 1);
        Ok(())
    });
    ctx.require("files created", 20_000);
    ctx.require("mesh files", 500);
    ctx.require("listings", 20);
}
