//! C15: the same table always gives the same output.
use super::expand::{FORMATS, collide, ext_of, opts};
use crate::ensure;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::Scene;
use crate::snap;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::{self, VPX};

type Out = BTreeMap<String, Vec<u8>>;

/// a table and whether its geometry is plausible (meshes can be generated)
pub fn table(seed: u64) -> (VPX, bool) {
    let mut r = R::new(seed);
    if r.bool() {
        let mut v = g_vpx(&mut r, &Cfg::expanded());
        collide(&mut v, &mut r);
        (v, false)
    } else {
        let mut v = Scene::table(&mut r, 14);
        for _ in 0..r.below(6) {
            let k = r.word();
            if !v.info.properties.contains_key(&k) {
                v.custominfotags.push(k.clone());
            }
            v.info.properties.insert(k, r.word());
        }
        (v, true)
    }
}

/// everything the library can produce from a table: name -> bytes
fn outputs(t: &(VPX, bool)) -> Result<Out, Viol> {
    let (v, geo) = (&t.0, t.1);
    let mut o = Out::new();
    o.insert("vpx".into(), sut_ok("to_bytes", || vpx::to_bytes(v))?);
    for f in FORMATS {
        for derived in if geo { vec![false, true] } else { vec![false] } {
            let fs = MonFs::new();
            let tag = format!("expanded {}{}", ext_of(f), if derived { " derived" } else { "" });
            // a failure is an output too
            let res = guarded(|| vpx::expanded::write_fs(v, &Path::new("/x"), &opts(f, derived), &fs));
            put(&mut o, &tag, res, &fs);
        }
    }
    if !geo {
        return Ok(o);
    }
    for format in [GltfFormat::Glb, GltfFormat::Gltf] {
        for inv in [false, true] {
            let fs = MonFs::new();
            let name = if format == GltfFormat::Glb { "/x/t.glb" } else { "/x/t.gltf" };
            let e = GltfExportOptions { format, export_invisible_items: inv, ..Default::default() };
            let tag = format!("export {name}{}", if inv { " all" } else { "" });
            let res = guarded(|| export_gltf(v, Path::new(name), &fs, &e));
            put(&mut o, &tag, res, &fs);
        }
    }
    for tex in [false, true] {
        let fs = MonFs::new();
        let e = ObjExportOptions { extract_textures: tex, ..Default::default() };
        let tag = format!("export obj{}", if tex { " textures" } else { "" });
        let res = guarded(|| export_obj(v, Path::new("/x/t.obj"), &fs, &e));
        put(&mut o, &tag, res, &fs);
    }
    Ok(o)
}
fn outcome<T, E>(r: Result<Result<T, E>, Panicked>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "error",
        Err(_) => "panic",
    }
}
/// the result of an operation and, when it succeeded, the files
fn put<T, E>(o: &mut Out, tag: &str, res: Result<Result<T, E>, Panicked>, fs: &MonFs) {
    let what = outcome(res);
    o.insert(format!("{tag}: result"), what.as_bytes().to_vec());
    if what == "ok" {
        for (p, b) in fs.files() {
            o.insert(format!("{tag}: {}", p.display()), b);
        }
    }
}

/// `vpmon emit-c15 <seed> <threads>`: digests of all outputs, for the parent
pub fn emit(seed: &str, threads: &str) {
    let v = table(seed.parse().unwrap());
    let pool = rayon::ThreadPoolBuilder::new().stack_size(64 << 20).num_threads(threads.parse().unwrap()).build().unwrap();
    match pool.install(|| outputs(&v)) {
        Ok(o) => o.iter().for_each(|(k, b)| println!("{:016x} {}", digest(k, b), hash_str(k))),
        Err(v) => println!("FAIL {} {}", v.sig, v.detail),
    }
}
/// the container stamps its root and storages with the time of creation
fn digest(name: &str, b: &[u8]) -> u64 {
    if name == "vpx" {
        let mut s = b.to_vec();
        blank(&mut s);
        hash_bytes(&s)
    } else {
        hash_bytes(b)
    }
}

/// zero the time stamps of the directory entries of a compound file
fn blank(b: &mut [u8]) {
    let rd = |b: &[u8], p: usize| b.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).unwrap_or(0xffff_fffe);
    let shift = if rd(b, 30) & 0xffff == 12 { 12 } else { 9 };
    let size = 1usize << shift;
    // the first 109 FAT sectors are listed in the header; enough for 7 MB
    // (v3) or 446 MB (v4) files
    let fat: Vec<usize> = (0..109).map(|i| rd(b, 76 + 4 * i)).filter(|s| *s < 0xffff_fff0).map(|s| (s as usize + 1) * size).collect();
    let next = |b: &[u8], s: u32| {
        let per = (size / 4) as u32;
        fat.get((s / per) as usize).map(|f| rd(b, f + 4 * (s % per) as usize)).unwrap_or(0xffff_fffe)
    };
    let mut s = rd(b, 48);
    let mut n = 0;
    while s < 0xffff_fff0 && n < 100_000 {
        let at = (s as usize + 1) * size;
        for e in 0..size / 128 {
            let p = at + e * 128 + 100;
            if let Some(t) = b.get_mut(p..p + 16) {
                t.fill(0);
            }
        }
        s = next(b, s);
        n += 1;
    }
}

/// signature: the kind of file, not its name
fn kind(k: &str) -> String {
    let p = k.rsplit(": ").next().unwrap_or(k);
    let p = PathBuf::from(p);
    let ext = p.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
    let dir = k.split(':').next().unwrap_or("").replace(" derived", "").replace(" all", "");
    let file = p.file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
    if file.ends_with(".json") && p.components().count() == 3 {
        return format!("{dir} {file}");
    }
    if let Some(t) = file.split('.').next()
        && p.components().any(|c| c.as_os_str() == "gameitems")
    {
        return format!("{dir} gameitems/{t}.{ext}");
    }
    format!("{dir} {ext}")
}
fn compare(how: &str, a: &Out, b: &Out) -> Res {
    for (k, x) in a {
        let Some(y) = b.get(k) else { return viol(format!("{how}: a file is not always written: {}", kind(k)), k.clone()) };
        if k == "vpx" {
            let (mut x, mut y) = (x.clone(), y.clone());
            blank(&mut x);
            blank(&mut y);
            ensure!(x == y, format!("{how}: the table file differs"), "{}", snap_diff(&x, &y));
        } else {
            ensure!(x == y, format!("{how}: content differs: {}", kind(k)), "{k}: {}", snap::bdiff(x, y));
        }
    }
    for k in b.keys() {
        ensure!(a.contains_key(k), format!("{how}: a file is not always written: {}", kind(k)), "{k}");
    }
    Ok(())
}
fn snap_diff(x: &[u8], y: &[u8]) -> String {
    match (snap::snap(x), snap::snap(y)) {
        (Ok(a), Ok(b)) => snap::diff(&a, &b).unwrap_or_else(|| format!("same streams, other layout: {}", snap::bdiff(x, y))),
        _ => "unreadable".into(),
    }
}

pub fn run_c15(ctx: &Ctx) {
    ctx.rule("every output of a random table (the .vpx file, the expanded directory in 3 mesh formats with and without derived meshes, glTF, GLB and OBJ exports with their options) produced repeatedly: again from the same value, from an equal table built anew, in worker pools of 1, 2, 3 and 8 threads, concurrently with itself, and in other processes; all compared byte for byte; distinct = table shape");
    ctx.assume("the creation times the container format stores in its directory entries are not part of the output");
    let pools: Vec<(usize, rayon::ThreadPool)> = [1usize, 2, 3, 8].into_iter().map(|n| (n, rayon::ThreadPoolBuilder::new().stack_size(64 << 20).num_threads(n).build().unwrap())).collect();
    let n = if ctx.thorough() { 12_000 } else { 400 };
    ctx.cases("outputs", n, if ctx.thorough() { 1500.0 } else { 14.0 }, |r, i| {
        let seed = r.u64();
        let v = table(seed);
        ctx.distinct(shape(&v.0));
        let (_, p) = &pools[(i % 4) as usize];
        let a = p.install(|| outputs(&v))?;
        ctx.count("files compared", a.len() as u64);
        ctx.count("outputs that were errors or panics", a.iter().filter(|(k, b)| k.ends_with(": result") && b.as_slice() != b"ok").count() as u64);
        compare("repeated", &a, &outputs(&v)?)?;
        // an equal table with other hash states and addresses
        let w = table(seed);
        let (n2, p2) = r.pick(&pools);
        ctx.count(&format!("pool of {n2}"), 1);
        compare("an equal table", &a, &p2.install(|| outputs(&w))?)?;
        if r.chance(1, 4) {
            // two at once on the same pool
            let (x, y) = p2.install(|| rayon::join(|| outputs(&v), || outputs(&w)));
            compare("two at once", &a, &x?)?;
            compare("two at once", &a, &y?)?;
            ctx.count("concurrent pairs", 1);
        }
        if i < 3 {
            ctx.sample(json!({"seed": seed.to_string(), "items": v.0.gameitems.len(), "outputs": a.len()}));
        }
        Ok(())
    });
    // other processes: other hash keys, other address space
    let exe = "/proc/self/exe";
    let n = if ctx.thorough() { 800 } else { 64 };
    ctx.cases("processes", n, if ctx.thorough() { 600.0 } else { 8.0 }, |r, _| {
        let seed = r.u64();
        let v = table(seed);
        let a = outputs(&v)?;
        let th = *r.pick(&["1", "2", "4", "8"]);
        let run = std::process::Command::new(&exe).args(["emit-c15", &seed.to_string(), th]).output().expect("run self");
        ensure!(run.status.success(), "another process fails", "{}", String::from_utf8_lossy(&run.stderr));
        let got = String::from_utf8_lossy(&run.stdout).to_string();
        let names: BTreeMap<u64, &String> = a.keys().map(|k| (hash_str(k), k)).collect();
        let mut other = BTreeMap::new();
        for l in got.lines() {
            let (d, k) = l.split_once(' ').unwrap();
            other.insert(k.parse::<u64>().unwrap_or(0), u64::from_str_radix(d, 16).unwrap_or(0));
        }
        ensure!(other.len() == names.len(), "another process: other files", "{} vs {}", other.len(), names.len());
        for (h, k) in &names {
            ensure!(other.get(h) == Some(&digest(k, &a[*k])), format!("another process: content differs: {}", kind(k)), "{k}");
        }
        ctx.count("outputs compared with another process", names.len() as u64);
        Ok(())
    });
    for k in ["files compared", "outputs compared with another process", "concurrent pairs", "pool of 1", "pool of 8"] {
        ctx.require(k, 1);
    }
}
