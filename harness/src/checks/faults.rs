//! C25: every file operation is made to fail once.
use super::expand::{FORMATS, ext_of, opts};
use crate::ensure;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::Scene;
use crate::snap;
use crate::tracer::{self, End, Plan};
use crate::util::Scratch;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::{self, VPX};

type Files = BTreeMap<PathBuf, Vec<u8>>;

fn kind_of(p: &str) -> String {
    let (op, path) = p.split_once(' ').unwrap_or((p, ""));
    let path = Path::new(path);
    let ext = path.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
    let dir = path.parent().and_then(|p| p.file_name()).map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
    let dir = if ["gameitems", "images", "sounds", "fonts", "textures"].contains(&dir.as_str()) { dir } else { "top".into() };
    format!("{op} {dir} {ext}")
}
fn first_diff(want: &Files, got: &Files) -> Option<String> {
    for (p, b) in want {
        match got.get(p) {
            None => return Some(format!("{} missing", p.display())),
            Some(g) if g != b => return Some(format!("{} incomplete: {}", p.display(), snap::bdiff(b, g))),
            _ => {}
        }
    }
    None
}

/// an operation on a file system, judged by the files it leaves
fn on_fs(ctx: &Ctx, r: &mut R, name: &str, per: usize, op: &dyn Fn(&MonFs) -> Result<(), String>) -> Res {
    let base = MonFs::new();
    match sut(name, || op(&base)) {
        Ok(Ok(())) => {}
        // not what this property is about
        _ => {
            ctx.count("skipped: fails without a fault", 1);
            return Ok(());
        }
    }
    let want = base.files();
    for fault in [Fault::Error, Fault::Short, Fault::Flush] {
        let n = if fault == Fault::Flush {
            let f = MonFs::failing(fault, u64::MAX);
            sut(name, || op(&f))?.ok();
            f.points().len()
        } else {
            base.points().len()
        };
        if n == 0 {
            continue;
        }
        let mut at: Vec<usize> = (0..n).collect();
        if n > per {
            at = (0..per).map(|_| r.below(n)).collect();
            // the last ones: what is buffered comes last
            at.extend([n - 1, n.saturating_sub(2)]);
        }
        for i in at {
            let f = MonFs::failing(fault, i as u64);
            let res = guarded(|| op(&f));
            let hit = f.failed();
            let Some(hit) = hit.first() else { continue };
            let k = kind_of(hit);
            ctx.count(&format!("fault:{name}"), 1);
            ctx.distinct(hash_str(&format!("{name} {k} {fault:?}")));
            match res {
                Err(p) => return viol(format!("{name}: {fault:?} in {k}: {}", p.sig()), format!("fault {i} of {n}: {hit}")),
                Ok(Err(_)) => ctx.count("reported", 1),
                Ok(Ok(())) => {
                    if let Some(d) = first_diff(&want, &f.files()) {
                        return viol(format!("{name}: reports success after {fault:?} in {k}"), format!("fault {i} of {n}: {hit}; {d}"));
                    }
                    ctx.count("no effect", 1);
                }
            }
        }
    }
    Ok(())
}

fn one_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap().install(f)
}

fn extraction(ctx: &Ctx, r: &mut R) -> Res {
    let scene = r.bool();
    let v: VPX = if scene { Scene::table(r, 8) } else { g_vpx(r, &Cfg::expanded()) };
    let fmt = FORMATS[r.below(FORMATS.len())];
    let derived = scene && r.bool();
    let per = if ctx.thorough() { 1000 } else { 50 };
    let threads = [1, 3][r.below(2)];
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(64 << 20).build().unwrap();
    let write = |fs: &MonFs| pool.install(|| vpx::expanded::write_fs(&v, &Path::new("/x"), &opts(fmt, derived), fs)).map_err(|e| e.to_string());
    on_fs(ctx, r, &format!("extraction {}", ext_of(fmt)), per, &write)?;

    // assembly of what was extracted
    let base = MonFs::new();
    if write(&base).is_err() {
        return Ok(());
    }
    let files = base.files();
    let mut full = MonFs::from_files(&files);
    full.fault = Fault::Error;
    let Ok(Ok(want)) = guarded(|| vpx::expanded::read_fs(&Path::new("/x"), &full)) else {
        ctx.count("skipped: assembly fails without a fault", 1);
        return Ok(());
    };
    let n = full.points().len();
    for _ in 0..per.min(n) {
        let mut f = MonFs::from_files(&files);
        f.fail_at = r.below(n) as u64;
        f.fault = Fault::Error;
        let res = guarded(|| vpx::expanded::read_fs(&Path::new("/x"), &f));
        let hit = f.failed();
        let Some(hit) = hit.first() else { continue };
        ctx.count("fault:assembly", 1);
        assembled(ctx, &want, res, &format!("Error in {}", kind_of(hit)), hit)?;
    }
    // a missing file
    let names: Vec<&PathBuf> = files.keys().filter(|p| referenced(p)).collect();
    for _ in 0..per.min(names.len()) {
        let gone = names[r.below(names.len())];
        let mut left = files.clone();
        left.remove(gone);
        let f = MonFs::from_files(&left);
        let res = guarded(|| vpx::expanded::read_fs(&Path::new("/x"), &f));
        ctx.count("missing file:assembly", 1);
        assembled(ctx, &want, res, &format!("missing file {}", kind_of(&format!(" {}", gone.display()))), &gone.display().to_string())?;
    }
    Ok(())
}
/// a list file, a screenshot or a mesh that is absent means there is none;
/// every other file is referenced from a list
fn referenced(p: &Path) -> bool {
    let name = p.file_name().unwrap().to_string_lossy();
    if p.components().count() == 3 {
        return ["version.txt", "gamedata.json", "script.vbs"].contains(&&*name);
    }
    let mesh = ["obj", "glb", "gltf", "bin"].iter().any(|e| name.ends_with(e));
    !(mesh && p.parent().is_some_and(|d| d.ends_with("gameitems")))
}
fn assembled<E: std::fmt::Debug>(ctx: &Ctx, want: &VPX, res: Result<Result<VPX, E>, Panicked>, what: &str, hit: &str) -> Res {
    match res {
        Err(p) => viol(format!("assembly: {what}: {}", p.sig()), hit),
        Ok(Err(_)) => {
            ctx.count("reported", 1);
            Ok(())
        }
        Ok(Ok(v)) => {
            ctx.count("no effect", 1);
            ensure!(v == *want, format!("assembly: reports success after {what}"), "{hit}: {}", crate::util::model_diff(want, &v));
            Ok(())
        }
    }
}

fn exports(ctx: &Ctx, r: &mut R) -> Res {
    let v = Scene::table(r, 10);
    let per = if ctx.thorough() { 1000 } else { 150 };
    for format in [GltfFormat::Glb, GltfFormat::Gltf] {
        let e = GltfExportOptions { format, ..Default::default() };
        let (n, p) = if format == GltfFormat::Glb { ("export glb", "/x/t.glb") } else { ("export gltf", "/x/t.gltf") };
        on_fs(ctx, r, n, per, &|fs| one_thread(|| export_gltf(&v, Path::new(p), fs, &e).map(|_| ()).map_err(|e| e.to_string())))?;
    }
    let e = ObjExportOptions { extract_textures: r.bool(), ..Default::default() };
    on_fs(ctx, r, "export obj", per, &|fs| one_thread(|| export_obj(&v, Path::new("/x/t.obj"), fs, &e).map(|_| ()).map_err(|e| e.to_string())))
}

// ---- operations on real files, faults at system calls ----------------------

const OPS: [&str; 14] = ["new", "write", "importvbs", "extractvbs", "lock", "unlock", "webp", "gamedata", "compact", "expand", "assemble", "glb", "gltf", "obj"];

/// content of the directory, containers as streams
fn view(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut o = BTreeMap::new();
    for (p, b) in tree(d) {
        let p = p.to_string_lossy().into_owned();
        if p.contains("compacting") {
            continue;
        }
        if p.ends_with(".vpx") {
            match snap::snap(&b) {
                Ok(s) => s.into_iter().for_each(|(k, v)| drop(o.insert(format!("{p}{k}"), v))),
                Err(e) => drop(o.insert(p, e.into_bytes())),
            }
        } else {
            o.insert(p, b);
        }
    }
    o
}

fn real(ctx: &Ctx, r: &mut R, op: &'static str) -> Res {
    let d = Scratch::new("c25");
    let geo = ["glb", "gltf", "obj"].contains(&op);
    let mut v = if geo {
        Scene::table(r, 6)
    } else if ["expand", "assemble"].contains(&op) {
        let mut cfg = Cfg::expanded();
        cfg.items = 4;
        cfg.assets = 1;
        g_vpx(r, &cfg)
    } else {
        g_vpx(r, &Cfg::small())
    };
    if op == "webp" {
        v.images.clear();
        for i in 0..3 {
            let (mut im, _) = super::edits::g_webp_image(r);
            im.name = format!("i{i}");
            v.images.push(im);
        }
        v.gamedata.images_size = v.images.len() as u32;
    }
    match op {
        "lock" => v.gamedata.locked = Some(2 * r.below(9) as u32),
        "unlock" => v.gamedata.locked = Some(2 * r.below(9) as u32 + 1),
        _ => {}
    }
    let fmt = ["obj", "glb", "gltf"][r.below(3)];
    let w = d.path("w");
    let seed = r.u64();
    let reset = || {
        let _ = std::fs::remove_dir_all(&w);
        std::fs::create_dir_all(&w).unwrap();
        let mut r = R::new(seed);
        match op {
            "new" => {}
            "expand" => {
                vpx::write(&w.join("in.vpx"), &v).expect("input");
                std::fs::create_dir_all(w.join("x")).unwrap();
            }
            "assemble" => {
                let fs = MonFs::new();
                vpx::expanded::write_fs(&v, &Path::new("/x"), &opts(FORMATS[r.below(3)], false), &fs).expect("input");
                for (p, b) in fs.files() {
                    let p = w.join(p.strip_prefix("/").unwrap());
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, b).unwrap();
                }
            }
            _ => {
                vpx::write(&w.join("in.vpx"), &v).expect("input");
                if op == "importvbs" {
                    let script: String = (0..r.below(9000)).map(|i| if i % 40 == 39 { '\n' } else { 'x' }).collect();
                    std::fs::write(w.join("s.vbs"), script).unwrap();
                }
                if op == "gamedata" {
                    let mut o = g_vpx(&mut r, &Cfg::small());
                    o.version = vpx::version::Version::new(v.version.u32());
                    o.gamedata.set_code("y".repeat(r.below(12000)));
                    vpx::write(&w.join("other.vpx"), &o).expect("input");
                }
            }
        }
    };
    let args: Vec<&str> = match op {
        "new" => vec!["new", "out.vpx"],
        "write" => vec!["write", "in.vpx", "out.vpx"],
        "importvbs" => vec!["importvbs", "in.vpx", "s.vbs"],
        "extractvbs" => vec!["extractvbs", "in.vpx", "s.vbs"],
        "gamedata" => vec!["gamedata", "other.vpx", "in.vpx"],
        "expand" => vec!["expand", "in.vpx", "x", fmt],
        "assemble" => vec!["assemble", "x", "out.vpx"],
        "glb" => vec!["glb", "in.vpx", "out.glb"],
        "gltf" => vec!["gltf", "in.vpx", "out.gltf"],
        "obj" => vec!["obj", "in.vpx", "out.obj"],
        o => vec![o, "in.vpx"],
    };
    let run = |plan| tracer::run(&args, &w, plan, Duration::from_secs(60), |_| {}).unwrap_or_else(|e| panic!("harness: tracing failed: {e}"));
    reset();
    let base = run(Plan::Observe);
    let base_out = base.out.trim().to_string();
    if !base_out.starts_with("ok") || base.end != End::Exit(0) {
        // what fails without a fault is for other properties
        ctx.count(&format!("skipped:{op}"), 1);
        return Ok(());
    }
    let want = view(&w);
    let n = base.calls.len();
    assert!(n > 0, "no file call seen");
    ctx.count("file calls", n as u64);
    let writes: Vec<usize> = (0..n).filter(|i| base.calls[*i].writes).collect();
    let mut plans = vec![Plan::Fail(0, libc::EACCES), Plan::Fail(writes[0], libc::ENOSPC)];
    for k in 0..writes.len().min(4) {
        let i = writes[writes.len() - 1 - k];
        plans.push(Plan::Full(i));
        plans.push(Plan::Fail(i, libc::EIO));
    }
    for _ in 0..if ctx.thorough() { 120 } else { 12 } {
        let i = writes[r.below(writes.len())];
        plans.push(if r.bool() { Plan::Full(i) } else { Plan::Fail(i, [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG][r.below(4)]) });
        plans.push(Plan::Fail(r.below(n), libc::EIO));
    }
    for plan in plans {
        reset();
        let run = run(plan);
        let Some(hit) = run.calls.iter().find(|c| c.injected) else { continue };
        let k = hit.kind();
        let out = run.out.trim().to_string();
        ctx.count(&format!("fault:{op}"), 1);
        ctx.distinct(hash_str(&format!("{op} {k}")));
        match run.end {
            End::Exit(0) => {}
            End::Timeout => return viol(format!("{op}: hangs after a failing {k}"), format!("{plan:?}")),
            e => return viol(format!("{op}: a failing {k} ends the process"), format!("{plan:?} {e:?}")),
        }
        if out.starts_with("panic") {
            return viol(format!("{op}: failing {k}: {out}"), format!("{plan:?}"));
        }
        if out.starts_with("err") {
            ctx.count("reported", 1);
            continue;
        }
        let got = view(&w);
        if got != want || out != base_out {
            let d = want.iter().find(|(p, b)| got.get(*p) != Some(*b)).map(|(p, b)| format!("{p}: {}", got.get(p).map(|g| snap::bdiff(b, g)).unwrap_or("missing".into()))).unwrap_or(out);
            return viol(format!("{op}: reports success after a failing {k}"), format!("{plan:?} of {n} calls, on {}: {d}", hit.file));
        }
        ctx.count("no effect", 1);
    }
    Ok(())
}

/// inputs that are not there, outputs that cannot be created
fn absent(ctx: &Ctx, r: &mut R) -> Res {
    let d = Scratch::new("c25a");
    let v = g_vpx(r, &Cfg::small());
    let good = d.path("t.vpx");
    vpx::write(&good, &v).expect("input");
    std::fs::write(d.path("s.vbs"), "x").unwrap();
    std::fs::create_dir_all(d.path("dir")).unwrap();
    let bytes = std::fs::read(&good).unwrap();
    let nowhere = d.path("no/such/file.vpx");
    let dir = d.path("dir");
    let text = d.path("s.vbs");
    type F<'a> = Box<dyn Fn() -> Result<(), String> + 'a>;
    let e = |r: std::io::Result<()>| r.map_err(|e| e.to_string());
    let (nowhere, dir, text, good, v, d) = (&nowhere, &dir, &text, &good, &v, &d);
    let mut ops: Vec<(String, F)> = vec![];
    for (what, p) in [("a missing file", nowhere), ("a directory", dir), ("a text file", text)] {
        ops.push((format!("read of {what}"), Box::new(move || e(vpx::read(p).map(drop)))));
        ops.push((format!("open of {what}"), Box::new(move || e(vpx::open(p).map(drop)))));
        ops.push((format!("open_rw of {what}"), Box::new(move || e(vpx::open_rw(p).map(drop)))));
        ops.push((format!("compact of {what}"), Box::new(move || e(vpx::compact(p)))));
        ops.push((format!("importvbs into {what}"), Box::new(move || e(vpx::importvbs(p, Some(text.clone())).map(drop)))));
        ops.push((format!("extractvbs of {what}"), Box::new(move || e(vpx::extractvbs(p, Some(d.path("o.vbs")), true).map(drop)))));
        ops.push((format!("assembly from {what}"), Box::new(move || e(vpx::expanded::read(p).map(drop)))));
        ops.push((
            format!("verify of {what}"),
            Box::new(move || match vpx::verify(p) {
                vpx::VerifyResult::Ok(_) => Ok(()),
                vpx::VerifyResult::Failed(_, m) => Err(m),
            }),
        ));
    }
    for (what, p) in [("a missing directory", nowhere), ("a directory", dir)] {
        ops.push((format!("write to {what}"), Box::new(move || e(vpx::write(p, v)))));
        ops.push((format!("new_minimal_vpx in {what}"), Box::new(move || e(vpx::new_minimal_vpx(p)))));
        ops.push((format!("extractvbs to {what}"), Box::new(move || e(vpx::extractvbs(good, Some(p.clone()), true).map(drop)))));
        ops.push((format!("importvbs from {what}"), Box::new(move || e(vpx::importvbs(good, Some(p.clone())).map(drop)))));
        let real = &vpin::filesystem::RealFileSystem;
        // an export may create the directory it is asked to write in
        if p == dir {
            ops.push((format!("export glb to {what}"), Box::new(move || export_gltf(v, p, real, &GltfExportOptions::default()).map(drop).map_err(|e| e.to_string()))));
        }
    }
    ops.push(("extraction below a file".into(), Box::new(move || vpx::expanded::write(v, &text.join("x"), &opts(FORMATS[0], false)).map_err(|e| e.to_string()))));
    for (what, op) in &ops {
        let res = sut(what, op)?;
        ensure!(res.is_err(), format!("{what} reports success"), "");
        ctx.count("impossible operations", 1);
        ensure!(std::fs::read(good).unwrap() == bytes, format!("{what} changes the table"), "");
        ensure!(std::fs::read(text).unwrap() == b"x", format!("{what} changes its input"), "");
    }
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("extraction to and assembly from an instrumented file system, glTF, GLB and OBJ export: one operation fails (error, short write, failing flush) at each or many of its points; success is only reported when every file equals that of the run without a fault; an assembled table is the same or an error is reported; files missing on assembly");
    ctx.rule("fourteen operations on real files in a child process (new, write, importvbs, extractvbs, lock, unlock, images_to_webp, write_gamedata, compact, extraction, assembly, three exports): one system call fails, or the disk is full from it on; reported success only with the complete output; no panic, no hang");
    ctx.rule("missing inputs, inputs that are a directory or not a table, outputs that cannot be created: an error, and nothing existing changes");
    ctx.assume("on assembly an absent list file (images.json, ...), screenshot or primitive mesh means that the table has none; files the lists refer to must exist");
    ctx.assume("an operation that reports an error may leave partial output");
    let k = if ctx.thorough() { 10 } else { 1 };
    ctx.cases("extraction", 60 * k, 6.0 * k as f64, |r, _| extraction(ctx, r));
    ctx.cases("exports", 24 * k, 5.0 * k as f64, |r, _| exports(ctx, r));
    ctx.cases("real", 28 * k, 14.0 * k as f64, |r, i| real(ctx, r, OPS[i as usize % OPS.len()]));
    ctx.cases("absent", 8, 5.0, |r, _| absent(ctx, r));
    for o in ["extraction obj", "extraction glb", "extraction gltf", "assembly", "export glb", "export gltf", "export obj"] {
        ctx.require(&format!("fault:{o}"), 40);
    }
    for o in OPS {
        ctx.require(&format!("fault:{o}"), 3);
    }
}
