//! `vpmon child <op> <args>`: one operation of the library in a process of
//! its own; paths are relative to the working directory.
use crate::report::guarded;
use crate::tracer::observed;
use std::path::{Path, PathBuf};
use vpin::filesystem::RealFileSystem;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat};
use vpin::vpx::{self, VPX};

type Op<'a> = Box<dyn FnOnce() -> std::io::Result<String> + 'a>;

pub fn fmt_of(s: &str) -> PrimitiveMeshFormat {
    match s {
        "obj" => PrimitiveMeshFormat::Obj,
        "glb" => PrimitiveMeshFormat::Glb,
        _ => PrimitiveMeshFormat::Gltf,
    }
}
pub fn load(p: &Path) -> VPX {
    vpx::read(p).expect("input table")
}

pub fn main(a: &[String]) {
    let p = PathBuf::from(a.get(1).cloned().unwrap_or_default());
    let q = PathBuf::from(a.get(2).cloned().unwrap_or_default());
    let ok = |_: ()| String::new();
    let table;
    let op: Op = match a[0].as_str() {
        "compact" => Box::new(|| vpx::compact(&p).map(ok)),
        "new" => Box::new(|| vpx::new_minimal_vpx(&p).map(ok)),
        // in.vpx out.vpx
        "write" => {
            table = load(&p);
            Box::new(|| vpx::write(&q, &table).map(ok))
        }
        "importvbs" => Box::new(|| vpx::importvbs(&p, Some(q.clone())).map(|_| String::new())),
        "extractvbs" => Box::new(|| vpx::extractvbs(&p, Some(q.clone()), true).map(|r| format!("{r:?}"))),
        "lock" => Box::new(|| vpx::open_rw(&p)?.lock().map(|b| b.to_string())),
        "unlock" => Box::new(|| vpx::open_rw(&p)?.unlock().map(|b| b.to_string())),
        "webp" => Box::new(|| vpx::open_rw(&p)?.images_to_webp().map(|r| format!("{r:?}"))),
        // the game data of in.vpx into file
        "gamedata" => {
            table = load(&p);
            Box::new(|| vpx::open_rw(&q)?.write_gamedata(&table.gamedata).map(ok))
        }
        "read" => Box::new(|| vpx::read(&p).map(|v| format!("{:x}", crate::rng::hash_str(&format!("{v:?}"))))),
        "verify" => Box::new(|| match vpx::verify(&p) {
            vpx::VerifyResult::Ok(_) => Ok("ok".into()),
            vpx::VerifyResult::Failed(_, m) => Err(std::io::Error::other(m)),
        }),
        // in.vpx dir format
        "expand" => {
            table = load(&p);
            let o = ExpandOptions::new().mesh_format(fmt_of(&a[3]));
            Box::new(move || expanded::write(&table, &q, &o).map_err(std::io::Error::other).map(ok))
        }
        // dir out.vpx
        "assemble" => Box::new(|| vpx::write(&q, &expanded::read(&p)?).map(ok)),
        "glb" | "gltf" => {
            table = load(&p);
            let e = GltfExportOptions { format: if a[0] == "glb" { GltfFormat::Glb } else { GltfFormat::Gltf }, ..Default::default() };
            Box::new(move || export_gltf(&table, &q, &RealFileSystem, &e).map_err(std::io::Error::other).map(|_| String::new()))
        }
        "obj" => {
            table = load(&p);
            let e = ObjExportOptions { extract_textures: true, ..Default::default() };
            Box::new(move || export_obj(&table, &q, &RealFileSystem, &e).map_err(std::io::Error::other).map(|_| String::new()))
        }
        o => panic!("unknown operation {o}"),
    };
    // parallel work stays on the observed thread
    rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global().expect("pool");
    match observed(|| guarded(op)) {
        Ok(Ok(s)) => println!("ok {s}"),
        Ok(Err(e)) => println!("err {:?} {e}", e.kind()),
        Err(p) => println!("panic {}", p.sig()),
    }
}
