//! C18: exported models and derived meshes are well-formed files.
use super::expand::{FORMATS, ext_of, opts};
use super::meshio::b2v;
use crate::ensure;
use crate::meshfmt::*;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::Scene;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vpin::vpx::VPX;
use vpin::vpx::expanded;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::units::ExportUnits;

pub const UNITS: [ExportUnits; 4] = [ExportUnits::Vpu, ExportUnits::Mm, ExportUnits::Cm, ExportUnits::M];

/// Runs the glTF export and validates every file; None when the table has no
/// mesh at all.
pub fn gltf_of(v: &VPX, format: GltfFormat, inv: bool, units: ExportUnits) -> Result<Option<Doc>, Viol> {
    let fs = MonFs::new();
    let glb = matches!(format, GltfFormat::Glb);
    let name = if glb { "/x/My table.v1.glb" } else { "/x/My table.v1.gltf" };
    let o = GltfExportOptions { format, export_invisible_items: inv, units };
    if let Err(e) = sut("export_gltf", || export_gltf(v, Path::new(name), &fs, &o))? {
        ensure!(e.to_string().contains("No meshes found"), "glTF export fails", "{e}");
        ensure!(fs.files().is_empty(), "files left by a refused export", "{:?}", fs.files().keys());
        return Ok(None);
    }
    let files = fs.files();
    let Some(main) = files.get(Path::new(name)) else { return viol("the exported file is missing", format!("{:?}", files.keys())) };
    let (j, bin) = if glb {
        ensure!(files.len() == 1, "GLB export writes other files", "{:?}", files.keys());
        b2v(glb_split(main))?
    } else {
        let j: Value = match serde_json::from_slice(main) {
            Ok(j) => j,
            Err(e) => return viol("exported .gltf is not JSON", e.to_string()),
        };
        let Some(uri) = j["buffers"][0]["uri"].as_str() else { return viol("exported .gltf does not name its buffer", format!("{}", j["buffers"])) };
        let Some(bin) = files.get(&Path::new("/x").join(uri)) else { return viol("the buffer file is missing", format!("{uri:?} {:?}", files.keys())) };
        ensure!(files.len() == 2, "glTF export writes other files", "{:?}", files.keys());
        ensure!(Some(bin.len() as u64) == j["buffers"][0]["byteLength"].as_u64(), "the buffer file has another length than stated", "{} {}", bin.len(), j["buffers"][0]);
        (j, bin.clone())
    };
    b2v(gltf_check(&j, &bin, &Rules { finite: true })).map(Some)
}

pub struct ObjFiles {
    pub obj: Obj,
    pub mtl: Vec<Mtl>,
    pub images: BTreeMap<PathBuf, Vec<u8>>,
}
pub fn obj_of(v: &VPX, o: &ObjExportOptions) -> Result<ObjFiles, Viol> {
    let fs = MonFs::new();
    let dir = Path::new("/x/out");
    sut_ok("export_obj", || export_obj(v, &dir.join("table.obj"), &fs, o))?;
    let mut files = fs.files();
    let Some(ob) = files.remove(&dir.join("table.obj")) else { return viol("the .obj file is missing", format!("{:?}", files.keys())) };
    let Some(mt) = files.remove(&dir.join("table.mtl")) else { return viol("the .mtl file is missing", format!("{:?}", files.keys())) };
    let obj = b2v(Obj::parse(&ob, true))?;
    let mtl = b2v(parse_mtl(&mt))?;
    ensure!(obj.nonfinite == 0, "obj: value is not finite", "{}", obj.nonfinite);
    ensure!(obj.mtllib == ["table.mtl"], "obj: mtllib does not name the material file", "{:?}", obj.mtllib);
    for k in files.keys() {
        ensure!(k.parent() == Some(&dir.join("images")), "OBJ export writes a file elsewhere", "{k:?}");
    }
    // every vertex belongs to a face-able block and every reference resolves
    for ob in &obj.objects {
        for (m, _) in &ob.mtl {
            ensure!(mtl.iter().any(|x| x.name == *m), "obj: usemtl names no material of the .mtl file", "{m:?} in object {:?}", ob.name);
        }
        ensure!(!ob.faces.is_empty(), "obj: object without faces", "{:?}", ob.name);
        for f in &ob.faces {
            ensure!(f.len() == 3, "obj: face is not a triangle", "{f:?}");
            ensure!(f.iter().all(|c| c[0] == c[1] && c[1] == c[2]), "obj: position, texture and normal indices of a corner differ", "{f:?}");
        }
    }
    ensure!(obj.v.len() == obj.vt.len() && obj.v.len() == obj.vn.len(), "obj: numbers of positions, texture coordinates and normals differ", "{} {} {}", obj.v.len(), obj.vt.len(), obj.vn.len());
    let mut used = std::collections::BTreeSet::new();
    for m in &mtl {
        for (k, x) in &m.kv {
            if k.starts_with("map_") {
                let p = dir.join(x.trim());
                ensure!(files.contains_key(&p), "mtl: texture file does not exist", "{k} {x:?} of {:?}; files {:?}", m.name, files.keys());
                used.insert(p);
            }
        }
    }
    for k in files.keys() {
        ensure!(used.contains(k), "OBJ export writes a texture that no material uses", "{k:?}");
    }
    if o.dedup_mtl_blocks {
        for (i, m) in mtl.iter().enumerate() {
            if let Some(o) = mtl[..i].iter().find(|o| o.name == m.name) {
                ensure!(o.kv == m.kv, "mtl: one name for two different materials", "{:?}: {:?} and {:?}", m.name, o.kv, m.kv);
            }
        }
    }
    if !o.extract_textures {
        ensure!(files.is_empty() && used.is_empty(), "textures written although not asked for", "{:?}", files.keys());
    }
    Ok(ObjFiles { obj, mtl, images: files })
}
pub fn g_obj_opts(r: &mut R) -> ObjExportOptions {
    ObjExportOptions { dedup_mtl_blocks: r.bool(), extract_textures: r.bool(), units: *r.pick(&UNITS), include_plunger: r.bool() }
}

fn kinds(ctx: &Ctx, v: &VPX) {
    for g in &v.gameitems {
        ctx.count(&format!("items: {}", g.type_name()), 1);
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.assume("faces of stored primitive meshes refer to existing vertices, coordinates are moderately sized");
    let deep = ctx.thorough();
    let max = if deep { 40 } else { 14 };
    ctx.cases("export gltf", if deep { 150_000 } else { 9000 }, if deep { 300.0 } else { 12.0 }, |r, _| {
        let v = Scene::table(r, max);
        kinds(ctx, &v);
        let (inv, units) = (r.bool(), *r.pick(&UNITS));
        let format = if r.bool() { GltfFormat::Glb } else { GltfFormat::Gltf };
        let tag = format!("{format:?} {units:?} {}", if inv { "all items" } else { "visible items" });
        let Some(d) = gltf_of(&v, format, inv, units)? else {
            ctx.count("tables without mesh", 1);
            return Ok(());
        };
        ctx.count(&tag, 1);
        ctx.count("glTF meshes", d.meshes.len() as u64);
        for (k, c) in [("materials", "glTF materials"), ("images", "glTF images"), ("cameras", "glTF cameras"), ("nodes", "glTF nodes")] {
            ctx.count(c, d.json[k].as_array().map(|a| a.len()).unwrap_or(0) as u64);
        }
        ctx.count("glTF lights", d.json["extensions"]["KHR_lights_punctual"]["lights"].as_array().map(|a| a.len()).unwrap_or(0) as u64);
        let odd = d.meshes.iter().filter(|m| m.prims.iter().any(|p| p.idx.len() % 2 == 1 && !p.u32_indices)).count();
        ctx.count("meshes with an odd number of 16-bit indices", odd as u64);
        ctx.distinct(hash_str(&format!("{}", d.json["meshes"])));
        if d.meshes.len() > 12 {
            ctx.sample(json!({"meshes": d.meshes.len(), "nodes": d.parent.len(), "first": d.meshes.iter().take(6).map(|m| format!("{}: {} vertices", m.name, m.prims[0].pos.len())).collect::<Vec<_>>()}));
        }
        Ok(())
    });
    ctx.cases("export obj", if deep { 80_000 } else { 4000 }, if deep { 300.0 } else { 12.0 }, |r, _| {
        let v = Scene::table(r, max);
        kinds(ctx, &v);
        let o = g_obj_opts(r);
        let f = obj_of(&v, &o)?;
        ctx.count("OBJ objects", f.obj.objects.len() as u64);
        ctx.count("OBJ vertices", f.obj.v.len() as u64);
        ctx.count("MTL materials", f.mtl.len() as u64);
        ctx.count("OBJ textures", f.images.len() as u64);
        Ok(())
    });
    ctx.cases("derived meshes", if deep { 10_000 } else { 900 }, if deep { 200.0 } else { 12.0 }, |r, _| {
        let v = Scene::table(r, max);
        let f = FORMATS[r.below(3)];
        let fs = MonFs::new();
        let o = opts(f, true);
        sut_ok("expanded::write_fs", || expanded::write_fs(&v, &Path::new("/t"), &o, &fs))?;
        let files = fs.files();
        let mut n = 0;
        for (p, b) in &files {
            let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
            if !p.starts_with("/t/gameitems") || ext != ext_of(f) {
                continue;
            }
            n += 1;
            let at = |x: Viol| Viol { sig: x.sig, detail: format!("{p:?}: {}", x.detail) };
            match ext {
                "obj" => {
                    let o = b2v(Obj::parse(b, true)).map_err(at)?;
                    ensure!(o.objects.len() == 1 && !o.objects[0].faces.is_empty(), "mesh file without exactly one object with faces", "{p:?} {}", o.objects.len());
                }
                "glb" => {
                    let (j, bin) = b2v(glb_split(b)).map_err(at)?;
                    b2v(gltf_check(&j, &bin, &Rules { finite: true })).map_err(at)?;
                }
                _ => {
                    let j: Value = match serde_json::from_slice(b) {
                        Ok(j) => j,
                        Err(e) => return viol("mesh .gltf is not JSON", format!("{p:?} {e}")),
                    };
                    let uri = j["buffers"][0]["uri"].as_str().unwrap_or("");
                    let Some(bin) = files.get(&p.with_file_name(uri)) else { return viol("buffer file of a mesh is missing", format!("{p:?} {uri:?}")) };
                    b2v(gltf_check(&j, bin, &Rules { finite: true })).map_err(at)?;
                }
            }
        }
        ctx.count(&format!("derived {} files", ext_of(f)), n);
        Ok(())
    });
    ctx.cases_t("large meshes", if deep { 120 } else { 24 }, 20.0, 4, |r, i| {
        let nv = [65534usize, 65535, 65536, 65537, 70000, 65535][i as usize % 6];
        let mut p = vpin::vpx::gameitem::primitive::Primitive { name: "Big".into(), use_3d_mesh: true, is_visible: true, ..Default::default() };
        let verts = (0..nv).map(|k| [k as f32 % 500.0, (k / 500) as f32, 1.0, 0.0, 0.0, 1.0, 0.0, 1.0]).collect();
        let nv = nv as u32;
        let mut faces: Vec<[u32; 3]> = (0..20 + r.below(3)).map(|_| std::array::from_fn(|_| r.below(nv as usize) as u32)).collect();
        faces.push([nv - 1, 0, nv - 2]);
        set_mesh(&mut p, &Mesh { verts, faces: faces.clone() }, r, false);
        let mut v = VPX::default();
        let mut s = Scene::new(r);
        v.gameitems.push(s.item(r, 0));
        v.gameitems.push(GameItemEnum::Primitive(p));
        v.gameitems.push(s.item(r, 10));
        let Some(d) = gltf_of(&v, if r.bool() { GltfFormat::Glb } else { GltfFormat::Gltf }, true, ExportUnits::Vpu)? else { return viol("a table with a primitive is exported without mesh", "") };
        let Some(m) = d.meshes.iter().find(|m| m.name == "Big") else { return viol("a large mesh is missing", "") };
        let got: Vec<[u32; 3]> = m.prims[0].idx.chunks(3).map(|c| [c[0], c[2], c[1]]).collect();
        ensure!(got == faces, "faces of a large mesh differ", "{nv} vertices: {got:?} instead of {faces:?}");
        ctx.count(if m.prims[0].u32_indices { "exported meshes with 32-bit indices" } else { "exported large meshes with 16-bit indices" }, 1);
        let o = obj_of(&v, &g_obj_opts(r))?;
        let Some(k) = o.obj.objects.iter().position(|m| m.name == "Big") else { return viol("a large mesh is missing in the OBJ export", "") };
        ensure!(o.obj.objects[k].faces.len() == faces.len(), "faces of a large mesh are lost in the OBJ export", "{} of {}", o.obj.objects[k].faces.len(), faces.len());
        Ok(())
    });
    for k in ["exported meshes with 32-bit indices", "exported large meshes with 16-bit indices"] {
        ctx.require(k, 4);
    }
    for k in ["items: Wall", "items: Ramp", "items: Rubber", "items: Primitive", "items: Flasher", "items: Light", "items: Plunger", "glTF images", "glTF lights", "glTF cameras", "meshes with an odd number of 16-bit indices", "OBJ textures", "derived obj files", "derived glb files", "derived gltf files"] {
        ctx.require(k, 20);
    }
    let _ = GameItemEnum::name;
    let _ = N_ITEM_TYPES;
}
