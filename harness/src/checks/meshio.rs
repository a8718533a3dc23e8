//! C20: mesh files keep every vertex and face bit for bit.
use super::expand::{FORMATS, ext_of, opts};
use crate::ensure;
use crate::meshfmt::*;
use crate::model::*;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use vpin::vpx::VPX;
use vpin::vpx::expanded::{self, PrimitiveMeshFormat};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::primitive::Primitive;

pub fn b2v<T>(r: Result<T, Bad>) -> Result<T, Viol> {
    r.map_err(|(sig, detail)| Viol { sig, detail })
}

fn wild(r: &mut R) -> f32 {
    match r.below(16) {
        0 => f32::from_bits(0x7fc00000 | (r.u32() & 0x3fffff)),
        1 => f32::from_bits(0xff800001 | (r.u32() & 0x3fffff)),
        2 => f32::from_bits(r.u32() & 0x807fffff),
        3 => 0.0,
        4 => -0.0,
        5 => f32::from_bits(r.u32()),
        6 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON]),
        7 => 2f32.powi(-(r.below(45) as i32)) * r.f32_in(0.5, 1.0),
        8 => 1.0 - r.below(4) as f32 * f32::EPSILON,
        9 => r.f32_in(-2.0, 2.0),
        10 => r.below(1000) as f32 / 1000.0,
        _ => r.f32(),
    }
}

fn unhex(h: &str) -> Option<Vec<u8>> {
    (0..h.len()).step_by(2).map(|i| h.get(i..i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect()
}

struct Gen {
    verts: Vec<[f32; 8]>,
    faces: Vec<[u32; 3]>,
    frames: Vec<Vec<[f32; 6]>>,
    wild: bool,
}
fn gen_mesh(r: &mut R, nv: usize) -> Gen {
    let wildness = *r.pick(&[0usize, 0, 1, 20, 100]);
    let v1 = |r: &mut R, c: usize| -> f32 {
        if r.below(100) < wildness {
            return wild(r);
        }
        match c {
            0..=2 => r.f32_in(-5000.0, 5000.0),
            3..=5 => r.f32_in(-1.0, 1.0),
            _ => *[r.f32_in(0.0, 1.0), r.f32_in(-3.0, 3.0), r.below(1025) as f32 / 1024.0, r.f32_in(0.0, 0.01)].get(r.below(4)).unwrap(),
        }
    };
    let verts: Vec<[f32; 8]> = (0..nv).map(|_| std::array::from_fn(|c| v1(r, c))).collect();
    let nf = if nv > 60_000 { 30 } else { 1 + r.below(2 * nv) };
    let faces = (0..nf)
        .map(|k| {
            std::array::from_fn(|c| {
                if k < 4 && c == k % 3 {
                    (nv - 1 - k.min(nv - 1)) as u32
                } else {
                    r.below(nv) as u32
                }
            })
        })
        .collect();
    let n = if nv > 60_000 { r.below(2) } else { *r.pick(&[0usize, 0, 1, 2, 3, 12]) };
    let frames = (0..n).map(|_| (0..nv).map(|_| std::array::from_fn(|c| v1(r, c))).collect()).collect();
    Gen { verts, faces, frames, wild: wildness > 0 }
}
fn index_bytes(n: usize, f: &[[u32; 3]]) -> Vec<u8> {
    let mut o = vec![];
    for i in f.iter().flatten() {
        if n > 65535 {
            o.extend(i.to_le_bytes());
        } else {
            o.extend((*i as u16).to_le_bytes());
        }
    }
    o
}
fn frame_bytes(f: &[[f32; 6]]) -> Vec<u8> {
    f.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()
}
fn table(name: &str, m: &Gen, r: &mut R) -> VPX {
    let mut p = Primitive { name: name.into(), ..Primitive::default() };
    let mesh = Mesh { verts: m.verts.clone(), faces: m.faces.clone() };
    set_mesh(&mut p, &mesh, r, false);
    if !m.frames.is_empty() {
        let d: Vec<Vec<u8>> = m.frames.iter().map(|f| zlib(&frame_bytes(f), 6)).collect();
        p.compressed_animation_vertices_len = Some(d.iter().map(|x| x.len() as u32).collect());
        p.compressed_animation_vertices_data = Some(d);
    }
    let mut v = VPX::default();
    v.gameitems.push(GameItemEnum::Primitive(p));
    v
}
/// (vertices, indices, frames) as stored bytes
fn stored(v: &VPX) -> Result<(Vec<u8>, Vec<u8>, Vec<Vec<u8>>, u32, u32), Viol> {
    let Some(GameItemEnum::Primitive(p)) = v.gameitems.first() else { return viol("the primitive is gone", "") };
    let un = |d: &Option<Vec<u8>>, l: Option<u32>| -> Result<Vec<u8>, Viol> {
        let Some(d) = d else { return viol("the mesh is gone", "") };
        ensure!(l == Some(d.len() as u32), "stored length is not the length of the mesh data", "{l:?} {}", d.len());
        unzlib(d).or_else(|e| viol("mesh data cannot be decompressed", e))
    };
    let vb = un(&p.compressed_vertices_data, p.compressed_vertices_len)?;
    let ib = un(&p.compressed_indices_data, p.compressed_indices_len)?;
    let mut fr = vec![];
    let (fd, fl) = (p.compressed_animation_vertices_data.clone().unwrap_or_default(), p.compressed_animation_vertices_len.clone().unwrap_or_default());
    ensure!(fd.len() == fl.len(), "number of frame lengths", "{} {}", fd.len(), fl.len());
    for (d, l) in fd.into_iter().zip(fl) {
        fr.push(un(&Some(d), Some(l))?);
    }
    Ok((vb, ib, fr, p.num_vertices.unwrap_or(0), p.num_indices.unwrap_or(0)))
}
fn fdiff(a: &[u8], b: &[u8], stride: usize) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", b.len(), a.len());
    }
    for (i, (x, y)) in a.chunks(4).zip(b.chunks(4)).enumerate() {
        if x != y {
            let f = |z: &[u8]| f32::from_bits(u32::from_le_bytes(z.try_into().unwrap_or([0; 4])));
            let n = a.chunks(4).zip(b.chunks(4)).filter(|(x, y)| x != y).count();
            return format!("element {} value {}: {:02x?} ({:?}) became {:02x?} ({:?}); {n} values differ", i / stride, i % stride, x, f(x), y, f(y));
        }
    }
    "equal".into()
}

/// the written file states the mesh: read without the library
fn check_file(files: &BTreeMap<PathBuf, Vec<u8>>, path: &Path, f: PrimitiveMeshFormat, name: &str, verts: &[[f32; 8]], faces: &[[u32; 3]], finite: bool) -> Res {
    let Some(b) = files.get(path) else { return viol("mesh file missing", format!("{path:?}")) };
    let same = |what: &str, i: usize, w: f32, g: f32| -> Res {
        ensure!(w.to_bits() == g.to_bits(), format!("the {} file states another {what}", ext_of(f)), "vertex {i}: {w:?} ({:08x}) written as {g:?} ({:08x})", w.to_bits(), g.to_bits());
        Ok(())
    };
    if f == PrimitiveMeshFormat::Obj {
        let o = b2v(Obj::parse(b, finite))?;
        ensure!(o.objects.len() == 1, "obj: not one object", "{}", o.objects.len());
        let want: String = name.replace(['\r', '\n'], " ");
        ensure!(o.objects[0].name == want, "obj: object name", "{:?} for {name:?}", o.objects[0].name);
        ensure!(o.v.len() == verts.len() && o.vt.len() == verts.len() && o.vn.len() == verts.len(), "obj: number of vertices", "{} {} {} for {}", o.v.len(), o.vt.len(), o.vn.len(), verts.len());
        for (i, v) in verts.iter().enumerate() {
            if let Some(h) = o.vpx.get(&i) {
                let all: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                ensure!(*h == all || (h.len() == 12 && h[..] == all[12..24]), "obj: preserved vertex bytes differ", "vertex {i} {v:?}: {h:02x?}");
                if h.len() == 32 {
                    continue;
                }
            }
            for c in 0..3 {
                let s = if c == 2 { -1.0 } else { 1.0 };
                same("position", i, v[c] * s, o.v[i][c] as f32)?;
                if !o.vpx.contains_key(&i) {
                    same("normal", i, v[3 + c] * s, o.vn[i][c] as f32)?;
                }
            }
            same("texture coordinate", i, v[6], o.vt[i][0] as f32)?;
            same("texture coordinate", i, v[7], (1.0 - o.vt[i][1]) as f32)?;
        }
        let fs = &o.objects[0].faces;
        ensure!(fs.len() == faces.len(), "obj: number of faces", "{} for {}", fs.len(), faces.len());
        for (k, (g, w)) in fs.iter().zip(faces).enumerate() {
            let want: Vec<[usize; 3]> = w.iter().rev().map(|i| [*i as usize; 3]).collect();
            ensure!(*g == want, "obj: face differs", "face {k}: {g:?} for {w:?}");
        }
        return Ok(());
    }
    let (j, bin);
    if f == PrimitiveMeshFormat::Glb {
        (j, bin) = b2v(glb_split(b))?;
    } else {
        j = serde_json::from_slice::<Value>(b).or_else(|e| viol("gltf: file is not JSON", format!("{e}")))?;
        let uri = j["buffers"][0]["uri"].as_str().unwrap_or("").to_string();
        let Some(d) = files.get(&path.parent().unwrap().join(&uri)) else { return viol("gltf: buffer file missing", uri) };
        ensure!(j["buffers"][0]["byteLength"] == d.len(), "gltf: buffer file length", "{} {}", j["buffers"][0], d.len());
        bin = d.clone();
    }
    let d = b2v(gltf_check(&j, &bin, &Rules { finite }))?;
    ensure!(d.meshes.len() == 1 && d.meshes[0].prims.len() == 1, "gltf: not one mesh", "{}", d.meshes.len());
    ensure!(d.meshes[0].name == name, "gltf: mesh name", "{:?} for {name:?}", d.meshes[0].name);
    let p = &d.meshes[0].prims[0];
    ensure!(p.pos.len() == verts.len() && p.norm.len() == verts.len() && p.uv.len() == verts.len(), "gltf: number of vertices", "{} {} {}", p.pos.len(), p.norm.len(), p.uv.len());
    for (i, v) in verts.iter().enumerate() {
        let ex = p.extras["vpx_normals"][i].as_str().and_then(|h| unhex(h));
        for c in 0..3 {
            same("position", i, v[c], p.pos[i][c])?;
            if v[3 + c].is_nan() {
                same("normal", i, 0.0, p.norm[i][c])?;
                ensure!(ex.as_ref().is_some_and(|h| h.len() == 12 && h[c * 4..c * 4 + 4] == v[3 + c].to_le_bytes()), "gltf: preserved normal bytes differ", "vertex {i} {v:?}: {ex:02x?}");
            } else {
                same("normal", i, v[3 + c], p.norm[i][c])?;
            }
        }
        same("texture coordinate", i, v[6], p.uv[i][0])?;
        same("texture coordinate", i, v[7], p.uv[i][1])?;
    }
    let want: Vec<u32> = faces.iter().flatten().copied().collect();
    ensure!(p.idx == want, "gltf: faces differ", "{} indices for {}", p.idx.len(), want.len());
    Ok(())
}

fn roundtrip(ctx: &Ctx, r: &mut R, nv: usize, f: PrimitiveMeshFormat) -> Res {
    let m = gen_mesh(r, nv);
    let name = match r.below(4) {
        0 => r.wide(),
        1 => format!("{} {}\n{}", r.word(), r.word(), r.word()),
        _ => r.word(),
    };
    let v = table(&name, &m, r);
    let fs = MonFs::new();
    let root = PathBuf::from("/x");
    sut_ok("extraction", || expanded::write_fs(&v, &root, &opts(f, false), &fs))?;
    let files = fs.files();
    let e = ext_of(f);
    let mesh: Vec<&PathBuf> = files.keys().filter(|p| p.extension().is_some_and(|x| x == e)).collect();
    ensure!(mesh.len() == 1 + m.frames.len(), "number of mesh files", "{mesh:?} for {} frames", m.frames.len());
    let anim = |p: &Path, k: usize| p.to_string_lossy().ends_with(&format!("_anim_{k}.{e}"));
    let base = mesh.iter().find(|p| (0..m.frames.len()).all(|k| !anim(p, k))).unwrap();
    let fin = |v: &[[f32; 8]]| v.iter().flatten().all(|x| x.is_finite());
    let finite = fin(&m.verts);
    check_file(&files, base, f, &name, &m.verts, &m.faces, finite)?;
    for (k, fr) in m.frames.iter().enumerate() {
        let full: Vec<[f32; 8]> = m
            .verts
            .iter()
            .zip(fr)
            .map(|(v, a)| {
                let mut o = *v;
                o[..6].copy_from_slice(a);
                o
            })
            .collect();
        let Some(p) = mesh.iter().find(|p| anim(p, k)) else { return viol("frame file missing", format!("frame {k} of {}: {mesh:?}", m.frames.len())) };
        check_file(&files, p, f, &name, &full, &m.faces, fin(&full))?;
    }
    let got = sut_ok("assembly", || expanded::read_fs(&root, &fs))?;
    let (vb, ib, fr, n, ni) = stored(&got)?;
    ensure!(n as usize == nv && ni as usize == m.faces.len() * 3, "vertex or index count", "{n} {ni} for {nv} {}", m.faces.len());
    let wv = verts_bytes(&m.verts);
    ensure!(vb == wv, format!("a vertex changed through {e}"), "{}", fdiff(&wv, &vb, 8));
    let wi = index_bytes(nv, &m.faces);
    ensure!(ib == wi, format!("a face changed through {e}"), "{} bytes for {}", ib.len(), wi.len());
    ensure!(fr.len() == m.frames.len(), "number of animation frames", "{} for {}", fr.len(), m.frames.len());
    for (k, (g, w)) in fr.iter().zip(&m.frames).enumerate() {
        let w = frame_bytes(w);
        ensure!(*g == w, format!("an animation frame changed through {e}"), "frame {k}: {}", fdiff(&w, g, 6));
    }
    // a second trip starts from the same mesh
    let Some(GameItemEnum::Primitive(p)) = got.gameitems.first() else { unreachable!() };
    let rm = sut_ok("read_mesh", || p.read_mesh())?;
    let Some(rm) = rm else { return viol("read_mesh finds no mesh", "") };
    ensure!(rm.vertices.len() == nv && rm.indices.len() == m.faces.len(), "read_mesh counts", "{} {}", rm.vertices.len(), rm.indices.len());
    for (i, (w, v)) in rm.vertices.iter().zip(&m.verts).enumerate() {
        let g = [w.vertex.x, w.vertex.y, w.vertex.z, w.vertex.nx, w.vertex.ny, w.vertex.nz, w.vertex.tu, w.vertex.tv];
        ensure!(g.iter().zip(v).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())), "read_mesh vertex", "{i}: {g:?} for {v:?}");
    }
    for (k, (g, w)) in rm.indices.iter().zip(&m.faces).enumerate() {
        ensure!([g.i0, g.i1, g.i2] == w.map(|i| i as i64), "read_mesh face", "{k}: {g:?} for {w:?}");
    }
    ctx.sample(json!({"format": e, "vertices": nv, "faces": m.faces.len(), "frames": m.frames.len(), "unusual values": m.wild}));
    ctx.count(&format!("{e} files"), mesh.len() as u64);
    ctx.count("vertices", nv as u64);
    ctx.count("frames", m.frames.len() as u64);
    let all = m.verts.iter().flatten().chain(m.frames.iter().flatten().flatten());
    for x in all {
        if x.is_nan() {
            ctx.count("NaN values", 1);
        } else if !x.is_finite() {
            ctx.count("infinite values", 1);
        } else if x.to_bits() == 0x8000_0000 || x.is_subnormal() {
            ctx.count("negative zeros and subnormals", 1);
        }
    }
    if nv > 65535 {
        ctx.count("32-bit index meshes", 1);
    }
    ctx.distinct(hash_str(&format!("{e} {} {} {}", nv, m.frames.len(), m.wild)));
    Ok(())
}

/// number text as other tools print it, with the value it states
fn ntext(r: &mut R, x: f32) -> (String, f64) {
    let s = match r.below(7) {
        0 => format!("{x:.6}"),
        1 => format!("{x:e}"),
        2 => format!("{:.4}", x),
        3 if x.is_sign_positive() => format!("+{x}"),
        4 => format!("{x:.8}"),
        5 => format!("{x:E}"),
        _ => format!("{x}"),
    };
    let v: f64 = s.parse().unwrap();
    (s, v)
}

fn foreign_obj(ctx: &Ctx, r: &mut R, big: bool) -> Res {
    let strict = !big && r.chance(1, 3);
    let nv = if big { 100 + r.below(60_000) } else { 3 + r.below(40) };
    let (nt, nn) = if strict { (nv, nv) } else { (1 + r.below(50), 1 + r.below(50)) };
    let eol = *r.pick(&["\n", "\r\n"]);
    let mut lines: Vec<String> = vec![];
    let junk = |r: &mut R, lines: &mut Vec<String>| match r.below(30) {
        0 => lines.push(String::new()),
        1 => lines.push("# a comment, vpx is not first".into()),
        2 => lines.push("   ".into()),
        3 => lines.push("#".into()),
        _ => {}
    };
    lines.push("# Blender 4.2".into());
    if r.bool() {
        lines.push("mtllib some file.mtl".into());
    }
    lines.push(format!("o {}", r.word()));
    let sep = |r: &mut R| (*r.pick(&[" ", " ", "  ", "\t"])).to_string();
    let mut put = |r: &mut R, lines: &mut Vec<String>, k: &str, n: usize, lo: f32, hi: f32| -> Vec<f64> {
        let mut l = String::new();
        if r.chance(1, 8) {
            l += "  ";
        }
        l += k;
        let mut out = vec![];
        for _ in 0..n {
            let x = if r.chance(1, 6) { r.f32_in(lo, hi).round() } else { r.f32_in(lo, hi) };
            let (s, v) = ntext(r, x);
            l += &sep(r);
            l += &s;
            out.push(v);
        }
        if r.chance(1, 8) {
            l += " ";
        }
        lines.push(l);
        out
    };
    let (mut v, mut vt, mut vn): (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<Vec<f64>>) = (vec![], vec![], vec![]);
    for _ in 0..nv {
        v.push(put(r, &mut lines, "v", 3, -500.0, 500.0));
        junk(r, &mut lines);
    }
    // attribute blocks in either order
    let tfirst = r.bool();
    for pass in 0..2 {
        if (pass == 0) == tfirst {
            for _ in 0..nt {
                vt.push(put(r, &mut lines, "vt", 2, -1.0, 2.0));
                junk(r, &mut lines);
            }
        } else {
            for _ in 0..nn {
                vn.push(put(r, &mut lines, "vn", 3, -1.0, 1.0));
                junk(r, &mut lines);
            }
        }
    }
    let mut faces: Vec<Vec<[usize; 3]>> = vec![];
    for _ in 0..if big { 21_000 + r.below(3000) } else { 1 + r.below(40) } {
        if r.chance(1, 6) {
            lines.push((*r.pick(&["usemtl Material.001", "s off", "s 1", "g part one", "s 0"])).into());
        }
        let n = if strict { 3 } else { 3 + r.below(5) };
        let f: Vec<[usize; 3]> = (0..n)
            .map(|_| {
                let i = r.below(nv);
                if strict { [i, i, i] } else { [i, r.below(nt), r.below(nn)] }
            })
            .collect();
        let mut l = "f".to_string();
        for c in &f {
            l += &format!("{}{}/{}/{}", sep(r), c[0] + 1, c[1] + 1, c[2] + 1);
        }
        lines.push(l);
        faces.push(f);
        junk(r, &mut lines);
    }
    let mut text = lines.join(eol);
    if r.bool() {
        text += eol;
    }
    // what the file states, in the table's convention
    let all_strict = nv == nt && nv == nn && faces.iter().all(|f| f.len() == 3 && f.iter().all(|c| c[0] == c[1] && c[0] == c[2]));
    let (mut verts, mut idx): (Vec<[usize; 3]>, Vec<[u32; 3]>) = (vec![], vec![]);
    if all_strict {
        verts = (0..nv).map(|i| [i, i, i]).collect();
        idx = faces.iter().map(|f| [f[2][0] as u32, f[1][0] as u32, f[0][0] as u32]).collect();
    } else {
        let mut seen: HashMap<[usize; 3], u32> = HashMap::new();
        for f in &faces {
            let c: Vec<[usize; 3]> = f.iter().rev().copied().collect();
            for i in 1..c.len() - 1 {
                let t = [c[0], c[i], c[i + 1]].map(|x| {
                    *seen.entry(x).or_insert_with(|| {
                        verts.push(x);
                        verts.len() as u32 - 1
                    })
                });
                idx.push(t);
            }
        }
    }
    let want: Vec<[f32; 8]> = verts
        .iter()
        .map(|[a, t, n]| {
            let (p, q, m) = (&v[*a], &vt[*t], &vn[*n]);
            [p[0] as f32, p[1] as f32, -(p[2] as f32), m[0] as f32, m[1] as f32, -(m[2] as f32), q[0] as f32, (1.0 - q[1]) as f32]
        })
        .collect();
    ctx.count(if all_strict { "foreign obj, matched triangles" } else { "foreign obj, polygons or mixed indices" }, 1);
    ctx.count("foreign faces", faces.len() as u64);
    foreign(ctx, r, PrimitiveMeshFormat::Obj, |_| vec![("obj", text.clone().into_bytes())], &want, &idx)
}

/// put a file of another tool in place of the extracted one, assemble, compare
fn foreign(ctx: &Ctx, r: &mut R, f: PrimitiveMeshFormat, mk: impl Fn(&str) -> Vec<(&'static str, Vec<u8>)>, want: &[[f32; 8]], idx: &[[u32; 3]]) -> Res {
    let m = gen_mesh(r, 3);
    let m = Gen { frames: vec![], ..m };
    let name = r.word();
    let v = table(&name, &m, r);
    let fs = MonFs::new();
    let root = PathBuf::from("/x");
    sut_ok("extraction", || expanded::write_fs(&v, &root, &opts(f, false), &fs))?;
    let mut files = fs.files();
    let e = ext_of(f);
    let p = files.keys().find(|p| p.extension().is_some_and(|x| x == e)).unwrap().clone();
    let stem = p.file_stem().unwrap().to_string_lossy().to_string();
    for (x, d) in mk(&stem) {
        files.insert(p.with_file_name(format!("{stem}.{x}")), d);
    }
    let shown: Vec<u8> = files[&p].clone();
    let fs = MonFs::from_files(&files);
    let got = sut_ok("assembly", || expanded::read_fs(&root, &fs)).map_err(|v| Viol { sig: format!("file of another tool: {}", v.sig), detail: format!("{} for {}", v.detail, String::from_utf8_lossy(&shown[..shown.len().min(1500)])) })?;
    let (vb, ib, _, n, ni) = stored(&got)?;
    ensure!(n as usize == want.len() && ni as usize == idx.len() * 3, format!("{e} of another tool: counts"), "{n} {ni} for {} {}", want.len(), idx.len() * 3);
    let wv = verts_bytes(want);
    ensure!(vb == wv, format!("{e} of another tool: a vertex is not the one stated"), "{}\n{}", fdiff(&wv, &vb, 8), String::from_utf8_lossy(&shown[..shown.len().min(3000)]));
    ensure!(ib == index_bytes(want.len(), idx), format!("{e} of another tool: a face is not the one stated"), "{}", String::from_utf8_lossy(&shown[..shown.len().min(3000)]));
    ctx.distinct(hash_str(&format!("foreign {e} {} {}", want.len(), idx.len())));
    Ok(())
}

fn foreign_gltf(ctx: &Ctx, r: &mut R, f: PrimitiveMeshFormat) -> Res {
    let nv = 3 + r.below(60);
    let m = gen_mesh(r, nv);
    // other tools write numbers
    let verts: Vec<[f32; 8]> = m.verts.iter().map(|v| v.map(|x| if x.is_nan() { 0.25 } else { x })).collect();
    let u32i = r.chance(1, 3);
    let mut sect: Vec<Vec<u8>> = vec![vec![]; 4];
    for v in &verts {
        sect[0].extend(v[0..3].iter().flat_map(|x| x.to_le_bytes()));
        sect[1].extend(v[3..6].iter().flat_map(|x| x.to_le_bytes()));
        sect[2].extend(v[6..8].iter().flat_map(|x| x.to_le_bytes()));
    }
    for i in m.faces.iter().flatten() {
        if u32i {
            sect[3].extend(i.to_le_bytes());
        } else {
            sect[3].extend((*i as u16).to_le_bytes());
        }
    }
    // sections in any order, with gaps; views listed in any order
    let perm = |r: &mut R| {
        let mut p = [0usize, 1, 2, 3];
        for i in (1..4).rev() {
            p.swap(i, r.below(i + 1));
        }
        p
    };
    let (order, vorder) = (perm(r), perm(r));
    let mut bin: Vec<u8> = vec![];
    let mut off = [0; 4];
    for s in order {
        for _ in 0..r.below(3) * 4 {
            bin.push(0xAA);
        }
        while bin.len() % 4 != 0 {
            bin.push(0);
        }
        off[s] = bin.len();
        bin.extend(&sect[s]);
    }
    while bin.len() % 4 != 0 {
        bin.push(0);
    }
    let mut views = vec![];
    let mut view_of = [0; 4];
    for (k, s) in vorder.into_iter().enumerate() {
        view_of[s] = k;
        let mut v = json!({"buffer": 0, "byteOffset": off[s], "byteLength": sect[s].len()});
        if r.bool() {
            v["target"] = json!(if s == 3 { 34963 } else { 34962 });
        }
        views.push(v);
    }
    let mm = |c: usize, max: bool| verts.iter().map(|v| v[c]).fold(verts[0][c], |a, b| if max { a.max(b) } else { a.min(b) });
    let mut accs = vec![
        json!({"bufferView": view_of[0], "componentType": 5126, "count": nv, "type": "VEC3", "min": [mm(0, false), mm(1, false), mm(2, false)], "max": [mm(0, true), mm(1, true), mm(2, true)]}),
        json!({"bufferView": view_of[1], "componentType": 5126, "count": nv, "type": "VEC3"}),
        json!({"bufferView": view_of[2], "componentType": 5126, "count": nv, "type": "VEC2"}),
        json!({"bufferView": view_of[3], "componentType": if u32i { 5125 } else { 5123 }, "count": m.faces.len() * 3, "type": "SCALAR"}),
    ];
    if r.bool() {
        for a in &mut accs {
            a["byteOffset"] = json!(0);
        }
    }
    let mut prim = json!({"attributes": {"POSITION": 0, "NORMAL": 1, "TEXCOORD_0": 2}, "indices": 3});
    if r.bool() {
        prim["mode"] = json!(4);
    }
    if r.bool() {
        prim["material"] = json!(0);
    }
    if r.chance(1, 3) {
        prim["extras"] = json!({"other": 1});
    }
    let mut mesh = json!({"primitives": [prim]});
    if r.bool() {
        mesh["name"] = json!(r.wide());
    }
    let mut j = json!({"asset": {"version": "2.0", "generator": "Khronos glTF Blender I/O v4.2"}, "scene": 0, "scenes": [{"name": "Scene", "nodes": [0]}], "nodes": [{"mesh": 0, "name": "x"}], "materials": [{"name": "m"}], "meshes": [mesh], "accessors": accs, "bufferViews": views, "buffers": [{"byteLength": bin.len()}]});
    let idx = m.faces.clone();
    ctx.count(&format!("foreign {}", ext_of(f)), 1);
    let pretty = r.bool();
    foreign(
        ctx,
        r,
        f,
        |stem| {
            let text = |j: &Value| if pretty { serde_json::to_string_pretty(j) } else { serde_json::to_string(j) }.unwrap();
            if f == PrimitiveMeshFormat::Glb {
                let mut t = text(&j).into_bytes();
                while t.len() % 4 != 0 {
                    t.push(b' ');
                }
                let mut o = b"glTF".to_vec();
                o.extend(2u32.to_le_bytes());
                o.extend((12 + 8 + t.len() as u32 + 8 + bin.len() as u32).to_le_bytes());
                o.extend((t.len() as u32).to_le_bytes());
                o.extend(b"JSON");
                o.extend(&t);
                o.extend((bin.len() as u32).to_le_bytes());
                o.extend(b"BIN\0");
                o.extend(&bin);
                vec![("glb", o)]
            } else {
                let mut j = j.clone();
                j["buffers"][0]["uri"] = json!(format!("{stem}.bin"));
                vec![("gltf", text(&j).into_bytes()), ("bin", bin.clone())]
            }
        },
        &verts,
        &idx,
    )?;
    j["asset"] = Value::Null;
    Ok(())
}

pub fn run_c20(ctx: &Ctx) {
    ctx.rule("primitive meshes with vertex values of every kind (ordinary, NaN payloads, infinities, signed zeros, subnormals, values near powers of two), animation frames, names of any characters and 3 to 65,540 vertices extracted as OBJ, GLB and glTF: the written files are read by an independent parser and must state the mesh, and assembling must give the stored bytes back; plus OBJ, GLB and glTF files laid out as other tools write them; distinct = format x size x frames");
    ctx.assume("animation frames have as many vertices as the mesh; a glTF file of another tool lists position, normal, texture coordinate and index accessors in that order with a byteOffset in each buffer view (the form the reader documents)");
    let big = ctx.thorough();
    let n = if big { 60_000 } else { 1500 };
    ctx.cases("roundtrip", n, if big { 900.0 } else { 8.0 }, |r, i| {
        let nv = match r.below(6) {
            0 => 1 + r.below(4),
            1 => 200 + r.below(400),
            _ => 3 + r.below(60),
        };
        roundtrip(ctx, r, nv, FORMATS[(i % 3) as usize])
    });
    ctx.cases("large", if big { 90 } else { 12 }, 60.0, |r, i| {
        let nv = [65_534, 65_535, 65_536, 65_540][(i / 3 % 4) as usize];
        roundtrip(ctx, r, nv, FORMATS[(i % 3) as usize])
    });
    ctx.cases("foreign obj", if big { 60_000 } else { 2500 }, if big { 600.0 } else { 5.0 }, |r, _| foreign_obj(ctx, r, false));
    ctx.cases("large foreign obj", if big { 60 } else { 4 }, 60.0, |r, _| foreign_obj(ctx, r, true));
    ctx.cases("foreign gltf", if big { 60_000 } else { 2500 }, if big { 600.0 } else { 5.0 }, |r, i| foreign_gltf(ctx, r, if i % 2 == 0 { PrimitiveMeshFormat::Glb } else { PrimitiveMeshFormat::Gltf }));
    ctx.require("NaN values", 100);
    ctx.require("frames", 100);
    ctx.require("32-bit index meshes", 1);
    ctx.require("foreign glb", 10);
    ctx.require("foreign obj, polygons or mixed indices", 10);
}
