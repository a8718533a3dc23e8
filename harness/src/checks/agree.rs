//! C26: exported geometry is the geometry of the table.
use super::geom::*;
use crate::ensure;
use crate::meshfmt::*;
use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::{GEO, Scene, scene_image};
use serde_json::{Value, json};
use vpin::vpx::VPX;
use vpin::vpx::color::Color;
use vpin::vpx::export::gltf_export::GltfFormat;
use vpin::vpx::export::obj_export::ObjExportOptions;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::material::{Material, SaveMaterial};
use vpin::vpx::units::ExportUnits;
use vpin::vpx::version::Version;

pub type P3 = [f64; 3];

/// a mesh in table coordinates
#[derive(Clone, Debug)]
pub struct World {
    pub name: String,
    pub pos: Vec<P3>,
    pub norm: Vec<P3>,
    pub uv: Vec<[f64; 2]>,
    pub tri: Vec<[usize; 3]>,
    pub visible: bool,
    /// position of the node itself
    pub at: P3,
}
impl World {
    pub fn bounds(&self) -> (P3, P3) {
        let (mut a, mut b) = ([f64::MAX; 3], [f64::MIN; 3]);
        for p in &self.pos {
            for i in 0..3 {
                a[i] = a[i].min(p[i]);
                b[i] = b[i].max(p[i]);
            }
        }
        (a, b)
    }
}

fn factor(u: ExportUnits) -> f64 {
    // 50 units are 1 1/16 inch
    let mm = 25.4 * 1.0625 / 50.0;
    match u {
        ExportUnits::Vpu => 1.0,
        ExportUnits::Mm => mm,
        ExportUnits::Cm => mm / 10.0,
        ExportUnits::M => mm / 1000.0,
    }
}
fn vec3(v: &Value, d: f64) -> Result<P3, Viol> {
    match v {
        Value::Null => Ok([d; 3]),
        Value::Array(a) if a.len() == 3 => Ok(std::array::from_fn(|i| a[i].as_f64().unwrap_or(f64::NAN))),
        _ => viol("node transform is not three numbers", format!("{v}")),
    }
}
/// transform of a node: (translation, scale); the exporter uses no rotation
/// for meshes
fn node_at(d: &Doc, n: usize) -> Result<(P3, P3), Viol> {
    let (mut t, mut s) = ([0.0; 3], [1.0; 3]);
    let mut k = Some(n);
    while let Some(i) = k {
        let j = &d.json["nodes"][i];
        let (lt, ls) = (vec3(&j["translation"], 0.0)?, vec3(&j["scale"], 1.0)?);
        let quat = &j["rotation"];
        ensure!(quat.is_null() || *quat == json!([0.0, 0.0, 0.0, 1.0]), "mesh node is rotated", "{j}");
        ensure!(j["matrix"].is_null(), "mesh node has a matrix", "{j}");
        for c in 0..3 {
            t[c] = lt[c] + ls[c] * t[c];
            s[c] *= ls[c];
        }
        k = d.parent[i];
    }
    Ok((t, s))
}
/// glTF coordinates (x, height, y) to those of the table
fn back(p: P3, f: f64) -> P3 {
    [p[0] / f, p[2] / f, p[1] / f]
}
pub fn world(d: &Doc, u: ExportUnits) -> Result<Vec<World>, Viol> {
    let f = factor(u);
    let mut out = vec![];
    let mut used = vec![0; d.meshes.len()];
    for (i, n) in d.json["nodes"].as_array().into_iter().flatten().enumerate() {
        let Some(m) = n["mesh"].as_u64() else { continue };
        used[m as usize] += 1;
        let g = &d.meshes[m as usize];
        let (t, s) = node_at(d, i)?;
        ensure!(g.prims.len() == 1, "mesh with several primitives", "{}", g.name);
        ensure!(n["name"].as_str() == Some(&g.name) || n["name"].is_null(), "node and mesh have different names", "{} {}", n["name"], g.name);
        let p = &g.prims[0];
        out.push(World {
            name: g.name.clone(),
            pos: p.pos.iter().map(|v| back(std::array::from_fn(|c| t[c] + s[c] * v[c] as f64), f)).collect(),
            norm: p.norm.iter().map(|v| back([v[0] as f64, v[1] as f64, v[2] as f64], 1.0)).collect(),
            uv: p.uv.iter().map(|v| [v[0] as f64, v[1] as f64]).collect(),
            tri: p.idx.chunks(3).map(|c| [c[0] as usize, c[2] as usize, c[1] as usize]).collect(),
            visible: n["extensions"]["KHR_node_visibility"]["visible"].as_bool() != Some(false),
            at: back(t, f),
        });
    }
    ensure!(used.iter().all(|u| *u == 1), "a mesh is used by no node or by several", "{used:?}");
    Ok(out)
}
pub fn world_obj(o: &Obj, u: ExportUnits) -> Vec<World> {
    let f = factor(u);
    o.objects
        .iter()
        .map(|b| {
            let mut w = World { name: b.name.clone(), pos: vec![], norm: vec![], uv: vec![], tri: vec![], visible: true, at: [0.0; 3] };
            let mut map = std::collections::HashMap::new();
            for c in &b.faces {
                // faces are stored the other way round
                let t: [usize; 3] = std::array::from_fn(|k| {
                    let i = c[2 - k][0];
                    *map.entry(i).or_insert_with(|| {
                        let (p, n, t) = (o.v[i as usize], o.vn[i as usize], o.vt[i as usize]);
                        w.pos.push([p[0] as f64 / f, p[1] as f64 / f, -p[2] as f64 / f]);
                        w.norm.push([n[0] as f64, n[1] as f64, -n[2] as f64]);
                        w.uv.push([t[0] as f64, 1.0 - t[1] as f64]);
                        w.pos.len() - 1
                    })
                });
                w.tri.push(t);
            }
            w
        })
        .collect()
}

/// what was observed: part, faces and positions of a mesh
pub fn seen(ctx: &Ctx, kind: &str, m: &World) {
    let mut h = crate::rng::hash_str(&format!("{kind} {} {:?}", m.name.get(4..).unwrap_or(""), m.tri.len()));
    for p in &m.pos {
        for c in p {
            h = crate::rng::mix(h, c.to_bits());
        }
    }
    ctx.distinct(h);
}
pub fn close(a: P3, b: P3, tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol)
}
/// the triangles of both, corner by corner
pub fn same(a: &World, b: &World, tol: f64, uv: bool, what: &str) -> Res {
    ensure!(a.tri.len() == b.tri.len(), "meshes have different numbers of triangles", "{what} {}: {} and {}", a.name, a.tri.len(), b.tri.len());
    for (k, (x, y)) in a.tri.iter().zip(&b.tri).enumerate() {
        for c in 0..3 {
            let (p, q) = (a.pos[x[c]], b.pos[y[c]]);
            ensure!(close(p, q, tol), "meshes differ in a position", "{what} {}: triangle {k} corner {c}: {p:?} and {q:?}", a.name);
            if uv {
                let (p, q) = (a.uv[x[c]], b.uv[y[c]]);
                ensure!((0..2).all(|i| (p[i] - q[i]).abs() <= 2e-3 * (1.0 + p[i].abs())), "meshes differ in a texture coordinate", "{what} {}: triangle {k} corner {c}: {p:?} and {q:?}", a.name);
                let (p, q) = (a.norm[x[c]], b.norm[y[c]]);
                ensure!(close(p, q, 2e-3), "meshes differ in a normal", "{what} {}: triangle {k} corner {c}: {p:?} and {q:?}", a.name);
            }
        }
    }
    Ok(())
}

/// Items with unique names `I<nn>x`, no degenerate shapes.
pub fn items(r: &mut R, n: usize, kinds: &[usize]) -> (Scene, Vec<GameItemEnum>) {
    let mut s = Scene::new(r);
    s.wild = false;
    s.edgy = false;
    s.images = (0..r.below(4)).map(|i| format!("img{i}")).collect();
    s.materials = (0..1 + r.below(4)).map(|i| format!("mat{i}")).collect();
    let mut out: Vec<GameItemEnum> = vec![];
    for i in 0..n {
        // names of surfaces as the scene knows them
        s.surfaces = out.iter().filter(|g| matches!(g, GameItemEnum::Wall(_) | GameItemEnum::Ramp(_))).map(|g| g.name().to_string()).collect();
        let k = *r.pick(kinds);
        let mut it = s.item(r, k);
        set_item_name(&mut it, format!("I{i:02}x"));
        out.push(it);
    }
    (s, out)
}
pub fn table(r: &mut R, s: &Scene, items: Vec<GameItemEnum>) -> VPX {
    let mut v = VPX::default();
    v.version = Version::new(*r.pick(&[1080u32, 1081, 1072, 1060]));
    v.gamedata.name = "Table1".into();
    let g = &mut v.gamedata;
    (g.left, g.top, g.right, g.bottom) = (0.0, 0.0, r.f32_in(400.0, 1500.0), r.f32_in(800.0, 3000.0));
    g.glass_top_height = r.f32_in(50.0, 600.0);
    g.light_height = r.f32_in(100.0, 3000.0);
    g.light_range = r.f32_in(100.0, 400_000.0);
    g.overwrite_global_detail_level = r.opt(|r| r.bool());
    g.user_detail_level = r.opt(|r| r.below(11) as u32);
    let ms: Vec<Material> = s
        .materials
        .iter()
        .map(|n| {
            let mut m = Material::default();
            m.name = n.clone();
            m.opacity = r.f32_in(0.0, 1.0);
            m.opacity_active = r.bool();
            m.base_color = Color::from_win_color(r.u32());
            m
        })
        .collect();
    let new = v.version.u32() >= 1080;
    g.materials_old = ms.iter().map(SaveMaterial::from).collect();
    g.materials_physics_old = Some(ms.iter().map(|m| m.into()).collect());
    g.materials_size = ms.len() as u32;
    g.materials = if new { Some(ms) } else { None };
    for n in &s.images {
        v.images.push(scene_image(r, n));
    }
    v.gamedata.images_size = v.images.len() as u32;
    v.gamedata.gameitems_size = items.len() as u32;
    v.gameitems = items;
    v
}
/// every visibility flag of an item
pub fn show(it: &mut GameItemEnum, on: bool) -> bool {
    match it {
        GameItemEnum::Wall(w) => (w.is_top_bottom_visible, w.is_side_visible) = (on, on),
        GameItemEnum::Flipper(x) => x.is_visible = on,
        GameItemEnum::Plunger(x) => x.is_visible = on,
        GameItemEnum::Trigger(x) => x.is_visible = on,
        GameItemEnum::Gate(x) => x.is_visible = on,
        GameItemEnum::Spinner(x) => x.is_visible = on,
        GameItemEnum::Ramp(x) => x.is_visible = on,
        GameItemEnum::Primitive(x) => x.is_visible = on,
        GameItemEnum::Flasher(x) => x.is_visible = on,
        GameItemEnum::Rubber(x) => x.is_visible = on,
        GameItemEnum::HitTarget(x) => x.is_visible = on,
        _ => return false,
    }
    true
}
fn shift(it: &mut GameItemEnum, dx: f32, dy: f32) {
    macro_rules! c {
        ($x:expr) => {{
            $x.center.x += dx;
            $x.center.y += dy;
        }};
    }
    macro_rules! d {
        ($x:expr) => {
            for p in &mut $x.drag_points {
                p.x += dx;
                p.y += dy;
            }
        };
    }
    match it {
        GameItemEnum::Wall(x) => d!(x),
        GameItemEnum::Flipper(x) => c!(x),
        GameItemEnum::Plunger(x) => c!(x),
        GameItemEnum::Bumper(x) => c!(x),
        GameItemEnum::Trigger(x) => {
            c!(x);
            d!(x)
        }
        GameItemEnum::Light(x) => {
            c!(x);
            d!(x)
        }
        GameItemEnum::Kicker(x) => c!(x),
        GameItemEnum::Decal(x) => c!(x),
        GameItemEnum::Gate(x) => c!(x),
        GameItemEnum::Spinner(x) => c!(x),
        GameItemEnum::Ramp(x) => d!(x),
        GameItemEnum::Primitive(x) => {
            x.position.x += dx;
            x.position.y += dy;
        }
        GameItemEnum::Flasher(x) => {
            d!(x);
            x.pos_x += dx;
            x.pos_y += dy;
        }
        GameItemEnum::Rubber(x) => d!(x),
        GameItemEnum::HitTarget(x) => {
            x.position.x += dx;
            x.position.y += dy;
        }
        GameItemEnum::Ball(x) => {
            x.pos.x += dx;
            x.pos.y += dy;
        }
        _ => {}
    }
}
pub fn item_of(name: &str) -> Option<&str> {
    (name.len() >= 4 && name.starts_with('I') && name.as_bytes()[3] == b'x').then(|| &name[..4])
}
pub fn gltf(v: &VPX, inv: bool, u: ExportUnits, glb: bool) -> Result<(Doc, Vec<World>), Viol> {
    match gltf_of(v, if glb { GltfFormat::Glb } else { GltfFormat::Gltf }, inv, u)? {
        Some(d) => {
            let w = world(&d, u)?;
            Ok((d, w))
        }
        None => viol("a table is exported without any mesh", ""),
    }
}
pub fn list(w: &[World]) -> Vec<&str> {
    w.iter().map(|w| w.name.as_str()).collect()
}

fn mesh_of(p: &Primitive) -> Option<(Vec<[f32; 8]>, Vec<[usize; 3]>)> {
    let vb = unzlib(p.compressed_vertices_data.as_ref()?).ok()?;
    let ib = unzlib(p.compressed_indices_data.as_ref()?).ok()?;
    let v: Vec<[f32; 8]> = vb.chunks_exact(32).map(|c| std::array::from_fn(|i| f32::from_le_bytes(c[i * 4..i * 4 + 4].try_into().unwrap()))).collect();
    let i: Vec<usize> = ib.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]]) as usize).collect();
    Some((v, i.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect()))
}
fn rot(p: P3, axis: usize, deg: f32) -> P3 {
    let (s, c) = (deg as f64).to_radians().sin_cos();
    let (a, b) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut q = p;
    q[a] = p[a] * c - p[b] * s;
    q[b] = p[a] * s + p[b] * c;
    q
}
/// object space of a primitive to the table, as the manual of Visual Pinball
/// describes it: size, object transform, rotation, position
fn place(p: &Primitive, v: P3, dir: bool) -> P3 {
    let s = [p.size.x as f64, p.size.y as f64, p.size.z as f64];
    let t: P3 = if dir { [0.0; 3] } else { std::array::from_fn(|i| p.rot_and_tra[3 + i] as f64) };
    let mut q: P3 = std::array::from_fn(|i| v[i] * s[i] + t[i]);
    for (axis, k) in [(2, 2), (1, 1), (0, 0), (2, 8), (1, 7), (0, 6)] {
        q = rot(q, axis, p.rot_and_tra[k]);
    }
    if !dir {
        q = [q[0] + p.position.x as f64, q[1] + p.position.y as f64, q[2] + p.position.z as f64];
    }
    q
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("one evaluation = one table exported several ways; distinct = what was compared, by item type, part and exact vertex positions");
    ctx.assume("shapes are not degenerate and item names are unique; tolerances are for single precision arithmetic");
    let deep = ctx.thorough();
    let few = if deep { 12 } else { 6 };

    ctx.cases("primitives", if deep { 60_000 } else { 3000 }, if deep { 150.0 } else { 6.0 }, |r, _| {
        let n = 1 + r.below(4);
        let (s, mut its) = items(r, n, &[15]);
        for it in &mut its {
            show(it, true);
            if let GameItemEnum::Primitive(p) = it
                && !p.use_3d_mesh
            {
                p.use_3d_mesh = true;
                let m = crate::scene::good_mesh(r);
                set_mesh(p, &m, r, false);
            }
        }
        let v = table(r, &s, its);
        let u = *r.pick(&UNITS);
        let (_, g) = gltf(&v, r.bool(), u, r.bool())?;
        let opts = ObjExportOptions { units: u, ..g_obj_opts(r) };
        let o = world_obj(&obj_of(&v, &opts)?.obj, u);
        for it in &v.gameitems {
            let GameItemEnum::Primitive(p) = it else { continue };
            let Some((vs, fs)) = mesh_of(p) else { continue };
            for (w, what) in [(&g, "glTF"), (&o, "OBJ")] {
                let ms: Vec<&World> = w.iter().filter(|m| m.name == p.name).collect();
                ensure!(ms.len() == 1, "a primitive is not exported as exactly one mesh", "{what}: {} of {:?}", ms.len(), list(w));
                let m = ms[0];
                seen(ctx, "primitive", m);
                ensure!(m.tri.len() == fs.len(), "a primitive loses faces in an export", "{what}: {} of {}", m.tri.len(), fs.len());
                for (k, (t, f)) in m.tri.iter().zip(&fs).enumerate() {
                    for c in 0..3 {
                        let x = vs[f[c]];
                        let want = place(p, [x[0] as f64, x[1] as f64, x[2] as f64], false);
                        let size = 50.0 * p.size.x.max(p.size.y).max(p.size.z) as f64 + 3000.0;
                        ensure!(close(m.pos[t[c]], want, size * 3e-6), "a primitive vertex is not where the item puts it", "{what} {u:?}: triangle {k} corner {c}: {:?} instead of {want:?}", m.pos[t[c]]);
                        ctx.count("vertex positions", 1);
                        let uv = m.uv[t[c]];
                        ensure!((uv[0] - x[6] as f64).abs() < 1e-4 && (uv[1] - x[7] as f64).abs() < 1e-4, "a primitive vertex has another texture coordinate", "{what}: triangle {k} corner {c}: {uv:?} instead of {:?}", &x[6..]);
                        let n = place(p, [x[3] as f64, x[4] as f64, x[5] as f64], true);
                        let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
                        let n = n.map(|x| x / l);
                        ensure!(close(m.norm[t[c]], n, 2e-3), "a primitive normal is not turned with the item", "{what}: triangle {k} corner {c}: {:?} instead of {n:?}", m.norm[t[c]]);
                    }
                }
            }
        }
        Ok(())
    });

    ctx.cases("glTF and OBJ", if deep { 60_000 } else { 3000 }, if deep { 150.0 } else { 8.0 }, |r, _| {
        let n = 1 + r.below(few);
        // kinds that both exports hold
        let (s, mut its) = items(r, n, &[0, 1, 3, 5, 6, 8, 10, 11, 12, 15, 17, 18]);
        for it in &mut its {
            show(it, true);
        }
        let v = table(r, &s, its);
        let u = *r.pick(&UNITS);
        let u2 = *r.pick(&UNITS);
        let (_, g) = gltf(&v, r.bool(), u, r.bool())?;
        let opts = ObjExportOptions { units: u2, include_plunger: true, ..g_obj_opts(r) };
        let o = world_obj(&obj_of(&v, &opts)?.obj, u2);
        for it in &v.gameitems {
            let name = it.name().to_string();
            let mine = |w: &[World]| -> Vec<World> { w.iter().filter(|m| item_of(&m.name) == Some(&name)).cloned().collect() };
            let (mut a, b) = (mine(&g), mine(&o));
            if let GameItemEnum::Gate(x) = it {
                // Visual Pinball exports the wire without the scaling that it
                // draws it with; the OBJ export is documented to do the same
                for m in a.iter_mut().filter(|m| m.name.ends_with("Wire")) {
                    let at = m.at;
                    for p in &mut m.pos {
                        *p = std::array::from_fn(|c| at[c] + (p[c] - at[c]) / x.length as f64);
                    }
                }
            }
            let kind = it.type_name();
            ctx.count(&format!("compared: {kind}"), 1);
            // one list of triangles per item, parts in the order of their names
            let all = |mut w: Vec<World>| {
                let alias = |n: &str| n.replace("Skirt", "Socket");
                w.sort_by_key(|m| alias(&m.name));
                let mut all = World { name: name.clone(), pos: vec![], norm: vec![], uv: vec![], tri: vec![], visible: true, at: [0.0; 3] };
                for m in w {
                    let k = all.pos.len();
                    all.pos.extend(m.pos);
                    all.norm.extend(m.norm);
                    all.uv.extend(m.uv);
                    all.tri.extend(m.tri.iter().map(|t| t.map(|i| i + k)));
                }
                all
            };
            let (la, lb): (Vec<String>, Vec<String>) = (a.iter().map(|m| m.name.clone()).collect(), b.iter().map(|m| m.name.clone()).collect());
            let (x, y) = (all(a), all(b));
            same(&x, &y, 0.02, true, &format!("{kind} {la:?} {lb:?}")).map_err(|v| Viol { sig: format!("{} ({kind}, glTF and OBJ)", v.sig), detail: v.detail })?;
            ctx.count("compared triangles", x.tri.len() as u64);
            seen(ctx, kind.as_ref(), &x);
        }
        Ok(())
    });

    ctx.cases("units", if deep { 30_000 } else { 1500 }, if deep { 120.0 } else { 6.0 }, |r, _| {
        let n = 1 + r.below(few);
        let (s, mut its) = items(r, n, GEO);
        for it in &mut its {
            if matches!(it, GameItemEnum::Light(_)) && r.bool() {
                let n = it.name().replace('I', "gi");
                set_item_name(it, n);
            }
        }
        let v = table(r, &s, its);
        let inv = r.bool();
        let u = *r.pick(&UNITS[1..]);
        let (d0, w0) = gltf(&v, inv, ExportUnits::Vpu, true)?;
        let (d1, w1) = gltf(&v, inv, u, true)?;
        ensure!(list(&w0) == list(&w1), "other meshes in other units", "{:?} {:?}", list(&w0), list(&w1));
        for (a, b) in w0.iter().zip(&w1) {
            same(a, b, 0.02, true, "units")?;
            ensure!(a.visible == b.visible, "other visibility in other units", "{}", a.name);
        }
        // everything else that is a length: positions of nodes, cameras, lights
        let f = factor(u);
        let (n0, n1) = (d0.json["nodes"].as_array().unwrap(), d1.json["nodes"].as_array().unwrap());
        ensure!(n0.len() == n1.len(), "other nodes in other units", "{} {}", n0.len(), n1.len());
        for (i, (a, b)) in n0.iter().zip(n1).enumerate() {
            ensure!(a["name"] == b["name"], "other nodes in other units", "{} {}", a["name"], b["name"]);
            let (p, q) = (node_at_any(&d0, i)?, node_at_any(&d1, i)?);
            let what = if !a["camera"].is_null() { "a camera" } else if a["extensions"].get("KHR_lights_punctual").is_some() { "a light" } else { "a node" };
            ctx.count(&format!("positions of {}s", &what[2..]), 1);
            let tol = 1e-4 * (1.0 + p.iter().map(|x| x.abs()).fold(0.0, f64::max));
            ensure!(close(p, q.map(|x| x / f), tol), &format!("{what} is elsewhere in other units"), "{}: {p:?} is {:?} in {u:?}", a["name"], q.map(|x| x / f));
        }
        let (c0, c1) = (d0.json["cameras"].as_array(), d1.json["cameras"].as_array());
        for (a, b) in c0.into_iter().flatten().zip(c1.into_iter().flatten()) {
            for k in ["znear", "zfar"] {
                if let (Some(x), Some(y)) = (a["perspective"][k].as_f64(), b["perspective"][k].as_f64()) {
                    ensure!((x - y / f).abs() <= 1e-3 * x, "a camera clips elsewhere in other units", "{k} {x} is {} in {u:?}", y / f);
                }
            }
        }
        let l = |d: &Doc| d.json["extensions"]["KHR_lights_punctual"]["lights"].as_array().cloned().unwrap_or_default();
        for (a, b) in l(&d0).iter().zip(&l(&d1)) {
            if let (Some(x), Some(y)) = (a["range"].as_f64(), b["range"].as_f64()) {
                ctx.count("light ranges", 1);
                ensure!((x - y / f).abs() <= 1e-3 * x, "a light reaches elsewhere in other units", "{}: range {x} is {} in {u:?}", a["name"], y / f);
            }
        }
        // and the OBJ export
        let oo = |u| ObjExportOptions { units: u, include_plunger: true, dedup_mtl_blocks: true, extract_textures: false };
        let (x, y) = (world_obj(&obj_of(&v, &oo(ExportUnits::Vpu))?.obj, ExportUnits::Vpu), world_obj(&obj_of(&v, &oo(u))?.obj, u));
        ensure!(list(&x) == list(&y), "other OBJ objects in other units", "{:?} {:?}", list(&x), list(&y));
        for (a, b) in x.iter().zip(&y) {
            same(a, b, 0.02, true, "OBJ units")?;
        }
        Ok(())
    });

    ctx.cases("visibility", if deep { 30_000 } else { 1500 }, if deep { 120.0 } else { 6.0 }, |r, _| {
        let n = 1 + r.below(few);
        let (seed, kinds) = (r.u64(), [0usize, 1, 3, 6, 10, 11, 12, 15, 16, 17, 18]);
        let hide: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        let make = |hide: &dyn Fn(usize) -> bool| {
            let mut r = R::new(seed);
            let (s, mut its) = items(&mut r, n, &kinds);
            for (i, it) in its.iter_mut().enumerate() {
                show(it, !hide(i));
                if let GameItemEnum::Wall(_) = it { /* both parts together */ }
            }
            let mut v = table(&mut r, &s, its);
            v.version = Version::new(1080);
            v
        };
        let (all, some) = (make(&|_| false), make(&|i| hide[i]));
        let (_, full) = gltf(&all, false, ExportUnits::Vpu, true)?;
        let (_, vis) = gltf(&some, false, ExportUnits::Vpu, true)?;
        let (_, inv) = gltf(&some, true, ExportUnits::Vpu, true)?;
        let is_hidden = |m: &World| item_of(&m.name).is_some_and(|n| hide[n[1..3].parse::<usize>().unwrap()]);
        let want: Vec<&str> = full.iter().filter(|m| !is_hidden(m)).map(|m| m.name.as_str()).collect();
        ensure!(list(&vis) == want, "hidden items in the export, or visible ones missing", "{:?} instead of {want:?}", list(&vis));
        ensure!(vis.iter().all(|m| m.visible), "a visible item is exported as hidden", "{:?}", list(&vis));
        let kind = |n: &str| item_of(n).map(|n| all.gameitems[n[1..3].parse::<usize>().unwrap()].type_name()).unwrap_or_default();
        for m in &full {
            let Some(x) = inv.iter().find(|x| x.name == m.name) else {
                return viol(format!("a hidden {} is not exported although asked for", kind(&m.name)), format!("{:?} of {:?}", m.name, list(&inv)));
            };
            ensure!(x.visible != is_hidden(m), "a mesh is not marked as the item says", "{} visible {}", m.name, x.visible);
            same(m, x, 1e-6, true, "hidden")?;
            ctx.count(&format!("{} {}", if is_hidden(m) { "hidden" } else { "visible" }, kind(&m.name)), 1);
            seen(ctx, if is_hidden(m) { "hidden" } else { "visible" }, m);
        }
        ensure!(inv.len() == full.len(), "export of hidden items has other meshes", "{:?} instead of {:?}", list(&inv), list(&full));
        Ok(())
    });

    ctx.cases("moved items", if deep { 30_000 } else { 1500 }, if deep { 120.0 } else { 6.0 }, |r, _| {
        let n = 1 + r.below(few);
        let seed = r.u64();
        let (dx, dy) = (r.below(401) as f32 - 200.0, r.below(401) as f32 - 200.0);
        let make = |dx: f32, dy: f32| {
            let mut r = R::new(seed);
            let (s, mut its) = items(&mut r, n, GEO);
            for it in &mut its {
                shift(it, dx, dy);
            }
            table(&mut r, &s, its)
        };
        let (v0, v1) = (make(0.0, 0.0), make(dx, dy));
        let u = *r.pick(&UNITS);
        let (_, a) = gltf(&v0, true, u, true)?;
        let (_, b) = gltf(&v1, true, u, true)?;
        let oo = ObjExportOptions { units: u, include_plunger: true, dedup_mtl_blocks: true, extract_textures: false };
        let (oa, ob) = (world_obj(&obj_of(&v0, &oo)?.obj, u), world_obj(&obj_of(&v1, &oo)?.obj, u));
        for (what, a, b) in [("glTF", a, b), ("OBJ", oa, ob)] {
            ensure!(list(&a) == list(&b), "other meshes after items were moved", "{what}: {:?} {:?}", list(&a), list(&b));
            for (x, y) in a.iter().zip(&b) {
                let Some(name) = item_of(&x.name) else { continue };
                let it = &v0.gameitems[name[1..3].parse::<usize>().unwrap()];
                let kind = it.type_name();
                let mut x = x.clone();
                for p in &mut x.pos {
                    p[0] += dx as f64;
                    p[1] += dy as f64;
                }
                ctx.count(&format!("moved {kind}"), 1);
                seen(ctx, kind.as_ref(), y);
                if x.tri.len() != y.tri.len() {
                    // curves are split by thresholds that rounding can tip
                    ctx.count("moved curves split differently", 1);
                    let ((a0, a1), (b0, b1)) = (x.bounds(), y.bounds());
                    ensure!(close(a0, b0, 3.0) && close(a1, b1, 3.0), "a moved item is elsewhere", "{what} {kind} {}: {a0:?}..{a1:?} and {b0:?}..{b1:?} by ({dx},{dy})", x.name);
                    continue;
                }
                let (mut xs, mut ys) = (sorted(&x), sorted(&y));
                xs.truncate(2000);
                ys.truncate(2000);
                let tol = if matches!(kind.as_str(), "Rubber" | "Ramp") { 3.0 } else { 0.2 };
                let ok = same(&x, y, 0.2, false, "").is_ok() || xs.iter().zip(&ys).all(|(a, b)| close(*a, *b, 0.2)) || {
                    let ((a0, a1), (b0, b1)) = (x.bounds(), y.bounds());
                    close(a0, b0, tol) && close(a1, b1, tol)
                };
                ensure!(ok, "a moved item is elsewhere", "{what} {kind} {} by ({dx},{dy}): {:?} and {:?}", x.name, x.bounds(), y.bounds());
            }
        }
        Ok(())
    });

    ctx.cases("heights", if deep { 30_000 } else { 1500 }, if deep { 120.0 } else { 5.0 }, |r, _| {
        let n = 1 + r.below(few);
        let (mut s, mut its) = items(r, n, &[1, 3, 5, 6, 7, 8, 9, 10, 11]);
        // a wall as surface
        let mut wall = s.item(r, 0);
        set_item_name(&mut wall, "Floor".into());
        let GameItemEnum::Wall(w) = &mut wall else { unreachable!() };
        let top = w.height_top as f64;
        for it in &mut its {
            show(it, true);
            let on = r.pick(&["", "Floor", "floor", "nothing", "FLOOR"]).to_string();
            match it {
                GameItemEnum::Flipper(x) => x.surface = on,
                GameItemEnum::Plunger(x) => x.surface = on,
                GameItemEnum::Bumper(x) => x.surface = on,
                GameItemEnum::Trigger(x) => x.surface = on,
                GameItemEnum::Light(x) => x.surface = on,
                GameItemEnum::Kicker(x) => x.surface = on,
                GameItemEnum::Decal(x) => x.surface = on,
                GameItemEnum::Gate(x) => x.surface = on,
                GameItemEnum::Spinner(x) => x.surface = on,
                _ => {}
            }
        }
        let k = r.below(its.len() + 1);
        its.insert(k, wall);
        let v = table(r, &s, its);
        let u = *r.pick(&UNITS);
        let (_, g) = gltf(&v, true, u, true)?;
        let oo = ObjExportOptions { units: u, include_plunger: true, dedup_mtl_blocks: true, extract_textures: false };
        let o = world_obj(&obj_of(&v, &oo)?.obj, u);
        for it in &v.gameitems {
            let (c, surf, dz) = match it {
                GameItemEnum::Flipper(x) => ([x.center.x, x.center.y], &x.surface, 0.0),
                GameItemEnum::Plunger(x) => ([x.center.x, x.center.y], &x.surface, x.z_adjust),
                GameItemEnum::Bumper(x) => ([x.center.x, x.center.y], &x.surface, 0.0),
                GameItemEnum::Trigger(x) => ([x.center.x, x.center.y], &x.surface, 0.0),
                GameItemEnum::Light(x) => ([x.center.x, x.center.y], &x.surface, 0.0),
                GameItemEnum::Kicker(x) => ([x.center.x, x.center.y], &x.surface, 0.0),
                GameItemEnum::Decal(x) => ([x.center.x, x.center.y], &x.surface, 0.2),
                GameItemEnum::Gate(x) => ([x.center.x, x.center.y], &x.surface, x.height),
                GameItemEnum::Spinner(x) => ([x.center.x, x.center.y], &x.surface, x.height),
                _ => continue,
            };
            let base = if surf.eq_ignore_ascii_case("floor") { top } else { 0.0 };
            let kind = it.type_name();
            for m in g.iter().filter(|m| item_of(&m.name) == Some(it.name())) {
                let want = [c[0] as f64, c[1] as f64, base + dz as f64 + if m.name.ends_with("_insert") { 0.1 } else { 0.0 }];
                ctx.count(&format!("placed {kind}"), 1);
                seen(ctx, kind.as_ref(), m);
                let mut at = m.at;
                if m.name.ends_with("_insert") {
                    // its outline is not drawn around the centre
                    (at[0], at[1]) = (want[0], want[1]);
                }
                ensure!(close(at, want, 0.01), format!("a {kind} is not placed on its surface"), "{}: at {:?} instead of {want:?} (surface {surf:?}, floor {top})", m.name, m.at);
                // (the OBJ export does not scale the wires of gates)
                if !m.name.ends_with("_insert") && !(m.name.ends_with("Wire") && kind == "Gate") {
                    if let Some(p) = o.iter().find(|p| p.name == m.name) {
                        let (a, b) = (m.bounds(), p.bounds());
                        ensure!(close(a.0, b.0, 0.05) && close(a.1, b.1, 0.05), "the OBJ export places an item elsewhere", "{} {a:?} and {b:?}", m.name);
                    }
                }
            }
        }
        Ok(())
    });
    for k in ["Wall", "Flipper", "Plunger", "Trigger", "Gate", "Spinner", "Ramp", "Primitive", "Flasher", "Rubber", "HitTarget"] {
        ctx.require(&format!("hidden {k}"), 20);
        ctx.require(&format!("moved {k}"), 20);
    }
    for k in ["positions of cameras", "positions of lights", "light ranges", "vertex positions", "placed Light", "placed Decal", "placed Kicker"] {
        ctx.require(k, 20);
    }
}
fn sorted(w: &World) -> Vec<P3> {
    let mut v = w.pos.clone();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
/// position of any node (cameras are rotated themselves, not placed by
/// rotated parents)
fn node_at_any(d: &Doc, n: usize) -> Result<P3, Viol> {
    let t = vec3(&d.json["nodes"][n]["translation"], 0.0)?;
    Ok(match d.parent[n] {
        Some(p) => {
            let (pt, ps) = node_at(d, p)?;
            std::array::from_fn(|c| pt[c] + ps[c] * t[c])
        }
        None => t,
    })
}
