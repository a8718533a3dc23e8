//! Independent readers of the mesh formats the library writes: a strict
//! glTF 2.0 / GLB validator and a Wavefront OBJ / MTL parser.  Nothing here
//! shares code with the library.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// (signature, detail)
pub type Bad = (String, String);
macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Err((String::from($sig), format!($($a)*))) };
}
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err((String::from($sig), format!($($a)*))); } };
}

// ---------------------------------------------------------------- GLB / glTF

pub fn glb_split(b: &[u8]) -> Result<(Value, Vec<u8>), Bad> {
    let u = |o: usize| b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    need!(b.len() >= 20 && &b[0..4] == b"glTF", "glb: header", "{} bytes", b.len());
    need!(u(4) == Some(2), "glb: version", "{:?}", u(4));
    need!(u(8) == Some(b.len() as u32), "glb: total length is not the file length", "{:?} of {}", u(8), b.len());
    let (mut json, mut bin) = (None, None);
    let mut o = 12;
    let mut n = 0;
    while o < b.len() {
        let (Some(l), Some(t)) = (u(o), b.get(o + 4..o + 8)) else { bad!("glb: truncated chunk header", "at {o}") };
        need!(l % 4 == 0, "glb: chunk length is not a multiple of 4", "{l}");
        let Some(d) = b.get(o + 8..o + 8 + l as usize) else { bad!("glb: chunk exceeds the file", "at {o} length {l}") };
        match (n, t) {
            (0, b"JSON") => json = Some(d),
            (1, b"BIN\0") => bin = Some(d),
            _ => bad!("glb: unexpected chunk", "chunk {n} is {t:?}"),
        }
        n += 1;
        o += 8 + l as usize;
    }
    let Some(j) = json else { bad!("glb: no JSON chunk", "") };
    let v: Value = match serde_json::from_slice(j) {
        Ok(v) => v,
        Err(e) => bad!("glb: JSON chunk is not JSON", "{e}"),
    };
    let end = j.iter().rposition(|c| *c == b'}').unwrap_or(0);
    need!(j[end + 1..].iter().all(|c| *c == b' '), "glb: JSON chunk is not padded with spaces", "{:?}", &j[end + 1..]);
    let bin = bin.unwrap_or(&[]).to_vec();
    let want = v["buffers"][0]["byteLength"].as_u64().unwrap_or(0) as usize;
    need!(bin.len() >= want && bin.len() - want < 4, "glb: BIN chunk does not match the buffer length", "{} for {want}", bin.len());
    need!(bin[want..].iter().all(|c| *c == 0), "glb: BIN padding", "{:?}", &bin[want..]);
    Ok((v, bin))
}

#[derive(Default, Debug, Clone)]
pub struct Prim {
    pub pos: Vec<[f32; 3]>,
    pub norm: Vec<[f32; 3]>,
    pub uv: Vec<[f32; 2]>,
    pub idx: Vec<u32>,
    pub u32_indices: bool,
    pub material: Option<usize>,
    pub extras: Value,
}
#[derive(Default, Debug, Clone)]
pub struct GMesh {
    pub name: String,
    pub prims: Vec<Prim>,
}
#[derive(Default, Debug, Clone)]
pub struct Doc {
    pub json: Value,
    pub meshes: Vec<GMesh>,
    /// parent of every node
    pub parent: Vec<Option<usize>>,
    pub bin: Vec<u8>,
}

fn arr<'a>(v: &'a Value, k: &str) -> Result<&'a [Value], Bad> {
    match &v[k] {
        Value::Null => Ok(&[]),
        Value::Array(a) => {
            need!(!a.is_empty(), format!("gltf: empty array {k}"), "{v:.200}");
            Ok(a)
        }
        o => bad!(format!("gltf: {k} is not an array"), "{o:.100}"),
    }
}
fn idx(v: &Value, n: usize, what: &str) -> Result<usize, Bad> {
    match v.as_u64() {
        Some(i) if (i as usize) < n => Ok(i as usize),
        _ => bad!(format!("gltf: {what} out of range"), "{v} of {n}"),
    }
}
fn num(v: &Value, what: &str, lo: f64, hi: f64) -> Result<f64, Bad> {
    match v.as_f64() {
        Some(x) if x >= lo && x <= hi => Ok(x),
        _ => bad!(format!("gltf: {what} is not a number in [{lo}, {hi}]"), "{v}"),
    }
}
fn nums(v: &Value, n: usize, what: &str, lo: f64, hi: f64) -> Result<Vec<f64>, Bad> {
    let Some(a) = v.as_array() else { bad!(format!("gltf: {what} is not an array"), "{v}") };
    need!(a.len() == n, format!("gltf: {what} has the wrong length"), "{v}");
    a.iter().map(|x| num(x, what, lo, hi)).collect()
}
fn no_null(v: &Value, path: &str) -> Result<(), Bad> {
    match v {
        Value::Null => bad!("gltf: null value", "{path}"),
        Value::Array(a) => a.iter().try_for_each(|x| no_null(x, path)),
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "extras").try_for_each(|(k, x)| no_null(x, &format!("{path}/{k}"))),
        _ => Ok(()),
    }
}
fn textures(v: &Value, ntex: usize, texcoords: usize) -> Result<(), Bad> {
    if let Value::Object(o) = v {
        for (k, x) in o {
            if k == "extras" {
                continue;
            }
            if k.ends_with("Texture") {
                idx(&x["index"], ntex, "texture of a material")?;
                need!(x["texCoord"].as_u64().unwrap_or(0) < texcoords as u64, "gltf: texCoord set does not exist", "{x}");
            }
            textures(x, ntex, texcoords)?;
        }
    }
    Ok(())
}
fn used_exts(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if k == "extras" {
                    continue;
                }
                if k == "extensions" {
                    if let Value::Object(e) = x {
                        out.extend(e.keys().cloned());
                    }
                }
                used_exts(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| used_exts(x, out)),
        _ => {}
    }
}

fn owner(j: &Value, acc: usize) -> String {
    for m in j["meshes"].as_array().into_iter().flatten() {
        let p = &m["primitives"][0];
        let is = |v: &Value| v.as_u64() == Some(acc as u64);
        let hit = if is(&p["indices"]) { Some("indices") } else { p["attributes"].as_object().and_then(|o| o.iter().find(|(_, v)| is(v)).map(|(k, _)| k.as_str())) };
        if let Some(h) = hit {
            return format!("{h} of mesh {}", m["name"]);
        }
    }
    String::new()
}

pub struct Rules {
    /// values are finite (not for C20 meshes with unusual values)
    pub finite: bool,
}

pub fn gltf_check(j: &Value, bin: &[u8], rules: &Rules) -> Result<Doc, Bad> {
    const INF: f64 = f64::INFINITY;
    need!(j["asset"]["version"] == "2.0", "gltf: asset version", "{}", j["asset"]);
    let buffers = arr(j, "buffers")?;
    need!(buffers.len() <= 1, "gltf: more than one buffer", "{}", buffers.len());
    let blen = match buffers.first() {
        Some(b) => b["byteLength"].as_u64().unwrap_or(0) as usize,
        None => 0,
    };
    need!(buffers.is_empty() || blen >= 1, "gltf: buffer length", "{blen}");
    need!(bin.len() >= blen, "gltf: buffer shorter than declared", "{} of {blen}", bin.len());
    // buffer views
    let mut views = vec![];
    for v in arr(j, "bufferViews")? {
        idx(&v["buffer"], buffers.len(), "buffer of a bufferView")?;
        let o = v["byteOffset"].as_u64().unwrap_or(0) as usize;
        let Some(l) = v["byteLength"].as_u64() else { bad!("gltf: bufferView without length", "{v}") };
        need!(l >= 1 || !v["target"].is_null(), "gltf: empty bufferView", "{v}");
        need!(o + l as usize <= blen, "gltf: bufferView exceeds the buffer", "{v} of {blen}");
        let t = v["target"].as_u64();
        need!(matches!(t, None | Some(34962) | Some(34963)), "gltf: bufferView target", "{v}");
        need!(v["byteStride"].is_null(), "gltf: unexpected byteStride", "{v}");
        views.push((o, l as usize, t));
    }
    // accessors
    struct Acc {
        comps: usize,
        ct: u64,
        count: usize,
        view: usize,
        f: Vec<f32>,
        u: Vec<u32>,
    }
    let mut accs: Vec<Acc> = vec![];
    for (k, a) in arr(j, "accessors")?.iter().enumerate() {
        let view = idx(&a["bufferView"], views.len(), "bufferView of an accessor")?;
        let ct = a["componentType"].as_u64().unwrap_or(0);
        let size = match ct {
            5121 => 1,
            5123 => 2,
            5125 | 5126 => 4,
            _ => bad!("gltf: accessor componentType", "{a}"),
        };
        let comps = match a["type"].as_str() {
            Some("SCALAR") => 1,
            Some("VEC2") => 2,
            Some("VEC3") => 3,
            _ => bad!("gltf: accessor type", "{a}"),
        };
        let count = a["count"].as_u64().unwrap_or(0) as usize;
        need!(count >= 1, "gltf: accessor without elements", "accessor {k} {a} {}", owner(j, k));
        let off = a["byteOffset"].as_u64().unwrap_or(0) as usize;
        need!((views[view].0 + off) % size == 0, "gltf: accessor is not aligned to its component size", "accessor {k} at {} size {size}", views[view].0 + off);
        if views[view].2 == Some(34962) {
            need!((views[view].0 + off) % 4 == 0, "gltf: vertex attribute is not 4-byte aligned", "accessor {k} at {}", views[view].0 + off);
        }
        need!(off + count * comps * size <= views[view].1, "gltf: accessor exceeds its bufferView", "accessor {k} {a} view {:?}", views[view]);
        let d = &bin[views[view].0 + off..][..count * comps * size];
        let (mut f, mut u) = (vec![], vec![]);
        match ct {
            5126 => f = d.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect(),
            5125 => u = d.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect(),
            5123 => u = d.chunks(2).map(|c| u16::from_le_bytes(c.try_into().unwrap()) as u32).collect(),
            _ => u = d.iter().map(|c| *c as u32).collect(),
        }
        if rules.finite {
            need!(f.iter().all(|x| x.is_finite()), "gltf: accessor value is not finite", "accessor {k} {}", owner(j, k));
        }
        for (key, ismax) in [("min", false), ("max", true)] {
            let m = &a[key];
            if m.is_null() {
                continue;
            }
            let Some(m) = m.as_array() else { bad!("gltf: accessor bounds", "{a}") };
            need!(m.len() == comps, "gltf: accessor bounds have the wrong length", "{a}");
            for c in 0..comps {
                let mut e: Option<f64> = None;
                let vals: Box<dyn Iterator<Item = f64>> = if ct == 5126 { Box::new(f.iter().skip(c).step_by(comps).map(|x| *x as f64)) } else { Box::new(u.iter().skip(c).step_by(comps).map(|x| *x as f64)) };
                for x in vals.filter(|x| !x.is_nan()) {
                    e = Some(match e {
                        None => x,
                        Some(y) if ismax => y.max(x),
                        Some(y) => y.min(x),
                    });
                }
                if !rules.finite && !e.is_some_and(|e| e.is_finite()) {
                    continue;
                }
                let got = m[c].as_f64().map(|x| x as f32);
                need!(got == e.map(|x| x as f32), "gltf: accessor bounds differ from its values", "accessor {k} {key}[{c}] = {} but is {e:?}", m[c]);
            }
        }
        accs.push(Acc { comps, ct, count, view, f, u });
    }
    if rules.finite {
        no_null(j, "")?;
    }
    // images, samplers, textures
    let images = arr(j, "images")?;
    for im in images {
        if !im["bufferView"].is_null() {
            let v = idx(&im["bufferView"], views.len(), "bufferView of an image")?;
            need!(im["mimeType"].is_string(), "gltf: image without mimeType", "{im}");
            need!(views[v].2.is_none(), "gltf: image bufferView has a target", "{im}");
            let d = &bin[views[v].0..][..views[v].1];
            let ok = match im["mimeType"].as_str().unwrap() {
                "image/png" => d.starts_with(b"\x89PNG"),
                "image/jpeg" => d.starts_with(b"\xff\xd8"),
                _ => true,
            };
            need!(ok, "gltf: image data is not of its mimeType", "{im} {:?}", &d[..d.len().min(8)]);
        } else {
            need!(im["uri"].is_string(), "gltf: image without data", "{im}");
        }
    }
    let samplers = arr(j, "samplers")?;
    for s in samplers {
        need!(matches!(s["magFilter"].as_u64(), None | Some(9728 | 9729)), "gltf: magFilter", "{s}");
        need!(matches!(s["minFilter"].as_u64(), None | Some(9728 | 9729 | 9984..=9987)), "gltf: minFilter", "{s}");
        for k in ["wrapS", "wrapT"] {
            need!(matches!(s[k].as_u64(), None | Some(33071 | 33648 | 10497)), "gltf: wrap mode", "{s}");
        }
    }
    let tex = arr(j, "textures")?;
    for t in tex {
        idx(&t["source"], images.len(), "image of a texture")?;
        if !t["sampler"].is_null() {
            idx(&t["sampler"], samplers.len(), "sampler of a texture")?;
        }
    }
    // materials
    let mats = arr(j, "materials")?;
    for m in mats {
        textures(m, tex.len(), 1)?;
        let p = &m["pbrMetallicRoughness"];
        if !p["baseColorFactor"].is_null() {
            nums(&p["baseColorFactor"], 4, "baseColorFactor", 0.0, 1.0)?;
        }
        for k in ["metallicFactor", "roughnessFactor"] {
            if !p[k].is_null() {
                num(&p[k], k, 0.0, 1.0)?;
            }
        }
        if !m["emissiveFactor"].is_null() {
            nums(&m["emissiveFactor"], 3, "emissiveFactor", 0.0, 1.0)?;
        }
        need!(m["alphaMode"].is_null() || ["OPAQUE", "MASK", "BLEND"].iter().any(|x| m["alphaMode"] == *x), "gltf: alphaMode", "{m}");
        need!(m["alphaCutoff"].is_null() || m["alphaMode"] == "MASK", "gltf: alphaCutoff without MASK", "{m}");
        let t = &m["extensions"]["KHR_materials_transmission"];
        if !t["transmissionFactor"].is_null() {
            num(&t["transmissionFactor"], "transmissionFactor", 0.0, 1.0)?;
        }
    }
    // meshes
    let mut doc = Doc { json: j.clone(), bin: bin.to_vec(), ..Doc::default() };
    for m in arr(j, "meshes")? {
        let prims = arr(m, "primitives")?;
        need!(!prims.is_empty(), "gltf: mesh without primitives", "{:.200}", m);
        let mut g = GMesh { name: m["name"].as_str().unwrap_or("").into(), prims: vec![] };
        for p in prims {
            need!(p["mode"].is_null() || p["mode"] == 4, "gltf: primitive mode", "{}", p["mode"]);
            let Some(at) = p["attributes"].as_object() else { bad!("gltf: primitive without attributes", "") };
            need!(at.contains_key("POSITION"), "gltf: primitive without POSITION", "");
            let mut q = Prim { extras: p["extras"].clone(), ..Prim::default() };
            let mut n = None;
            for (k, a) in at {
                let i = idx(a, accs.len(), "accessor of an attribute")?;
                let a = &accs[i];
                need!(n.is_none_or(|n| n == a.count), "gltf: attributes of different lengths", "{k} {} {n:?}", a.count);
                n = Some(a.count);
                need!(views[a.view].2 != Some(34963), "gltf: attribute in an index bufferView", "{k}");
                need!(a.ct == 5126, "gltf: attribute component type", "{k} {}", a.ct);
                match (k.as_str(), a.comps) {
                    ("POSITION", 3) => {
                        let acc = &j["accessors"][i];
                        need!(acc["min"].is_array() && acc["max"].is_array(), "gltf: POSITION without bounds", "{acc}");
                        q.pos = a.f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
                    }
                    ("NORMAL", 3) => q.norm = a.f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect(),
                    ("TEXCOORD_0", 2) => q.uv = a.f.chunks(2).map(|c| [c[0], c[1]]).collect(),
                    _ => bad!("gltf: unexpected attribute", "{k} with {} components", a.comps),
                }
            }
            if !p["indices"].is_null() {
                let i = idx(&p["indices"], accs.len(), "accessor of the indices")?;
                let a = &accs[i];
                need!(a.comps == 1 && a.ct != 5126, "gltf: index accessor type", "{} {}", a.comps, a.ct);
                need!(views[a.view].2 != Some(34962), "gltf: indices in a vertex bufferView", "");
                need!(a.count % 3 == 0, "gltf: indices are not whole triangles", "{}", a.count);
                let n = n.unwrap_or(0) as u32;
                if let Some(x) = a.u.iter().find(|x| **x >= n) {
                    bad!("gltf: vertex index out of range", "{x} of {n} in mesh {:?}", g.name);
                }
                let restart = match a.ct {
                    5121 => 255,
                    5123 => 65535,
                    _ => u32::MAX,
                };
                need!(!a.u.contains(&restart), "gltf: index is the primitive restart value", "mesh {:?}", g.name);
                q.idx = a.u.clone();
                q.u32_indices = a.ct == 5125;
            }
            if !p["material"].is_null() {
                q.material = Some(idx(&p["material"], mats.len(), "material of a mesh")?);
            }
            g.prims.push(q);
        }
        doc.meshes.push(g);
    }
    // cameras
    let cams = arr(j, "cameras")?;
    for c in cams {
        need!(c["type"] == "perspective" || c["type"] == "orthographic", "gltf: camera type", "{c}");
        if c["type"] == "perspective" {
            let p = &c["perspective"];
            let tiny = f64::MIN_POSITIVE;
            num(&p["yfov"], "camera yfov", tiny, std::f64::consts::PI)?;
            let n = num(&p["znear"], "camera znear", tiny, INF)?;
            if !p["zfar"].is_null() {
                let f = num(&p["zfar"], "camera zfar", tiny, INF)?;
                need!(f > n, "gltf: camera zfar is not beyond znear", "{n} {f}");
            }
            if !p["aspectRatio"].is_null() {
                num(&p["aspectRatio"], "camera aspectRatio", tiny, INF)?;
            }
        }
    }
    // lights
    let lights = arr(&j["extensions"]["KHR_lights_punctual"], "lights")?;
    for l in lights {
        need!(["point", "spot", "directional"].iter().any(|t| l["type"] == *t), "gltf: light type", "{l}");
        if !l["color"].is_null() {
            nums(&l["color"], 3, "light color", 0.0, 1.0)?;
        }
        if !l["intensity"].is_null() {
            num(&l["intensity"], "light intensity", 0.0, INF)?;
        }
        if !l["range"].is_null() {
            num(&l["range"], "light range", 0.0, INF)?;
        }
    }
    // nodes
    let nodes = arr(j, "nodes")?;
    doc.parent = vec![None; nodes.len()];
    let mut mesh_used = vec![0usize; doc.meshes.len()];
    let mut light_used = vec![0usize; lights.len()];
    let mut cam_used = vec![0usize; cams.len()];
    for (k, n) in nodes.iter().enumerate() {
        for c in arr(n, "children")? {
            let c = idx(c, nodes.len(), "child of a node")?;
            need!(doc.parent[c].is_none(), "gltf: node with two parents", "node {c} {}", nodes[c]["name"]);
            doc.parent[c] = Some(k);
        }
        if !n["mesh"].is_null() {
            mesh_used[idx(&n["mesh"], doc.meshes.len(), "mesh of a node")?] += 1;
        }
        if !n["camera"].is_null() {
            cam_used[idx(&n["camera"], cams.len(), "camera of a node")?] += 1;
        }
        let l = &n["extensions"]["KHR_lights_punctual"];
        if !l.is_null() {
            light_used[idx(&l["light"], lights.len(), "light of a node")?] += 1;
        }
        need!(n["matrix"].is_null() || (n["translation"].is_null() && n["rotation"].is_null() && n["scale"].is_null()), "gltf: node with matrix and TRS", "{k}");
        for (t, len) in [("matrix", 16), ("translation", 3), ("scale", 3), ("rotation", 4)] {
            if !n[t].is_null() {
                let v = nums(&n[t], len, &format!("node {t}"), -INF, INF)?;
                if t == "rotation" {
                    let s: f64 = v.iter().map(|x| x * x).sum();
                    need!((s - 1.0).abs() < 1e-3, "gltf: rotation is not a unit quaternion", "{v:?}");
                }
            }
        }
    }
    // reachability: every node belongs to the scene, no cycles
    let scenes = arr(j, "scenes")?;
    let s = idx(&j["scene"], scenes.len(), "scene")?;
    let mut seen = vec![false; nodes.len()];
    let mut todo = vec![];
    for r in arr(&scenes[s], "nodes")? {
        let r = idx(r, nodes.len(), "root node of the scene")?;
        need!(doc.parent[r].is_none(), "gltf: scene root has a parent", "{r}");
        todo.push(r);
    }
    while let Some(x) = todo.pop() {
        need!(!seen[x], "gltf: node reached twice", "{x}");
        seen[x] = true;
        todo.extend(arr(&nodes[x], "children")?.iter().map(|c| c.as_u64().unwrap() as usize));
    }
    for (k, s) in seen.iter().enumerate() {
        need!(*s, "gltf: node is not in the scene", "node {k} {}", nodes[k]["name"]);
    }
    for (what, u) in [("mesh", &mesh_used), ("light", &light_used), ("camera", &cam_used)] {
        if let Some(k) = u.iter().position(|n| *n != 1) {
            bad!(format!("gltf: {what} is not used by exactly one node"), "{what} {k} used {} times", u[k]);
        }
    }
    // extensions
    let mut used = BTreeSet::new();
    used_exts(j, &mut used);
    let decl: BTreeSet<String> = arr(j, "extensionsUsed")?.iter().filter_map(|x| x.as_str().map(String::from)).collect();
    for u in &used {
        need!(decl.contains(u), "gltf: extension used but not declared", "{u}");
    }
    for d in &decl {
        need!(used.contains(d), "gltf: extension declared but not used", "{d}");
    }
    for r in arr(j, "extensionsRequired")? {
        need!(r.as_str().is_some_and(|r| decl.contains(r)), "gltf: required extension is not declared", "{r}");
    }
    Ok(doc)
}

// ---------------------------------------------------------------- OBJ / MTL

#[derive(Default, Debug, Clone)]
pub struct ObjObject {
    pub name: String,
    /// (material, first face it applies to)
    pub mtl: Vec<(String, usize)>,
    pub faces: Vec<Vec<[usize; 3]>>,
}
#[derive(Default, Debug, Clone)]
pub struct Obj {
    pub objects: Vec<ObjObject>,
    pub v: Vec<[f64; 3]>,
    pub vt: Vec<[f64; 2]>,
    pub vn: Vec<[f64; 3]>,
    pub mtllib: Vec<String>,
    /// bytes of the `# vpx` comment before normal n
    pub vpx: BTreeMap<usize, Vec<u8>>,
    pub nonfinite: usize,
}

fn decimal(s: &str) -> Option<f64> {
    let b = s.strip_prefix(['+', '-']).unwrap_or(s);
    let (m, e) = match b.find(['e', 'E']) {
        Some(i) => (&b[..i], Some(&b[i + 1..])),
        None => (b, None),
    };
    let digits = |t: &str| t.chars().all(|c| c.is_ascii_digit());
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if (i.is_empty() && f.is_empty()) || !digits(i) || !digits(f) {
        return None;
    }
    if let Some(e) = e {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if e.is_empty() || !digits(e) {
            return None;
        }
    }
    s.parse().ok()
}

impl Obj {
    pub fn parse(b: &[u8], finite: bool) -> Result<Obj, Bad> {
        let Ok(s) = std::str::from_utf8(b) else { bad!("obj: not text", "") };
        let mut o = Obj::default();
        let mut pending: Option<Vec<u8>> = None;
        for (ln, line) in s.lines().enumerate() {
            let line = line.trim_end_matches('\r');
            if let Some(c) = line.strip_prefix('#') {
                if let Some(h) = c.strip_prefix(" vpx ") {
                    let v: Option<Vec<u8>> = h.split_whitespace().map(|x| u8::from_str_radix(x, 16).ok()).collect();
                    pending = v;
                }
                continue;
            }
            if line.trim().is_empty() {
                continue;
            }
            let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
            let mut fl = |n: usize| -> Result<Vec<f64>, Bad> {
                let v: Vec<&str> = rest.split_whitespace().collect();
                need!(v.len() == n, format!("obj: {k} statement with the wrong number of values"), "line {}: {line:?}", ln + 1);
                v.iter()
                    .map(|x| match decimal(x) {
                        Some(f) => {
                            if !f.is_finite() {
                                o.nonfinite += 1;
                            }
                            Ok(f)
                        }
                        None => {
                            let l = x.to_lowercase();
                            need!(!finite && matches!(l.trim_start_matches(['+', '-']), "nan" | "inf" | "infinity"), "obj: not a number", "line {}: {line:?}", ln + 1);
                            o.nonfinite += 1;
                            Ok(l.parse().unwrap_or(f64::NAN))
                        }
                    })
                    .collect()
            };
            match k {
                "v" => {
                    let v = fl(3)?;
                    o.v.push([v[0], v[1], v[2]]);
                }
                "vt" => {
                    let v = fl(2)?;
                    o.vt.push([v[0], v[1]]);
                }
                "vn" => {
                    let v = fl(3)?;
                    if let Some(p) = pending.take() {
                        o.vpx.insert(o.vn.len(), p);
                    }
                    o.vn.push([v[0], v[1], v[2]]);
                }
                "o" => o.objects.push(ObjObject { name: rest.to_string(), ..ObjObject::default() }),
                "f" => {
                    let mut f = vec![];
                    for c in rest.split_whitespace() {
                        let p: Vec<Option<usize>> = c.split('/').map(|x| x.parse().ok()).collect();
                        need!(p.len() == 3, "obj: face corner without texture coordinate or normal", "line {}: {line:?}", ln + 1);
                        let (Some(a), Some(t), Some(n)) = (p[0], p[1], p[2]) else { bad!("obj: face corner is not three indices", "line {}: {line:?}", ln + 1) };
                        let ok = a >= 1 && a <= o.v.len() && t >= 1 && t <= o.vt.len() && n >= 1 && n <= o.vn.len();
                        need!(ok, "obj: face index out of range", "line {}: {line:?} ({} {} {})", ln + 1, o.v.len(), o.vt.len(), o.vn.len());
                        f.push([a - 1, t - 1, n - 1]);
                    }
                    need!(f.len() >= 3, "obj: face with fewer than three corners", "line {}: {line:?}", ln + 1);
                    let Some(ob) = o.objects.last_mut() else { bad!("obj: face outside an object", "line {}", ln + 1) };
                    ob.faces.push(f);
                }
                "usemtl" => {
                    let Some(ob) = o.objects.last_mut() else { bad!("obj: usemtl outside an object", "line {}", ln + 1) };
                    let n = ob.faces.len();
                    ob.mtl.push((rest.to_string(), n));
                }
                "mtllib" => o.mtllib.push(rest.to_string()),
                "s" | "g" => {}
                _ => bad!("obj: unknown statement", "line {}: {line:?}", ln + 1),
            }
            if k != "vn" {
                pending = None;
            }
        }
        Ok(o)
    }
}

#[derive(Default, Debug, Clone)]
pub struct Mtl {
    pub name: String,
    pub kv: Vec<(String, String)>,
}
pub fn parse_mtl(b: &[u8]) -> Result<Vec<Mtl>, Bad> {
    let Ok(s) = std::str::from_utf8(b) else { bad!("mtl: not text", "") };
    let mut out: Vec<Mtl> = vec![];
    for (ln, line) in s.lines().enumerate() {
        let line = line.trim_end_matches('\r').trim_start();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        if k == "newmtl" {
            // the exporter documents empty names (parity with Visual Pinball)
            out.push(Mtl { name: rest.to_string(), kv: vec![] });
            continue;
        }
        let Some(m) = out.last_mut() else { bad!("mtl: statement outside a material", "line {}: {line:?}", ln + 1) };
        let nn = match k {
            "Ka" | "Kd" | "Ks" | "Ke" | "Tf" => 3,
            "Ns" | "Ni" | "d" | "Tr" | "illum" | "Pr" | "Pm" | "sharpness" => 1,
            "map_Kd" | "map_Ka" | "map_Ks" | "map_Bump" | "map_bump" | "bump" | "map_d" | "map_Ke" => {
                need!(!rest.trim().is_empty(), "mtl: texture without a file", "line {}", ln + 1);
                0
            }
            _ => bad!("mtl: unknown statement", "line {}: {line:?}", ln + 1),
        };
        if nn > 0 {
            let v: Vec<&str> = rest.split_whitespace().collect();
            let ok = v.len() == nn && v.iter().all(|x| decimal(x).is_some_and(|f| f.is_finite()));
            need!(ok, format!("mtl: {k} values"), "line {}: {line:?}", ln + 1);
        }
        m.kv.push((k.into(), rest.into()));
    }
    Ok(out)
}
