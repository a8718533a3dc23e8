//! C28: exported parts look as their items say: materials, textures, lights,
//! layers.
use super::agree::*;
use super::geom::*;
use crate::ensure;
use crate::meshfmt::*;
use crate::report::*;
use crate::rng::*;
use crate::scene::{GEO, scene_image};
use serde_json::Value;
use vpin::vpx::VPX;
use vpin::vpx::color::Color;
use vpin::vpx::export::obj_export::ObjExportOptions;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::image::ImageData;
use vpin::vpx::material::{Material, MaterialType, SaveMaterial};
use vpin::vpx::units::ExportUnits;

/// what an item says about the look of one of its parts
#[derive(Debug, Clone, Default)]
struct Look {
    mat: String,
    img: String,
    tint: Option<[f64; 4]>,
    /// the exporter chooses colours of its own for this part
    own: bool,
    ball: bool,
    /// material of the playfield: its roughness follows the reflections
    field: bool,
    through: Option<f32>,
}
fn rgb(c: Color) -> [f64; 3] {
    [c.r as f64 / 255.0, c.g as f64 / 255.0, c.b as f64 / 255.0]
}
fn tint(c: Color, a: f64) -> Option<[f64; 4]> {
    let [r, g, b] = rgb(c);
    Some([r, g, b, a])
}
fn look(v: &VPX, it: &GameItemEnum, part: &str) -> Option<Look> {
    let l = |m: &str, i: &str| Some(Look { mat: m.into(), img: i.into(), ..Look::default() });
    let own = Some(Look { own: true, ..Look::default() });
    match (it, part) {
        (GameItemEnum::Wall(w), "Top") => Some(Look { through: w.disable_lighting_below, ..l(&w.top_material, &w.image)? }),
        (GameItemEnum::Wall(w), "Side") => Some(Look { through: w.disable_lighting_below, ..l(&w.side_material, &w.side_image)? }),
        (GameItemEnum::Ramp(x), "") => l(&x.material, &x.image),
        (GameItemEnum::Rubber(x), "") => l(&x.material, ""),
        (GameItemEnum::Flasher(x), "") => Some(Look { tint: tint(x.color, x.alpha as f64 / 100.0), ..l("", &x.image_a)? }),
        (GameItemEnum::Flipper(x), "Base") => l(&x.material, x.image.as_deref().unwrap_or("")),
        (GameItemEnum::Flipper(x), "Rubber") => l(&x.rubber_material, ""),
        (GameItemEnum::Bumper(x), "Base") => l(&x.base_material, ""),
        (GameItemEnum::Bumper(x), "Socket" | "Skirt") => l(&x.socket_material, ""),
        (GameItemEnum::Bumper(x), "Ring") => l(x.ring_material.as_deref().unwrap_or(""), ""),
        (GameItemEnum::Bumper(x), "Cap") => l(&x.cap_material, ""),
        (GameItemEnum::Spinner(_), "Bracket") => own,
        (GameItemEnum::Spinner(x), "Plate") => l(&x.material, &x.image),
        (GameItemEnum::HitTarget(x), "") => l(&x.material, &x.image),
        (GameItemEnum::Gate(x), "Bracket" | "Wire") => l(&x.material, ""),
        (GameItemEnum::Trigger(x), "") => l(&x.material, ""),
        (GameItemEnum::Plunger(x), "Flat" | "Rod" | "Spring" | "Ring" | "Tip") => l(&x.material, &x.image),
        (GameItemEnum::Kicker(_), "Plate" | "Kicker") => own,
        (GameItemEnum::Decal(x), "") => l(&x.material, &x.image),
        (GameItemEnum::Light(_), "_bulb" | "_socket") => own,
        (GameItemEnum::Light(x), "_insert") => Some(Look { tint: Some([rgb(x.color)[0], rgb(x.color)[1], rgb(x.color)[2], f64::NAN]), ..l("", if x.is_bulb_light { "" } else { &x.image })? }),
        (GameItemEnum::Ball(x), "") => {
            let img = if !(x.decal_mode || v.gamedata.ball_decal_mode) {
                ""
            } else if x.image_decal.is_empty() {
                &v.gamedata.ball_image_front
            } else {
                &x.image_decal
            };
            let white = rgb(x.color) == [1.0; 3];
            Some(Look { tint: if white { None } else { tint(x.color, 1.0) }, ball: true, ..l("", img)? })
        }
        (GameItemEnum::Primitive(x), "") => l(&x.material, &x.image),
        _ => None,
    }
}
/// the image with this name, if it has data of its own
fn image<'a>(v: &'a VPX, name: &str) -> Option<&'a ImageData> {
    v.images.iter().find(|i| !name.is_empty() && i.name.eq_ignore_ascii_case(name)).filter(|i| i.bits.is_some() || i.jpeg.as_ref().is_some_and(|j| !j.data.is_empty()))
}
struct Mat {
    base: [f64; 3],
    glossy: [f64; 3],
    alpha: f64,
    /// see through
    blend: bool,
    metal: bool,
    rough: f64,
}
fn material(ms: &[Material], name: &str, cased: bool) -> Option<Mat> {
    ms.iter().find(|m| !name.is_empty() && (m.name == name || !cased && m.name.eq_ignore_ascii_case(name))).map(|m| Mat {
        base: rgb(m.base_color),
        glossy: rgb(m.glossy_color),
        alpha: if m.opacity_active { m.opacity as f64 } else { 1.0 },
        blend: m.opacity_active && m.opacity < 0.999,
        metal: m.type_ == MaterialType::Metal,
        rough: 1.0 - m.roughness as f64,
    })
}
/// red, green, blue, alpha of every pixel of a stored bitmap
fn stored(im: &ImageData) -> Result<Vec<u8>, Viol> {
    let (mut px, _) = crate::oracle::lzw_decode(&im.bits.as_ref().unwrap().lzw_compressed_data).map_err(|e| Viol { sig: "a stored bitmap can not be read".into(), detail: e })?;
    for c in px.chunks_exact_mut(4) {
        c.swap(0, 2);
    }
    Ok(px)
}
fn see_through(im: &ImageData) -> Result<Option<bool>, Viol> {
    if let Some(o) = im.is_opaque {
        return Ok(Some(!o));
    }
    if im.jpeg.is_none() {
        return Ok(Some(stored(im)?.chunks_exact(4).any(|c| c[3] != 255)));
    }
    let d = &im.jpeg.as_ref().unwrap().data;
    Ok(image::load_from_memory(d).ok().map(|i| i.to_rgba8().pixels().any(|p| p.0[3] != 255)))
}
/// the bytes of a texture show the image
fn shows(what: &str, im: &ImageData, b: &[u8], f: image::ImageFormat) -> Res {
    if let Some(j) = &im.jpeg {
        ensure!(j.data == b, format!("a texture is not the image of the table ({what})"), "{:?}: {} bytes instead of {}", im.name, b.len(), j.data.len());
    } else {
        let d = match image::load_from_memory_with_format(b, f) {
            Ok(d) => d.to_rgba8(),
            Err(e) => return viol(format!("a texture can not be read ({what})"), format!("{:?}: {e}", im.name)),
        };
        ensure!((d.width(), d.height()) == (im.width, im.height), format!("a texture has another size ({what})"), "{:?}", im.name);
        ensure!(d.into_raw() == stored(im)?, format!("a texture shows other pixels ({what})"), "{:?}", im.name);
    }
    Ok(())
}
fn texture<'a>(d: &'a Doc, t: &Value) -> Option<(&'a str, &'a [u8], &'a str)> {
    let t = &d.json["textures"][t.as_u64()? as usize];
    let i = &d.json["images"][t["source"].as_u64()? as usize];
    let w = &d.json["bufferViews"][i["bufferView"].as_u64()? as usize];
    let (o, n) = (w["byteOffset"].as_u64().unwrap_or(0) as usize, w["byteLength"].as_u64()? as usize);
    Some((i["name"].as_str()?, d.bin.get(o..o + n)?, i["mimeType"].as_str()?))
}
const MIME: &[(&str, &str)] = &[("png", "image/png"), ("jpg", "image/jpeg"), ("webp", "image/webp")];

/// items with the look the tests are about
fn world(r: &mut R) -> (VPX, Vec<Material>) {
    let n = 1 + r.below(8);
    let (mut s, mut its) = items(r, n, GEO);
    s.images.push("Field Image".into());
    // materials whose names look the same in an MTL file
    s.materials.extend(["Two Parts".to_string(), "TwoParts".into()]);
    for it in &mut its {
        show(it, true);
        if matches!(it, GameItemEnum::Light(_)) && r.bool() {
            let n = it.name().replace('I', r.pick::<&str>(&["gi", "GI", "Gi", "Logi", "_gi"]));
            set_name(it, n);
        }
        if let GameItemEnum::Flasher(f) = it {
            f.alpha = r.below(101) as _;
        }
    }
    let mut v = table(r, &s, its);
    // the one item that stands for the playfield
    if r.chance(1, 4)
        && let Some(p) = v.gameitems.iter_mut().find(|g| matches!(g, GameItemEnum::Primitive(_)))
    {
        set_name(p, r.pick(&["playfield_mesh", "Playfield_Mesh"]).to_string());
    }
    // materials can not be copied: made twice from the same numbers
    let seed = r.u64();
    let make = |n: &String| {
            let r = &mut R::new(mix(seed, hash_str(n)));
            let mut m = Material::default();
            m.name = n.clone();
            m.opacity = *r.pick(&[0.0, 0.5, 0.998, 0.999, 1.0, 0.25]);
            m.opacity_active = r.bool();
            m.roughness = r.f32_in(0.0, 1.0);
            m.base_color = Color::from_win_color(if r.chance(1, 4) { 0xffffff } else { r.u32() & 0xffffff });
            m.glossy_color = Color::from_win_color(r.u32() & 0xffffff);
            m.type_ = if r.chance(1, 3) { MaterialType::Metal } else { MaterialType::Basic };
            m
    };
    let ms: Vec<Material> = s.materials.iter().map(make).collect();
    let g = &mut v.gamedata;
    g.materials_old = ms.iter().map(SaveMaterial::from).collect();
    g.materials_physics_old = Some(ms.iter().map(|m| m.into()).collect());
    g.materials = g.materials.is_some().then(|| s.materials.iter().map(make).collect());
    g.playfield_material = if r.bool() { r.pick(&s.materials).clone() } else { String::new() };
    g.image = r.pick(&["", "Field Image", "field image", "not there"]).to_string();
    g.ball_image_front = r.pick(&["", "Field Image", "img0"]).to_string();
    g.ball_decal_mode = r.bool();
    g.light_emission_scale = r.f32_in(0.0, 4_000_000.0);
    g.global_emission_scale = r.f32_in(0.0, 1.0);
    g.light0_emission = Color::from_win_color(r.u32() & 0xffffff);
    for n in ["not a texture".to_string(), "Other".into()] {
        v.images.push(scene_image(r, &n));
    }
    for i in &mut v.images {
        i.is_opaque = if r.chance(1, 6) { Some(r.bool()) } else { None };
        if let Some(j) = &mut i.jpeg
            && j.data.is_empty()
        {
            j.data.push(7);
        }
    }
    v.gamedata.images_size = v.images.len() as u32;
    let two = |r: &mut R, n: &mut String| {
        if r.chance(1, 3) {
            *n = r.pick(&["Two Parts", "TwoParts"]).to_string()
        }
    };
    for it in &mut v.gameitems {
        match it {
            GameItemEnum::Wall(x) => {
                two(r, &mut x.top_material);
                two(r, &mut x.side_material);
            }
            GameItemEnum::Ramp(x) => two(r, &mut x.material),
            GameItemEnum::Primitive(x) => two(r, &mut x.material),
            GameItemEnum::HitTarget(x) => two(r, &mut x.material),
            GameItemEnum::Rubber(x) => two(r, &mut x.material),
            GameItemEnum::Plunger(x) => two(r, &mut x.material),
            GameItemEnum::Spinner(x) => two(r, &mut x.material),
            _ => {}
        }
    }
    // references that name an image in other letters, or none there is
    let odd = |r: &mut R, n: &mut String| match r.below(8) {
        0 if !n.is_empty() => *n = n.to_uppercase(),
        1 => *n = "not there".into(),
        2 => *n = "OTHER".into(),
        _ => (),
    };
    for it in &mut v.gameitems {
        match it {
            GameItemEnum::Wall(x) => {
                odd(r, &mut x.image);
                odd(r, &mut x.side_image);
            }
            GameItemEnum::Ramp(x) => odd(r, &mut x.image),
            GameItemEnum::Primitive(x) => odd(r, &mut x.image),
            GameItemEnum::HitTarget(x) => odd(r, &mut x.image),
            GameItemEnum::Flasher(x) => odd(r, &mut x.image_a),
            GameItemEnum::Plunger(x) => odd(r, &mut x.image),
            GameItemEnum::Decal(x) => odd(r, &mut x.image),
            GameItemEnum::Spinner(x) => odd(r, &mut x.image),
            GameItemEnum::Flipper(x) => {
                if let Some(i) = &mut x.image {
                    odd(r, i)
                }
            }
            _ => {}
        }
    }
    (v, ms)
}
fn set_name(it: &mut GameItemEnum, n: String) {
    crate::model::set_item_name(it, n)
}
fn field(it: &GameItemEnum) -> bool {
    matches!(it, GameItemEnum::Primitive(p) if p.name.eq_ignore_ascii_case("playfield_mesh"))
}
/// the item a mesh belongs to and the part of it that it is
fn owner<'a, 'b>(v: &'a VPX, mesh: &'b str) -> Option<(&'a GameItemEnum, &'b str)> {
    v.gameitems.iter().find_map(|g| mesh.strip_prefix(g.name()).map(|p| (g, p)))
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("one evaluation = one table exported; distinct = combinations of item type, part, material and texture that were compared");
    ctx.assume("names of materials are written in the same letters where they are used (the two exports differ otherwise), names of images differ not only by case; parts for which the exporter chooses a colour of its own (kickers, bulbs, the bracket of a spinner) are not compared");
    let deep = ctx.thorough();
    let (n, t) = if deep { (60_000, 200.0) } else { (4000, 9.0) };

    ctx.cases("glTF", n, t, |r, _| {
        let (v, ms) = world(r);
        let (d, _) = gltf(&v, r.bool(), *r.pick(&UNITS), r.bool())?;
        for g in &d.meshes {
            let m = &g.name;
            let fieldlook = || Look { mat: v.gamedata.playfield_material.clone(), img: v.gamedata.image.clone(), field: true, ..Look::default() };
            let (l, what) = match owner(&v, m) {
                Some((it, _)) if field(it) => (fieldlook(), "playfield".to_string()),
                Some((it, part)) => match look(&v, it, part) {
                    Some(l) => (l, format!("{}{part}", it.type_name())),
                    None => return viol("a mesh is no part of its item", format!("{m:?} {}", it.type_name())),
                },
                None if m == "playfield_mesh" => (fieldlook(), "playfield".into()),
                None => return viol("a mesh belongs to no item", format!("{m:?}")),
            };
            if l.own {
                continue;
            }
            let j = match g.prims[0].material {
                Some(i) => d.json["materials"][i].clone(),
                None => Value::Null,
            };
            let pbr = &j["pbrMetallicRoughness"];
            let tex = &pbr["baseColorTexture"]["index"];
            let (im, mat) = (image(&v, &l.img), material(&ms, &l.mat, true));
            let sig = |s: &str| format!("{s} (glTF {what})");
            // texture
            match im {
                Some(im) => {
                    let Some((name, bytes, mime)) = texture(&d, tex) else { return viol(sig("a part has lost its texture"), format!("{m} {l:?} {j}")) };
                    ensure!(name == im.name, sig("a part has the texture of another image"), "{m}: {name:?} instead of {:?}", im.name);
                    shows("glTF", im, bytes, image::ImageFormat::Png)?;
                    let want = if im.bits.is_some() { Some("image/png") } else { MIME.iter().find(|x| im.path.ends_with(x.0)).map(|x| x.1) };
                    ensure!(want.is_none_or(|w| w == mime), "a texture is declared as another format", "{:?} {mime}", im.path);
                    if l.tint.is_none() && !l.ball && see_through(im)? == Some(true) {
                        ensure!(j["alphaMode"] == "BLEND", sig("a part with a transparent texture is opaque"), "{m} {j}");
                        ctx.count("transparent textures", 1);
                    }
                    ctx.count("textured parts", 1);
                }
                None => {
                    ensure!(tex.is_null(), sig("a part without texture is exported with one"), "{m} {l:?} {:?}", texture(&d, tex).map(|t| t.0));
                    if !l.img.is_empty() {
                        ctx.count("parts naming a missing image", 1);
                    }
                }
            }
            let f: Vec<f64> = pbr["baseColorFactor"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or(vec![1.0; 4]);
            let near = |a: f64, b: f64, e: f64| (a - b).abs() <= e;
            // an absent number is 1 by the format
            let num = |k: &str| pbr[k].as_f64().unwrap_or(1.0);
            if let Some(t) = l.tint {
                ensure!((0..4).all(|i| t[i].is_nan() || near(f[i], t[i], 1e-5)), sig("a part has another colour than its item"), "{m}: {f:?} instead of {t:?}");
                if l.ball {
                    ensure!(num("metallicFactor") == 1.0, "a ball is not metallic", "{j}");
                }
                ctx.count("parts with a colour of their item", 1);
            } else if let Some(w) = &mat {
                ensure!(!j.is_null(), sig("a part has lost its material"), "{m} {l:?}");
                let e = if im.is_some() && w.base.iter().all(|x| *x >= 0.99) { 0.011 } else { 1e-5 };
                ensure!((0..3).all(|i| near(f[i], w.base[i], e)), sig("a part has another colour than its material"), "{m}: {f:?} instead of {:?} {l:?}", w.base);
                ensure!(num("metallicFactor") == w.metal as u8 as f64, sig("a part is metal or not unlike its material"), "{m} {j}");
                if im.is_none() {
                    ensure!(near(f[3], w.alpha, 1e-5), sig("a part has another opacity than its material"), "{m}: {} instead of {}", f[3], w.alpha);
                    ensure!((j["alphaMode"] == "BLEND") == w.blend, sig("a part is blended or not unlike its material"), "{m} {j}");
                    ensure!(l.field || near(num("roughnessFactor"), w.rough, 1e-5), sig("a part has another roughness than its material"), "{m}: {} instead of {}", num("roughnessFactor"), w.rough);
                    ctx.count("parts with a plain material", 1);
                } else if w.blend {
                    ensure!(w.base.iter().all(|x| *x >= 0.99) || j["alphaMode"] == "BLEND", sig("a textured part of a transparent material is opaque"), "{m} {j}");
                }
                ctx.count("parts with a material", 1);
                ctx.count(if w.metal { "metal parts" } else { "other parts" }, 1);
            } else if !l.ball {
                ensure!((0..3).all(|i| near(f[i], 1.0, 1e-5)), sig("a part without material is exported with a colour"), "{m}: {f:?} {l:?}");
                ensure!(j.is_null() || num("metallicFactor") == 0.0, sig("a part without material is exported as metal"), "{m} {j}");
                ctx.count("parts without material", 1);
            }
            let tr = j["extensions"]["KHR_materials_transmission"]["transmissionFactor"].as_f64().unwrap_or(0.0);
            if what.starts_with("Wall") {
                let x = l.through.map_or(0.0, |x| 1.0 - x.min(1.0)) as f64;
                ensure!((tr > 0.0) == (x > 0.0) && tr <= x, sig("light shines through a part unlike its item says"), "{m}: {tr} {x}");
                ctx.count(if tr > 0.0 { "parts that let light through" } else { "parts that let no light through" }, 1);
            }
            ctx.distinct(hash_str(&format!("{what} {:?} {:?} {}", mat.as_ref().map(|m| (m.blend, m.metal)), im.map(|i| i.bits.is_some()), l.img.is_empty())));
            ctx.count(&format!("parts: {what}"), 1);
        }
        Ok(())
    });

    ctx.cases("OBJ", n, t, |r, _| {
        let (v, ms) = world(r);
        let o = ObjExportOptions { include_plunger: true, ..g_obj_opts(r) };
        let x = obj_of(&v, &o)?;
        let mut fieldname = 0;
        for b in &x.obj.objects {
            let (l, what) = if b.name == v.gamedata.name {
                fieldname += 1;
                (Look { mat: v.gamedata.playfield_material.clone(), img: v.gamedata.image.clone(), ..Look::default() }, "playfield".to_string())
            } else {
                let Some((it, part)) = owner(&v, &b.name) else { return viol("an object belongs to no item", format!("{:?}", b.name)) };
                let l = match (it, part) {
                    _ if field(it) => Some(Look { mat: v.gamedata.playfield_material.clone(), img: v.gamedata.image.clone(), ..Look::default() }),
                    // as in Visual Pinball: the top alone names its image as its material
                    (GameItemEnum::Wall(w), "") if w.is_top_bottom_visible && !w.is_side_visible => Some(Look { mat: if w.image.is_empty() { "none" } else { &w.image }.into(), img: w.image.clone(), ..Look::default() }),
                    (GameItemEnum::Wall(w), "") if w.is_top_bottom_visible => look(&v, it, "Top"),
                    (GameItemEnum::Wall(_), "") => look(&v, it, "Side"),
                    (GameItemEnum::Kicker(k), "" | "Plate") => Some(Look { mat: k.material.clone(), ..Look::default() }),
                    // as in Visual Pinball these name no material
                    (GameItemEnum::Bumper(_), "Ring") | (GameItemEnum::Spinner(_), "Plate") => Some(Look { own: true, ..Look::default() }),
                    (GameItemEnum::Spinner(s), "Bracket") => Some(Look { mat: s.material.clone(), ..Look::default() }),
                    _ => look(&v, it, part),
                };
                let Some(l) = l else { return viol("an object is no part of its item", format!("{:?} {}", b.name, it.type_name())) };
                (l, format!("{}{part}", it.type_name()))
            };
            if l.own {
                continue;
            }
            let sig = |s: &str| format!("{s} (OBJ {what})");
            ensure!(b.mtl.len() == 1 && b.mtl[0].1 == 0, sig("a part does not name one material for all its faces"), "{:?} {:?}", b.name, b.mtl);
            let blocks: Vec<&Mtl> = x.mtl.iter().filter(|m| m.name == b.mtl[0].0).collect();
            ensure!(!blocks.is_empty(), "a part names a material that is not there", "{:?}", b.mtl);
            let fits = |m: &Mtl| -> Res {
                let get = |k: &str| m.kv.iter().find(|x| x.0 == k).map(|x| x.1.trim());
                let nums = |k: &str| -> Vec<f64> { get(k).unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect() };
                let w = material(&ms, &l.mat, false).unwrap_or(Mat { base: [1.0; 3], glossy: [0.0; 3], alpha: 1.0, blend: false, metal: false, rough: 0.0 });
                let near = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() < 1e-4);
                ensure!(near(&nums("Kd"), &w.base), sig("a part has another colour than its material"), "{:?} {:?} instead of {:?}", b.name, m, w.base);
                let ks = if w.metal { w.base } else { w.glossy };
                ensure!(near(&nums("Ks"), &ks), sig("a part shines in another colour than its material"), "{:?} {:?} instead of {ks:?}", b.name, m);
                ensure!(near(&nums("d"), &[w.alpha]), sig("a part has another opacity than its material"), "{:?} {:?} instead of {}", b.name, m, w.alpha);
                match image(&v, &l.img).filter(|_| o.extract_textures) {
                    Some(im) => {
                        let Some(p) = get("map_Kd") else { return viol(sig("a part has lost its texture"), format!("{:?} {l:?} {m:?}", b.name)) };
                        let f = std::path::Path::new("/x/out").join(p);
                        let Some(bytes) = x.images.get(&f) else { return viol("a texture file is not there", p.to_string()) };
                        shows("OBJ", im, bytes, image::ImageFormat::Bmp)?;
                        ensure!(m.kv.iter().filter(|x| x.0.starts_with("map_")).all(|x| x.1.trim() == p), "a material names several textures", "{m:?}");
                        ctx.count("textured parts of OBJ", 1);
                    }
                    None => ensure!(!m.kv.iter().any(|x| x.0.starts_with("map_")), sig("a part without texture is exported with one"), "{:?} {l:?} {m:?}", b.name),
                }
                Ok(())
            };
            // a file exactly like Visual Pinball's has a block for every use,
            // and names that differ only in spaces become one
            let mut bad = None;
            let mut good = 0;
            for m in &blocks {
                match fits(m) {
                    Ok(()) => good += 1,
                    Err(e) => bad = Some(e),
                }
            }
            if let Some(e) = bad
                && (o.dedup_mtl_blocks || good == 0)
            {
                return Err(e);
            }
            ctx.count("parts of OBJ", 1);
            ctx.distinct(hash_str(&format!("OBJ {what} {} {}", l.mat.is_empty(), l.img.is_empty())));
        }
        ensure!(fieldname == 1, "the playfield is not exported once", "{fieldname}");
        Ok(())
    });

    ctx.cases("lights and layers", n, t, |r, _| {
        let (v, _) = world(r);
        let (d, _) = gltf(&v, r.bool(), ExportUnits::Vpu, r.bool())?;
        let none = vec![];
        let lights = d.json["extensions"]["KHR_lights_punctual"]["lights"].as_array().unwrap_or(&none);
        let nodes = d.json["nodes"].as_array().unwrap_or(&none);
        let at = |name: &str| -> Vec<(usize, &Value)> {
            nodes
                .iter()
                .enumerate()
                .filter_map(|(i, n)| {
                    let l = n["extensions"]["KHR_lights_punctual"]["light"].as_u64()?;
                    (lights[l as usize]["name"] == name).then(|| (i, &lights[l as usize]))
                })
                .collect()
        };
        let near = |a: &Value, b: &[f64]| a.as_array().is_some_and(|a| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.as_f64().unwrap_or(f64::NAN) - y).abs() <= 1e-5 * y.abs().max(1.0)));
        let g = &v.gamedata;
        for k in 0..2 {
            let l = at(&format!("TableLight{k}"));
            ensure!(l.len() == 1, "a light of the table is not there once", "{k} {}", l.len());
            ensure!(near(&l[0].1["color"], &rgb(g.light0_emission)), "a light of the table has another colour", "{} {:?}", l[0].1, g.light0_emission);
            let want = [(g.left + g.right) as f64 / 2.0, g.light_height as f64, g.bottom as f64 * (k + 1) as f64 / 3.0];
            ensure!(near(&nodes[l[0].0]["translation"], &want), "a light of the table is elsewhere", "{} instead of {want:?}", nodes[l[0].0]["translation"]);
            let bright = rgb(g.light0_emission).iter().sum::<f64>() / 3.0;
            let want = g.light_emission_scale as f64 * g.global_emission_scale as f64 * 0.001 * bright;
            let is = l[0].1["intensity"].as_f64().unwrap_or(-1.0);
            ensure!((is - want).abs() <= 1e-4 * want.max(1.0), "a light of the table has another intensity", "{is} instead of {want}");
            ctx.count("lights of the table", 1);
        }
        let mut gi = 0;
        for it in &v.gameitems {
            // the layer of the item is a node above all its nodes
            let mine: Vec<usize> = nodes.iter().enumerate().filter(|(_, n)| (!n["mesh"].is_null() || n["extensions"].get("KHR_lights_punctual").is_some()) && n["name"].as_str().is_some_and(|s| s.starts_with(it.name()))).map(|(i, _)| i).collect();
            let want = {
                macro_rules! layer {
                    ($($t:ident),*) => { match it { $(GameItemEnum::$t(x) => (x.editor_layer_name.clone(), x.editor_layer),)* _ => (None, None) } };
                }
                let (n, k) = layer!(Wall, Flipper, Plunger, Bumper, Trigger, Light, Kicker, Decal, Gate, Spinner, Ramp, Primitive, Flasher, Rubber, HitTarget, Ball);
                match n {
                    Some(n) if !n.is_empty() => Some(format!("Layer_{n}")),
                    _ => k.map(|k| format!("Layer_{}", k + 1)),
                }
            };
            for i in mine {
                let (mut up, mut extras, mut layer) = (Some(i), 0, None);
                while let Some(k) = up {
                    let n = &nodes[k];
                    if n["extras"]["name"] == it.name() {
                        extras += 1;
                    }
                    if d.parent[k].is_some() && d.parent[k].and_then(|p| d.parent[p]).is_none() && n["children"].is_array() {
                        layer = n["name"].as_str().filter(|s| s.starts_with("Layer_")).map(str::to_string);
                    }
                    up = d.parent[k];
                }
                ensure!(layer == want, format!("a part is in another layer than its item ({})", it.type_name()), "{}: {layer:?} instead of {want:?}", nodes[i]["name"]);
                ensure!(extras == 1, format!("a part does not carry the data of its item once ({})", it.type_name()), "{}: {extras}", nodes[i]["name"]);
                ctx.count(if want.is_some() { "parts in layers" } else { "parts without layer" }, 1);
            }
            let GameItemEnum::Light(l) = it else { continue };
            let found = at(&l.name);
            if l.is_backglass || !l.name.to_lowercase().starts_with("gi") {
                ensure!(found.is_empty(), "a light that is none of the general illumination is exported as one", "{}", l.name);
                continue;
            }
            gi += 1;
            ensure!(found.len() == 1, "a light of the general illumination is not there once", "{} {}", l.name, found.len());
            let (k, j) = found[0];
            ensure!(near(&j["color"], &rgb(l.color)), "a light has another colour", "{j} {:?}", l.color);
            let range = if l.drag_points.is_empty() { l.falloff_radius as f64 } else { l.drag_points.iter().map(|p| ((p.x - l.center.x) as f64).hypot((p.y - l.center.y) as f64)).fold(0.0, f64::max) };
            ensure!((j["range"].as_f64().unwrap_or(0.0) - range).abs() <= 1e-3 * range.max(1.0), "a light reaches elsewhere", "{j} instead of {range}");
            let p = &nodes[k]["translation"];
            ensure!(near(&p[0], &[]) || ((p[0].as_f64().unwrap_or(f64::NAN) - l.center.x as f64).abs() < 1e-2 && (p[2].as_f64().unwrap_or(f64::NAN) - l.center.y as f64).abs() < 1e-2), "a light is elsewhere", "{p} instead of {:?}", l.center);
            if v.version.u32() >= 1080 && l.surface.is_empty() {
                let h = l.height.unwrap_or(0.0) as f64;
                let h = if h.abs() < 0.001 { 10.0 / (25.4 * 1.0625 / 50.0) } else { h };
                ensure!((p[1].as_f64().unwrap_or(f64::NAN) - h).abs() < 1e-2, "a light is at another height", "{p} instead of {h}");
                ctx.count("heights of lights", 1);
            }
            let i = j["intensity"].as_f64().unwrap_or(-1.0);
            ensure!(i > 0.0 && (i - (l.intensity as f64 * 0.1).clamp(0.01, 10.0)).abs() < 1e-4, "a light has another intensity", "{j} {}", l.intensity);
            ctx.count("lights of items", 1);
        }
        ensure!(lights.len() == 2 + gi, "other lights than those of the table", "{} {gi}", lights.len());
        Ok(())
    });
    for k in ["textured parts", "transparent textures", "parts naming a missing image", "parts with a colour of their item", "parts with a plain material", "metal parts", "parts without material", "parts that let light through", "textured parts of OBJ", "parts of OBJ", "lights of items", "heights of lights", "parts in layers", "parts without layer", "parts: playfield"] {
        ctx.require(k, 50);
    }
}
