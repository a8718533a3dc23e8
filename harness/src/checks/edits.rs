//! C05 lock counter, C06 frame conditions of in-place edits, C08 WebP
//! conversion, C09 scripts, C23 API histories.
use super::c04_mac::check_mac;
use crate::ensure;
use crate::model::*;
use crate::report::*;
use crate::rng::{R, hash_bytes, hash_str, mix};
use crate::snap::{self, Kind, Rec, Snap};
use crate::util::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::path::Path;
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::model::StringEncoding;
use vpin::vpx::{self, AddImageResult, ExtractResult, VPX};

fn small(r: &mut R) -> Cfg {
    Cfg { items: r.below(4), assets: r.below(3), ..Cfg::binary() }
}
fn load(p: &Path) -> Result<(Vec<u8>, Snap), Viol> {
    let b = std::fs::read(p).unwrap();
    match snap::snap(&b) {
        Ok(s) => Ok((b, s)),
        Err(e) => viol("file unreadable after the operation", e),
    }
}
fn storages(b: &[u8]) -> BTreeSet<String> {
    let c = cfb::CompoundFile::open(std::io::Cursor::new(b)).unwrap();
    c.walk().filter(|e| e.is_storage()).map(|e| format!("{} {}", e.path().display(), e.clsid())).collect()
}
fn recs(s: &Snap, n: &str) -> Result<Vec<Rec>, Viol> {
    let k = snap::stream_kind(n).unwrap();
    match s.get(n) {
        None => viol(format!("stream missing: {n}"), ""),
        Some(d) => snap::parse(d, k).map_err(|e| Viol { sig: "stream not well-formed".into(), detail: format!("{n}: {e}") }),
    }
}
fn tlck(s: &Snap) -> Result<Option<u32>, Viol> {
    Ok(recs(s, "/GameStg/GameData")?.iter().find(|r| r.tag == "TLCK").map(|r| u32::from_le_bytes(r.data[..4].try_into().unwrap())))
}
/// add streams and storages this library does not know
fn add_foreign(s: &mut Snap, r: &mut R) {
    s.insert("/GameStg/Unknown7".into(), r.blob());
    s.insert("/Foreign/Deep/Stream".into(), r.blob());
    if r.bool() {
        // leftovers of deleted assets
        s.insert("/GameStg/GameItem9999".into(), r.blob());
        s.insert("/GameStg/Image9999".into(), r.blob());
    }
}

pub fn run_c05(ctx: &Ctx) {
    ctx.rule("a case is one history of 1..14 lock/unlock/is_locked calls, with random reopenings, on a random table whose counter starts absent, zero, odd, even or at an extreme; every call is compared with a counter model and the file with its predecessor; non-trivial: distinct (start, history)");
    let th = ctx.thorough();
    ctx.cases("histories", if th { 60000 } else { 2500 }, if th { 900. } else { 15. }, |r, i| {
        let d = Scratch::new("c05");
        let p = d.path("t.vpx");
        let c = small(r);
        let mut v = g_vpx(r, &c);
        let start = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(7), Some(0x7fff_ffff), Some(0x8000_0000), Some(u32::MAX - 1), Some(u32::MAX), Some(u32::MAX - 2), Some(256), Some(255)]);
        v.gamedata.locked = start;
        sut_ok("write", || vpx::write(&p, &v))?;
        if r.bool() {
            let (_, mut s) = load(&p)?;
            add_foreign(&mut s, r);
            std::fs::write(&p, snap::build(&s)).unwrap();
        }
        let mut model = start;
        let mut hist = String::new();
        let n = 1 + r.below(14);
        let mut handle: Option<vpx::VpxFile<std::fs::File>> = None;
        let (mut before_b, mut before) = load(&p)?;
        for _ in 0..n {
            if handle.is_none() || r.chance(1, 3) {
                drop(handle.take());
                handle = Some(sut_ok("open_rw", || vpx::open_rw(&p))?);
                hist.push('o');
            }
            let f = handle.as_mut().unwrap();
            let odd = model.unwrap_or(0) & 1 == 1;
            let op = r.below(4);
            let mut changed = false;
            match op {
                0 => {
                    hist.push('?');
                    let got = if r.bool() { sut_ok("is_locked", || f.is_locked())? } else { sut_ok("is_locked", || vpx::open(&p)?.is_locked())? };
                    ensure!(got == odd, "is_locked disagrees with the stored counter", "{got} for {model:?} after {hist}");
                }
                1 | 2 => {
                    hist.push('L');
                    let got = sut_ok("lock", || f.lock())?;
                    ensure!(got == !odd, "lock reports the wrong change", "{got} for {model:?} after {hist}");
                    changed = !odd;
                }
                _ => {
                    hist.push('U');
                    let got = sut_ok("unlock", || f.unlock())?;
                    ensure!(got == odd, "unlock reports the wrong change", "{got} for {model:?} after {hist}");
                    changed = odd;
                }
            }
            if changed {
                model = Some(model.unwrap_or(0).wrapping_add(1));
                ctx.count("transitions", 1);
            }
            let (b, s) = load(&p)?;
            ensure!(tlck(&s)? == model, "stored lock counter differs from the model", "{:?} vs {model:?} after {hist} from {start:?}", tlck(&s)?);
            if !changed {
                ensure!(b == before_b, "a call that changes nothing wrote to the file", "after {hist}");
                ctx.count("no_write_confirmed", 1);
            } else {
                if let Some(m) = snap::diff_except(&before, &s, &["/GameStg/GameData", "/GameStg/MAC"]) {
                    return viol("locking changed another stream", m);
                }
                let strip = |s: &Snap| -> Result<Vec<Rec>, Viol> { Ok(recs(s, "/GameStg/GameData")?.into_iter().filter(|r| r.tag != "TLCK").collect()) };
                ensure!(strip(&before)? == strip(&s)?, "locking changed other game data", "after {hist}");
                check_mac(&b, "lock/unlock")?;
            }
            before_b = b;
            before = s;
        }
        ctx.count("calls", n as u64);
        ctx.distinct(mix(hash_str(&hist), start.map(|x| x as u64 + 1).unwrap_or(0)));
        if i < 3 {
            ctx.sample(json!({"start": start, "history": hist, "end": model}));
        }
        // and the table as a whole is the one we started from
        drop(handle);
        let mut w = sut_ok("read", || vpx::read(&p))?;
        ensure!(w.gamedata.locked == model, "read returns another counter", "{:?}", w.gamedata.locked);
        w.gamedata.locked = v.gamedata.locked;
        ensure!(w == v, "locking changed the table", "{}", model_diff(&v, &w));
        Ok(())
    });
    ctx.require("transitions", 500);
    ctx.require("no_write_confirmed", 500);
}

fn grow_shrink_script(r: &mut R) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "x".repeat(r.range(3000, 6000)),
        2 => "y\r\n".repeat(r.range(10, 40000)),
        _ => g_code(r).string,
    }
}

pub fn run_c06(ctx: &Ctx) {
    ctx.rule("a case is one history of 1..8 in-place operations (write_gamedata, importvbs, lock, unlock, images_to_webp and read-only calls) on a random table with unknown streams and storages; after every call all streams outside the operation's frame must be byte-identical; non-trivial: distinct history and table");
    let th = ctx.thorough();
    ctx.cases("histories", if th { 30000 } else { 1500 }, if th { 900. } else { 16. }, |r, i| {
        let d = Scratch::new("c06");
        let p = d.path("t.vpx");
        let c = Cfg { items: 5, assets: 3, ..Cfg::binary() };
        let mut v = g_vpx(r, &c);
        v.images = (0..r.below(4)).map(|_| g_webp_image(r).0).collect();
        v.gamedata.images_size = v.images.len() as u32;
        sut_ok("write", || vpx::write(&p, &v))?;
        let (_, mut s) = load(&p)?;
        add_foreign(&mut s, r);
        std::fs::write(&p, snap::build(&s)).unwrap();
        let n = 1 + r.below(8);
        let mut hist = vec![];
        let (mut bb, mut before) = load(&p)?;
        for _ in 0..n {
            let op = *r.pick(&["write_gamedata", "write_gamedata", "importvbs", "lock", "unlock", "images_to_webp", "read", "verify", "extractvbs", "compact"]);
            hist.push(op);
            let mut frame: Vec<String> = vec!["/GameStg/GameData".into(), "/GameStg/MAC".into()];
            let mut readonly = false;
            let mut want_recs: Option<Vec<Rec>> = None;
            match op {
                "write_gamedata" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    let k = 1 + r.below(2);
                    for _ in 0..k {
                        let mut g = sut_ok("read_gamedata", || f.read_gamedata())?;
                        match r.below(4) {
                            0 => g.set_code(grow_shrink_script(r)),
                            1 => {}
                            _ => {
                                let i = r.below(FIELDS_GAMEDATA.len());
                                set_gamedata(&mut g, i, r);
                            }
                        }
                        sut_ok("write_gamedata", || f.write_gamedata(&g))?;
                        v.gamedata = g;
                    }
                    if k == 1 {
                        ensure!(sut_ok("read_gamedata", || f.read_gamedata())? == v.gamedata, "game data read back through the same handle differs", "");
                    }
                }
                "importvbs" => {
                    let q = d.path("x.vbs");
                    let t = grow_shrink_script(r);
                    std::fs::write(&q, &t).unwrap();
                    sut_ok("importvbs", || vpx::importvbs(&p, Some(q.clone())))?;
                    v.gamedata.set_code(t.clone());
                    let mut w = recs(&before, "/GameStg/GameData")?;
                    for x in &mut w {
                        if x.tag == "CODE" {
                            x.data = t.clone().into_bytes();
                        }
                    }
                    want_recs = Some(w);
                }
                "lock" | "unlock" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    let ch = if op == "lock" { sut_ok("lock", || f.lock())? } else { sut_ok("unlock", || f.unlock())? };
                    readonly = !ch;
                    if ch {
                        v.gamedata.locked = Some(v.gamedata.locked.unwrap_or(0).wrapping_add(1));
                    }
                }
                "images_to_webp" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    let conv = sut_ok("images_to_webp", || f.images_to_webp())?;
                    drop(f);
                    frame.clear();
                    let names: Vec<&String> = conv.iter().map(|c| &c.name).collect();
                    for (i, im) in v.images.iter_mut().enumerate() {
                        if names.contains(&&im.name) {
                            frame.push(format!("/GameStg/Image{i}"));
                        }
                    }
                    let mut f = sut_ok("open", || vpx::open(&p))?;
                    v.images = sut_ok("read_images", || f.read_images())?;
                }
                "compact" => {
                    sut_ok("compact", || vpx::compact(&p))?;
                    frame.clear();
                }
                _ => {
                    readonly = true;
                    match op {
                        "read" => {
                            let w = sut_ok("read", || vpx::read(&p))?;
                            ensure!(w == v, "table differs from the edits made", "{} after {hist:?}", model_diff(&v, &w));
                        }
                        "verify" => {
                            let _ = sut("verify", || vpx::verify(&p))?;
                        }
                        _ => {
                            let q = d.path(&format!("e{}.vbs", r.below(3)));
                            sut_ok("extractvbs", || vpx::extractvbs(&p, Some(q.clone()), r.bool()))?;
                        }
                    }
                }
            }
            let (b, s) = load(&p)?;
            if readonly {
                ensure!(b == bb, format!("{op} changed the file"), "after {hist:?}");
            }
            let fr: Vec<&str> = frame.iter().map(|s| s.as_str()).collect();
            if let Some(m) = snap::diff_except(&before, &s, &fr) {
                return viol(format!("{op} changed a stream outside its frame: {}", snap::cat(&first_word(&m))), format!("{m} after {hist:?}"));
            }
            ensure!(storages(&b) == storages(&bb), format!("{op} changed the storages"), "{:?} vs {:?}", storages(&bb), storages(&b));
            if let Some(w) = want_recs {
                ensure!(recs(&s, "/GameStg/GameData")? == w, "importing a script changed other game data", "after {hist:?}");
            }
            if s.get("/GameStg/MAC") != before.get("/GameStg/MAC") {
                check_mac(&b, op)?;
            }
            ctx.count("streams_compared", s.len() as u64);
            ctx.count(&format!("op:{op}"), 1);
            before = s;
            bb = b;
        }
        let w = sut_ok("read", || vpx::read(&p))?;
        ensure!(w == v, "table differs from the edits made", "{} after {hist:?}", model_diff(&v, &w));
        ctx.distinct(mix(hash_str(&hist.join(",")), shape(&v)));
        if i < 3 {
            ctx.sample(json!({"history": hist, "streams": before.len()}));
        }
        Ok(())
    });
    ctx.require("streams_compared", 20000);
    ctx.require("op:images_to_webp", 50);
}

/// image for the WebP property and whether it is expected to convert
pub fn g_webp_image(r: &mut R) -> (ImageData, Option<&'static str>) {
    let (w, h) = match r.below(5) {
        0 => (1, 1),
        1 => (1 + r.below(3) as u32, 1 + r.below(60) as u32),
        _ => (1 + r.below(30) as u32, 1 + r.below(30) as u32),
    };
    let mut im = ImageData {
        name: r.latin(),
        internal_name: r.opt(|r| r.latin()),
        width: w,
        height: h,
        alpha_test_value: if r.bool() { -1.0 } else { r.f32() },
        is_opaque: r.opt(|r| r.bool()),
        is_signed: r.opt(|r| r.bool()),
        md5_hash: r.opt(|r| std::array::from_fn(|_| r.u8())),
        ..Default::default()
    };
    let dir = r.pick(&["", "C:\\tables\\img\\", "/home/me.x/", "c:/a.png/"]).to_string();
    let stem = if r.chance(1, 5) { format!("{}.png.bmp.{}", r.word(), r.word()) } else { r.word() };
    let jp = |im: &ImageData, r: &mut R, data: Vec<u8>| {
        Some(ImageDataJpeg {
            path: match r.below(3) {
                0 => im.path.clone(),
                1 => format!("d\\{}.{}", r.word(), r.pick(&["png", "PNG", "tga"])),
                _ => r.word(),
            },
            name: if r.bool() { im.name.clone() } else { r.latin() },
            internal_name: r.opt(|r| r.latin()),
            data,
        })
    };
    match r.below(9) {
        0..=2 => {
            // bitmap, sometimes with transparency
            im.path = format!("{dir}{stem}.{}", r.pick(&["bmp", "BMP", "bMp"]));
            let mut px = g_bgra(r, w, h);
            match r.below(4) {
                0 => {
                    for p in px.chunks_mut(4) {
                        p[3] = r.u8();
                    }
                }
                1 => {
                    let i = r.below((w * h) as usize);
                    px[i * 4 + 3] = *r.pick(&[0, 254, 1]);
                }
                _ => {}
            }
            im.bits = Some(ImageDataBits { lzw_compressed_data: lzw(&px) });
            (im, Some("bmp"))
        }
        3..=5 => {
            im.path = format!("{dir}{stem}.{}", r.pick(&["png", "PNG", "pNg"]));
            let data = g_png(r, w, h);
            im.jpeg = jp(&im, r, data);
            (im, Some("png"))
        }
        6 => {
            // undecodable or mislabelled png
            im.path = format!("{dir}{stem}.png");
            let data = if r.bool() { r.bytes(50) } else { g_real_image(r, image::ImageFormat::Jpeg, w, h, false) };
            im.jpeg = jp(&im, r, data);
            (im, None)
        }
        7 => {
            // bitmap path, but stored as a file
            im.path = format!("{dir}{stem}.bmp");
            let d = r.blob();
            im.jpeg = jp(&im, r, d);
            (im, None)
        }
        _ => {
            let ext = *r.pick(&["jpg", "webp", "hdr", "exr", "pngx", "apng", "gif", "tga"]);
            im.path = format!("{dir}{stem}.{ext}");
            if r.chance(1, 4) {
                im.link = Some(1);
            } else {
                let d = match ext {
                    "webp" => g_real_image(r, image::ImageFormat::WebP, w, h, true),
                    // decodable as png, but not labelled so
                    "hdr" => g_png(r, w, h),
                    _ => r.blob(),
                };
                im.jpeg = jp(&im, r, d);
            }
            (im, None)
        }
    }
}
fn g_png(r: &mut R, w: u32, h: u32) -> Vec<u8> {
    use image::*;
    let mut out = std::io::Cursor::new(Vec::new());
    let im = match r.below(5) {
        0 => DynamicImage::ImageRgb8(RgbImage::from_fn(w, h, |_, _| Rgb([r.u8(), r.u8(), r.u8()]))),
        1 => DynamicImage::ImageRgba8(RgbaImage::from_fn(w, h, |_, _| Rgba([r.u8(), r.u8(), r.u8(), *r.pick(&[0u8, 255, 254, 1, 128])]))),
        2 => DynamicImage::ImageLuma8(GrayImage::from_fn(w, h, |_, _| Luma([r.u8()]))),
        3 => DynamicImage::ImageLumaA8(GrayAlphaImage::from_fn(w, h, |_, _| LumaA([r.u8(), r.u8()]))),
        _ => {
            let c: [u8; 4] = std::array::from_fn(|_| r.u8());
            DynamicImage::ImageRgba8(RgbaImage::from_pixel(w, h, Rgba(c)))
        }
    };
    im.write_to(&mut out, ImageFormat::Png).unwrap();
    out.into_inner()
}
fn swap_ext(path: &str) -> String {
    match path.rfind('.') {
        Some(i) if i + 1 < path.len() && path[i + 1..].bytes().all(|b| b.is_ascii_alphanumeric()) => format!("{}.webp", &path[..i]),
        _ => path.to_string(),
    }
}
/// width, height, RGBA pixels of an image as stored
fn pixels(im: &ImageData, fmt: &str) -> Result<(u32, u32, Vec<u8>), String> {
    if fmt == "bmp" {
        let (mut d, _) = crate::oracle::lzw_decode(&im.bits.as_ref().unwrap().lzw_compressed_data)?;
        for p in d.chunks_mut(4) {
            p.swap(0, 2);
        }
        return Ok((im.width, im.height, d));
    }
    let d = image::load_from_memory_with_format(&im.jpeg.as_ref().ok_or("no data")?.data, image::ImageFormat::Png).map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.to_rgba8().into_raw()))
}

pub fn run_c08(ctx: &Ctx) {
    ctx.rule("a case is one table with 1..6 images of random kind (bitmap with and without alpha, PNG in all 8-bit colour types, mislabelled, undecodable, linked, other formats), converted twice; non-trivial: at least one image converted");
    ctx.assume("decoding of PNG and WebP by the image crate is correct; 16-bit PNGs are outside the workload");
    let th = ctx.thorough();
    ctx.cases("tables", if th { 40000 } else { 2500 }, if th { 900. } else { 16. }, |r, i| {
        let d = Scratch::new("c08");
        let p = d.path("t.vpx");
        let mut v = g_vpx(r, &Cfg { items: 2, assets: 1, ..Cfg::binary() });
        let gen_: Vec<(ImageData, Option<&str>)> = (0..1 + r.below(6)).map(|_| g_webp_image(r)).collect();
        v.images = gen_.iter().map(|g| g.0.clone()).collect();
        v.gamedata.images_size = v.images.len() as u32;
        sut_ok("write", || vpx::write(&p, &v))?;
        let (_, before) = load(&p)?;
        let conv = {
            let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
            sut_ok("images_to_webp", || f.images_to_webp())?
        };
        let want: Vec<(String, String)> = gen_.iter().filter_map(|(im, k)| k.map(|k| (im.name.clone(), k.to_string()))).collect();
        let got: Vec<(String, String)> = conv.iter().map(|c| (c.name.clone(), c.old_extension.clone())).collect();
        ensure!(want == got, "reported conversions are not the conversions", "want {want:?} got {got:?}");
        ensure!(conv.iter().all(|c| c.new_extension == "webp"), "reported new extension is not webp", "{conv:?}");
        let (_, after) = load(&p)?;
        let frame: Vec<String> = gen_.iter().enumerate().filter(|(_, g)| g.1.is_some()).map(|(i, _)| format!("/GameStg/Image{i}")).collect();
        if let Some(m) = snap::diff_except(&before, &after, &frame.iter().map(|s| s.as_str()).collect::<Vec<_>>()) {
            return viol("conversion changed another stream", m);
        }
        let w = sut_ok("read", || vpx::read(&p))?;
        for (i, (im, k)) in gen_.iter().enumerate() {
            let got = &w.images[i];
            let Some(k) = k else {
                ensure!(got == im, "an image that is not PNG or BMP changed", "image {i}: {im:?}");
                continue;
            };
            ctx.count(&format!("converted:{k}"), 1);
            let (pw, ph, px) = pixels(im, k).map_err(|e| Viol { sig: "harness image undecodable".into(), detail: e })?;
            let Some(j) = &got.jpeg else { return viol("converted image has no data", format!("image {i}")) };
            ensure!(j.data.starts_with(b"RIFF") && j.data.get(8..12) == Some(b"WEBP"), "converted data is not WebP", "image {i}");
            let dec = match image::load_from_memory_with_format(&j.data, image::ImageFormat::WebP) {
                Ok(d) => d,
                Err(e) => return viol("converted image does not decode", e.to_string()),
            };
            ensure!(dec.width() == pw && dec.height() == ph, "converted image has another size", "{}x{} vs {pw}x{ph}", dec.width(), dec.height());
            let q = dec.to_rgba8().into_raw();
            if let Some(x) = q.iter().zip(&px).position(|(a, b)| a != b) {
                return viol("pixels changed", format!("image {i} ({k} {pw}x{ph}) byte {x}: {:?} vs {:?}", &px[x / 4 * 4..x / 4 * 4 + 4], &q[x / 4 * 4..x / 4 * 4 + 4]));
            }
            ctx.count("pixels_compared", (pw * ph) as u64);
            let mut e = im.clone();
            e.path = swap_ext(&im.path);
            e.bits = None;
            e.jpeg = Some(match &im.jpeg {
                Some(o) => ImageDataJpeg { path: swap_ext(&o.path), data: j.data.clone(), ..o.clone() },
                None => ImageDataJpeg { path: e.path.clone(), name: im.name.clone(), internal_name: None, data: j.data.clone() },
            });
            ensure!(*got == e, "another attribute of a converted image changed", "image {i}: want {e:?} got {got:?}");
        }
        // idempotent
        let b1 = std::fs::read(&p).unwrap();
        {
            let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
            let again = sut_ok("images_to_webp", || f.images_to_webp())?;
            ensure!(again.is_empty(), "second conversion reports conversions", "{again:?}");
        }
        ensure!(std::fs::read(&p).unwrap() == b1, "second conversion changed the file", "");
        let mut x = w;
        x.images = v.images.clone();
        ensure!(x == v, "conversion changed the table", "{}", model_diff(&v, &x));
        if !want.is_empty() {
            ctx.distinct(hash_bytes(&b1));
        }
        if i < 3 {
            ctx.sample(json!({"images": gen_.iter().map(|(im, k)| json!({"path": im.path, "w": im.width, "h": im.height, "expected": k})).collect::<Vec<_>>(), "reported": got}));
        }
        Ok(())
    });
    ctx.require("converted:bmp", 500);
    ctx.require("converted:png", 500);
}

fn g_script(r: &mut R) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "\u{feff}Option Explicit\r\n".into(),
        2 => "a\nb\r\nc\rd\n\n\r\r\n".into(),
        3 => "\u{1}\u{1a}\u{7f}\u{85}\u{2028}x".into(),
        4 => "ENDB\u{4}ENDB CODE".into(),
        5 => {
            let n = r.range(1, 60);
            (0..n).map(|_| char::from_u32(r.range(1, 0xd7ff) as u32).unwrap()).collect()
        }
        6 => "' line\r\n".repeat(r.range(1, 20000)),
        7 => " \t trailing blanks \r\n\t ".into(),
        _ => g_code(r).string,
    }
}

pub fn run_c09(ctx: &Ctx) {
    ctx.rule("a case is one table with a random script (UTF-8 or Latin-1 stored, any line endings, NUL, BOM, empty to large), extracted to the default or a given path under each overwrite setting, imported back, and replaced by another script; non-trivial: distinct script text");
    let th = ctx.thorough();
    ctx.cases("scripts", if th { 60000 } else { 4000 }, if th { 900. } else { 14. }, |r, i| {
        let d = Scratch::new("c09");
        let fname = *r.pick(&["t.vpx", "My Table (v1.2).vpx", "a.b.c.VPX", "noext", "x.tar"]);
        let p = d.path(fname);
        let mut v = g_vpx(r, &Cfg { items: 1, assets: 1, ..Cfg::binary() });
        v.gamedata.code = g_code(r);
        if r.bool() {
            sut("set_script", || {
                v.set_script(g_script(r));
            })?;
        }
        let text = v.gamedata.code.string.clone();
        sut_ok("write", || vpx::write(&p, &v))?;
        let side = sut("vbs_path_for", || vpx::vbs_path_for(&p))?;
        ensure!(side.parent() == p.parent() && side.file_stem() == p.file_stem() && side.extension().is_some_and(|e| e == "vbs"), "side file path is not beside the table", "{side:?}");
        let ini = sut("ini_path_for", || vpx::ini_path_for(&p))?;
        ensure!(ini == side.with_extension("ini"), "ini path is not beside the table", "{ini:?}");
        let custom = r.bool();
        let target = if custom { d.path("other.txt") } else { side.clone() };
        let arg = if custom { Some(target.clone()) } else { None };
        let over = r.bool();
        let existed = r.bool();
        if existed {
            std::fs::write(&target, "a rather long previous content that must go away completely when overwritten").unwrap();
        }
        let tb = std::fs::read(&p).unwrap();
        let res = sut_ok("extractvbs", || vpx::extractvbs(&p, arg.clone(), over))?;
        match (&res, existed && !over) {
            (ExtractResult::Existed(q), true) => {
                ensure!(*q == target, "extractvbs reports another path", "{q:?}");
                ensure!(std::fs::read(&target).unwrap().starts_with(b"a rather"), "existing script was overwritten", "");
                ctx.count("kept_existing", 1);
                sut_ok("extractvbs", || vpx::extractvbs(&p, arg.clone(), true))?;
            }
            (ExtractResult::Extracted(q), false) => ensure!(*q == target, "extractvbs reports another path", "{q:?}"),
            _ => return viol("overwrite flag not honoured", format!("{res:?} existed {existed} overwrite {over}")),
        }
        let got = std::fs::read(&target).unwrap();
        ensure!(got == text.as_bytes(), "extracted script differs from the stored script", "{}", snap::bdiff(text.as_bytes(), &got));
        ensure!(std::fs::read(&p).unwrap() == tb, "extracting changed the table", "");
        ctx.count("extracted", 1);
        // only the requested file appeared
        let n = std::fs::read_dir(&d.0).unwrap().count();
        ensure!(n == 2, "extractvbs created other files", "{n} entries");
        // import the same file again
        let q = sut_ok("importvbs", || vpx::importvbs(&p, arg.clone()))?;
        ensure!(q == target, "importvbs reports another path", "{q:?}");
        let w = sut_ok("read", || vpx::read(&p))?;
        ensure!(w.gamedata.code.string == text, "importing the extracted script changed it", "{:?} vs {text:?}", w.gamedata.code.string);
        // import another text
        let t2 = g_script(r);
        std::fs::write(&target, &t2).unwrap();
        sut_ok("importvbs", || vpx::importvbs(&p, arg.clone()))?;
        let (b, s) = load(&p)?;
        let code = recs(&s, "/GameStg/GameData")?.into_iter().find(|r| r.tag == "CODE").map(|r| r.data).unwrap_or_default();
        ensure!(code == t2.as_bytes(), "stored script differs from the imported file", "{}", snap::bdiff(t2.as_bytes(), &code));
        check_mac(&b, "importvbs")?;
        let w = sut_ok("read", || vpx::read(&p))?;
        ensure!(w.gamedata.code.string == t2 && w.gamedata.code.encoding == StringEncoding::Utf8, "imported script reads back differently", "{:?} vs {t2:?}", w.gamedata.code);
        let mut x = w;
        x.gamedata.code = v.gamedata.code.clone();
        ensure!(x == v, "importing a script changed the table", "{}", model_diff(&v, &x));
        ctx.count("imported", 1);
        ctx.distinct(mix(hash_str(&text), hash_str(&t2)));
        if i < 3 {
            ctx.sample(json!({"file": fname, "script": text.chars().take(60).collect::<String>(), "encoding": format!("{:?}", v.gamedata.code.encoding), "replaced_by": t2.chars().take(60).collect::<String>()}));
        }
        // failing imports leave the table alone
        let tb = std::fs::read(&p).unwrap();
        let bad = d.path("bad.vbs");
        if r.bool() {
            std::fs::write(&bad, [b'a', 0xff, 0xfe, b'b']).unwrap();
        }
        let e = sut("importvbs", || vpx::importvbs(&p, Some(bad.clone())))?;
        ensure!(e.is_err(), "importing a missing or non-text script succeeds", "");
        ensure!(std::fs::read(&p).unwrap() == tb, "a failed import changed the table", "");
        ctx.count("failed_imports", 1);
        Ok(())
    });
    ctx.require("extracted", 500);
    ctx.require("kept_existing", 50);
}

pub fn run_c23(ctx: &Ctx) {
    ctx.rule("a case is one history of 1..25 API edits from a random or default table, checked after every step against a list model and, at random points, written and read back; non-trivial: distinct history");
    let th = ctx.thorough();
    ctx.cases("histories", if th { 60000 } else { 4000 }, if th { 900. } else { 14. }, |r, i| {
        let mut v = match r.below(4) {
            0 => VPX::default(),
            _ => {
                let c = small(r);
                g_vpx(r, &c)
            }
        };
        if v.version.u32() == 0 {
            v.version = vpin::vpx::version::Version::new(1080);
        }
        // distinct image names to begin with
        let mut items: Vec<String> = v.gameitems.iter().map(|i| format!("{i:?}")).collect();
        let mut images: Vec<ImageData> = v.images.clone();
        let mut code = v.gamedata.code.string.clone();
        let names = ["a", "A", "Ball", "bALL", "ball ", "\u{e9}", "\u{c9}", "", "x1", "X1", "\u{df}", "ss", "i", "I", "\u{130}"];
        let mut hist = vec![];
        for _ in 0..1 + r.below(25) {
            match r.below(6) {
                0 => {
                    let k = r.below(N_ITEM_TYPES);
                    let it = if r.chance(1, 8) { g_generic(r) } else { g_item(r, k) };
                    items.push(format!("{it:?}"));
                    sut("add_game_item", || {
                        v.add_game_item(it);
                    })?;
                    hist.push("item".to_string());
                }
                1 => {
                    let t = g_script(r);
                    code = t.clone();
                    sut("set_script", || {
                        v.set_script(t);
                    })?;
                    hist.push("script".to_string());
                }
                _ => {
                    let mut im = g_image(r, ImgMode::Binary);
                    im.name = match r.below(3) {
                        0 if !images.is_empty() => {
                            let n = r.pick(&images).name.clone();
                            if r.bool() { n.to_ascii_uppercase() } else { n.to_ascii_lowercase() }
                        }
                        _ => r.pick(&names[..14]).to_string(),
                    };
                    hist.push(format!("image {}", im.name));
                    let pos = images.iter().position(|x| x.name.len() == im.name.len() && x.name.bytes().zip(im.name.bytes()).all(|(a, b)| a.to_ascii_lowercase() == b.to_ascii_lowercase()));
                    let res = sut("add_or_replace_image", || v.add_or_replace_image(im.clone()))?;
                    match (pos, res) {
                        (Some(p), AddImageResult::Replaced(old)) => {
                            ensure!(*old == images[p], "the replaced image returned is not the one replaced", "{}", im.name);
                            images[p] = im;
                            ctx.count("replaced", 1);
                        }
                        (None, AddImageResult::Added) => {
                            images.push(im);
                            ctx.count("added", 1);
                        }
                        (p, _) => return viol("image added/replaced wrongly", format!("{} existing at {p:?}", im.name)),
                    }
                }
            }
            ensure!(v.images == images, "images differ from the edits made", "after {hist:?}");
            let now = |i: usize| v.gameitems.get(i).map(|i| format!("{i:?}"));
            ensure!(v.gameitems.len() == items.len() && now(items.len().wrapping_sub(1)).as_ref() == items.last(), "game items differ from the edits made", "after {hist:?}");
            ensure!(v.gamedata.code.string == code, "script differs from the edits made", "after {hist:?}");
            ensure!(v.gamedata.images_size as usize == images.len(), "image counter wrong", "{} vs {} after {hist:?}", v.gamedata.images_size, images.len());
            ensure!(v.gamedata.gameitems_size as usize == items.len(), "item counter wrong", "{} vs {} after {hist:?}", v.gamedata.gameitems_size, items.len());
            ctx.count("steps", 1);
            if r.chance(1, 8) {
                roundtrip(ctx, &v, &hist)?;
            }
        }
        ensure!(v.gameitems.iter().map(|i| format!("{i:?}")).eq(items.iter().cloned()), "game items differ from the edits made", "after {hist:?}");
        roundtrip(ctx, &v, &hist)?;
        ctx.distinct(mix(hash_str(&hist.join("|")), shape(&v)));
        if i < 3 {
            ctx.sample(json!({"history": hist}));
        }
        Ok(())
    });
    ctx.require("replaced", 500);
    ctx.require("added", 500);
    ctx.require("files_checked", 500);
}
fn roundtrip(ctx: &Ctx, v: &VPX, hist: &[String]) -> Res {
    let b = sut_ok("to_bytes", || vpx::to_bytes(v))?;
    let s = check_mac(&b, "to_bytes")?;
    for (pre, n) in [("GameItem", v.gameitems.len()), ("Image", v.images.len()), ("Sound", v.sounds.len()), ("Font", v.fonts.len()), ("Collection", v.collections.len())] {
        let have = s.keys().filter(|k| k.strip_prefix("/GameStg/").and_then(|k| k.strip_prefix(pre)).is_some_and(|x| x.bytes().all(|b| b.is_ascii_digit()))).count();
        ensure!(have == n, format!("number of {pre} streams differs from what the table holds"), "{have} vs {n}");
    }
    let g = recs(&s, "/GameStg/GameData")?;
    for (tag, n) in [("SEDT", v.gameitems.len()), ("SSND", v.sounds.len()), ("SIMG", v.images.len()), ("SFNT", v.fonts.len()), ("SCOL", v.collections.len())] {
        let x = g.iter().find(|r| r.tag == tag).map(|r| u32::from_le_bytes(r.data[..4].try_into().unwrap()));
        ensure!(x == Some(n as u32), format!("stored counter {tag} is not the number of streams"), "{x:?} vs {n}");
    }
    let w = sut_ok("from_bytes", || vpx::from_bytes(&b))?;
    ensure!(w == *v, "edited table does not read back", "{} after {hist:?}", model_diff(v, &w));
    ctx.count("files_checked", 1);
    let _ = Kind::Plain;
    Ok(())
}
