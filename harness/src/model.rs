//! Hand-built generators for the parts of the model with cross-field
//! constraints; everything else is generated field by field in model_gen.rs.
pub use crate::model_gen::*;
use crate::rng::R;
use flate2::{Compression, write::ZlibEncoder};
use std::collections::HashSet;
use std::io::Write;
use vpin::vpx::VPX;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWriter};
use vpin::vpx::color::Color;
use vpin::vpx::font::FontData;
use vpin::vpx::gamedata::GameData;
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::font::{Font, FontStyle};
use vpin::vpx::gameitem::generic::Generic;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::gameitem::vertex2d::Vertex2D;
use vpin::vpx::gameitem::vertex3d::Vertex3D;
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::material::Material;
use vpin::vpx::model::{StringEncoding, StringWithEncoding};
use vpin::vpx::renderprobe::RenderProbeWithGarbage;
use vpin::vpx::sound::{OutputTarget, SoundData, WaveForm};
use vpin::vpx::tableinfo::TableInfo;
use vpin::vpx::version::Version;

pub fn g_vertex2d(r: &mut R) -> Vertex2D {
    Vertex2D::new(r.f32(), r.f32())
}
pub fn g_vertex3d(r: &mut R) -> Vertex3D {
    Vertex3D::new(r.f32(), r.f32(), r.f32())
}
pub fn g_color(r: &mut R) -> Color {
    Color::from_win_color(r.u32())
}
pub fn g_font_parts(r: &mut R) -> (u16, Vec<FontStyle>, u16, u32, String) {
    let mut style = vec![];
    for s in [FontStyle::Normal, FontStyle::Bold, FontStyle::Italic, FontStyle::Underline, FontStyle::Strikethrough] {
        if r.bool() {
            style.push(s);
        }
    }
    (r.u16(), style, r.u16(), r.u32(), r.latin_max(255))
}
pub fn g_font(r: &mut R) -> Font {
    let p = g_font_parts(r);
    Font::new(p.0, p.1.into_iter().collect::<HashSet<_>>(), p.2, p.3, p.4)
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn unzlib(data: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut d = flate2::read::ZlibDecoder::new(data);
    let mut v = Vec::new();
    d.read_to_end(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MeshKind {
    Off,
    /// opaque compressed bytes (never decoded by the binary path)
    Opaque,
    /// a real mesh
    Real,
}

#[derive(Clone, Debug)]
pub struct Mesh {
    pub verts: Vec<[f32; 8]>,
    pub faces: Vec<[u32; 3]>,
}

pub fn g_mesh(r: &mut R, big: bool) -> Mesh {
    let nv = if big { 65_530 + r.below(12) } else { match r.below(4) { 0 => 3, 1 => 3 + r.below(8), 2 => 8 + r.below(60), _ => 3 + r.below(300) } };
    let nf = if big { 40 } else { 1 + r.below(nv * 2) };
    let verts = (0..nv)
        .map(|_| {
            let mut v = [0f32; 8];
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < 3 || big {
                    r.tame_f32()
                } else if i < 6 {
                    r.f32_in(-1.0, 1.0)
                } else {
                    r.f32_in(-2.0, 3.0)
                };
                if !r.tame && r.chance(1, 40) {
                    *x = r.f32();
                }
            }
            v
        })
        .collect();
    let faces = (0..nf)
        .map(|i| {
            if big && i < 6 {
                [(nv - 1) as u32, (nv - 2 - i) as u32, r.below(nv) as u32]
            } else {
                [r.below(nv) as u32, r.below(nv) as u32, r.below(nv) as u32]
            }
        })
        .collect();
    Mesh { verts, faces }
}
pub fn verts_bytes(v: &[[f32; 8]]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * 32);
    for x in v {
        for f in x {
            o.extend_from_slice(&f.to_le_bytes());
        }
    }
    o
}
pub fn set_mesh(p: &mut Primitive, m: &Mesh, r: &mut R, anim: bool) {
    let vb = verts_bytes(&m.verts);
    let mut ib = Vec::new();
    for f in &m.faces {
        for i in f {
            if m.verts.len() > 65535 {
                ib.extend_from_slice(&i.to_le_bytes());
            } else {
                ib.extend_from_slice(&(*i as u16).to_le_bytes());
            }
        }
    }
    let lvl = r.below(10) as u32;
    let cv = zlib(&vb, lvl);
    let ci = zlib(&ib, lvl);
    p.num_vertices = Some(m.verts.len() as u32);
    p.compressed_vertices_len = Some(cv.len() as u32);
    p.compressed_vertices_data = Some(cv);
    p.num_indices = Some(m.faces.len() as u32 * 3);
    p.compressed_indices_len = Some(ci.len() as u32);
    p.compressed_indices_data = Some(ci);
    if anim {
        let n = if m.verts.len() < 12 && r.chance(1, 30) { 99 + r.below(4) } else if r.chance(1, 4) { 11 + r.below(3) } else { 1 + r.below(4) };
        let mut lens = vec![];
        let mut datas = vec![];
        for _ in 0..n {
            // a frame holds position and normal of every vertex
            let mut vs = vec![];
            for _ in 0..m.verts.len() * 6 {
                vs.extend_from_slice(&r.tame_f32().to_le_bytes());
            }
            let d = zlib(&vs, 6);
            lens.push(d.len() as u32);
            datas.push(d);
        }
        p.compressed_animation_vertices_len = Some(lens);
        p.compressed_animation_vertices_data = Some(datas);
    }
}

pub fn g_item(r: &mut R, k: usize) -> GameItemEnum {
    let mut it = default_item(k);
    for i in 0..ITEM_FIELDS[k].len() {
        set_item_field(&mut it, i, r);
    }
    it
}

pub fn g_generic(r: &mut R) -> GameItemEnum {
    let tag_chars = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let n = r.small_len();
    let mut fields = vec![];
    for _ in 0..n {
        let mut t: String = (0..4).map(|_| *r.pick(tag_chars) as char).collect();
        if t == "ENDB" || t == "NAME" || t == "FONT" || t == "CODE" {
            t = "XQZ1".into();
        }
        fields.push((t, r.blob()));
    }
    // type ids above every known one
    GameItemEnum::Generic(100 + r.below(1000) as u32, Generic { name: r.wide(), fields })
}

/// A real, decodable image file of the given kind.
pub fn g_real_image(r: &mut R, fmt: image::ImageFormat, w: u32, h: u32, alpha: bool) -> Vec<u8> {
    let mut out = std::io::Cursor::new(Vec::new());
    if alpha {
        let mut im = image::RgbaImage::new(w, h);
        for p in im.pixels_mut() {
            *p = image::Rgba([r.u8(), r.u8(), r.u8(), r.u8()]);
        }
        image::DynamicImage::ImageRgba8(im).write_to(&mut out, fmt).unwrap();
    } else {
        let mut im = image::RgbImage::new(w, h);
        for p in im.pixels_mut() {
            *p = image::Rgb([r.u8(), r.u8(), r.u8()]);
        }
        image::DynamicImage::ImageRgb8(im).write_to(&mut out, fmt).unwrap();
    }
    out.into_inner()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ImgMode {
    /// anything the binary format can carry
    Binary,
    /// what the expanded format promises to keep
    Expanded,
}

/// LZW stream as VPinball writes it
pub fn lzw(data: &[u8]) -> Vec<u8> {
    vpin::vpx::lzw::to_lzw_blocks(data)
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

/// BGRA rows, alpha 255 (VPinball's sBGRA), sometimes with other alpha.
pub fn g_bgra(r: &mut R, w: u32, h: u32) -> Vec<u8> {
    let mut v = vec![];
    let flat = r.bool();
    let c = [r.u8(), r.u8(), r.u8()];
    for _ in 0..w * h {
        if flat && !r.chance(1, 9) {
            v.extend_from_slice(&[c[0], c[1], c[2], 255]);
        } else {
            v.extend_from_slice(&[r.u8(), r.u8(), r.u8(), 255]);
        }
    }
    v
}

pub fn g_image(r: &mut R, mode: ImgMode) -> ImageData {
    let kind = r.below(8);
    let name = r.latin();
    let mut im = ImageData {
        name: name.clone(),
        internal_name: r.opt(|r| r.latin()),
        path: String::new(),
        width: 0,
        height: 0,
        link: None,
        alpha_test_value: if r.bool() { -1.0 } else { r.f32() },
        is_opaque: r.opt(|r| r.bool()),
        is_signed: r.opt(|r| r.bool()),
        jpeg: None,
        bits: None,
        md5_hash: r.opt(|r| std::array::from_fn(|_| r.u8())),
    };
    let dir = r.pick(&["", "C:\\tables\\img\\", "/home/me/", "c:/x y/"]).to_string();
    match kind {
        0 => {
            // screenshot link
            im.link = Some(1);
            im.width = r.below(4000) as u32;
            im.height = r.below(4000) as u32;
            im.path = format!("{dir}{}.jpg", r.word());
        }
        1 | 2 => {
            let (w, h) = (1 + r.below(24) as u32, 1 + r.below(24) as u32);
            im.width = w;
            im.height = h;
            im.path = format!("{dir}{}.{}", r.word(), r.pick(&["bmp", "BMP", "Bmp"]));
            let mut d = lzw(&g_bgra(r, w, h));
            if mode == ImgMode::Binary && r.chance(1, 3) {
                // opaque compressed data may hold anything that is not a
                // framed ALTV record, the tag bytes alone included
                d = r.bytes(40);
                d[3] = 200; // more bytes than follow, so no record length
                let o = 4 + r.below(20);
                d[o..o + 8].copy_from_slice(b"\xff\xff\xff\xffALTV");
            }
            im.bits = Some(ImageDataBits { lzw_compressed_data: d });
        }
        _ => {
            let ext = *r.pick(&["png", "jpg", "jpeg", "PNG", "webp", "hdr", "exr", "JPG", "gif"]);
            im.path = format!("{dir}{}.{ext}", r.word());
            let data = if r.bool() || mode == ImgMode::Binary {
                r.blob()
            } else {
                let (w, h) = (1 + r.below(9) as u32, 1 + r.below(9) as u32);
                im.width = w;
                im.height = h;
                match ext.to_lowercase().as_str() {
                    "png" => g_real_image(r, image::ImageFormat::Png, w, h, true),
                    "jpg" | "jpeg" => g_real_image(r, image::ImageFormat::Jpeg, w, h, false),
                    "webp" => g_real_image(r, image::ImageFormat::WebP, w, h, true),
                    _ => r.blob(),
                }
            };
            if im.width == 0 {
                im.width = r.below(5000) as u32;
                im.height = r.below(5000) as u32;
            }
            // stored sizes can be stale
            if mode == ImgMode::Expanded && r.chance(1, 6) {
                im.width = *r.pick(&[0, 1, im.width.saturating_sub(1), im.width + 1, 5000]);
            }
            if mode == ImgMode::Expanded && r.chance(1, 6) {
                im.height = *r.pick(&[0, 1, im.height.saturating_sub(1), im.height + 1, 5000]);
            }
            im.jpeg = Some(ImageDataJpeg {
                path: if r.bool() { im.path.clone() } else { r.latin() },
                name: if r.bool() { name } else { r.latin() },
                internal_name: r.opt(|r| r.latin()),
                data,
            });
        }
    }
    im
}

pub fn g_sound(r: &mut R, version: u32, mode: ImgMode) -> SoundData {
    let ext = *r.pick(&[".wav", ".wav", ".WAV", ".mp3", ".ogg", ".flac", "", ".Wav"]);
    let is_wav = ext.is_empty() || ext.eq_ignore_ascii_case(".wav");
    let data = r.blob();
    let mut wf = WaveForm::default();
    if is_wav {
        let ch = *r.pick(&[1u16, 2]);
        let bits = *r.pick(&[8u16, 16, 24, 32]);
        let rate = *r.pick(&[8000u32, 11025, 22050, 44100, 48000, 96000]);
        wf = WaveForm {
            format_tag: 1,
            channels: ch,
            samples_per_sec: rate,
            avg_bytes_per_sec: rate * ch as u32 * bits as u32 / 8,
            block_align: ch * bits / 8,
            bits_per_sample: bits,
            cb_size: 0,
        };
        if r.chance(1, 3) {
            wf = WaveForm { format_tag: r.u16(), channels: r.u16(), samples_per_sec: r.u32(), avg_bytes_per_sec: r.u32(), block_align: r.u16(), bits_per_sample: r.u16(), cb_size: r.u16() };
            if wf.format_tag == 1 && mode != ImgMode::Binary {
                wf.cb_size = 0;
            }
        }
    }
    let new = version >= 1031;
    SoundData {
        name: r.latin(),
        path: format!("{}{}{ext}", r.pick(&["", "C:\\snd\\", "/s/"]), r.word()),
        wave_form: wf,
        data,
        internal_name: if r.bool() { String::new() } else { r.latin() },
        fade: if new { r.u32() } else { 0 },
        volume: if new { r.u32() } else { 0 },
        balance: if new { r.u32() } else { 0 },
        output_target: if r.bool() { OutputTarget::Table } else { OutputTarget::Backglass },
    }
}

pub fn g_fontdata(r: &mut R) -> FontData {
    FontData { name: r.latin(), path: format!("{}{}.{}", r.pick(&["", "c:\\f\\"]), r.word(), r.pick(&["ttf", "otf", "TTF"])), data: r.blob() }
}

pub fn g_probe(r: &mut R) -> RenderProbeWithGarbage {
    let mut w = BiffWriter::new();
    w.write_tagged_u32("TYPE", r.below(2) as u32);
    w.write_tagged_string("NAME", &r.latin());
    w.write_tagged_u32("RBAS", r.u32());
    if r.bool() {
        w.write_tagged_u32("RCLE", r.u32());
    }
    w.new_tag("RPLA");
    for _ in 0..4 {
        w.write_f32(r.f32());
    }
    w.end_tag();
    w.write_tagged_u32("RMOD", r.below(7) as u32);
    if r.bool() {
        w.write_tagged_bool("RLMP", r.bool());
    }
    w.close(true);
    let mut d = w.get_data().to_vec();
    match r.below(3) {
        0 => {}
        1 => {
            d.extend_from_slice(b"\x04\0\0\0ENDB");
            d.extend(r.bytes(4));
        }
        _ => d.extend(r.blob()),
    }
    RenderProbeWithGarbage::biff_read(&mut BiffReader::new(&d))
}

pub fn g_code(r: &mut R) -> StringWithEncoding {
    let s = match r.below(6) {
        0 => String::new(),
        1 => "Option Explicit\r\nSub Table1_Init\r\nEnd Sub\r\n".into(),
        2 => "' ENDB \nx = 1\n\n\ty = \"\u{1F3B1}\"\r".into(),
        3 => {
            let n = r.below(4000);
            (0..n).map(|_| char::from_u32(r.range(1, 127) as u32).unwrap()).collect()
        }
        4 => {
            // editors put marks in front and odd line ends behind
            let (a, b) = (*r.pick(&["", "", "\u{feff}", "\u{feff}\u{feff}", " ", "\n\n", "\t"]), *r.pick(&["", "", "\r", "\n\r", " \u{feff}", "\u{1a}", "\u{2028}"]));
            format!("{a}{}{b}", r.wide())
        }
        _ => {
            // Latin-1 script that is not valid UTF-8
            let mut s: String = r.latin();
            s.push('\u{e9}');
            s.push('A');
            return StringWithEncoding { encoding: StringEncoding::Latin1, string: s };
        }
    };
    StringWithEncoding { encoding: StringEncoding::Utf8, string: s }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MatMode {
    None,
    LegacyOnly,
    NewOnly,
    Both,
}

/// materials consistent with the chosen mode; counters follow
pub fn set_materials(g: &mut GameData, r: &mut R, mode: MatMode) {
    let n = r.small_len();
    g.materials_old.clear();
    g.materials_physics_old = None;
    g.materials = None;
    match mode {
        MatMode::None => {}
        MatMode::LegacyOnly => {
            g.materials_old = (0..n).map(|_| g_savematerial(r)).collect();
            if r.bool() {
                g.materials_physics_old = Some((0..n).map(|_| g_savephysicsmaterial(r)).collect());
            }
        }
        MatMode::NewOnly | MatMode::Both => {
            let ms: Vec<Material> = (0..n.max(1)).map(|_| g_material(r)).collect();
            if mode == MatMode::Both {
                g.materials_old = ms.iter().map(|m| m.into()).collect();
                let mut ph: Vec<vpin::vpx::material::SavePhysicsMaterial> = ms.iter().map(|m| m.into()).collect();
                // the legacy records carry at most 31 bytes of name
                for m in &mut g.materials_old {
                    m.name = m.name.chars().take(31).collect();
                }
                for m in &mut ph {
                    m.name = m.name.chars().take(31).collect();
                }
                g.materials_physics_old = Some(ph);
            }
            g.materials = Some(ms);
        }
    }
    g.materials_size = g.materials_old.len() as u32;
}

pub const VERSIONS: &[u32] = &[1080, 1080, 1081, 1072, 1071, 1060, 1050, 1031, 1030, 1020, 1010, 999, 1090];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub version: Option<u32>,
    pub mat: Option<MatMode>,
    pub img: ImgMode,
    pub mesh: MeshKind,
    pub items: usize,
    pub generic: bool,
    pub assets: usize,
    /// one table in this many has a crowd of one kind of part (0 = none)
    pub crowd: usize,
}
impl Cfg {
    pub fn binary() -> Cfg {
        Cfg { version: None, mat: None, img: ImgMode::Binary, mesh: MeshKind::Opaque, items: 12, generic: true, assets: 4, crowd: 100 }
    }
    pub fn expanded() -> Cfg {
        Cfg { version: None, mat: None, img: ImgMode::Expanded, mesh: MeshKind::Real, items: 14, generic: true, assets: 5, crowd: 150 }
    }
    pub fn small() -> Cfg {
        Cfg { version: None, mat: None, img: ImgMode::Binary, mesh: MeshKind::Opaque, items: 3, generic: false, assets: 1, crowd: 0 }
    }
}

pub fn g_table_gamedata(r: &mut R, cfg: &Cfg, version: u32) -> GameData {
    let mut g = GameData::default();
    for i in 0..FIELDS_GAMEDATA.len() {
        set_gamedata(&mut g, i, r);
    }
    let mode = cfg.mat.unwrap_or(*r.pick(&[MatMode::None, MatMode::LegacyOnly, MatMode::NewOnly, MatMode::Both, MatMode::Both]));
    // the expanded format regenerates the legacy lists from the new one
    let mode = if cfg.img == ImgMode::Expanded && mode == MatMode::NewOnly { MatMode::Both } else { mode };
    set_materials(&mut g, r, mode);
    g.render_probes = r.opt(|r| {
        let n = 1 + r.below(3);
        (0..n).map(|_| g_probe(r)).collect()
    });
    g.is_10_8_0_beta1_to_beta4 = version == 1080 && g.bg_enable_fss.is_some() && r.chance(1, 4);
    g.code = g_code(r);
    g
}

pub const STD_INFO: &[&str] = &["TableName", "AuthorName", "Screenshot", "TableBlurb", "TableRules", "AuthorEmail", "ReleaseDate", "TableSaveRev", "TableVersion", "AuthorWebSite", "TableSaveDate", "TableDescription"];

pub fn g_info(r: &mut R) -> (TableInfo, Vec<String>) {
    let mut t = g_tableinfo(r);
    t.screenshot = r.opt(|r| r.blob());
    let mut tags = vec![];
    let mut seen = HashSet::new();
    for _ in 0..r.small_len() {
        let k = match r.below(9) {
            0 | 1 => format!("prop {}", r.below(100)),
            2 | 3 => format!("k\u{e9}y.{}", r.word()),
            // the longest name a stream can have, and one less
            4 => {
                let n = *r.pick(&[30, 31, 20]);
                let mut w = r.word();
                // more bytes than letters
                if r.bool() {
                    w.push(*r.pick(&['\u{e9}', '\u{fc}', '\u{f1}']));
                }
                w.chars().cycle().take(n).collect()
            }
            5 => r.pick(&[" padded ", "tail ", "TableName2", "Table Name", "\u{ff}\u{a0}", "a b\tc", "Screenshot.png", "stra\u{df}e"]).to_string(),
            _ => r.word(),
        };
        let lk = k.to_uppercase();
        if seen.contains(&lk) || STD_INFO.iter().any(|s| s.to_uppercase() == lk) {
            continue;
        }
        seen.insert(lk);
        // a listed tag may have no value, a value may not be listed
        if !r.chance(1, 12) {
            t.properties.insert(k.clone(), r.wide());
        }
        if !r.chance(1, 20) || !t.properties.contains_key(&k) {
            tags.push(k.clone());
        }
        if r.chance(1, 20) {
            tags.push(k);
        }
    }
    if r.bool() {
        tags.reverse();
    }
    (t, tags)
}

/// the end of a path decides the extension
fn cut_path(s: &mut String) {
    let n = s.chars().count();
    if n > 100 {
        *s = s.chars().skip(n - 100).collect();
    }
    if s.rsplit_once('.').is_some_and(|(_, e)| e.len() > 20) {
        *s = "x.png".into();
    }
}
pub fn g_vpx(r: &mut R, cfg: &Cfg) -> VPX {
    let version = cfg.version.unwrap_or(*r.pick(VERSIONS));
    let mut gamedata = g_table_gamedata(r, cfg, version);
    let (info, custominfotags) = g_info(r);
    let mut n = r.below(cfg.items + 1);
    // rarely a crowd of one kind
    let crowd = match if cfg.crowd > 0 && r.chance(1, cfg.crowd) { r.below(5) } else { 9 } {
        0 if cfg.items < 2 => 4,
        1 | 2 if cfg.assets == 0 => 4,
        k => k,
    };
    let many = if crowd < 9 { *r.pick(&[11, 101, 130, 257]) } else { 0 };
    if crowd == 0 {
        n = many;
    }
    let mut gameitems = vec![];
    for _ in 0..n {
        if cfg.generic && r.chance(1, 12) {
            gameitems.push(g_generic(r));
            continue;
        }
        let k = if r.chance(1, 5) { 15 } else { r.below(N_ITEM_TYPES) };
        let mut it = g_item(r, k);
        if let GameItemEnum::Primitive(p) = &mut it {
            attach_mesh(p, r, cfg.mesh);
        }
        if r.chance(1, 4) && !gameitems.is_empty() {
            // duplicate and case-variant names are common in the wild
            let other: String = {
                let o: &GameItemEnum = r.pick(&gameitems);
                o.name().to_string()
            };
            set_item_name(&mut it, if r.bool() { other.to_uppercase() } else { other });
        }
        gameitems.push(it);
    }
    let images: Vec<_> = (0..if crowd == 1 { many } else { r.below(cfg.assets + 1) }).map(|_| g_image(r, cfg.img)).collect();
    let sounds: Vec<_> = (0..if crowd == 2 { many } else { r.below(cfg.assets + 1) }).map(|_| g_sound(r, version, cfg.img)).collect();
    let fonts: Vec<_> = (0..if crowd == 3 { many } else { r.below(3) }).map(|_| g_fontdata(r)).collect();
    let collections: Vec<_> = (0..if crowd == 4 { many } else { r.small_len() }).map(|_| g_collection(r)).collect();
    let (mut gameitems, mut images, mut sounds, mut fonts) = (gameitems, images, sounds, fonts);
    if cfg.img == ImgMode::Expanded {
        // names become file names: what a file system can hold
        let cut = |s: &mut String| *s = s.chars().take(60).collect();
        for g in gameitems.iter_mut().filter(|g| g.name().chars().count() > 60) {
            let n = g.name().chars().take(60).collect();
            set_item_name(g, n);
        }
        for i in images.iter_mut() {
            cut(&mut i.name);
            cut_path(&mut i.path);
        }
        for i in sounds.iter_mut() {
            cut(&mut i.name);
            cut_path(&mut i.path);
        }
        for i in fonts.iter_mut() {
            cut(&mut i.name);
        }
    }
    gamedata.gameitems_size = gameitems.len() as u32;
    gamedata.images_size = images.len() as u32;
    gamedata.sounds_size = sounds.len() as u32;
    gamedata.fonts_size = fonts.len() as u32;
    gamedata.collections_size = collections.len() as u32;
    VPX { custominfotags, info, version: Version::new(version), gamedata, gameitems, images, sounds, fonts, collections }
}

/// a table with more than a thousand things of one kind
pub fn crowd(r: &mut R, kind: usize, n: usize, same_name: bool) -> VPX {
    let mut v = g_vpx(r, &Cfg { items: 0, assets: 0, crowd: 0, ..Cfg::expanded() });
    let ver = v.version.u32();
    v.fonts.clear();
    v.collections.clear();
    let plain = std::mem::replace(&mut r.plain, true);
    let name = |i: usize| if same_name { "crowd".to_string() } else { format!("crowd{i}") };
    for i in 0..n {
        match kind {
            0 => {
                let k = *r.pick(&[2, 19, 20]);
                let mut g = g_item(r, k);
                set_item_name(&mut g, name(i));
                v.gameitems.push(g);
            }
            1 => {
                let mut x = g_image(r, ImgMode::Expanded);
                x.bits = None;
                let data = (i as u32).to_le_bytes().to_vec();
                x.link = None;
                x.jpeg = Some(ImageDataJpeg { path: String::new(), name: String::new(), internal_name: None, data });
                x.name = name(i);
                x.path = "c:\\a\\b.webp".into();
                v.images.push(x);
            }
            2 => {
                let mut x = g_sound(r, ver, ImgMode::Expanded);
                x.path = "a.ogg".into();
                x.data = (i as u32).to_le_bytes().to_vec();
                x.wave_form = Default::default();
                x.name = name(i);
                v.sounds.push(x);
            }
            3 => {
                let mut x = g_fontdata(r);
                x.data = (i as u32).to_le_bytes().to_vec();
                x.name = name(i);
                v.fonts.push(x);
            }
            _ => {
                let mut x = g_collection(r);
                x.items.truncate(1);
                x.name = format!("crowd{i}");
                v.collections.push(x);
            }
        }
    }
    r.plain = plain;
    v.gamedata.gameitems_size = v.gameitems.len() as u32;
    v.gamedata.images_size = v.images.len() as u32;
    v.gamedata.sounds_size = v.sounds.len() as u32;
    v.gamedata.fonts_size = v.fonts.len() as u32;
    v.gamedata.collections_size = v.collections.len() as u32;
    v
}

pub fn attach_mesh(p: &mut Primitive, r: &mut R, kind: MeshKind) {
    match kind {
        MeshKind::Off => {}
        MeshKind::Opaque => {
            if r.bool() {
                let a = r.blob();
                let b = r.blob();
                p.num_vertices = r.opt(|r| r.u32());
                p.compressed_vertices_len = r.opt(|_| a.len() as u32);
                p.compressed_vertices_data = Some(a);
                p.num_indices = r.opt(|r| r.u32());
                p.compressed_indices_len = r.opt(|_| b.len() as u32);
                p.compressed_indices_data = Some(b);
                if r.bool() {
                    let n = 1 + r.below(3);
                    let d: Vec<Vec<u8>> = (0..n).map(|_| r.blob()).collect();
                    p.compressed_animation_vertices_len = Some(d.iter().map(|x| x.len() as u32).collect());
                    p.compressed_animation_vertices_data = Some(d);
                }
            }
        }
        MeshKind::Real => {
            if r.chance(2, 3) {
                let m = g_mesh(r, false);
                let anim = r.chance(1, 3);
                set_mesh(p, &m, r, anim);
            }
        }
    }
}

/// shape signature of a generated table, used to count distinct cases
pub fn shape(v: &VPX) -> u64 {
    let mut s = format!("{};{};", v.version.u32(), v.gamedata.is_10_8_0_beta1_to_beta4);
    let mut t: Vec<String> = v.gameitems.iter().map(|g| g.type_name()).collect();
    t.sort();
    t.dedup();
    s += &t.join(",");
    s += &format!(";{};{};{};{};{}", v.images.len(), v.sounds.len(), v.fonts.len(), v.collections.len(), v.gamedata.materials.is_some());
    crate::rng::hash_str(&s)
}

/// expected on-disk encoding of a value (see check C17)
#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    F32(f32),
    F32s(Vec<f32>),
    Q8(f32),
    Bool(bool),
    Str(String),
    Wide(String),
    U32(u32),
    U8(u8),
    Color(u32),
    Bytes(Vec<u8>),
    Absent,
    Other,
}
impl Enc {
    pub fn kind(&self) -> &'static str {
        match self {
            Enc::F32(_) => "f32",
            Enc::F32s(v) if v.len() == 2 => "vec2",
            Enc::F32s(_) => "vec3",
            Enc::Q8(_) => "q8",
            Enc::Bool(_) => "bool",
            Enc::Str(_) => "latin1",
            Enc::Wide(_) => "utf16",
            Enc::U32(_) => "u32",
            Enc::U8(_) => "u8",
            Enc::Color(_) => "color",
            Enc::Bytes(_) => "bytes",
            Enc::Absent => "absent",
            Enc::Other => "other",
        }
    }
}

/// the OLE font description as documented in olefont.c
pub fn font_bytes(p: (u16, Vec<FontStyle>, u16, u32, String)) -> Vec<u8> {
    let mut style = 0u8;
    for st in &p.1 {
        style |= match st {
            FontStyle::Normal => 1,
            FontStyle::Bold => 2,
            FontStyle::Italic => 4,
            FontStyle::Underline => 8,
            FontStyle::Strikethrough => 16,
        };
    }
    let name: Vec<u8> = p.4.chars().map(|c| c as u32 as u8).collect();
    let mut v = vec![1u8];
    v.extend(p.0.to_le_bytes());
    v.push(style);
    v.extend(p.2.to_le_bytes());
    v.extend(p.3.to_le_bytes());
    v.push(name.len() as u8);
    v.extend(name);
    v
}
