//! C10 bitmap codec, C11 record framing, C21 numeric conversions, C22 group
//! order, C24 materials.
use crate::ensure;
use crate::model::*;
use crate::model_gen::*;
use crate::oracle::lzw_decode;
use crate::report::*;
use crate::rng::{R, hash_bytes, hash_str, mix};
use crate::snap::{self, Kind};
use crate::util::*;
use serde_json::json;
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::biff::{BiffReader, BiffWriter};
use vpin::vpx::color::Color;
use vpin::vpx::expanded::{self, ExpandOptions};
use vpin::vpx::gameitem::{self, GameItemEnum};
use vpin::vpx::image::ImageDataBits;
use vpin::vpx::material::{Material, MaterialType, SaveMaterial, SavePhysicsMaterial};
use vpin::vpx::math::*;
use vpin::vpx::model::{StringEncoding, StringWithEncoding};
use vpin::vpx::units::*;
use vpin::vpx::version::Version;
use vpin::vpx::{self, lzw};

// ---------------------------------------------------------------- C10

/// Independent encoder of the same format with other choices than the
/// library's: block size, when to clear, whether it may let the table fill up.
fn lzw_encode(data: &[u8], block: usize, clear_every: usize) -> Vec<u8> {
    let mut bits: Vec<u8> = vec![];
    let (mut acc, mut n) = (0u64, 0u32);
    let mut put = |bits: &mut Vec<u8>, c: u32, w: u32, end: bool| {
        acc |= (c as u64) << n;
        n += w;
        while n >= 8 || (end && n > 0) {
            bits.push(acc as u8);
            acc >>= 8;
            n = n.saturating_sub(8);
        }
    };
    let mut map = std::collections::HashMap::new();
    let mut next = 258u32;
    let mut w = 9;
    put(&mut bits, 256, 9, false);
    let mut cur: Option<u32> = None;
    for &b in data {
        let Some(c) = cur else {
            cur = Some(b as u32);
            continue;
        };
        if let Some(&k) = map.get(&(c, b)) {
            cur = Some(k);
            continue;
        }
        put(&mut bits, c, w, false);
        if next < 4096 {
            map.insert((c, b), next);
            next += 1;
            // the decoder is one entry behind
            if next > (1 << w) && w < 12 {
                w += 1;
            }
        }
        if next as usize >= clear_every.min(4096) {
            put(&mut bits, 256, w, false);
            map.clear();
            next = 258;
            w = 9;
        }
        cur = Some(b as u32);
    }
    if let Some(c) = cur {
        put(&mut bits, c, w, false);
        if next < 4096 {
            next += 1;
            if next > (1 << w) && w < 12 {
                w += 1;
            }
        }
    }
    put(&mut bits, 257, w, true);
    let mut out = vec![];
    for c in bits.chunks(block) {
        out.push(c.len() as u8);
        out.extend_from_slice(c);
    }
    out
}

fn g_lzw_data(r: &mut R, big: bool) -> Vec<u8> {
    let n = match r.below(7) {
        0 => 0,
        1 => r.below(5),
        2 => r.range(250, 520),
        3 => r.below(3000),
        4 => r.range(3800, 4400),
        5 => r.below(20_000),
        _ => r.below(if big { 700_000 } else { 60_000 }),
    };
    match r.below(8) {
        0 => vec![r.u8(); n],
        1 => r.bytes(n),
        2 => {
            let p = r.range(1, 40);
            let pat = r.bytes(p);
            pat.into_iter().cycle().take(n).collect()
        }
        3 => (0..n).map(|i| (i / 3) as u8).collect(),
        4 => {
            let a = r.range(1, 4);
            (0..n).map(|_| r.below(a) as u8).collect()
        }
        5 => (0..n).map(|i| if i % 4 == 3 { 255 } else { (i as u64 * 7 / 64) as u8 }).collect(),
        6 => {
            let w = r.range(1, 40) as u32;
            g_bgra(r, w, (n as u32 / 4 / w).min(60))
        }
        _ => {
            // long runs broken by noise: forces several table resets
            let mut v = vec![];
            while v.len() < n {
                let l = r.range(1, 900);
                if r.bool() {
                    v.extend(vec![r.u8(); l]);
                } else {
                    v.extend(r.bytes(l));
                }
            }
            v.truncate(n);
            v
        }
    }
}

pub fn run_c10(ctx: &Ctx) {
    ctx.rule("codec: random byte strings (runs, noise, patterns, images, table overflows) compressed by the library and expanded by an independent decoder, and compressed by an independent encoder with other block sizes and reset points and expanded by the library; bmp: tables with bitmap images extracted and reassembled; non-trivial = distinct data of at least one byte");
    let th = ctx.thorough();
    ctx.cases("codec", if th { 400_000 } else { 30_000 }, if th { 600. } else { 15. }, |r, i| {
        let d = g_lzw_data(r, th || i % 50 == 0);
        if !d.is_empty() {
            ctx.distinct(hash_bytes(&d));
        }
        let z = sut("to_lzw_blocks", || lzw::to_lzw_blocks(&d))?;
        // framing
        let (mut p, mut blocks) = (0, 0);
        while p < z.len() {
            let n = z[p] as usize;
            ensure!(n > 0, "empty block inside the compressed data", "case {i}, at {p} of {}", z.len());
            ensure!(p + 1 + n <= z.len(), "last block is longer than the data", "case {i}: block of {n} at {p} of {}", z.len());
            ensure!(p + 1 + n == z.len() || n == 254 || n == 255, "short block before the end", "case {i}: {n} bytes at {p} of {}", z.len());
            p += 1 + n;
            blocks += 1;
        }
        ctx.count("blocks", blocks);
        ctx.count("bytes", d.len() as u64);
        match lzw_decode(&z) {
            Err(e) => return viol("independent decoder rejects the compressed data", format!("case {i}: {} bytes: {e}", d.len())),
            Ok((x, used)) => {
                ensure!(x == d, "independent decoder gets other data", "case {i}: {}", snap::bdiff(&d, &x));
                ensure!(used == z.len(), "bytes after the end of the compressed data", "case {i}: {used} of {}", z.len());
            }
        }
        let back = sut("from_lzw_blocks", || lzw::from_lzw_blocks(&z))?;
        ensure!(back == d, "decompression does not invert compression", "case {i}: {}", snap::bdiff(&d, &back));
        // somebody else's compressor
        let bl = *r.pick(&[255, 254, 1, 2, 128, 253]);
        let ce = *r.pick(&[4096, 4095, 300, 1000, 511, 512, 513]);
        let y = lzw_encode(&d, bl, ce);
        match lzw_decode(&y) {
            Ok((x, _)) if x == d => {}
            _ => panic!("harness encoder wrong for {} bytes, block {bl}, clear {ce}", d.len()),
        }
        let back = sut("from_lzw_blocks", || lzw::from_lzw_blocks(&y))?;
        ensure!(back == d, "foreign compressed data decompresses to other bytes", "case {i}, blocks of {bl}, clear at {ce}: {}", snap::bdiff(&d, &back));
        ctx.count("foreign_streams", 1);
        Ok(())
    });
    ctx.cases("bmp", if th { 60_000 } else { 6000 }, if th { 400. } else { 12. }, |r, i| {
        r.plain = true;
        let mut v = g_vpx(r, &Cfg { items: 0, assets: 0, ..Cfg::expanded() });
        v.images.clear();
        let mut want = vec![];
        for k in 0..r.range(1, 4) {
            let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32);
            let mut px = g_bgra(r, w, h);
            let alpha = r.below(4);
            for p in px.chunks_exact_mut(4) {
                p[3] = match alpha {
                    0 => 255,
                    1 => r.u8(),
                    2 => 0,
                    _ => *r.pick(&[255, 255, 255, 0, 128]),
                };
            }
            let comp = lzw::to_lzw_blocks(&px);
            let own = r.chance(1, 3);
            let data = if own { lzw_encode(&px, 254, 1000) } else { comp.clone() };
            let mut im = g_image(r, ImgMode::Expanded);
            im.name = format!("img {k}");
            im.path = format!("c:\\dir\\img{k}.{}", r.pick(&["bmp", "BMP", "Bmp"]));
            im.width = w;
            im.height = h;
            im.link = None;
            im.jpeg = None;
            im.bits = Some(ImageDataBits { lzw_compressed_data: data });
            v.images.push(im);
            want.push((w, h, px, comp, own));
            ctx.count(&format!("bitmap_alpha_mode_{alpha}"), 1);
        }
        v.gamedata.images_size = v.images.len() as u32;
        let fs = MemoryFileSystem::default();
        sut_ok("extract", || expanded::write_fs(&v, &Path::new("/x"), &ExpandOptions::new(), &fs))?;
        let mut files: Vec<String> = fs.list_files().into_iter().filter(|f| f.to_lowercase().ends_with(".bmp")).collect();
        files.sort();
        ensure!(files.len() == want.len(), "wrong number of .bmp files", "case {i}: {files:?}");
        for (f, (w, h, px, _, _)) in files.iter().zip(&want) {
            let img = match image::load_from_memory_with_format(&fs.get_file(f).unwrap(), image::ImageFormat::Bmp) {
                Ok(x) => x.to_rgba8(),
                Err(e) => return viol("extracted .bmp cannot be decoded", format!("case {i} {f}: {e}")),
            };
            ensure!((img.width(), img.height()) == (*w, *h), "extracted .bmp has other dimensions", "case {i} {f}");
            for (k, (a, b)) in img.as_raw().chunks_exact(4).zip(px.chunks_exact(4)).enumerate() {
                ensure!(a == [b[2], b[1], b[0], b[3]], "extracted .bmp shows other pixels", "case {i} {f} pixel {k}: file {a:?} (rgba), table {b:?} (bgra)");
            }
            ctx.count("bmp_files_decoded", 1);
        }
        let back = sut_ok("assemble", || expanded::read_fs(&Path::new("/x"), &fs))?;
        ensure!(back.images.len() == want.len(), "images lost", "case {i}");
        for (k, (im, (w, h, px, comp, own))) in back.images.iter().zip(&want).enumerate() {
            ensure!(im.width == *w && im.height == *h, "bitmap dimensions changed", "case {i} image {k}");
            let Some(b) = &im.bits else { return viol("bitmap is no bitmap any more", format!("case {i} image {k}")) };
            match lzw_decode(&b.lzw_compressed_data) {
                Ok((x, _)) => ensure!(&x == px, "bitmap pixels changed", "case {i} image {k}: {}", snap::bdiff(px, &x)),
                Err(e) => return viol("reassembled bitmap not decodable", format!("case {i} image {k}: {e}")),
            }
            if !own {
                ensure!(&b.lzw_compressed_data == comp, "compressed form changed", "case {i} image {k}");
            }
        }
        ctx.distinct(mix(want.len() as u64, hash_bytes(&want[0].2)));
        Ok(())
    });
    ctx.require("blocks", 1000);
    ctx.require("foreign_streams", 500);
    ctx.require("bmp_files_decoded", 200);
}

// ---------------------------------------------------------------- C11

#[derive(Debug, Clone, PartialEq)]
enum Val {
    Empty,
    Bool(bool),
    U8(Vec<u8>),
    U16(Vec<u16>),
    I16(Vec<i16>),
    U32(Vec<u32>),
    I32(Vec<i32>),
    F32(Vec<u32>),
    /// latin-1 string
    Str(String),
    Wide(String),
    EmptyZero(String),
    Data(Vec<u8>),
    Padded([u32; 3]),
    Unpadded([u32; 3]),
    Vec2([u32; 2]),
    Color(u32),
    /// opaque data behind a size-less tag, length-prefixed string
    NoSizeStr(String),
    NoSizeEnc(StringWithEncoding),
    /// a nested record list
    Nested(Vec<(String, Val)>),
}

fn g_tag(r: &mut R) -> String {
    if r.chance(1, 12) {
        return r.pick(&["ZPD", "END", "NDB", "ENDC", "endb", "AB", "FONT", "CODE"]).to_string();
    }
    let s: String = (0..4).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect();
    if s == "ENDB" { "ENDX".into() } else { s }
}
fn fb(r: &mut R) -> u32 {
    match r.below(6) {
        0 => 0x7fc0_0000 + r.below(100) as u32,
        1 => *r.pick(&[0x7f80_0000, 0xff80_0000, 0x7f80_0001, 0x8000_0000, 0xffff_ffff]),
        _ => r.u64() as u32,
    }
}
fn g_val(r: &mut R, depth: u32) -> Val {
    let n = r.range(1, 6);
    match r.below(20) {
        0 => Val::Empty,
        1 => Val::Bool(r.bool()),
        2 => Val::U8(r.bytes(n)),
        3 => Val::U16((0..n).map(|_| r.u16()).collect()),
        4 => Val::I16((0..n).map(|_| r.u16() as i16).collect()),
        5 | 6 => Val::U32((0..n).map(|_| r.u32()).collect()),
        7 => Val::I32((0..n).map(|_| r.i32()).collect()),
        8 => Val::F32((0..n).map(|_| fb(r)).collect()),
        9 | 10 => Val::Str(r.latin()),
        11 | 12 => Val::Wide(r.wide()),
        13 => Val::EmptyZero(r.latin()),
        14 => Val::Data(r.blob()),
        15 => Val::Padded(std::array::from_fn(|_| fb(r))),
        16 => Val::Unpadded(std::array::from_fn(|_| fb(r))),
        17 => {
            if r.bool() {
                Val::Vec2(std::array::from_fn(|_| fb(r)))
            } else {
                Val::Color(r.u32())
            }
        }
        18 => {
            if r.bool() {
                Val::NoSizeStr(r.latin())
            } else {
                let s = g_code(r);
                Val::NoSizeEnc(s)
            }
        }
        _ if depth < 2 => {
            let n = r.below(4);
            Val::Nested((0..n).map(|_| (g_tag(r), g_val(r, depth + 1))).collect())
        }
        _ => Val::U32(vec![r.u32()]),
    }
}
fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
fn lat(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
/// the documented layout, from the format description alone
fn layout(v: &[(String, Val)]) -> Vec<u8> {
    let mut o = vec![];
    for (t, v) in v {
        let mut body: Vec<u8> = vec![];
        let lp = |d: Vec<u8>| -> Vec<u8> { [(d.len() as u32).to_le_bytes().to_vec(), d].concat() };
        let mut sized = true;
        match v {
            Val::Empty => {}
            Val::Bool(b) => body = vec![*b as u8, 0, 0, 0],
            Val::U8(x) | Val::Data(x) => body = x.clone(),
            Val::U16(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::I16(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::U32(x) | Val::F32(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::I32(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::Str(s) => body = lp(lat(s)),
            Val::Wide(s) => body = lp(utf16(s)),
            Val::EmptyZero(s) => body = if s.is_empty() { vec![1, 0, 0, 0, 0] } else { lp(lat(s)) },
            Val::Padded(x) => {
                body = x.iter().flat_map(|x| x.to_le_bytes()).collect();
                body.extend([0; 4]);
            }
            Val::Unpadded(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::Vec2(x) => body = x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::Color(c) => body = c.to_le_bytes().to_vec(),
            Val::NoSizeStr(s) => {
                body = lp(lat(s));
                sized = false;
            }
            Val::NoSizeEnc(s) => {
                body = lp(match s.encoding {
                    StringEncoding::Utf8 => s.string.clone().into_bytes(),
                    StringEncoding::Latin1 => lat(&s.string),
                });
                sized = false;
            }
            Val::Nested(l) => body = layout(l),
        }
        o.extend_from_slice(&(4 + if sized { body.len() as u32 } else { 0 }).to_le_bytes());
        let mut tag = t.as_bytes().to_vec();
        tag.resize(4, 0);
        o.extend(tag);
        o.extend(body);
    }
    o.extend_from_slice(b"\x04\0\0\0ENDB");
    o
}
fn write_vals(w: &mut BiffWriter, v: &[(String, Val)], alt: &mut R) {
    let f = f32::from_bits;
    for (t, v) in v {
        match v {
            Val::Empty => w.write_tagged_empty(t),
            Val::Bool(b) => w.write_tagged_bool(t, *b),
            Val::U8(x) => {
                w.new_tag(t);
                for b in x {
                    if alt.bool() {
                        w.write_u8(*b)
                    } else {
                        w.write_8(*b as i8)
                    }
                }
                if alt.bool() {
                    w.end_tag();
                }
            }
            Val::U16(x) => {
                w.new_tag(t);
                x.iter().for_each(|x| w.write_u16(*x));
            }
            Val::I16(x) => {
                w.new_tag(t);
                x.iter().for_each(|x| w.write_16(*x));
                w.end_tag();
            }
            Val::U32(x) if x.len() == 1 => w.write_tagged_u32(t, x[0]),
            Val::U32(x) => {
                w.new_tag(t);
                x.iter().for_each(|x| w.write_u32(*x));
                w.end_tag();
            }
            Val::I32(x) if x.len() == 1 => w.write_tagged_i32(t, x[0]),
            Val::I32(x) => {
                w.new_tag(t);
                x.iter().for_each(|x| w.write_32(*x));
                w.end_tag();
            }
            Val::F32(x) if x.len() == 1 => w.write_tagged_f32(t, f(x[0])),
            Val::F32(x) => {
                w.new_tag(t);
                x.iter().for_each(|x| w.write_f32(f(*x)));
            }
            Val::Str(s) => {
                if alt.bool() {
                    w.write_tagged_string(t, s)
                } else {
                    w.new_tag(t);
                    w.write_string(s);
                    w.end_tag();
                }
            }
            Val::Wide(s) => w.write_tagged_wide_string(t, s),
            Val::EmptyZero(s) => {
                w.new_tag(t);
                w.write_string_empty_zero(s);
                w.end_tag();
            }
            Val::Data(d) => w.write_tagged_data(t, d),
            Val::Padded(x) => w.write_tagged_padded_vector(t, f(x[0]), f(x[1]), f(x[2])),
            Val::Unpadded(x) => w.write_tagged_unpadded_vector(t, f(x[0]), f(x[1]), f(x[2])),
            Val::Vec2(x) => w.write_tagged_vec2(t, f(x[0]), f(x[1])),
            Val::Color(c) => w.write_tagged_with(t, &Color::from_win_color(*c), Color::biff_write),
            Val::NoSizeStr(s) => w.write_tagged_string_no_size(t, s),
            Val::NoSizeEnc(s) => w.write_tagged_string_with_encoding_no_size(t, s),
            Val::Nested(l) => {
                let mut inner = BiffWriter::new();
                write_vals(&mut inner, l, alt);
                inner.close(true);
                w.write_tagged_data(t, inner.get_data());
            }
        }
    }
}
/// read a value with typed getters; `part` limits how many elements are taken
fn read_val(rd: &mut BiffReader<'_>, v: &Val, r: &mut R) -> Val {
    match v {
        Val::Empty => Val::Empty,
        Val::Bool(_) => Val::Bool(rd.get_bool()),
        Val::U8(x) => {
            if r.bool() {
                Val::U8(rd.get(x.len()).to_vec())
            } else {
                Val::U8((0..x.len()).map(|_| rd.get_u8()).collect())
            }
        }
        Val::U16(x) => Val::U16(if r.bool() { rd.get_u16_array(x.len()) } else { (0..x.len()).map(|_| rd.get_u16()).collect() }),
        Val::I16(x) => Val::I16(if r.bool() { rd.get_i16_array(x.len()) } else { (0..x.len()).map(|_| rd.get_i16()).collect() }),
        Val::U32(x) => Val::U32(match r.below(3) {
            0 => rd.get_u32_array(x.len()),
            1 if x.len() == 2 => {
                let q = rd.get_u64();
                vec![q as u32, (q >> 32) as u32]
            }
            _ => (0..x.len()).map(|_| rd.get_u32()).collect(),
        }),
        Val::I32(x) => Val::I32(match r.below(4) {
            0 => rd.get_i32_array(x.len()),
            1 => (0..x.len()).map(|_| rd.get_32()).collect(),
            2 if x.len() == 2 => {
                let q = rd.get_i64();
                vec![q as i32, (q >> 32) as i32]
            }
            _ => (0..x.len()).map(|_| rd.get_i32()).collect(),
        }),
        Val::F32(x) => Val::F32(if r.bool() {
            rd.get_f32_array(x.len()).iter().map(|f| f.to_bits()).collect()
        } else if x.len() == 2 && r.bool() {
            let q = rd.get_double().to_bits();
            vec![q as u32, (q >> 32) as u32]
        } else {
            (0..x.len()).map(|_| rd.get_f32().to_bits()).collect()
        }),
        Val::Str(_) => Val::Str(if r.bool() { rd.get_string() } else { rd.get_string_array(1).remove(0) }),
        Val::EmptyZero(_) => Val::EmptyZero(rd.get_string()),
        Val::Wide(_) => Val::Wide(rd.get_wide_string()),
        Val::Data(x) => Val::Data(match r.below(3) {
            0 => rd.get_record_data(false),
            1 => rd.get(x.len()).to_vec(),
            _ => rd.get_data(x.len()).to_vec(),
        }),
        Val::Padded(_) => {
            let a = rd.get_f32_array(4);
            if a[3].to_bits() != 0 {
                return Val::Empty;
            }
            Val::Padded([a[0].to_bits(), a[1].to_bits(), a[2].to_bits()])
        }
        Val::Unpadded(_) => Val::Unpadded(std::array::from_fn(|_| rd.get_f32().to_bits())),
        Val::Vec2(_) => Val::Vec2(std::array::from_fn(|_| rd.get_f32().to_bits())),
        Val::Color(_) => Val::Color(Color::biff_read(rd).to_win_color()),
        Val::NoSizeStr(_) => Val::NoSizeStr(rd.get_string_no_remaining_update()),
        Val::NoSizeEnc(_) => {
            let n = rd.get_u32_no_remaining_update() as usize;
            Val::NoSizeEnc(rd.get_str_with_encoding_no_remaining_update(n))
        }
        Val::Nested(l) => {
            let d = if r.bool() {
                rd.get_record_data(false)
            } else {
                let (out, used) = {
                    let mut c = rd.child_reader();
                    let mut out = vec![];
                    loop {
                        let Some(t) = c.next(true) else { break };
                        match l.get(out.len()) {
                            Some((_, v)) => {
                                let v = read_val(&mut c, v, r);
                                out.push((t, v));
                            }
                            None => {
                                out.push((t, Val::Empty));
                                break;
                            }
                        }
                    }
                    (out, c.pos())
                };
                rd.skip(used);
                return Val::Nested(out);
            };
            let mut c = BiffReader::new(&d);
            let mut out = vec![];
            while let Some(t) = c.next(true) {
                let Some((_, v)) = l.get(out.len()) else { break };
                let v = read_val(&mut c, v, r);
                out.push((t, v));
            }
            Val::Nested(out)
        }
    }
}
fn sized(v: &Val) -> bool {
    !matches!(v, Val::NoSizeStr(_) | Val::NoSizeEnc(_))
}

pub fn run_c11(ctx: &Ctx) {
    ctx.rule("a case is a random list of up to 30 tagged values (numbers, arrays, both string encodings, raw data, vectors, size-less records, nested lists up to two deep) written through random equivalent calls of the writer, compared byte for byte with an independent layout, then read back in a random mix of typed reads, partial reads, skips and raw reads; non-trivial = distinct byte images");
    let th = ctx.thorough();
    ctx.cases("framing", if th { 3_000_000 } else { 400_000 }, if th { 600. } else { 15. }, |r, i| {
        let n = r.below(30);
        let vals: Vec<(String, Val)> = (0..n).map(|_| (g_tag(r), g_val(r, 0))).collect();
        let want = layout(&vals);
        let mut alt = R::new(r.u64());
        let got = sut("BiffWriter", || {
            let mut w = BiffWriter::new();
            write_vals(&mut w, &vals, &mut alt);
            w.close(true);
            w.get_data().to_vec()
        })?;
        ensure!(got == want, "written records do not have the documented layout", "case {i}: {}", snap::bdiff(&want, &got));
        ctx.distinct(hash_bytes(&got));
        ctx.count("records", n as u64);
        // typed reads, skips, raw reads
        let mut plan = R::new(r.u64());
        let res = sut("BiffReader", || -> Res {
            let mut rd = BiffReader::new(&got);
            if plan.bool() {
                rd.disable_warn_remaining();
            }
            for (k, (t, v)) in vals.iter().enumerate() {
                ensure!(!rd.is_eof(), "end reported before the last record", "case {i} record {k}");
                let tag = rd.next(plan.bool());
                ensure!(tag.as_deref() == Some(t.as_str()) && rd.tag() == *t, "reading lands on another record", "case {i} record {k}: expected {t}, got {tag:?}, after {:?}", k.checked_sub(1).map(|j| &vals[j]));
                let pos = rd.pos();
                let len = u32::from_le_bytes(got[pos - 8..pos - 4].try_into().unwrap()) as usize - 4;
                if sized(v) {
                    ensure!(rd.remaining_in_record() == len, "wrong number of bytes remaining", "case {i} record {k} {v:?}: {} instead of {len}", rd.remaining_in_record());
                }
                match plan.below(if sized(v) { 7 } else { 1 }) {
                    0 | 1 | 2 => {
                        let x = read_val(&mut rd, v, &mut plan);
                        ensure!(&x == v, format!("read another {} than was written", kind(v)), "case {i} record {k}: wrote {v:?}, read {x:?}");
                        ensure!(rd.remaining_in_record() == 0, "bytes remain after the whole value was read", "case {i} record {k} {v:?}: {}", rd.remaining_in_record());
                        ctx.count(&format!("typed:{}", kind(v)), 1);
                    }
                    3 => {
                        let s = rd.skip_tag();
                        ensure!(s == len, "skip_tag skipped another length", "case {i} record {k}: {s} instead of {len}");
                        ctx.count("skipped", 1);
                    }
                    4 => {
                        // leave the record unread, or partly read
                        let p = plan.below(len + 1);
                        if plan.bool() {
                            rd.skip(p);
                        } else {
                            let d = rd.get(p).to_vec();
                            ensure!(d == got[pos..pos + p], "partial read returned other bytes", "case {i} record {k}");
                        }
                        ensure!(rd.remaining_in_record() == len - p, "remaining count wrong after a partial read", "case {i} record {k}");
                        ctx.count("partial", 1);
                    }
                    5 => {
                        let d = rd.get_record_data(true);
                        ensure!(d == got[pos - 4..pos + len], "raw record with its tag differs", "case {i} record {k}: {}", snap::bdiff(&got[pos - 4..pos + len], &d));
                        ctx.count("raw", 1);
                    }
                    _ => {
                        let d = rd.get_record_data(false);
                        ensure!(d == got[pos..pos + len], "raw record differs", "case {i} record {k}: {}", snap::bdiff(&got[pos..pos + len], &d));
                        ctx.count("raw", 1);
                    }
                }
            }
            let e = rd.next(true);
            ensure!(e.is_none() && rd.is_eof() && rd.pos() == got.len(), "end of the records not found", "case {i}: {e:?} at {} of {}", rd.pos(), got.len());
            Ok(())
        })?;
        res
    });
    // raw data up to a tag
    ctx.cases("data_until", if th { 300_000 } else { 6_000 }, 6., |r, i| {
        let mut d = r.blob();
        // every byte string that does not look like a framed record of that tag
        if r.chance(1, 3) && d.len() > 12 {
            let p = r.below(d.len() - 8);
            d[p..p + 8].copy_from_slice(b"\xff\xff\xff\xffALTV");
        }
        let mut w = BiffWriter::new();
        w.write_tagged_data_without_size("BITS", &d);
        w.write_tagged_f32("ALTV", r.f32());
        w.close(true);
        let b = w.get_data();
        ensure!(b[..8] == *b"\x04\0\0\0BITS", "size-less record has another header", "case {i}: {:?}", &b[..8]);
        sut("data_until", || -> Res {
            let mut rd = BiffReader::new(b);
            ensure!(rd.next(true).as_deref() == Some("BITS"), "size-less record not found", "case {i}");
            let x = rd.data_until(b"ALTV");
            ensure!(x == d, "data_until returned other data", "case {i}: {}", snap::bdiff(&d, &x));
            ensure!(rd.next(true).as_deref() == Some("ALTV"), "data_until does not land on the tag", "case {i}");
            rd.get_f32();
            ensure!(rd.next(true).is_none(), "end not found after data_until", "case {i}");
            Ok(())
        })??;
        ctx.count("data_until", 1);
        Ok(())
    });
    // every character of the two string encodings
    ctx.once("all_characters", |_| {
        for c in 1..=0xffu32 {
            let s = char::from_u32(c).unwrap().to_string();
            let mut w = BiffWriter::new();
            w.write_tagged_string("TAGX", &s);
            w.new_tag("SHRT");
            w.write_short_string(&s);
            w.close(true);
            let d = w.get_data().to_vec();
            ensure!(d[..13] == [&[9, 0, 0, 0][..], b"TAGX", &[1, 0, 0, 0, c as u8]].concat(), "latin-1 character has another encoding", "U+{c:04X}: {:?}", &d[..13]);
            ensure!(d[13..23] == [&[6, 0, 0, 0][..], b"SHRT", &[1, c as u8]].concat(), "short string has another layout", "U+{c:04X}: {:?}", &d[13..23]);
            let mut rd = BiffReader::new(&d);
            rd.next(true);
            let x = rd.get_string();
            ensure!(x == s, "latin-1 character changed", "U+{c:04X} became {x:?}");
            rd.next(true);
            let n = rd.get_u8() as usize;
            let x = rd.get_str(n);
            ensure!(x == s, "latin-1 character changed in a short string", "U+{c:04X} became {x:?}");
        }
        let mut c = 1u32;
        while c <= 0x10ffff {
            let mut s = String::new();
            while s.len() < 3000 && c <= 0x10ffff {
                if let Some(ch) = char::from_u32(c) {
                    s.push(ch);
                }
                c += 1;
            }
            let mut w = BiffWriter::new();
            w.write_tagged_wide_string("WIDE", &s);
            w.close(true);
            let d = w.get_data();
            ensure!(d[12..d.len() - 8] == utf16(&s)[..], "wide string has another encoding", "block before U+{c:04X}");
            let mut rd = BiffReader::new(d);
            rd.next(true);
            let x = rd.get_wide_string();
            ensure!(x == s, "wide string changed", "block before U+{c:04X}");
            ctx.count("wide_characters", s.chars().count() as u64);
        }
        Ok(())
    });
    ctx.require("records", 50_000);
    ctx.require("skipped", 1000);
    ctx.require("raw", 1000);
    ctx.require("wide_characters", 1_112_000);
}
fn kind(v: &Val) -> &'static str {
    match v {
        Val::Empty => "empty",
        Val::Bool(_) => "bool",
        Val::U8(_) => "u8",
        Val::U16(_) => "u16",
        Val::I16(_) => "i16",
        Val::U32(_) => "u32",
        Val::I32(_) => "i32",
        Val::F32(_) => "f32",
        Val::Str(_) => "string",
        Val::Wide(_) => "wide string",
        Val::EmptyZero(_) => "empty-zero string",
        Val::Data(_) => "data",
        Val::Padded(_) => "padded vector",
        Val::Unpadded(_) => "vector",
        Val::Vec2(_) => "vec2",
        Val::Color(_) => "color",
        Val::NoSizeStr(_) => "size-less string",
        Val::NoSizeEnc(_) => "size-less encoded string",
        Val::Nested(_) => "nested list",
    }
}

// ---------------------------------------------------------------- C21

fn close(a: f32, b: f64, mag: f64) -> bool {
    (a as f64 - b).abs() <= 4e-6 * mag.abs() + 1e-30
}
pub fn run_c21(ctx: &Ctx) {
    ctx.rule("exhaustive over every quantised value of every width, every colour byte per channel and every version up to 70000, random over floats, colours, units, vectors and matrices; oracle = the definitions in f64; non-trivial = distinct inputs");
    let th = ctx.thorough();
    ctx.once("quantize_all", |_| {
        for bits in 1..=8u8 {
            let n = (1u32 << bits) - 1;
            let mut prev = -1.0f32;
            if bits < 8 {
                // the u8 variant takes any width that fits
            }
            for i in 0..=n {
                let d = sut("dequantize_u8", || dequantize_u8(bits, i as u8))?;
                ensure!(d > prev && (0.0..=1.0).contains(&d), "dequantised values not increasing in 0..1", "bits {bits}, {i}: {d} after {prev}");
                ensure!(close(d, i as f64 / n as f64, 1.0), "dequantised value wrong", "bits {bits}, {i}: {d}");
                let q = sut("quantize_u8", || quantize_u8(bits, d))?;
                ensure!(q as u32 == i, "quantisation loses a value", "bits {bits}: {i} -> {d} -> {q}");
                prev = d;
                ctx.distinct(mix(bits as u64, i as u64));
            }
            ensure!(dequantize_u8(bits, 0) == 0.0 && dequantize_u8(bits, n as u8) == 1.0, "end points of quantisation moved", "bits {bits}");
        }
        macro_rules! wide {
            ($($b:literal)*) => { $( {
                let n = (1u32 << $b) - 1;
                let step = if n > 70_000 { (n / 60_000) | 1 } else { 1 };
                let mut i = 0u32;
                let mut prev = -1.0f32;
                loop {
                    let d = sut("dequantize_unsigned", || dequantize_unsigned::<$b>(i))?;
                    ensure!(d > prev && d <= 1.0, "dequantised values not increasing in 0..1", "{} bits, {i}: {d} after {prev}", $b);
                    ensure!(close(d, i as f64 / n as f64, 1.0), "dequantised value wrong", "{} bits, {i}: {d}", $b);
                    let q = sut("quantize_unsigned", || quantize_unsigned::<$b>(d))?;
                    ensure!(q == i, "quantisation loses a value", "{} bits: {i} -> {d} -> {q}", $b);
                    prev = d;
                    if i == n { break; }
                    i = i.saturating_add(step).min(n);
                }
                ctx.count("quantised_values", (n / step) as u64);
            } )* };
        }
        // f32 rounding makes wider ones inexact by design
        wide!(1 2 3 4 5 6 7 8 9 10 11 12);
        for i in 0..=255u8 {
            let d = dequantize_unsigned_8(i);
            ensure!(d == dequantize_unsigned::<8>(i as u32) && d == dequantize_u8(8, i), "8-bit dequantisers disagree", "{i}");
            ensure!(quantize_unsigned_8(d) == i, "8-bit quantisation loses a value", "{i}");
        }
        for i in 0..=100u32 {
            let d = dequantize_unsigned_percent(i);
            ensure!(close(d, i as f64 / 100.0, 1.0), "percent dequantised wrong", "{i}: {d}");
            let q = quantize_unsigned_percent(d);
            ensure!(q == i, "percent lost", "{i} -> {d} -> {q}");
        }
        Ok(())
    });
    ctx.cases("quantize_any", if th { 10_000_000 } else { 1_000_000 }, 60., |r, i| {
        let x = match r.below(6) {
            0 => r.below(4096) as f32 / 4095.0,
            1 => r.below(512) as f32 / 256.0,
            2 => f32::from_bits(r.below(0x7f80_0001) as u32),
            3 => *r.pick(&[0.0, -0.0, 1.0, f32::INFINITY, f32::MAX, f32::MIN_POSITIVE, 0.999_999_94, 1.000_000_1]),
            _ => r.f32_in(0.0, 1.2),
        };
        let y = f32::from_bits(x.abs().to_bits().saturating_add(r.below(1000) as u32)).min(f32::MAX).max(x);
        for bits in 1..=8u8 {
            let n = (1u64 << bits) - 1;
            let q = sut("quantize_u8", || quantize_u8(bits, x))?;
            let want = ((x as f64 * (1u64 << bits) as f64).min(n as f64)) as u64;
            ensure!(q as u64 == want, "quantised value wrong", "case {i}: bits {bits}, {x:e}: {q} instead of {want}");
            let q2 = sut("quantize_u8", || quantize_u8(bits, y))?;
            ensure!(q <= q2, "quantisation not monotone", "case {i}: bits {bits}, {x:e} -> {q}, {y:e} -> {q2}");
        }
        ensure!(quantize_unsigned_8(x) == quantize_u8(8, x) && quantize_unsigned::<8>(x) == quantize_u8(8, x) as u32, "8-bit quantisers disagree", "case {i}: {x:e}");
        let want12 = ((x as f64 * 4096.0).min(4095.0)) as u32;
        ensure!(quantize_unsigned::<12>(x) == want12, "12-bit quantised value wrong", "case {i}: {x:e}");
        let p = sut("quantize_unsigned_percent", || quantize_unsigned_percent(x))?;
        let e = (x as f64 * 101.0).min(100.0);
        ensure!((p as f64 - e.floor()).abs() < 0.5 || (e - e.round()).abs() < 1e-4 && (p as f64 - e).abs() < 1.1, "percent quantised wrong", "case {i}: {x:e}: {p}");
        ensure!(p <= quantize_unsigned_percent(y), "percent quantisation not monotone", "case {i}: {x:e}, {y:e}");
        ctx.distinct(x.to_bits() as u64);
        Ok(())
    });
    ctx.once("refuses_negative", |_| {
        for x in [-1.0f32, -1e-6, f32::NEG_INFINITY, f32::NAN] {
            for bits in 1..=8 {
                ensure!(guarded(|| quantize_u8(bits, x)).is_err(), "negative or NaN value is quantised", "bits {bits} {x}");
            }
        }
        Ok(())
    });
    ctx.cases("colors", if th { 10_000_000 } else { 500_000 }, 60., |r, i| {
        // every byte value in every channel in the first 1024 cases
        let c = if i < 1024 {
            let mut b = [r.u8(), r.u8(), r.u8(), r.u8()];
            b[(i / 256) as usize] = i as u8;
            b
        } else {
            [r.u8(), r.u8(), r.u8(), if r.bool() { 0 } else { r.u8() }]
        };
        let [cr, cg, cb, u] = c;
        ctx.distinct(u32::from_le_bytes(c) as u64);
        let win = u32::from_le_bytes([cr, cg, cb, u]);
        let rgb = (cr as u32) << 16 | (cg as u32) << 8 | cb as u32;
        let col = sut("from_win_color", || Color::from_win_color(win))?;
        ensure!((col.r, col.g, col.b) == (cr, cg, cb), "COLORREF decoded wrong", "case {i}: {win:08x} -> {col:?}");
        ensure!(col.to_win_color() == win, "COLORREF round trip", "case {i}: {win:08x} -> {:08x}", col.to_win_color());
        ensure!(col.to_rgb() == rgb, "rgb value wrong", "case {i}: {rgb:06x} vs {:06x}", col.to_rgb());
        let plain = Color::from_rgb(rgb);
        ensure!((plain.r, plain.g, plain.b) == (cr, cg, cb) && plain.to_rgb() == rgb && plain == Color::rgb(cr, cg, cb), "rgb round trip", "case {i}: {rgb:06x} {plain:?}");
        ensure!(Color::from_rgb(rgb | (u as u32) << 24) == plain, "from_rgb depends on the top byte", "case {i}");
        ensure!(plain.to_win_color() == win & 0xff_ffff, "rgb to COLORREF", "case {i}: {:08x}", plain.to_win_color());
        ensure!((col == plain) == (u == 0), "colour equality ignores the fourth byte", "case {i}");
        let text = format!("{col}");
        ensure!(text == format!("#{rgb:06x}"), "colour displayed wrong", "case {i}: {text}");
        let mut w = BiffWriter::new();
        w.write_tagged_with("COLR", &col, Color::biff_write);
        w.close(true);
        let d = w.get_data().to_vec();
        ensure!(d[..12] == [&[8, 0, 0, 0][..], b"COLR", &c].concat(), "colour record has other bytes", "case {i}: {:?}", &d[..12]);
        let mut rd = BiffReader::new(&d);
        rd.next(true);
        let back = Color::biff_read(&mut rd);
        ensure!(back == col && rd.next(true).is_none(), "colour record round trip", "case {i}: {back:?}");
        let j = serde_json::to_string(&col).unwrap();
        let back: Color = match serde_json::from_str(&j) {
            Ok(c) => c,
            Err(e) => return viol("colour text not readable", format!("case {i}: {j}: {e}")),
        };
        ensure!(back == col, "colour text round trip", "case {i}: {j} -> {back:?}");
        let want = if u == 0 { format!("\"#{rgb:06x}\"") } else { format!("\"{u:02x}#{rgb:06x}\"") };
        ensure!(j == want, "colour text has another form", "case {i}: {j} instead of {want}");
        let up: Result<Color, _> = serde_json::from_str(&want.to_uppercase());
        ensure!(matches!(up, Ok(c) if c == col), "upper case colour text refused", "case {i}: {}", want.to_uppercase());
        if i < 60 {
            for bad in ["\"\"", "\"#12345\"", "\"1234567\"", "\"#12345g\"", "\"#1234567\"", "\"12#12345\"", "5", "null"] {
                ensure!(serde_json::from_str::<Color>(bad).is_err(), "malformed colour text accepted", "{bad}");
            }
        }
        Ok(())
    });
    ctx.cases("units", if th { 3_000_000 } else { 100_000 }, 60., |r, i| {
        let x = match r.below(3) {
            0 => r.f32_in(-1e4, 1e4),
            1 => r.f32_in(-1.0, 1.0),
            _ => f32::from_bits(r.range(0x2000_0000, 0x6000_0000) as u32 | (r.below(2) as u32) << 31),
        };
        let mm = 25.4f64 * 1.0625 / 50.0;
        ctx.distinct(x.to_bits() as u64);
        for (what, got, k) in [
            ("vpu_to_mm", vpu_to_mm(x), mm),
            ("vpu_to_cm", vpu_to_cm(x), mm / 10.),
            ("vpu_to_m", vpu_to_m(x), mm / 1000.),
            ("mm_to_vpu", mm_to_vpu(x), 1. / mm),
            ("cm_to_vpu", cm_to_vpu(x), 10. / mm),
            ("m_to_vpu", m_to_vpu(x), 1000. / mm),
            ("vpu_to_units(Vpu)", vpu_to_units(x, ExportUnits::Vpu), 1.),
            ("vpu_to_units(Mm)", vpu_to_units(x, ExportUnits::Mm), mm),
            ("vpu_to_units(Cm)", vpu_to_units(x, ExportUnits::Cm), mm / 10.),
            ("vpu_to_units(M)", vpu_to_units(x, ExportUnits::M), mm / 1000.),
            ("scale(Mm)", ExportUnits::Mm.scale() * x, mm),
            ("scale(Cm)", ExportUnits::Cm.scale() * x, mm / 10.),
            ("scale(M)", ExportUnits::M.scale() * x, mm / 1000.),
            ("scale(Vpu)", ExportUnits::Vpu.scale() * x, 1.),
        ] {
            let want = x as f64 * k;
            ensure!(close(got, want, want), format!("{what} wrong"), "case {i}: {x} -> {got}, expected {want}");
        }
        for (what, got) in [("mm", mm_to_vpu(vpu_to_mm(x))), ("cm", cm_to_vpu(vpu_to_cm(x))), ("m", m_to_vpu(vpu_to_m(x)))] {
            ensure!(close(got, x as f64, x as f64), format!("{what} conversion not inverse"), "case {i}: {x} -> {got}");
        }
        ensure!(ExportUnits::default() == ExportUnits::Vpu, "default unit changed", "");
        Ok(())
    });
    ctx.cases("versions", if th { 2_000_000 } else { 100_000 }, 60., |r, i| {
        let n = if i < 70_000 { i as u32 } else { r.u32() };
        ctx.distinct(mix(77, n as u64));
        let v = Version::new(n);
        ensure!(v.u32() == n && u32::from(v.clone()) == n, "version number changed", "{n}");
        let s = v.to_u32_string();
        ensure!(s == n.to_string(), "version text wrong", "{n}: {s}");
        ensure!(matches!(Version::parse(&s), Ok(p) if p == v), "version text does not parse back", "{n}");
        let d = v.to_string();
        match d.parse::<f64>() {
            Ok(f) => ensure!((f * 100.0 - n as f64).abs() <= n as f64 * 1e-6 && (n > 1_000_000 || (f * 100.0).round() == n as f64), "displayed version wrong", "{n} shown as {d}"),
            Err(_) => return viol("displayed version is no number", d),
        }
        let m = r.u32();
        ensure!(v.partial_cmp(&Version::new(m)) == Some(n.cmp(&m)) && (v == Version::new(m)) == (n == m), "version order wrong", "{n} {m}");
        if i % 97 == 0 {
            for bad in ["", " ", "10.8", "-1", "abc", "4294967296", "1080 ", "0x10", "1e3"] {
                ensure!(Version::parse(bad).is_err(), "malformed version accepted", "{bad:?}");
            }
            ensure!(Version::default().u32() == 1080, "default version changed", "");
        }
        Ok(())
    });
    ctx.cases("matrices", if th { 5_000_000 } else { 500_000 }, 60., |r, i| {
        type M = [[f64; 4]; 4];
        let big = r.below(3);
        let f = |r: &mut R| match big {
            0 => r.f32_in(-2., 2.),
            1 => r.f32_in(-1000., 1000.),
            _ => r.below(9) as f32 - 4.0,
        };
        let rot = |ax: usize, a: f64| -> M {
            // row vectors: v' = v * M, right-handed rotation about the axis
            let (s, c) = a.sin_cos();
            match ax {
                0 => [[1., 0., 0., 0.], [0., c, s, 0.], [0., -s, c, 0.], [0., 0., 0., 1.]],
                1 => [[c, 0., -s, 0.], [0., 1., 0., 0.], [s, 0., c, 0.], [0., 0., 0., 1.]],
                _ => [[c, s, 0., 0.], [-s, c, 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]],
            }
        };
        let mk = |r: &mut R| -> (Matrix3D, M) {
            match r.below(7) {
                k @ 0..=2 => {
                    let a = r.f32_in(-10., 10.);
                    (
                        match k {
                            0 => Matrix3D::rotate_x(a),
                            1 => Matrix3D::rotate_y(a),
                            _ => Matrix3D::rotate_z(a),
                        },
                        rot(k, a as f64),
                    )
                }
                3 => {
                    let (x, y, z) = (f(r), f(r), f(r));
                    let mut m = [[0.; 4]; 4];
                    (m[0][0], m[1][1], m[2][2], m[3][3]) = (x as f64, y as f64, z as f64, 1.);
                    (Matrix3D::scale(x, y, z), m)
                }
                4 => {
                    let x = f(r);
                    let mut m = [[0.; 4]; 4];
                    (m[0][0], m[1][1], m[2][2], m[3][3]) = (x as f64, x as f64, x as f64, 1.);
                    (Matrix3D::scale_uniform(x), m)
                }
                5 => {
                    let (x, y, z) = (f(r), f(r), f(r));
                    let mut m = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0.; 4]];
                    m[3] = [x as f64, y as f64, z as f64, 1.];
                    (Matrix3D::translate(x, y, z), m)
                }
                _ => {
                    let v: Vec<f32> = (0..16).map(|_| f(r)).collect();
                    let m = Matrix3D::new(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
                    (m, std::array::from_fn(|i| std::array::from_fn(|j| v[4 * i + j] as f64)))
                }
            }
        };
        let ((a, fa), (b, fb)) = (mk(r), mk(r));
        let maxabs = |m: &M| m.iter().flatten().fold(0f64, |a, b| a.max(b.abs()));
        let same = |m: &Matrix3D, w: &M, mag: f64| (0..4).all(|i| (0..4).all(|j| close(m.m[i][j], w[i][j], mag)));
        ensure!(same(&a, &fa, 1.0f64.max(maxabs(&fa))), "matrix built wrong", "case {i}: {a:?} vs {fa:?}");
        let p = a * b;
        let fp: M = std::array::from_fn(|i| std::array::from_fn(|j| (0..4).map(|k| fa[i][k] * fb[k][j]).sum()));
        let mag = 4. * maxabs(&fa).max(1.) * maxabs(&fb).max(1.);
        ensure!(same(&p, &fp, mag), "matrix product wrong", "case {i}: {p:?} vs {fp:?}");
        #[allow(clippy::op_ref)]
        let p2 = &a * &b;
        ensure!(p2.m == p.m, "product of references differs", "case {i}");
        let id = Matrix3D::identity();
        ensure!((id * a).m == a.m && (a * id).m == a.m && Matrix3D::default().m == id.m, "identity is not neutral", "case {i}");
        let v = vpin::vpx::math::Vertex3D::new(f(r), f(r), f(r));
        let vv = [v.x as f64, v.y as f64, v.z as f64];
        let tv = a.transform_vector(v);
        let tn = a.transform_normal(v.x, v.y, v.z);
        let m1 = maxabs(&fa).max(1.) * 4. * vv.iter().fold(1f64, |a, b| a.max(b.abs()));
        let lin: Vec<f64> = (0..3).map(|j| (0..3).map(|k| vv[k] * fa[k][j]).sum()).collect();
        ensure!(close(tv.x, lin[0], m1) && close(tv.y, lin[1], m1) && close(tv.z, lin[2], m1), "vector transformed wrong", "case {i}: {tv:?} vs {lin:?}");
        ensure!(tn == tv, "normal transformed unlike a vector", "case {i}: {tn:?} {tv:?}");
        let w: f64 = (0..3).map(|k| vv[k] * fa[k][3]).sum::<f64>() + fa[3][3];
        if w.abs() > 1e-2 * m1.max(1.) || w == 1.0 {
            let t = a.transform_vertex(v);
            for (j, g) in [t.x, t.y, t.z].iter().enumerate() {
                let want = (lin[j] + fa[3][j]) / w;
                ensure!(close(*g, want, 10. * m1 / w.abs() * (1. + want.abs() * m1 / w.abs() / m1)), "vertex transformed wrong", "case {i}: component {j}: {g} vs {want}");
            }
            ctx.count("vertices_transformed", 1);
        }
        // vectors
        let len = (vv[0] * vv[0] + vv[1] * vv[1] + vv[2] * vv[2]).sqrt();
        let u = v.normalized();
        let mut u2 = v;
        u2.normalize();
        ensure!(u == u2 && close(v.length(), len, len), "vector length wrong", "case {i}");
        let a3 = Vec3::new(v.x, v.y, v.z);
        let n3 = a3.normalize();
        if len > 0. {
            for (g, h, w) in [(u.x, n3.x, vv[0]), (u.y, n3.y, vv[1]), (u.z, n3.z, vv[2])] {
                ensure!(close(g, w / len, 1.) && close(h, w / len, 1.), "normalised vector wrong", "case {i}: {v:?} -> {u:?} / {n3:?}");
            }
        } else {
            ensure!(u == v && n3 == Vec3::new(0., 0., 0.), "zero vector normalised to something", "case {i}: {u:?} {n3:?}");
        }
        let b3 = Vec3::new(f(r), f(r), f(r));
        let bb = [b3.x as f64, b3.y as f64, b3.z as f64];
        let mb = m1 * bb.iter().fold(1f64, |a, b| a.max(b.abs()));
        let c = Vec3::cross(&a3, &b3);
        for (g, w) in [(c.x, vv[1] * bb[2] - vv[2] * bb[1]), (c.y, vv[2] * bb[0] - vv[0] * bb[2]), (c.z, vv[0] * bb[1] - vv[1] * bb[0])] {
            ensure!(close(g, w, mb), "cross product wrong", "case {i}: {a3:?} x {b3:?} = {c:?}");
        }
        let (s, d, k) = (a3 + b3, a3 - b3, f(r));
        ensure!(s == Vec3::new(v.x + b3.x, v.y + b3.y, v.z + b3.z) && d == Vec3::new(v.x - b3.x, v.y - b3.y, v.z - b3.z) && a3 * k == Vec3::new(v.x * k, v.y * k, v.z * k), "vector arithmetic wrong", "case {i}");
        let (p2, q2) = (Vec2::new(v.x, v.y), Vec2::new(b3.x, b3.y));
        ensure!(p2 + q2 == Vec2::new(v.x + b3.x, v.y + b3.y) && p2 - q2 == Vec2::new(v.x - b3.x, v.y - b3.y) && p2 * k == Vec2::new(v.x * k, v.y * k), "2D vector arithmetic wrong", "case {i}");
        let l2 = (vv[0] * vv[0] + vv[1] * vv[1]).sqrt();
        ensure!(close(p2.length(), l2, l2) && close(a3.length(), len, len), "length wrong", "case {i}");
        if l2 > 0. {
            let n = p2.normalize();
            ensure!(close(n.x, vv[0] / l2, 1.) && close(n.y, vv[1] / l2, 1.), "normalised 2D vector wrong", "case {i}: {n:?}");
        } else {
            ensure!(p2.normalize() == Vec2::new(0., 0.), "zero 2D vector normalised to something", "case {i}");
        }
        // rotations: about z, and about any axis by Rodrigues' formula
        let ang = r.f32_in(-10., 10.);
        let z = Mat3::rotate_z(ang);
        let (sn, cs) = (ang as f64).sin_cos();
        let g = z.multiply_vector(a3);
        ensure!(close(g.x, cs * vv[0] - sn * vv[1], m1) && close(g.y, sn * vv[0] + cs * vv[1], m1) && close(g.z, vv[2], m1), "rotation about z wrong", "case {i}: {ang}: {a3:?} -> {g:?}");
        ensure!(z.multiply_vector_no_translate(a3) == g, "rotation of a normal differs", "case {i}");
        let bl = (bb[0] * bb[0] + bb[1] * bb[1] + bb[2] * bb[2]).sqrt();
        if bl > 1e-3 {
            let deg = r.f32_in(-400., 400.);
            let e = [bb[0] / bl, bb[1] / bl, bb[2] / bl];
            let (sn, cs) = (deg as f64).to_radians().sin_cos();
            let dot: f64 = (0..3).map(|k| e[k] * vv[k]).sum();
            let cr = [e[1] * vv[2] - e[2] * vv[1], e[2] * vv[0] - e[0] * vv[2], e[0] * vv[1] - e[1] * vv[0]];
            let g = get_rotated_axis(deg, &b3, &a3);
            for (k, gk) in [g.x, g.y, g.z].iter().enumerate() {
                let w = vv[k] * cs + cr[k] * sn + e[k] * dot * (1. - cs);
                ensure!(close(*gk, w, 4. * m1), "rotation about an axis wrong", "case {i}: {deg} degrees about {b3:?}: {a3:?} -> {g:?}, component {k} should be {w}");
            }
            ctx.count("axis_rotations", 1);
        }
        ctx.distinct(mix(hash_bytes(&v.x.to_le_bytes()), hash_bytes(&p.m[1][2].to_le_bytes())));
        Ok(())
    });
    ctx.require("vertices_transformed", 5000);
    ctx.require("axis_rotations", 5000);
    ctx.require("quantised_values", 8_000);
}

// ---------------------------------------------------------------- C22

pub fn set_group(it: &mut GameItemEnum, g: Option<String>) -> bool {
    macro_rules! s {
        ($($v:ident)*) => { match it { $(GameItemEnum::$v(x) => { x.part_group_name = g; true })* _ => false } };
    }
    s!(Wall Flipper Timer Plunger TextBox Bumper Trigger Light Kicker Decal Gate Spinner Ramp Reel LightSequencer Primitive Flasher Rubber HitTarget Ball)
}
pub fn run_c22(ctx: &Ctx) {
    ctx.rule("random item lists of all types over a small pool of group names (case variants, blanks, duplicates, missing groups, groups after their users) compared with a direct evaluation of the rule; non-trivial = lists with at least one reference, distinct by the list");
    let th = ctx.thorough();
    ctx.cases("orders", if th { 3_000_000 } else { 300_000 }, if th { 300. } else { 15. }, |r, i| {
        r.p_opt = 30;
        let pool = ["Layer_1", "layer_1", "Layer_1 ", "A", "", "Gruppe \u{e9}", "GameItem[0]", "B"];
        let np = r.range(1, pool.len());
        let n = r.below(14);
        let mut items = vec![];
        let mut groups = vec![];
        let mut sig = 0u64;
        for _ in 0..n {
            let g = r.pick(&pool[..np]).to_string();
            if r.chance(1, 3) {
                let mut it = g_item(r, ITEM_NAMES.iter().position(|n| *n == "PartGroup").unwrap());
                if let GameItemEnum::PartGroup(p) = &mut it {
                    p.name = g.clone();
                } else {
                    panic!("item table changed");
                }
                sig = mix(sig, hash_str(&g));
                items.push(it);
                groups.push((Some(g), None));
                ctx.count("group_definitions", 1);
            } else if r.chance(1, 12) {
                items.push(g_generic(r));
                groups.push((None, None));
            } else {
                let mut k = r.below(N_ITEM_TYPES);
                if ITEM_NAMES[k] == "PartGroup" {
                    k = 0;
                }
                let mut it = g_item(r, k);
                let g = r.chance(4, 5).then_some(g);
                ensure!(set_group(&mut it, g.clone()), "harness", "item without group {}", ITEM_NAMES[k]);
                ensure!(it.part_group_name() == g.as_deref(), "part_group_name() reports another group", "case {i}: {} {g:?}", ITEM_NAMES[k]);
                sig = mix(sig, mix(k as u64, hash_str(g.as_deref().unwrap_or("-"))));
                ctx.count(&format!("references_by:{}", ITEM_NAMES[k]), g.is_some() as u64);
                items.push(it);
                groups.push((None, g));
            }
        }
        ctx.distinct(sig);
        let mut want = vec![];
        for (j, (_, g)) in groups.iter().enumerate() {
            if let Some(g) = g
                && !groups[..j].iter().any(|(d, _)| d.as_ref() == Some(g))
            {
                want.push((j, g.clone()));
            }
        }
        let got = sut("validate_part_group_order", || gameitem::validate_part_group_order(&items))?;
        ctx.count("orders_with_problems", !want.is_empty() as u64);
        ctx.count("orders_without_problems", want.is_empty() as u64);
        ensure!(got.len() == want.len(), if got.len() < want.len() { "problem not reported" } else { "problem reported that is none" }, "case {i}: {groups:?}: {got:?}");
        for (w, (j, g)) in got.iter().zip(&want) {
            let it = &items[*j];
            let head = format!("GameItem[{j}] ");
            ensure!(w.starts_with(&head) && w.contains(&format!("'{}'", it.name())) && w.contains(&format!("'{g}'")) && w.contains(&it.type_name()), "report names another item or group", "case {i}: item {j} group {g:?}: {w}");
        }
        // the report does not stop the table from being written
        if i % 50 == 0 {
            let mut v = g_vpx(r, &Cfg { items: 0, assets: 0, ..Cfg::small() });
            v.gamedata.gameitems_size = items.len() as u32;
            v.gameitems = items;
            let b = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
            let w = sut_ok("from_bytes", || vpx::from_bytes(&b))?;
            ensure!(w.gameitems == v.gameitems, "order of items changed by writing", "case {i}: {}", model_diff(&v, &w));
        }
        Ok(())
    });
    ctx.require("orders_with_problems", 2000);
    ctx.require("orders_without_problems", 2000);
}

// ---------------------------------------------------------------- C24

/// what the legacy record of a material must hold
fn legacy(m: &Material) -> SaveMaterial {
    let q = |x: f32, b: u32| -> u8 {
        let n = (1u32 << b) - 1;
        ((x as f64 * (1u32 << b) as f64).floor().min(n as f64)) as u8
    };
    let clamp = |x: f32, lo: f32, hi: f32| if x < lo { lo } else if x > hi { hi } else { x };
    SaveMaterial {
        name: m.name.clone(),
        base_color: m.base_color,
        glossy_color: m.glossy_color,
        clearcoat_color: m.clearcoat_color,
        wrap_lighting: m.wrap_lighting,
        is_metal: matches!(m.type_, MaterialType::Metal),
        roughness: m.roughness,
        glossy_image_lerp: 255 - q(clamp(m.glossy_image_lerp, 0., 1.), 8),
        edge: m.edge,
        thickness: q(clamp(m.thickness, 0.05, 1.), 8),
        opacity: m.opacity,
        opacity_active_edge_alpha: m.opacity_active as u8 | q(clamp(m.edge_alpha, 0., 1.), 7) << 1,
    }
}
/// the 76-byte record of the old format
fn legacy_bytes(m: &SaveMaterial) -> Vec<u8> {
    let mut o: Vec<u8> = m.name.chars().take(31).map(|c| c as u32 as u8).collect();
    o.resize(32, 0);
    for c in [m.base_color, m.glossy_color, m.clearcoat_color] {
        o.extend(c.to_win_color().to_le_bytes());
    }
    let b = |o: &mut Vec<u8>, x: u8| o.extend([x, 0, 0, 0]);
    o.extend(m.wrap_lighting.to_le_bytes());
    b(&mut o, m.is_metal as u8);
    o.extend(m.roughness.to_le_bytes());
    b(&mut o, m.glossy_image_lerp);
    o.extend(m.edge.to_le_bytes());
    b(&mut o, m.thickness);
    o.extend(m.opacity.to_le_bytes());
    b(&mut o, m.opacity_active_edge_alpha);
    o
}
fn phys_bytes(m: &SavePhysicsMaterial) -> Vec<u8> {
    let mut o: Vec<u8> = m.name.chars().take(31).map(|c| c as u32 as u8).collect();
    o.resize(32, 0);
    for x in [m.elasticity, m.elasticity_falloff, m.friction, m.scatter_angle] {
        o.extend(x.to_le_bytes());
    }
    o
}
/// the record list of a current material, from the format description
fn matr_recs(m: &Material) -> Vec<(String, Vec<u8>)> {
    let f = |t: &str, x: f32| (t.to_string(), x.to_le_bytes().to_vec());
    let c = |t: &str, x: Color| (t.to_string(), x.to_win_color().to_le_bytes().to_vec());
    let name = lat(&m.name);
    let ty: i32 = match m.type_ {
        MaterialType::Unknown => -1,
        MaterialType::Basic => 0,
        MaterialType::Metal => 1,
    };
    vec![
        ("TYPE".into(), ty.to_le_bytes().to_vec()),
        ("NAME".into(), [(name.len() as u32).to_le_bytes().to_vec(), name].concat()),
        f("WLIG", m.wrap_lighting),
        f("ROUG", m.roughness),
        f("GIML", m.glossy_image_lerp),
        f("THCK", m.thickness),
        f("EDGE", m.edge),
        f("EALP", m.edge_alpha),
        f("OPAC", m.opacity),
        c("BASE", m.base_color),
        c("GLOS", m.glossy_color),
        c("COAT", m.clearcoat_color),
        ("EOPA".into(), (m.opacity_active as u32).to_le_bytes().to_vec()),
        f("ELAS", m.elasticity),
        f("ELFO", m.elasticity_falloff),
        f("FRIC", m.friction),
        f("SCAT", m.scatter_angle),
    ]
}

pub fn run_c24(ctx: &Ctx) {
    ctx.rule("convert: random and edge materials, every clamp boundary and every quantisation step against the formulas of the format; tables: tables with none, legacy, current or both forms written, read, extracted and reassembled, the records compared with an independent layout; non-trivial = distinct materials");
    let th = ctx.thorough();
    ctx.cases("convert", if th { 2_000_000 } else { 60_000 }, if th { 200. } else { 10. }, |r, i| {
        let mut m = g_material(r);
        let x = |r: &mut R| match r.below(6) {
            0 => r.below(257) as f32 / 256.0,
            1 => r.below(256) as f32 / 255.0,
            2 => r.below(128) as f32 / 127.0,
            3 => *r.pick(&[0.0, -0.0, 1.0, 0.05, 0.049999, 0.050001, 0.99999994, 1.0000001, -1.0, 2.0, f32::MAX, f32::MIN, 1e-30, f32::INFINITY, f32::NEG_INFINITY]),
            4 => r.f32(),
            _ => r.f32_in(-0.2, 1.2),
        };
        m.glossy_image_lerp = x(r);
        m.thickness = x(r);
        m.edge_alpha = x(r);
        let s = sut("SaveMaterial::from", || SaveMaterial::from(&m))?;
        let w = legacy(&m);
        ensure!(s == w, "legacy record holds other values", "case {i}: {m:?}\n  got {s:?}\n  want {w:?}");
        let p = sut("SavePhysicsMaterial::from", || SavePhysicsMaterial::from(&m))?;
        ensure!(
            p.name == m.name && p.elasticity == m.elasticity && p.elasticity_falloff == m.elasticity_falloff && p.friction == m.friction && p.scatter_angle == m.scatter_angle,
            "legacy physics record holds other values",
            "case {i}: {m:?} {p:?}"
        );
        ctx.distinct(hash_bytes(&legacy_bytes(&s)));
        Ok(())
    });
    ctx.cases("tables", if th { 200_000 } else { 6_000 }, if th { 500. } else { 15. }, |r, i| {
        let mode = *r.pick(&[MatMode::None, MatMode::LegacyOnly, MatMode::NewOnly, MatMode::Both]);
        let mut v = g_vpx(r, &Cfg { items: 0, assets: 0, mat: Some(mode), ..Cfg::binary() });
        if mode == MatMode::Both && r.chance(1, 3) {
            // forms that disagree are kept as they are
            for m in &mut v.gamedata.materials_old {
                *m = g_savematerial(r);
                m.name = m.name.chars().take(31).collect();
            }
        }
        ctx.count(&format!("tables:{mode:?}"), 1);
        let b = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
        let s = snap::snap(&b).map_err(|e| Viol { sig: "written table unreadable".into(), detail: e })?;
        let recs = snap::parse(&s["/GameStg/GameData"], Kind::GameData).map_err(|e| Viol { sig: "GameData not well-formed".into(), detail: e })?;
        let all = |t: &str| recs.iter().filter(|x| x.tag == t).collect::<Vec<_>>();
        let g = &v.gamedata;
        let n = g.materials_old.len();
        ensure!(all("MASI").len() == 1 && all("MASI")[0].data == (n as u32).to_le_bytes(), "material count record wrong", "case {i}");
        ensure!(all("MATE").len() == 1 && all("MATE")[0].data == g.materials_old.iter().flat_map(legacy_bytes).collect::<Vec<_>>(), "legacy material record has other bytes", "case {i}");
        match &g.materials_physics_old {
            None => ensure!(all("PHMA").is_empty(), "physics record appeared", "case {i}"),
            Some(p) => ensure!(all("PHMA").len() == 1 && all("PHMA")[0].data == p.iter().flat_map(phys_bytes).collect::<Vec<_>>(), "legacy physics record has other bytes", "case {i}"),
        }
        let cur = g.materials.as_deref().unwrap_or(&[]);
        ensure!(all("MATR").len() == cur.len(), "number of material records wrong", "case {i}: {} for {}", all("MATR").len(), cur.len());
        for (k, (rec, m)) in all("MATR").iter().zip(cur).enumerate() {
            let sub = snap::parse(&rec.data, Kind::Plain).map_err(|e| Viol { sig: "material record not well-formed".into(), detail: e })?;
            for (t, d) in matr_recs(m) {
                let f: Vec<_> = sub.iter().filter(|x| x.tag == t).collect();
                ensure!(f.len() == 1 && f[0].data == d, format!("material field {t} stored wrong"), "case {i} material {k}: {m:?}");
            }
            ensure!(sub.len() == 18 && sub.iter().any(|x| x.tag == "RTNT" && x.data.len() == 4), "material record has other fields", "case {i}: {:?}", sub.iter().map(|x| &x.tag).collect::<Vec<_>>());
            ctx.count("material_records", 1);
        }
        let w = sut_ok("from_bytes", || vpx::from_bytes(&b))?;
        ensure!(w.gamedata.materials == g.materials && w.gamedata.materials_old == g.materials_old && w.gamedata.materials_physics_old == g.materials_physics_old && w.gamedata.materials_size == n as u32, "materials changed by write and read", "case {i}: {}", model_diff(&v, &w));
        // extraction keeps the current form; the legacy form is its image
        let fs = MemoryFileSystem::default();
        sut_ok("extract", || expanded::write_fs(&v, &Path::new("/m"), &ExpandOptions::new(), &fs))?;
        let w = sut_ok("assemble", || expanded::read_fs(&Path::new("/m"), &fs))?;
        let h = &w.gamedata;
        ensure!(h.materials == g.materials, "current materials changed by extraction", "case {i}: {}", model_diff(&v, &w));
        match &g.materials {
            Some(ms) => {
                let want: Vec<_> = ms.iter().map(legacy).collect();
                ensure!(h.materials_old == want, "reassembled legacy materials are not those of the current ones", "case {i}");
                let ph = h.materials_physics_old.as_deref().unwrap_or(&[]);
                ensure!(ph.len() == ms.len() && ph.iter().zip(ms).all(|(p, m)| p.name == m.name && p.elasticity == m.elasticity && p.elasticity_falloff == m.elasticity_falloff && p.friction == m.friction && p.scatter_angle == m.scatter_angle), "reassembled physics materials are not those of the current ones", "case {i}");
                ensure!(h.materials_size as usize == ms.len(), "material count wrong after reassembly", "case {i}");
                ctx.count("extracted_with_current_form", 1);
            }
            None => {
                ensure!(h.materials_old == g.materials_old && h.materials_physics_old == g.materials_physics_old && h.materials_size as usize == n, "legacy materials changed by extraction", "case {i}: {}", model_diff(&v, &w));
                ctx.count("extracted_with_legacy_form", 1);
            }
        }
        let b2 = sut_ok("to_bytes", || vpx::to_bytes(&w))?;
        let x = sut_ok("from_bytes", || vpx::from_bytes(&b2))?;
        ensure!(x.gamedata.materials == h.materials, "materials changed after reassembly and writing", "case {i}");
        Ok(())
    });
    // padding bytes of old files are arbitrary and names may fill the field
    ctx.cases("legacy_bytes", if th { 200_000 } else { 5_000 }, 30., |r, i| {
        let v = g_vpx(r, &Cfg { items: 0, assets: 0, mat: Some(MatMode::LegacyOnly), ..Cfg::binary() });
        let b = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
        let mut s = snap::snap(&b).unwrap();
        let mut recs = snap::parse(&s["/GameStg/GameData"], Kind::GameData).unwrap();
        let n = v.gamedata.materials_old.len();
        for rec in recs.iter_mut().filter(|x| x.tag == "MATE" || x.tag == "PHMA") {
            let sz = if rec.tag == "MATE" { 76 } else { 48 };
            for k in 0..n {
                let o = &mut rec.data[k * sz..(k + 1) * sz];
                let z = o[..32].iter().position(|b| *b == 0).unwrap();
                for p in z + 1..32 {
                    o[p] = r.u8();
                }
                if sz == 76 {
                    for p in [49, 50, 51, 57, 58, 59, 65, 66, 67, 73, 74, 75] {
                        o[p] = r.u8();
                    }
                }
            }
        }
        let mut d = vec![];
        snap::emit(&recs, Kind::GameData, &mut d);
        s.insert("/GameStg/GameData".into(), d);
        let w = sut_ok("from_bytes", || vpx::from_bytes(&snap::build(&s)))?;
        ensure!(w.gamedata.materials_old == v.gamedata.materials_old && w.gamedata.materials_physics_old == v.gamedata.materials_physics_old, "padding bytes of legacy materials reach the model", "case {i}: {}", model_diff(&v, &w));
        ctx.count("padded_legacy_materials", n as u64);
        Ok(())
    });
    ctx.sample(json!({"legacy record": legacy_bytes(&legacy(&Material::default())).len(), "physics record": 48}));
    for m in ["None", "LegacyOnly", "NewOnly", "Both"] {
        ctx.require(&format!("tables:{m}"), 100);
    }
    ctx.require("material_records", 1000);
}

