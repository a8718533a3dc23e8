//! C13: wave sounds keep their samples and format.
use crate::ensure;
use crate::monfs::*;
use crate::report::*;
use crate::rng::*;
use std::path::Path;
use vpin::vpx::expanded::{self, ExpandOptions};
use vpin::vpx::sound::{OutputTarget, SoundData, WaveForm, read_sound, write_sound};
use vpin::vpx::{self, VPX};

/// what a RIFF/WAVE file says, read by the book
#[derive(Debug, PartialEq)]
struct Wave {
    fmt: WaveForm,
    data: Vec<u8>,
    other: Vec<[u8; 4]>,
}
fn parse(b: &[u8]) -> Result<Wave, Viol> {
    let at = |i: usize, n: usize| b.get(i..i + n).ok_or_else(|| Viol { sig: "wave file ends early".into(), detail: format!("{i}+{n} of {}", b.len()) });
    let u16at = |i: usize| at(i, 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()));
    let u32at = |i: usize| at(i, 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    ensure!(at(0, 4)? == b"RIFF" && at(8, 4)? == b"WAVE", "not a RIFF/WAVE file", "{:?}", &b[..b.len().min(12)]);
    ensure!(u32at(4)? as usize + 8 == b.len(), "the RIFF size is not that of the file", "{} of {} bytes", u32at(4)?, b.len());
    let mut i = 12;
    let (mut fmt, mut data, mut other) = (None, None, vec![]);
    while i < b.len() {
        let id: [u8; 4] = at(i, 4)?.try_into().unwrap();
        let n = u32at(i + 4)? as usize;
        let body = at(i + 8, n)?;
        match &id {
            b"fmt " => {
                ensure!(fmt.is_none(), "two fmt chunks", "");
                ensure!(n == 16 || n >= 18, "fmt chunk of an impossible size", "{n}");
                let k = i + 8;
                fmt = Some(WaveForm {
                    format_tag: u16at(k)?,
                    channels: u16at(k + 2)?,
                    samples_per_sec: u32at(k + 4)?,
                    avg_bytes_per_sec: u32at(k + 8)?,
                    block_align: u16at(k + 12)?,
                    bits_per_sample: u16at(k + 14)?,
                    cb_size: if n >= 18 { u16at(k + 16)? } else { 0 },
                });
            }
            b"data" => {
                ensure!(data.is_none(), "two data chunks", "");
                ensure!(fmt.is_some(), "data before its format", "");
                data = Some(body.to_vec());
            }
            _ => other.push(id),
        }
        i += 8 + n;
        if n % 2 == 1 {
            ensure!(at(i, 1)? == [0], "a chunk of odd size is not padded", "{:?}", String::from_utf8_lossy(&id));
            i += 1;
        }
    }
    match (fmt, data) {
        (Some(fmt), Some(data)) => Ok(Wave { fmt, data, other }),
        _ => viol("no fmt or no data chunk", ""),
    }
}

fn samples(r: &mut R, max: usize) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2 + r.below(3),
        3 => 65_533 + r.below(6),
        // the size looks like letters
        4 => 0x20 + r.below(0x5f) + ((0x20 + r.below(0x5f)) << 8),
        _ => r.below(300),
    };
    r.bytes(n.min(max))
}
fn form(r: &mut R) -> WaveForm {
    let tag = match r.below(4) {
        0 | 1 => 1,
        2 => *r.pick(&[2u16, 3, 6, 7, 17, 20, 49, 64, 80, 85, 0xfffe]),
        _ => r.u16(),
    };
    let wild = r.chance(1, 3);
    let (ch, bits, rate) = (*r.pick(&[1u16, 2, 6]), *r.pick(&[4u16, 8, 16, 24, 32]), *r.pick(&[8000u32, 11025, 22050, 44100, 48000, 192_000]));
    if wild {
        WaveForm { format_tag: tag, channels: r.u16(), samples_per_sec: r.u32(), avg_bytes_per_sec: r.u32(), block_align: r.u16(), bits_per_sample: r.u16(), cb_size: if tag == 1 { 0 } else { r.u16() } }
    } else {
        WaveForm {
            format_tag: tag,
            channels: ch,
            samples_per_sec: rate,
            avg_bytes_per_sec: if r.chance(1, 4) { rate } else { rate * ch as u32 * bits as u32 / 8 },
            block_align: (ch * bits / 8).max(1),
            bits_per_sample: bits,
            cb_size: if tag == 1 { 0 } else { *r.pick(&[0u16, 0, 2, 22, 32]) },
        }
    }
}
const WAV: &[&str] = &["a.wav", "A.WAV", "c:\\snd\\x.y.Wav", "noext", "", "dir.mp3/name", "/s/.hidden", "* Backglass Output *", "x.wAv"];
const OTHER: &[&str] = &["a.mp3", "a.ogg", "B.FLAC", "c:\\x.wav.mp3", "a.wav2", "a.aiff", "x.MP3"];
fn sound(r: &mut R, path: &str) -> SoundData {
    SoundData {
        name: r.word(),
        path: path.into(),
        wave_form: form(r),
        data: samples(r, 1 << 20),
        internal_name: String::new(),
        fade: r.u32(),
        volume: r.u32(),
        balance: r.u32(),
        output_target: if r.bool() { OutputTarget::Table } else { OutputTarget::Backglass },
    }
}
fn blank(path: &str) -> SoundData {
    SoundData { name: "s".into(), path: path.into(), wave_form: WaveForm::default(), data: vec![9; 3], internal_name: String::new(), fade: 0, volume: 0, balance: 0, output_target: OutputTarget::Table }
}
fn fclone(w: &WaveForm) -> WaveForm {
    WaveForm { format_tag: w.format_tag, channels: w.channels, samples_per_sec: w.samples_per_sec, avg_bytes_per_sec: w.avg_bytes_per_sec, block_align: w.block_align, bits_per_sample: w.bits_per_sample, cb_size: w.cb_size }
}
/// the file holds this format and these samples
fn holds(b: &[u8], w: &WaveForm, data: &[u8]) -> Res {
    let p = parse(b)?;
    ensure!(p.fmt == *w, "the wave file states another format", "{:?} instead of {w:?}", p.fmt);
    ensure!(p.data == data, "the wave file has other samples", "{} bytes instead of {}", p.data.len(), data.len());
    Ok(())
}

struct Foreign {
    bytes: Vec<u8>,
    fmt: WaveForm,
    data: Vec<u8>,
    data_at: usize,
}
fn chunk(b: &mut Vec<u8>, id: &[u8], body: &[u8]) {
    b.extend(id);
    b.extend((body.len() as u32).to_le_bytes());
    b.extend(body);
    if body.len() % 2 == 1 {
        b.push(0);
    }
}
fn foreign(r: &mut R) -> Foreign {
    let mut fmt = form(r);
    let extra = |r: &mut R, b: &mut Vec<u8>| {
        for _ in 0..r.below(3) {
            let id: &[u8; 4] = *r.pick::<&[u8; 4]>(&[b"JUNK", b"bext", b"LIST", b"fact", b"PEAK", b"id3 ", b"cue ", b"smpl", b"_x_1", b"DATA", b"FMT "]);
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 17, 26, 602]);
            let n = if r.chance(1, 20) { 0x20 + r.below(0x5f) + ((0x20 + r.below(0x5f)) << 8) } else { n };
            let mut body = r.bytes(n);
            if r.chance(1, 3) && n > 16 {
                // looks like chunks itself
                body[..8].copy_from_slice(b"data\x04\0\0\0");
            }
            chunk(b, id, &body);
        }
    };
    let mut b = b"WAVE".to_vec();
    extra(r, &mut b);
    let n = *r.pick(&[16usize, 16, 18, 18, 19, 20, 40, 40, 50, 33]);
    let mut f = vec![];
    f.extend(fmt.format_tag.to_le_bytes());
    f.extend(fmt.channels.to_le_bytes());
    f.extend(fmt.samples_per_sec.to_le_bytes());
    f.extend(fmt.avg_bytes_per_sec.to_le_bytes());
    f.extend(fmt.block_align.to_le_bytes());
    f.extend(fmt.bits_per_sample.to_le_bytes());
    if n >= 18 {
        let cb = if r.chance(1, 4) { r.u16() } else { (n - 18) as u16 };
        f.extend(cb.to_le_bytes());
        f.extend(r.bytes(n - 18));
        fmt.cb_size = if fmt.format_tag == 1 { 0 } else { cb };
    } else {
        fmt.cb_size = 0;
    }
    chunk(&mut b, b"fmt ", &f);
    extra(r, &mut b);
    let data = samples(r, 70_000);
    let data_at = b.len() + 16;
    chunk(&mut b, b"data", &data);
    extra(r, &mut b);
    let mut bytes = b"RIFF".to_vec();
    bytes.extend((b.len() as u32).to_le_bytes());
    bytes.extend(b);
    Foreign { bytes, fmt, data, data_at }
}

pub fn c13(ctx: &Ctx) {
    let deep = ctx.thorough();
    let (n, t) = if deep { (3_000_000, 80.0) } else { (60_000, 4.0) };
    ctx.cases("written files", n, t, |r, _| {
        let path = *r.pick(WAV);
        let s = sound(r, path);
        let b = sut("write_sound", || write_sound(&s))?;
        holds(&b, &s.wave_form, &s.data)?;
        let mut back = blank(path);
        sut_ok("read_sound", || read_sound(&b, &mut back))?;
        ensure!(back.data == s.data, "samples change", "{} bytes, then {}", s.data.len(), back.data.len());
        ensure!(back.wave_form == s.wave_form, "format changes", "{:?} to {:?}", s.wave_form, back.wave_form);
        ensure!(back.path == path && back.name == "s", "reading a sound changes other fields", "{back:?}");
        ctx.distinct(hash_bytes(&b));
        ctx.count(if s.wave_form.format_tag == 1 { "PCM" } else { "other wave formats" }, 1);
        ctx.count(if s.data.len() % 2 == 1 { "odd lengths" } else { "even lengths" }, 1);
        Ok(())
    });

    ctx.cases("other sounds", n / 4, t, |r, _| {
        let path = *r.pick(OTHER);
        let mut s = sound(r, path);
        if r.bool() {
            s.data = foreign(r).bytes;
        }
        let b = sut("write_sound", || write_sound(&s))?;
        ensure!(b == s.data, "a sound that is no wave file is changed", "{path}");
        let mut back = blank(path);
        sut_ok("read_sound", || read_sound(&b, &mut back))?;
        ensure!(back.data == s.data, "a sound that is no wave file is changed by reading", "{path}");
        ctx.count("sounds in other formats", 1);
        Ok(())
    });

    ctx.cases("files of other programs", n, t, |r, _| {
        let f = foreign(r);
        let p = parse(&f.bytes).map_err(|v| Viol { sig: "harness: own file rejected".into(), detail: v.sig })?;
        assert!(p.data == f.data);
        let path = *r.pick(WAV);
        let mut s = blank(path);
        sut_ok("read_sound", || read_sound(&f.bytes, &mut s))?;
        ensure!(s.data == f.data, "a wave file is read with other samples", "{} bytes instead of {}; chunks {:?}", s.data.len(), f.data.len(), p.other.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>());
        ensure!(s.wave_form == f.fmt, "a wave file is read with another format", "{:?} instead of {:?}", s.wave_form, f.fmt);
        let b = sut("write_sound", || write_sound(&s))?;
        holds(&b, &f.fmt, &f.data)?;
        ctx.count(&format!("files with {} other chunks", p.other.len()), 1);
        ctx.distinct(hash_bytes(&f.bytes));
        Ok(())
    });

    // vpin up to 0.27.0 put cb_size where the data size belongs, up to 0.26
    // it stated 16 bytes of format although two more followed
    ctx.cases("files of older versions", n / 4, t, |r, _| {
        let mut w = form(r);
        let data = samples(r, 70_000);
        let (stray, right) = (w.format_tag != 1 && r.bool(), r.bool());
        if stray && right {
            w.cb_size = 1 + r.below(255) as u16;
        }
        let mut b = b"RIFF".to_vec();
        b.extend((data.len() as u32 + 36).to_le_bytes());
        b.extend(b"WAVEfmt ");
        b.extend(if w.format_tag == 1 || stray { 16u32 } else { 18 }.to_le_bytes());
        b.extend(w.format_tag.to_le_bytes());
        b.extend(w.channels.to_le_bytes());
        b.extend(w.samples_per_sec.to_le_bytes());
        b.extend(w.avg_bytes_per_sec.to_le_bytes());
        b.extend(w.block_align.to_le_bytes());
        b.extend(w.bits_per_sample.to_le_bytes());
        if w.format_tag != 1 {
            b.extend(if stray && right { w.cb_size } else { 0 }.to_le_bytes());
        }
        if stray && r.bool() {
            chunk(&mut b, b"fact", &r.bytes(4));
            b[4..8].copy_from_slice(&(data.len() as u32 + 36).to_le_bytes());
        }
        b.extend(b"data");
        b.extend(if w.format_tag == 1 || stray && right { data.len() as u32 } else { w.cb_size as u32 }.to_le_bytes());
        b.extend(&data);
        let mut s = blank("x.wav");
        sut_ok("read_sound", || read_sound(&b, &mut s))?;
        ensure!(s.data == data && s.wave_form == w, "a file extracted by an older version is read otherwise", "{:?} {} instead of {w:?} {}", s.wave_form, s.data.len(), data.len());
        ctx.count(if stray { "files with an unstated cbSize" } else { "files of older versions" }, 1);
        Ok(())
    });

    ctx.cases("damaged files", n / 2, t, |r, _| {
        let f = foreign(r);
        let mut s = blank("x.wav");
        if r.bool() {
            let k = r.below(f.bytes.len());
            let res = sut("read_sound", || read_sound(&f.bytes[..k], &mut s))?;
            if k < f.data_at {
                ensure!(res.is_err(), "a file without its data chunk is accepted", "{k} of {} before the data", f.data_at);
                ctx.count("truncated headers rejected", 1);
            } else {
                ensure!(res.is_ok(), "a file that ends in or after its data is rejected", "{res:?}");
                let have = f.data.len().min(k - f.data_at);
                ensure!(s.data == f.data[..have], "a file that ends in or after its data is read with other samples", "{} of {have}", s.data.len());
                ctx.count("truncated data accepted", 1);
            }
        } else {
            let mut b = f.bytes;
            for _ in 0..1 + r.below(3) {
                let i = if r.bool() { r.below(f.data_at.min(b.len())) } else { r.below(b.len()) };
                b[i] = if r.bool() { r.u8() } else { 0xff };
            }
            let res = sut("read_sound", || read_sound(&b, &mut s))?;
            ctx.count(if res.is_ok() { "altered files accepted" } else { "altered files rejected" }, 1);
            if res.is_ok() {
                ensure!(s.data.len() <= b.len(), "more samples than the file has", "");
                // what it was read as survives
                let o = sut("write_sound", || write_sound(&s))?;
                holds(&o, &s.wave_form, &s.data)?;
            }
        }
        Ok(())
    });

    ctx.cases("in tables", if deep { 60_000 } else { 3000 }, t, |r, _| {
        let mut v = VPX::default();
        for i in 0..1 + r.below(4) {
            let path = if r.chance(3, 4) { *r.pick(WAV) } else { *r.pick(OTHER) };
            let mut s = sound(r, path);
            s.name = format!("s{i}");
            if !WAV.contains(&path) {
                s.wave_form = WaveForm::default();
            }
            v.sounds.push(s);
        }
        v.gamedata.sounds_size = v.sounds.len() as u32;
        let fs = MonFs::new();
        let root = Path::new("/t");
        sut_ok("extraction", || expanded::write_fs(&v, &root, &ExpandOptions::default(), &fs))?;
        let mut files = fs.files();
        for s in &v.sounds {
            let Some((k, b)) = files.iter().find(|(k, _)| k.starts_with("/t/sounds") && k.file_stem().is_some_and(|x| x == s.name.as_str())) else {
                return viol("a sound is not extracted", format!("{} {:?}", s.path, files.keys()));
            };
            if WAV.contains(&s.path.as_str()) {
                ensure!(k.extension().is_some_and(|e| e.eq_ignore_ascii_case("wav")), "a wave sound is not extracted as .wav", "{k:?} of {:?}", s.path);
                holds(b, &s.wave_form, &s.data)?;
            } else {
                ensure!(*b == s.data, "a sound that is no wave file is changed", "{k:?}");
            }
        }
        // exchange one for a file of another program
        let k = r.below(v.sounds.len());
        if WAV.contains(&v.sounds[k].path.as_str()) && r.bool() {
            let f = foreign(r);
            let key = files.keys().find(|p| p.starts_with("/t/sounds") && p.file_stem().is_some_and(|x| x == v.sounds[k].name.as_str())).unwrap().clone();
            files.insert(key, f.bytes);
            v.sounds[k].data = f.data;
            v.sounds[k].wave_form = fclone(&f.fmt);
            ctx.count("exchanged files", 1);
        }
        let w = sut_ok("assembly", || expanded::read_fs(&root, &MonFs::from_files(&files)))?;
        for (a, b) in v.sounds.iter().zip(&w.sounds) {
            ensure!(a == b, "an assembled sound is another", "{a:?} {b:?}");
        }
        ensure!(v.sounds.len() == w.sounds.len(), "another number of sounds", "");
        let bytes = sut_ok("to_bytes", || vpx::to_bytes(&w))?;
        let x = sut_ok("from_bytes", || vpx::from_bytes(&bytes))?;
        for (a, b) in v.sounds.iter().zip(&x.sounds) {
            ensure!(a == b, "a sound read from the table is another", "{a:?} {b:?}");
        }
        ctx.count("sounds through tables", v.sounds.len() as u64);
        Ok(())
    });
    for k in ["PCM", "other wave formats", "odd lengths", "files with 3 other chunks", "files of older versions", "files with an unstated cbSize", "truncated headers rejected", "truncated data accepted", "altered files rejected", "exchanged files", "sounds in other formats"] {
        ctx.require(k, 50);
    }
}
