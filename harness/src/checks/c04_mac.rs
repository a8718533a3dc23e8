//! C04: the stored signature equals an independent implementation's, and
//! tampering is detected.
use crate::ensure;
use crate::model::*;
use crate::oracle;
use crate::report::*;
use crate::rng::{R, hash_bytes};
use crate::snap::{self, Kind, Snap};
use crate::util::*;
use serde_json::json;
use std::io::Cursor;
use std::path::Path;
use vpin::vpx::{self, VPX, VerifyResult};

const BLANK: &[u8] = include_bytes!("../../data/completely_blank_table_10_7_4.vpx");

pub fn verdict(p: &Path) -> Result<VerifyResult, Panicked> {
    guarded(|| vpx::verify(p))
}
fn oracle_mac(s: &Snap) -> Result<Vec<u8>, Viol> {
    oracle::mac(s).map_err(|e| Viol { sig: "written stream is not well-formed".into(), detail: e })
}
/// stored signature of a file equals the oracle's
pub fn check_mac(bytes: &[u8], what: &str) -> Result<Snap, Viol> {
    let s = snap::snap(bytes).map_err(|e| Viol { sig: format!("{what}: unreadable output"), detail: e })?;
    let m = oracle_mac(&s)?;
    let Some(st) = s.get("/GameStg/MAC") else {
        return viol(format!("{what}: no signature"), "GameStg/MAC missing");
    };
    ensure!(*st == m, format!("{what}: stored signature is not the signature of the streams"), "{st:02x?} vs {m:02x?}");
    Ok(s)
}
fn expect_ok(p: &Path, what: &str) -> Res {
    match verdict(p) {
        Ok(VerifyResult::Ok(q)) => {
            ensure!(q == p, "verify reports another path", "{q:?} vs {p:?}");
            Ok(())
        }
        Ok(VerifyResult::Failed(_, m)) => viol(format!("{what}: verification of a valid file fails"), m),
        Err(p) => viol(format!("{what}: verify {}", p.sig()), p.msg),
    }
}
fn cfg(r: &mut R) -> Cfg {
    Cfg { items: 2, assets: 1, crowd: 40, ..if r.bool() { Cfg::binary() } else { Cfg::small() } }
}

/// bytes of a stream that the signature covers: (offset, is plain data)
fn covered(name: &str, d: &[u8]) -> Vec<(usize, bool)> {
    match snap::stream_kind(name) {
        Some(k) => {
            let mut v = vec![];
            let mut p = 0;
            for rec in snap::parse(d, k).unwrap_or_default() {
                let code = rec.tag == "CODE" && k == Kind::GameData;
                for i in 0..4 {
                    v.push((p + 4 + i, false));
                }
                let body = p + 8 + if code { 4 } else { 0 };
                let plain = name != "/GameStg/CustomInfoTags";
                for i in 0..rec.data.len() {
                    v.push((body + i, plain || i >= 4));
                }
                p = body + rec.data.len();
            }
            v
        }
        None => (0..d.len()).map(|i| (i, true)).collect(),
    }
}
const HASHED_INFO: &[&str] = &["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"];

fn signed_streams(s: &Snap, v: &VPX) -> Vec<String> {
    let mut out: Vec<String> = vec!["/GameStg/Version".into(), "/GameStg/GameData".into(), "/GameStg/CustomInfoTags".into()];
    out.extend(HASHED_INFO.iter().map(|n| format!("/TableInfo/{n}")));
    out.extend(v.custominfotags.iter().map(|n| format!("/TableInfo/{n}")));
    out.extend((0..v.collections.len()).map(|i| format!("/GameStg/Collection{i}")));
    out.retain(|n| s.get(n).is_some_and(|d| !d.is_empty()));
    out
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is one random table written by one of the writing operations (signature compared with the independent implementation) or one alteration of a valid file (byte flip at a random covered offset, removal, addition, truncation or swap of signed streams, alteration of unsigned streams, damage to the file); non-trivial: distinct stream content, altered (stream, kind)");
    ctx.assume("the reference signature implementation reproduces the signature stored in a table saved by Visual Pinball 10.7.4");
    // the oracle itself must agree with Visual Pinball
    let s = snap::snap(BLANK).expect("blank table");
    if oracle::mac(&s).ok().as_ref() != s.get("/GameStg/MAC") {
        ctx.inconclusive("the reference signature does not match the table saved by Visual Pinball");
        return;
    }
    let th = ctx.thorough();
    let k = if th { 20 } else { 1 };
    ctx.once("vpinball_file", |_| {
        let d = Scratch::new("c04");
        let p = d.path("t.vpx");
        std::fs::write(&p, BLANK).unwrap();
        expect_ok(&p, "table saved by Visual Pinball")
    });
    ctx.cases("written", 4000 * k, if th { 600. } else { 8. }, |r, i| {
        let c = cfg(r);
        let mut v = g_vpx(r, &c);
        if i < 3 {
            // more collections than any number of digits would leave unsorted
            v = crowd(r, 4, [11, 1001, 130][i as usize], false);
        } else if r.chance(1, 30) {
            // everything after it is signed as well
            v.gamedata.code.string.insert(0, '\0');
            ctx.count("scripts with NUL", 1);
        }
        let b = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
        let s = check_mac(&b, "to_bytes")?;
        ctx.distinct(hash_bytes(&b[..b.len().min(60000)]));
        ctx.count("signatures_compared", 1);
        if i < 2 {
            ctx.sample(json!({"written": i, "streams": s.len(), "collections": v.collections.len(), "tags": v.custominfotags, "mac": s["/GameStg/MAC"]}));
        }
        Ok(())
    });
    ctx.cases("operations", 700 * k, if th { 600. } else { 8. }, |r, _| {
        let d = Scratch::new("c04");
        let p = d.path("t.vpx");
        let c = cfg(r);
        let v = g_vpx(r, &c);
        let what = *r.pick(&["write", "write_gamedata", "lock", "importvbs", "new_minimal", "expanded", "images_to_webp", "compact"]);
        ctx.count(&format!("op:{what}"), 1);
        match what {
            "new_minimal" => sut_ok(what, || vpx::new_minimal_vpx(&p))?,
            "expanded" => {
                let mut r2 = R::new(r.u64());
                r2.tame = true;
                r2.plain = true;
                let v = g_vpx(&mut r2, &Cfg { items: 2, assets: 1, mesh: MeshKind::Off, ..Cfg::expanded() });
                let fs = vpin::filesystem::MemoryFileSystem::new();
                sut_ok("expand", || vpx::expanded::write_fs(&v, &Path::new("/t"), &vpx::expanded::ExpandOptions::default(), &fs))?;
                let w = sut_ok("assemble", || vpx::expanded::read_fs(&Path::new("/t"), &fs))?;
                sut_ok("write", || vpx::write(&p, &w))?
            }
            _ => sut_ok("write", || vpx::write(&p, &v))?,
        }
        for _ in 0..1 + r.below(2) {
            match what {
                "write_gamedata" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    let mut g = sut_ok("read_gamedata", || f.read_gamedata())?;
                    let i = r.below(FIELDS_GAMEDATA.len());
                    set_gamedata(&mut g, i, r);
                    g.code = g_code(r);
                    sut_ok("write_gamedata", || f.write_gamedata(&g))?;
                }
                "lock" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    let a = sut_ok("lock", || f.lock())?;
                    if !a {
                        sut_ok("unlock", || f.unlock())?;
                    }
                }
                "importvbs" => {
                    let q = d.path("s.vbs");
                    std::fs::write(&q, g_code(r).string).unwrap();
                    sut_ok("importvbs", || vpx::importvbs(&p, Some(q.clone())))?;
                }
                "images_to_webp" => {
                    let mut f = sut_ok("open_rw", || vpx::open_rw(&p))?;
                    // undecodable image data may panic: not this property
                    let _ = guarded(|| f.images_to_webp());
                }
                "compact" => sut_ok("compact", || vpx::compact(&p))?,
                _ => {}
            }
            let b = std::fs::read(&p).unwrap();
            check_mac(&b, what)?;
            expect_ok(&p, what)?;
            ctx.count("signatures_compared", 1);
            ctx.count("verified_ok", 1);
        }
        Ok(())
    });
    ctx.cases("tamper", 500 * k, if th { 900. } else { 10. }, |r, ci| {
        let d = Scratch::new("c04");
        let p = d.path("t.vpx");
        let c = cfg(r);
        let v = g_vpx(r, &c);
        let b = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
        let s = snap::snap(&b).map_err(|e| Viol { sig: "unreadable output".into(), detail: e })?;
        let signed = signed_streams(&s, &v);
        for j in 0..12u64 {
            let mut t = s.clone();
            let mut must_report = true; // a Failed verdict, not a panic
            let desc;
            match r.below(10) {
                0 => {
                    // remove a signed stream
                    let n = r.pick(&signed).clone();
                    if n.ends_with("/GameData") || n.ends_with("/CustomInfoTags") {
                        must_report = false;
                    }
                    t.remove(&n);
                    desc = format!("removed {n}");
                }
                1 => {
                    let Some(n) = HASHED_INFO.iter().find(|n| !s.contains_key(&format!("/TableInfo/{n}"))) else { continue };
                    let mut d = r.bytes(2);
                    d[0] |= 1;
                    t.insert(format!("/TableInfo/{n}"), d);
                    desc = format!("added {n}");
                }
                2 => {
                    let n = format!("/GameStg/Collection{}", v.collections.len());
                    let mut d = vec![];
                    snap::emit(&[snap::Rec { tag: "NAME".into(), data: vec![2, 0, 0, 0, 65, 0], sub: vec![] }], Kind::Plain, &mut d);
                    t.insert(n.clone(), d);
                    desc = format!("added {n}");
                }
                3 if v.collections.len() >= 2 => {
                    let (a, b) = ("/GameStg/Collection0", "/GameStg/Collection1");
                    if s[a] == s[b] {
                        continue;
                    }
                    t.insert(a.into(), s[b].clone());
                    t.insert(b.into(), s[a].clone());
                    desc = "swapped two collections".into();
                }
                4 => {
                    // append to an unstructured stream
                    let Some(n) = signed.iter().find(|n| n.starts_with("/TableInfo/") || n.ends_with("Version")) else { continue };
                    t.get_mut(n).unwrap().push(r.u8());
                    desc = format!("appended to {n}");
                }
                5 => {
                    // the signature itself
                    let m = t.get_mut("/GameStg/MAC").unwrap();
                    match r.below(4) {
                        0 => {
                            m.pop();
                        }
                        1 => m.push(0),
                        2 => m.clear(),
                        _ => {
                            let i = r.below(16);
                            m[i] ^= 1 << r.below(8);
                        }
                    }
                    desc = "altered MAC".into();
                }
                6 => {
                    t.remove("/GameStg/MAC");
                    desc = "removed MAC".into();
                }
                _ => {
                    let n = r.pick(&signed).clone();
                    let cov = covered(&n, &s[&n]);
                    if cov.is_empty() {
                        continue;
                    }
                    let (o, plain) = *r.pick(&cov);
                    must_report = plain;
                    let x = t.get_mut(&n).unwrap();
                    x[o] ^= 1 << r.below(8);
                    desc = format!("flipped a bit of {n} at {o}");
                }
            }
            std::fs::write(&p, snap::build(&t)).unwrap();
            ctx.count("tampered_files", 1);
            ctx.distinct(crate::rng::mix(ci * 100 + j, crate::rng::hash_str(&desc)));
            if ci == 0 {
                ctx.sample(json!({"tamper": desc.clone()}));
            }
            match verdict(&p) {
                Ok(VerifyResult::Failed(q, m)) => {
                    ensure!(q == p && !m.is_empty(), "verify reports another path", "{q:?}");
                    ctx.count("tampering_reported", 1);
                }
                Ok(VerifyResult::Ok(_)) => return viol(format!("tampered file accepted: {}", snap::cat(&desc.replace(" at ", " "))), desc),
                Err(e) if must_report => return viol(format!("verify {}", e.sig()), format!("{desc}: {}", e.msg)),
                Err(_) => ctx.count("tampering_ended_in_panic", 1),
            }
        }
        // alterations the signature does not cover
        let mut t = s.clone();
        for n in ["/TableInfo/TableSaveDate", "/TableInfo/TableSaveRev"] {
            t.insert(n.into(), r.blob());
        }
        let unsigned: Vec<String> = s.keys().filter(|k| ["GameItem", "Image", "Sound", "Font"].iter().any(|p| k.starts_with(&format!("/GameStg/{p}")))).cloned().collect();
        for n in &unsigned {
            match r.below(3) {
                0 => t.get_mut(n).unwrap().push(r.u8()),
                1 => {
                    t.remove(n);
                }
                _ => {}
            }
        }
        t.insert("/GameStg/Extra".into(), r.blob());
        t.insert("/Other/Thing".into(), r.blob());
        std::fs::write(&p, snap::build(&t)).unwrap();
        expect_ok(&p, "unsigned content altered")?;
        ctx.count("untouched_signature_ok", 1);
        Ok(())
    });
    ctx.cases("unreadable", 300 * k, if th { 200. } else { 4. }, |r, _| {
        let d = Scratch::new("c04");
        let p = d.path("t.vpx");
        let what = r.below(5);
        match what {
            0 => {}
            1 => std::fs::write(&p, r.blob()).unwrap(),
            2 => {
                let n = r.below(3000);
                std::fs::write(&p, &BLANK[..n]).unwrap();
            }
            3 => std::fs::create_dir(&p).unwrap(),
            _ => std::fs::write(&p, snap::build(&[("/Some/Stream".to_string(), r.blob())].into())).unwrap(),
        }
        match verdict(&p) {
            Ok(VerifyResult::Failed(..)) => {
                ctx.count("unreadable_reported", 1);
                Ok(())
            }
            Ok(VerifyResult::Ok(_)) => viol("unreadable file verified", format!("kind {what}")),
            Err(e) => viol(format!("verify {}", e.sig()), format!("kind {what}: {}", e.msg)),
        }
    });
    ctx.require("tampering_reported", 1000);
    ctx.require("signatures_compared", 1000);
    ctx.require("untouched_signature_ok", 50);
    let _ = Cursor::new(0u8);
}
