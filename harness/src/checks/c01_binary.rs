use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::snap;
use crate::{ensure, util::*};
use serde_json::json;
use vpin::vpx;

/// C01: whatever a table holds survives write + read, through every entry point.
pub fn run(ctx: &Ctx) {
    ctx.rule("random tables over all 21 item types, unknown item types, all file versions, every public field drawn from edge-heavy distributions; non-trivial = at least one item or asset, distinct by (version, item type set, asset counts)");
    let (n, cap) = if ctx.thorough() { (400_000, 500.0) } else { (9_000, 60.0) };
    ctx.cases("memory", n, cap, |r, i| {
        let cfg = match i % 4 {
            0 => Cfg { items: 60, ..Cfg::binary() },
            1 => Cfg { items: 2, assets: 12, ..Cfg::binary() },
            _ => Cfg::binary(),
        };
        r.p_opt = *r.pick(&[0, 64, 128, 256]);
        let mut v = g_vpx(r, &cfg);
        if r.chance(1, 10) {
            upsize(&mut v, r);
        }
        roundtrip(ctx, &v, i)
    });
    // one item of each type with every optional field present / absent
    ctx.cases("each_item", (N_ITEM_TYPES * 4 * if ctx.thorough() { 200 } else { 30 }) as u64, cap, |r, i| {
        let k = i as usize % N_ITEM_TYPES;
        r.p_opt = [256, 0, 128, 128][(i as usize / N_ITEM_TYPES) % 4];
        let mut v = g_vpx(r, &Cfg { items: 0, assets: 0, ..Cfg::small() });
        for _ in 0..3 {
            let mut it = g_item(r, k);
            if let vpin::vpx::gameitem::GameItemEnum::Primitive(p) = &mut it {
                attach_mesh(p, r, MeshKind::Opaque);
            }
            v.gameitems.push(it);
        }
        v.gamedata.gameitems_size = v.gameitems.len() as u32;
        ctx.count(&format!("items_of_type:{}", ITEM_NAMES[k]), 3);
        roundtrip(ctx, &v, i)
    });
    // more than a thousand things of one kind
    ctx.cases("crowds", if ctx.thorough() { 60 } else { 5 }, cap, |r, i| {
        let n = if ctx.thorough() { *r.pick(&[1001, 1040, 4097, 10_010]) } else { 1001 + r.below(100) };
        let same = r.bool();
        let v = crowd(r, i as usize % 5, n, same);
        ctx.count("things in crowds", n as u64);
        roundtrip(ctx, &v, i)
    });
    // file based entry points and the lazy readers agree with the in-memory ones
    let (n, cap) = if ctx.thorough() { (20_000, 200.0) } else { (1200, 30.0) };
    ctx.cases("files", n, cap, |r, i| {
        let v = g_vpx(r, &Cfg { items: 6, ..Cfg::binary() });
        let dir = Scratch::new("c01");
        let p = dir.path("t.vpx");
        if r.bool() {
            // an older, longer file in the way must not leak into the new one
            std::fs::write(&p, r.bytes(60_000)).unwrap();
        }
        sut_ok("write to path", || vpx::write(&p, &v))?;
        let w = sut_ok("read from path", || vpx::read(&p))?;
        ensure!(w == v, "file round trip changed the table", "case {i}: {}", model_diff(&v, &w));
        let bytes = sut_ok("to_bytes", || vpx::to_bytes(&v))?;
        let on_disk = snap::snap(&std::fs::read(&p).unwrap()).map_err(|e| Viol { sig: "written file unreadable".into(), detail: e })?;
        let in_mem = snap::snap(&bytes).unwrap();
        if let Some(d) = snap::diff(&in_mem, &on_disk) {
            return viol("write and to_bytes disagree", d);
        }
        let mut f = sut_ok("open", || vpx::open(&p))?;
        ensure!(sut_ok("read_version", || f.read_version())? == v.version, "lazy version differs", "case {i}");
        ensure!(sut_ok("read_tableinfo", || f.read_tableinfo())? == v.info, "lazy table info differs", "case {i}");
        ensure!(sut_ok("read_gamedata", || f.read_gamedata())? == v.gamedata, "lazy game data differs", "case {i}");
        ensure!(sut_ok("read_gameitems", || f.read_gameitems())? == v.gameitems, "lazy game items differ", "case {i}");
        ensure!(sut_ok("read_images", || f.read_images())? == v.images, "lazy images differ", "case {i}");
        ensure!(sut_ok("read_sounds", || f.read_sounds())? == v.sounds, "lazy sounds differ", "case {i}");
        ensure!(sut_ok("read_fonts", || f.read_fonts())? == v.fonts, "lazy fonts differ", "case {i}");
        ensure!(sut_ok("read_collections", || f.read_collections())? == v.collections, "lazy collections differ", "case {i}");
        ensure!(sut_ok("read_custominfotags", || f.read_custominfotags())? == v.custominfotags, "lazy info tags differ", "case {i}");
        ctx.count("file_entry_points_compared", 10);
        ctx.distinct(shape(&v));
        Ok(())
    });
    ctx.require("tables_compared", 300);
    ctx.require("file_entry_points_compared", 100);
}

/// push a field over a size threshold (mini-stream cutoff, 8/16-bit lengths)
pub fn upsize(v: &mut vpx::VPX, r: &mut R) {
    let n = *r.pick(&[255usize, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 70_000]);
    match r.below(6) {
        0 => v.gamedata.code = vpin::vpx::model::StringWithEncoding::new("x".repeat(n)),
        1 => {
            v.info.table_rules = Some("r\u{e9}".repeat(n / 2));
        }
        2 => {
            if let Some(f) = v.fonts.first_mut() {
                f.data = r.bytes(n);
            }
        }
        3 => {
            if let Some(f) = v.sounds.first_mut() {
                f.data = r.bytes(n);
            }
        }
        4 => {
            if let Some(f) = v.images.iter_mut().find_map(|i| i.jpeg.as_mut()) {
                f.data = r.bytes(n);
            }
        }
        _ => {
            if let Some(g) = v.gameitems.first_mut() {
                set_item_name(g, "n".repeat(n.min(5000)));
            }
        }
    }
}

fn roundtrip(ctx: &Ctx, v: &vpx::VPX, i: u64) -> Res {
    let bytes = sut_ok("to_bytes", || vpx::to_bytes(v))?;
    let w = sut_ok("from_bytes", || vpx::from_bytes(&bytes))?;
    if w != *v {
        let d = model_diff(v, &w);
        return viol(format!("round trip changed {}", first_word(&d)), format!("case {i}: {d}"));
    }
    // NaN and -0.0 aware: a second write must give the same streams
    let b2 = sut_ok("to_bytes again", || vpx::to_bytes(&w))?;
    if bytes != b2 {
        let (a, b) = (snap::snap(&bytes).unwrap(), snap::snap(&b2).unwrap());
        if let Some(d) = snap::diff(&a, &b) {
            return viol(format!("second write differs: {}", snap::cat(&d)), d);
        }
    }
    // and a non-NaN float that is equal but not identical would show here
    ctx.count("tables_compared", 1);
    ctx.count("items_compared", v.gameitems.len() as u64);
    ctx.count("bytes_written", bytes.len() as u64);
    if !v.gameitems.is_empty() || !v.images.is_empty() || !v.sounds.is_empty() {
        ctx.distinct(shape(v));
    }
    if i == 0 {
        ctx.sample(json!({"version": v.version.u32(), "items": v.gameitems.iter().map(|g| format!("{}:{}", g.type_name(), g.name())).collect::<Vec<_>>(), "images": v.images.len(), "sounds": v.sounds.len(), "bytes": bytes.len()}));
    }
    Ok(())
}
