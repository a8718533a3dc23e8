//! C07: compaction.
use crate::ensure;
use crate::model::*;
use crate::report::*;
use crate::rng::*;
use crate::snap;
use crate::tracer::{self, Call, End, Plan};
use crate::util::Scratch;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Write};
use std::path::Path;
use std::time::Duration;
use vpin::vpx;

/// everything a compound file holds: storages with their class, streams
#[derive(PartialEq, Clone)]
pub struct Content {
    version: u16,
    storages: BTreeMap<String, String>,
    streams: snap::Snap,
}
pub fn content(b: &[u8]) -> Result<Content, String> {
    let c = cfb::CompoundFile::open(Cursor::new(b)).map_err(|e| e.to_string())?;
    Ok(Content {
        version: c.version().number(),
        storages: c.walk().filter(|e| !e.is_stream()).map(|e| (e.path().to_string_lossy().into_owned(), e.clsid().to_string())).collect(),
        streams: snap::snap(b)?,
    })
}
pub fn cdiff(a: &Content, b: &Content) -> Option<String> {
    if a.version != b.version {
        return Some(format!("compound file version {} became {}", a.version, b.version));
    }
    for (p, c) in &a.storages {
        match b.storages.get(p) {
            None => return Some(format!("storage missing: {p}")),
            Some(d) if c != d => return Some(format!("class of a storage differs: {p} {c} {d}")),
            _ => {}
        }
    }
    if let Some(p) = b.storages.keys().find(|p| !a.storages.contains_key(*p)) {
        return Some(format!("unexpected storage: {p}"));
    }
    snap::diff(&a.streams, &b.streams)
}

/// the same content in a new file, without the code under test
fn fresh(a: &Content) -> Vec<u8> {
    let v = if a.version == 3 { cfb::Version::V3 } else { cfb::Version::V4 };
    let mut c = cfb::CompoundFile::create_with_version(v, Cursor::new(vec![])).unwrap();
    for p in a.storages.keys().filter(|p| *p != "/") {
        c.create_storage_all(p).unwrap();
    }
    for (p, d) in &a.streams {
        let mut s = c.create_new_stream(p).unwrap();
        s.write_all(d).unwrap();
        s.flush().unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

fn blob(r: &mut R, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 63 + r.below(3),
        2 => 511 + r.below(3),
        3 => 4094 + r.below(4),
        4 => r.below(max),
        _ => r.below(3000),
    };
    let mut b = r.u64().to_le_bytes().repeat(n / 8 + 1);
    b.truncate(n);
    b
}

/// a table file with holes and with whatever else a compound file may hold
pub fn holed(ctx: &Ctx, r: &mut R, max: usize, items: usize) -> Vec<u8> {
    let mut cfg = if items < 6 { Cfg::small() } else { Cfg::binary() };
    cfg.items = cfg.items.min(items);
    let v = g_vpx(r, &cfg);
    let s = snap::snap(&vpx::to_bytes(&v).expect("table")).unwrap();
    let ver = if r.bool() { cfb::Version::V3 } else { cfb::Version::V4 };
    let mut c = cfb::CompoundFile::create_with_version(ver, Cursor::new(vec![])).unwrap();
    c.create_storage_all("/GameStg").unwrap();
    c.create_storage_all("/TableInfo").unwrap();
    let junk = |c: &mut cfb::CompoundFile<Cursor<Vec<u8>>>, n: &str, d: &[u8]| {
        let mut st = c.create_stream(n).unwrap();
        st.write_all(d).unwrap();
    };
    let mut gone = vec![];
    for (i, (p, d)) in s.iter().enumerate() {
        if r.chance(1, 3) {
            let n = format!("/GameStg/junk{i}");
            junk(&mut c, &n, &blob(r, max));
            gone.push(n);
        }
        let mut st = c.create_stream(p).unwrap();
        st.write_all(d).unwrap();
    }
    // streams that grew, shrank, moved between the mini stream and sectors
    for (p, d) in &s {
        if r.chance(1, 6) {
            let b = blob(r, max);
            junk(&mut c, p, &b);
            let mut st = c.create_stream(p).unwrap();
            st.write_all(d).unwrap();
        }
    }
    for n in gone {
        if r.chance(4, 5) {
            c.remove_stream(&n).unwrap();
            ctx.count("holes", 1);
        }
    }
    // things the table format does not define, but the container can hold
    for i in 0..r.below(4) {
        let n = ["/é", "/other/deep", "/GameStg/extra", "/x/y/z/w", "/a b"][r.below(5)];
        let n = format!("{n}{i}");
        c.create_storage_all(&n).unwrap();
        if r.bool() {
            let u = r.u64() as u128 * 0x1_0000_0001_0000_0001;
            c.set_storage_clsid(&n, cfb_uuid(u)).unwrap();
        }
        if r.bool() {
            let big = if r.chance(1, 4) { max * 3 } else { max };
            junk(&mut c, &format!("{n}/s"), &blob(r, big));
        }
    }
    if r.chance(1, 3) {
        c.set_storage_clsid("/", cfb_uuid(r.u64() as u128 + 1)).unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}
fn cfb_uuid(u: u128) -> uuid::Uuid {
    uuid::Uuid::from_u128(u)
}

const FILES: [&str; 8] = ["table.vpx", "my table (v1.2).vpx", "noext", "t.compacting", "Ünï.vpx", "a.b.c", ".vpx", "t.vpx"];

fn compaction(ctx: &Ctx, r: &mut R, max: usize) -> Res {
    let d = Scratch::new("c07");
    let name = FILES[r.below(FILES.len())];
    let p = d.path(name);
    let b = holed(ctx, r, max, 6);
    let want = content(&b).unwrap();
    std::fs::write(&p, &b).unwrap();
    // files beside it, some with the same stem
    let others = ["table.vbs", "my table (v1.vbs", "other.vpx", "t.vbs", "t", "table"];
    for o in others {
        std::fs::write(d.path(o), o).unwrap();
    }
    let before = guarded(|| vpx::verify(&p)).ok();
    sut_ok("compact", || vpx::compact(&p))?;
    let after = std::fs::read(&p).or_else(|e| viol("no file after compaction", e.to_string()))?;
    let got = content(&after).or_else(|e| viol("compacted file is not readable", e))?;
    if let Some(x) = cdiff(&want, &got) {
        return viol(format!("compacted file: {}", snap::cat(&x)), x);
    }
    ensure!(cfb::CompoundFile::open_strict(Cursor::new(&after)).is_ok(), "compacted file is not strictly valid", "{name}");
    let f = fresh(&want);
    ensure!(after.len() <= f.len(), "compacted file is larger than a fresh one", "{} bytes, fresh {}, before {}", after.len(), f.len(), b.len());
    if after.len() < b.len() {
        ctx.count("files that shrank", 1);
    }
    ensure!(guarded(|| vpx::verify(&p)).ok() == before, "verification changes", "{:?}", before);
    if before.is_some() {
        let (x, y) = (sut_ok("read", || vpx::from_bytes(&b))?, sut_ok("read of the compacted file", || vpx::read(&p))?);
        ensure!(x == y, "the compacted table differs", "{}", crate::util::model_diff(&x, &y));
    }
    for o in others {
        ensure!(std::fs::read(d.path(o)).ok().as_deref() == Some(o.as_bytes()), "a file beside the table changed", "{o}");
    }
    let mut left: BTreeSet<String> = names(&d.0);
    left.remove(name);
    left.retain(|n| !others.contains(&n.as_str()));
    ensure!(left.is_empty(), "compaction leaves files behind", "{left:?}");
    sut_ok("second compact", || vpx::compact(&p))?;
    let again = std::fs::read(&p).unwrap();
    let got = content(&again).or_else(|e| viol("twice compacted file is not readable", e))?;
    if let Some(x) = cdiff(&want, &got) {
        return viol(format!("twice compacted file: {}", snap::cat(&x)), x);
    }
    ensure!(again.len() <= after.len(), "a compact file grows", "{} -> {}", after.len(), again.len());
    ctx.count("streams compared", want.streams.len() as u64);
    ctx.distinct(hash_bytes(&b));
    Ok(())
}
fn names(d: &Path) -> BTreeSet<String> {
    std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()
}

/// the state of the directory now: does the original path hold the table?
fn intact(p: &Path, want: &Content) -> Result<(), String> {
    let b = std::fs::read(p).map_err(|e| format!("no file at the original path: {:?}", e.kind()))?;
    let c = content(&b).map_err(|e| format!("the file at the original path is not readable: {}", snap::cat(&e)))?;
    match cdiff(want, &c) {
        None => Ok(()),
        Some(x) => Err(format!("the file at the original path lost content: {}", snap::cat(&x))),
    }
}

fn traced(ctx: &Ctx, p: &Path, want: &Content, plan: Plan, states: &mut BTreeSet<u64>) -> Result<(Vec<Call>, String), Viol> {
    let dir = p.parent().unwrap();
    let mut bad = None;
    let mut n = 0;
    let mut last = (0, 0);
    let res = tracer::run(&["compact", p.file_name().unwrap().to_str().unwrap()], dir, plan, Duration::from_secs(60), |c| {
        if !c.writes || bad.is_some() {
            return;
        }
        n += 1;
        // what a reader would find now, had the process ended here
        let id = std::fs::metadata(p).map(|m| (std::os::unix::fs::MetadataExt::ino(&m), m.len())).unwrap_or((0, 0));
        if id != last || n % 512 == 0 || dir.join(&c.file) == p || !c.name.contains("write") {
            last = id;
            if let Ok(b) = std::fs::read(p) {
                states.insert(hash_bytes(&b));
            }
            if let Err(e) = intact(p, want) {
                bad = Some(format!("{e} (after {} of .{})", c.name, c.kind().split(' ').nth(1).unwrap_or("")));
            }
        }
    });
    let run = res.unwrap_or_else(|e| panic!("harness: tracing failed: {e}"));
    ctx.count("stops inspected", n);
    if let Some(b) = bad {
        return viol(format!("interrupted compaction: {b}"), format!("{plan:?} {:?}", run.calls.iter().rev().take(3).map(|c| c.kind()).collect::<Vec<_>>()));
    }
    match run.end {
        End::Exit(0) => {}
        End::Timeout => return viol("compaction hangs", format!("{plan:?}")),
        e => return viol("compaction ends the process", format!("{plan:?} {e:?}")),
    }
    Ok((run.calls, run.out.trim().to_string()))
}

fn interrupted(ctx: &Ctx, r: &mut R) -> Res {
    let d = Scratch::new("c07i");
    let p = d.path(FILES[r.below(FILES.len())]);
    let b = holed(ctx, r, 6000, 1);
    let want = content(&b).unwrap();
    let reset = || {
        for f in names(&d.0) {
            let _ = std::fs::remove_file(d.0.join(f));
        }
        std::fs::write(&p, &b).unwrap();
    };
    reset();
    // left over from an earlier interruption
    if r.bool() {
        for n in ["table.compacting", "t.vpx.compacting"] {
            if d.path(n) != p {
                std::fs::write(d.path(n), vec![7u8; 300_000]).unwrap();
            }
        }
    }
    let mut states = BTreeSet::new();
    let (calls, out) = traced(ctx, &p, &want, Plan::Observe, &mut states)?;
    ensure!(out.starts_with("ok"), "compaction fails", "{out}");
    intact(&p, &want).or_else(|e| viol("after compaction", e))?;
    // the same with failing calls
    let writes: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].writes).collect();
    let mut plans = vec![];
    for c in [0, writes.len() - 1, writes.len().saturating_sub(2)] {
        plans.push(Plan::Fail(writes[c], libc::EIO));
    }
    for _ in 0..if ctx.thorough() { 60 } else { 8 } {
        let i = writes[r.below(writes.len())];
        plans.push(if r.bool() { Plan::Full(i) } else { Plan::Fail(i, [libc::EIO, libc::ENOSPC, libc::EDQUOT][r.below(3)]) });
        let j = r.below(calls.len());
        plans.push(Plan::Fail(j, libc::EIO));
    }
    // the last data written, where buffered data goes last
    let data: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].name.contains("write")).collect();
    for k in 0..data.len().min(6) {
        plans.push(Plan::Full(data[data.len() - 1 - k]));
    }
    for plan in plans {
        reset();
        let (calls, out) = traced(ctx, &p, &want, plan, &mut states)?;
        let hit = calls.iter().find(|c| c.injected).map(|c| c.kind());
        let Some(hit) = hit else { continue };
        ctx.count("failures injected", 1);
        ctx.count(&format!("fault:{}", hit.split(' ').next().unwrap()), 1);
        ensure!(!out.starts_with("panic"), format!("failing compaction: {out}"), "{plan:?} {hit}");
        // with an error or without, the table is there and can be used
        if let Err(e) = intact(&p, &want) {
            return viol(format!("failed {}: {e}", hit.split(' ').next().unwrap()), format!("{plan:?} {hit}, result {out}"));
        }
        if out.starts_with("err") {
            ctx.count("reported errors", 1);
            sut_ok("compaction after a failed one", || vpx::compact(&p))?;
            intact(&p, &want).or_else(|e| viol("compaction after a failed one", e))?;
        }
    }
    for s in states {
        ctx.distinct(s);
    }
    Ok(())
}

/// beyond the 109 FAT sectors a header can list
fn huge(ctx: &Ctx, r: &mut R) -> Res {
    let d = Scratch::new("c07h");
    let mut c = cfb::CompoundFile::create_with_version(cfb::Version::V3, Cursor::new(vec![])).unwrap();
    c.create_storage_all("/GameStg").unwrap();
    let mut b = vec![0u8; 4 << 20];
    for i in 0..3 {
        b.iter_mut().step_by(97).for_each(|x| *x = r.u64() as u8);
        c.create_stream(format!("/GameStg/big{i}")).unwrap().write_all(&b).unwrap();
    }
    c.remove_stream("/GameStg/big1").unwrap();
    c.flush().unwrap();
    let b = c.into_inner().into_inner();
    let want = content(&b).unwrap();
    let p = d.path("t.vpx");
    std::fs::write(&p, &b).unwrap();
    sut_ok("compact", || vpx::compact(&p))?;
    intact(&p, &want).or_else(|e| viol("large compacted file", e))?;
    let n = std::fs::metadata(&p).unwrap().len();
    ensure!(n < b.len() as u64, "a large file with a hole does not shrink", "{} -> {n}", b.len());
    ctx.count("large files", 1);
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("table files with holes (removed, grown and shrunk streams, both container versions, storages with classes, foreign storages, empty streams): after compaction, again after a second one, storages, classes, streams and version are equal, the file is strictly valid and no larger than a fresh container with the same streams written by the harness; verification result and table are unchanged; nothing else in the directory changes");
    ctx.rule("compaction in a child process stopped behind every file call that changes something: at each stop the original path holds a complete readable copy (what a killed process would leave)");
    ctx.rule("every kind of file call made to fail (I/O error, full disk from that call on): no panic, no hang, the original path still holds everything, and a later compaction works");
    ctx.assume("a crash is the end of the process: what was written before it is there afterwards (no loss of cached pages)");
    let k = if ctx.thorough() { 12 } else { 1 };
    ctx.cases("compaction", 250 * k, 8.0 * k as f64, |r, _| compaction(ctx, r, 60_000));
    ctx.cases("interrupted", 16 * k, 15.0 * k as f64, |r, _| interrupted(ctx, r));
    ctx.cases("large", 1, 30.0, |r, _| huge(ctx, r));
    ctx.sample(json!({"stops": ctx.get("stops inspected"), "faults": ctx.get("failures injected")}));
    ctx.require("stops inspected", 500);
    ctx.require("failures injected", 50);
    ctx.require("files that shrank", 30);
}
