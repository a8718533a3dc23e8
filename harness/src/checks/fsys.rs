//! C16: the in-memory file system against the real one and a sequential
//! specification.
use super::expand::{FORMATS, opts};
use crate::ensure;
use crate::model::*;
use crate::monfs::tree;
use crate::report::*;
use crate::rng::*;
use crate::snap::bdiff;
use crate::util::Scratch;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering};
use vpin::filesystem::{FileSystem, MemoryFileSystem, RealFileSystem};
use vpin::vpx;

const NAMES: [&str; 10] = ["a", "A", "a.txt", "a.txt.bak", "b c", "é", "e\u{301}", "名前.json", "..x", "d/sub.bin"];

fn content(r: &mut R) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 8191 + r.below(3),
        3 => r.below(100_000),
        _ => r.below(200),
    };
    // unique head, so that contents never coincide by chance
    let mut b: Vec<u8> = r.u64().to_le_bytes().to_vec();
    b.resize(n.max(8), r.below(256) as u8);
    b.truncate(n);
    b
}
fn kind<T>(r: &std::io::Result<T>) -> Option<ErrorKind> {
    r.as_ref().err().map(|e| e.kind())
}
fn slurp(fs: &dyn FileSystem, p: &Path, buffered: bool, chunk: usize) -> std::io::Result<Vec<u8>> {
    let mut f = if buffered { fs.open_buffered_file(p)? } else { fs.open_file(p)? };
    let mut o = vec![];
    if chunk == 0 {
        f.read_to_end(&mut o)?;
    } else {
        let mut b = vec![0; chunk];
        loop {
            let n = f.read(&mut b)?;
            if n == 0 {
                break;
            }
            o.extend_from_slice(&b[..n]);
        }
    }
    Ok(o)
}

struct Open {
    path: usize,
    mem: Box<dyn Write>,
    real: Box<dyn Write>,
    /// what it wrote; None once someone else changed the file
    data: Option<Vec<u8>>,
    /// something written since the last flush (or never flushed)
    dirty: bool,
}

fn history(ctx: &Ctx, r: &mut R) -> Res {
    let dir = Scratch::new("c16");
    let base = dir.path("fs");
    let mem = MemoryFileSystem::new();
    let mem2 = mem.clone();
    let real = RealFileSystem;
    let mut model: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let paths: Vec<PathBuf> = NAMES.iter().map(|n| base.join(n)).collect();
    let key = |i: usize| paths[i].to_str().unwrap().to_string();
    for fs in [&mem as &dyn FileSystem, &real] {
        fs.create_dir_all(&base.join("d")).or_else(|e| viol("create_dir_all fails", e.to_string()))?;
    }
    let mut open: Vec<Open> = vec![];
    let mut trace = vec![];
    for _ in 0..r.range(5, 60) {
        // a clone is the same file system
        let fs: &MemoryFileSystem = if r.bool() { &mem } else { &mem2 };
        let i = r.below(NAMES.len());
        // an unflushed writer owns its path
        let owned = open.iter().any(|w| w.path == i && w.dirty);
        let p = &paths[i];
        let what = r.below(12);
        if owned && !(8..=10).contains(&what) {
            continue;
        }
        trace.push(what as u64 * 16 + i as u64);
        match what {
            0 | 1 => {
                let c = content(r);
                let (a, b) = (fs.write_file(p, &c), real.write_file(p, &c));
                ensure!(a.is_ok() && b.is_ok(), "write_file fails", "{:?} {:?}", kind(&a), kind(&b));
                model.insert(i, c);
                stale(&mut open, i);
                ctx.count("ops:write_file", 1);
            }
            2 => {
                let (a, b) = (fs.read_file(p), real.read_file(p));
                same_read("read_file", &a, &b, model.get(&i))?;
                ctx.count(if a.is_ok() { "ops:read_file" } else { "ops:read missing" }, 1);
            }
            3 => {
                let (buf, chunk) = (r.bool(), if r.bool() { 0 } else { r.range(1, 9000) });
                let (a, b) = (slurp(fs, p, buf, chunk), slurp(&real, p, buf, chunk));
                same_read("open_file", &a, &b, model.get(&i))?;
                ctx.count("ops:open_file", 1);
            }
            4 => {
                let (a, b) = (fs.exists(p), real.exists(p));
                ensure!(a == b && a == model.contains_key(&i), "exists differs", "memory {a}, disk {b}, written {}", model.contains_key(&i));
                ctx.count("ops:exists", 1);
            }
            5 => {
                let g = fs.get_file(&key(i));
                ensure!(g.as_ref() == model.get(&i), "get_file differs", "{:?} {:?}", g.map(|x| x.len()), model.get(&i).map(|x| x.len()));
                let mut l = fs.list_files();
                l.sort();
                let mut want: Vec<String> = model.keys().map(|k| key(*k)).collect();
                // a file whose writer was never flushed may or may not be listed
                let unsure: Vec<String> = open.iter().filter(|w| w.dirty).map(|w| key(w.path)).collect();
                want.retain(|k| !unsure.contains(k));
                l.retain(|k| !unsure.contains(k));
                want.sort();
                ensure!(l == want, "list_files differs", "{l:?} {want:?}");
                ctx.count("ops:list_files", 1);
            }
            6 => {
                fs.delete_file(&key(i));
                let b = std::fs::remove_file(p);
                ensure!(b.is_ok() == model.contains_key(&i), "delete differs", "{b:?}");
                model.remove(&i);
                stale(&mut open, i);
                ctx.count("ops:delete", 1);
            }
            7 => {
                if open.len() < 4 && !open.iter().any(|w| w.path == i) {
                    let buf = r.bool();
                    let (a, b) = if buf { (fs.create_buffered_file(p), real.create_buffered_file(p)) } else { (fs.create_file(p), real.create_file(p)) };
                    match (a, b) {
                        (Ok(a), Ok(b)) => open.push(Open { path: i, mem: a, real: b, data: Some(vec![]), dirty: true }),
                        (a, b) => return viol("create_file fails", format!("{:?} {:?}", kind(&a), kind(&b))),
                    }
                    ctx.count("ops:create_file", 1);
                }
            }
            8 | 9 if !open.is_empty() => {
                let k = r.below(open.len());
                let w = &mut open[k];
                if w.data.is_some() && r.chance(3, 4) {
                    let c = content(r);
                    let (a, b) = (w.mem.write_all(&c), w.real.write_all(&c));
                    ensure!(a.is_ok() && b.is_ok(), "write fails", "{:?} {:?}", kind(&a), kind(&b));
                    w.data.as_mut().unwrap().extend_from_slice(&c);
                    w.dirty = true;
                    ctx.count("ops:write", 1);
                } else {
                    let (a, b) = (w.mem.flush(), w.real.flush());
                    ensure!(a.is_ok() && b.is_ok(), "flush fails", "{:?} {:?}", kind(&a), kind(&b));
                    if let (true, Some(d)) = (w.dirty, &w.data) {
                        model.insert(w.path, d.clone());
                    }
                    w.dirty = false;
                    ctx.count("ops:flush", 1);
                }
            }
            10 if !open.is_empty() => {
                let k = r.below(open.len());
                let w = open.swap_remove(k);
                if let (true, Some(d)) = (w.dirty, &w.data) {
                    model.insert(w.path, d.clone());
                }
                if w.data.is_none() {
                    ctx.count("ops:close after another change", 1);
                }
                drop(w);
                ctx.count("ops:close", 1);
            }
            11 if open.iter().all(|w| !w.dirty) && r.chance(1, 4) => {
                fs.clear();
                for k in 0..NAMES.len() {
                    let _ = std::fs::remove_file(&paths[k]);
                    stale(&mut open, k);
                }
                model.clear();
                ctx.count("ops:clear", 1);
            }
            _ => {}
        }
    }
    for w in open {
        if let (true, Some(d)) = (w.dirty, w.data) {
            model.insert(w.path, d);
        }
    }
    // the final state, file by file
    for (i, p) in paths.iter().enumerate() {
        same_read("final state", &mem.read_file(p), &real.read_file(p), model.get(&i))?;
    }
    ensure!(mem.list_files().len() == model.len(), "list_files differs", "{:?} {:?}", mem.list_files(), model.keys());
    let mut h = 1;
    for t in trace {
        h = mix(h, t);
    }
    ctx.distinct(h);
    Ok(())
}
fn stale(open: &mut [Open], i: usize) {
    open.iter_mut().filter(|w| w.path == i).for_each(|w| w.data = None);
}
fn same_read(op: &str, a: &std::io::Result<Vec<u8>>, b: &std::io::Result<Vec<u8>>, m: Option<&Vec<u8>>) -> Res {
    if b.as_ref().ok() != m || (b.is_err() && kind(b) != Some(ErrorKind::NotFound)) {
        panic!("the disk does not follow the model");
    }
    ensure!(kind(a) == kind(b), format!("{op}: result differs"), "memory {:?}, disk {:?}", kind(a), kind(b));
    if let (Ok(a), Ok(b)) = (a, b) {
        ensure!(a == b, format!("{op}: content differs"), "{}", bdiff(b, a));
    }
    Ok(())
}

// ---- concurrent histories -------------------------------------------------

/// contents are numbered; 0 = no file
type State = [u32; 3];
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Write(usize, u32),
    Delete(usize),
    Clear,
    Read(usize, u32),
    Exists(usize, bool),
    List([bool; 3]),
    /// a close of a file that was flushed already: no effect
    Close,
}
#[derive(Clone, Debug)]
struct Call {
    from: u64,
    to: u64,
    ev: Ev,
}

fn bytes_of(v: u32, len: usize) -> Vec<u8> {
    v.to_le_bytes().iter().copied().cycle().take(len * 4).collect()
}
/// the number of a whole content, Err for anything else
fn number(b: &[u8], lens: &[usize]) -> Result<u32, String> {
    if b.len() < 4 {
        return Err(format!("{} bytes", b.len()));
    }
    let v = u32::from_le_bytes(b[..4].try_into().unwrap());
    let Some(l) = lens.get(v as usize).filter(|_| v > 0) else { return Err(format!("unknown content {v}")) };
    if *b == bytes_of(v, *l)[..] { Ok(v) } else { Err(format!("content {v} with {} of {} bytes", b.len(), l * 4)) }
}

fn apply(s: &State, e: &Ev) -> Option<State> {
    let mut n = *s;
    match e {
        Ev::Write(p, v) => n[*p] = *v,
        Ev::Delete(p) => n[*p] = 0,
        Ev::Clear => n = [0; 3],
        Ev::Read(p, v) if s[*p] != *v => return None,
        Ev::Exists(p, b) if (s[*p] != 0) != *b => return None,
        Ev::List(l) if (0..3).any(|i| (s[i] != 0) != l[i]) => return None,
        _ => {}
    }
    Some(n)
}
/// Wing & Gong search with memoisation: is there an order of the calls,
/// compatible with real time, that a sequential file system could give?
fn linearizable(calls: &[Call]) -> Option<usize> {
    let n = calls.len();
    assert!(n <= 64);
    let mut seen: HashSet<(u64, State)> = HashSet::new();
    let mut stack = vec![(0u64, [0u32; 3])];
    while let Some((done, s)) = stack.pop() {
        if done.count_ones() as usize == n {
            return Some(seen.len());
        }
        if !seen.insert((done, s)) {
            continue;
        }
        let first_end = (0..n).filter(|i| done >> i & 1 == 0).map(|i| calls[i].to).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 0 && calls[i].from < first_end {
                if let Some(t) = apply(&s, &calls[i].ev) {
                    stack.push((done | 1 << i, t));
                }
            }
        }
    }
    None
}

fn concurrent(ctx: &Ctx, r: &mut R) -> Res {
    let nt = r.range(2, 5);
    let per = r.range(3, 48 / nt / 2);
    let np = r.range(1, 3);
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    // content number -> length in words; numbers are unique per write
    let max = nt * per * 2 + 1;
    let big = r.bool();
    let lens: Vec<usize> = (0..max).map(|_| if big { r.range(500, 40_000) } else { r.range(1, 40) }).collect();
    let fs = MemoryFileSystem::new();
    let names = ["/t/a", "/t/b", "/t/c"];
    let clock = AtomicU64::new(1);
    let barrier = Barrier::new(nt);
    let run = |t: usize| -> Result<Vec<Call>, Viol> {
        let fs = fs.clone();
        let mut r = R::new(seeds[t]);
        let mut out: Vec<Call> = vec![];
        let mut next = (t * per * 2 + 1) as u32;
        let tick = || clock.fetch_add(1, Ordering::SeqCst);
        barrier.wait();
        for _ in 0..per {
            for _ in 0..r.below(60) {
                std::hint::spin_loop();
            }
            if r.chance(1, 8) {
                std::thread::yield_now();
            }
            let p = r.below(np);
            let path = Path::new(names[p]);
            let mut push = |from, ev| out.push(Call { from, to: tick(), ev });
            let num = |b: &[u8]| number(b, &lens).or_else(|e| viol("a file is seen partly written", e));
            match r.below(10) {
                0 | 1 => {
                    let c = bytes_of(next, lens[next as usize]);
                    let from = tick();
                    fs.write_file(path, &c).or_else(|e| viol("write_file fails", e.to_string()))?;
                    push(from, Ev::Write(p, next));
                    next += 1;
                }
                2 | 3 => {
                    let c = bytes_of(next, lens[next as usize]);
                    let mut w = fs.create_buffered_file(path).or_else(|e| viol("create fails", e.to_string()))?;
                    let cut = r.below(c.len());
                    let _ = w.write_all(&c[..cut]);
                    std::thread::yield_now();
                    let _ = w.write_all(&c[cut..]);
                    if r.bool() {
                        let from = tick();
                        let _ = w.flush();
                        push(from, Ev::Write(p, next));
                        let from = tick();
                        drop(w);
                        push(from, Ev::Close);
                    } else {
                        let from = tick();
                        drop(w);
                        push(from, Ev::Write(p, next));
                    }
                    next += 1;
                }
                4 => {
                    let from = tick();
                    let v = fs.read_file(path);
                    let v = match v {
                        Ok(b) => num(&b)?,
                        Err(e) if e.kind() == ErrorKind::NotFound => 0,
                        Err(e) => return viol("read_file fails", e.to_string()),
                    };
                    push(from, Ev::Read(p, v));
                }
                5 => {
                    let from = tick();
                    let f = fs.open_file(path);
                    // what is read later is what was there when it was opened
                    // or later; only the opening is placed
                    let to = tick();
                    let v = match f {
                        Ok(mut f) => {
                            let mut b = vec![];
                            let _ = f.read_to_end(&mut b);
                            num(&b)?
                        }
                        Err(_) => 0,
                    };
                    out.push(Call { from, to: if v == 0 { to } else { tick() }, ev: Ev::Read(p, v) });
                }
                6 => {
                    let from = tick();
                    let e = fs.exists(path);
                    push(from, Ev::Exists(p, e));
                }
                7 => {
                    let from = tick();
                    let b = fs.get_file(names[p]);
                    let v = match b {
                        Some(b) => num(&b)?,
                        None => 0,
                    };
                    push(from, Ev::Read(p, v));
                }
                8 => {
                    let from = tick();
                    let l = fs.list_files();
                    ensure!(l.len() <= np && l.iter().all(|x| names.contains(&x.as_str())), "list_files shows other files", "{l:?}");
                    push(from, Ev::List([0, 1, 2].map(|i| l.iter().any(|x| x == names[i]))));
                }
                _ => {
                    let from = tick();
                    if r.chance(1, 5) {
                        fs.clear();
                        push(from, Ev::Clear);
                    } else {
                        fs.delete_file(names[p]);
                        push(from, Ev::Delete(p));
                    }
                }
            }
        }
        Ok(out)
    };
    let run = &run;
    let res: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..nt).map(|t| s.spawn(move || guarded(|| run(t)))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut calls = vec![];
    let mut thread_of = vec![];
    for (t, x) in res.into_iter().enumerate() {
        match x {
            Ok(c) => {
                let c = c?;
                thread_of.extend(c.iter().map(|_| t));
                calls.extend(c);
            }
            Err(p) if p.ours => panic!("harness panic {} {}", p.loc, p.msg),
            Err(p) => return viol(p.sig(), p.msg),
        }
    }
    // the final state closes the history
    for (p, n) in names.iter().enumerate() {
        let from = clock.fetch_add(1, Ordering::SeqCst);
        let v = match fs.get_file(n) {
            Some(b) => number(&b, &lens).or_else(|e| viol("a file is left partly written", e))?,
            None => 0,
        };
        calls.push(Call { from, to: clock.fetch_add(1, Ordering::SeqCst), ev: Ev::Read(p, v) });
        thread_of.push(nt);
    }
    let mut over = 0;
    for i in 0..calls.len() {
        for j in 0..i {
            over += (thread_of[i] != thread_of[j] && calls[i].from < calls[j].to && calls[j].from < calls[i].to) as u64;
        }
    }
    ctx.count("concurrent calls", calls.len() as u64);
    ctx.count("overlapping pairs", over);
    // the interleaving: the threads in order of their clock ticks
    let mut ticks: Vec<(u64, usize)> = calls.iter().zip(&thread_of).flat_map(|(c, t)| [(c.from, *t), (c.to, *t)]).collect();
    ticks.sort();
    let mut h = 7;
    for (_, t) in ticks {
        h = mix(h, t as u64);
    }
    ctx.distinct(h);
    match linearizable(&calls) {
        Some(states) => {
            ctx.count("search states", states as u64);
            Ok(())
        }
        None => {
            calls.sort_by_key(|c| c.from);
            viol("no sequential order explains the concurrent history", format!("{:?}", calls.iter().map(|c| format!("{}-{} {:?}", c.from, c.to, c.ev)).collect::<Vec<_>>()))
        }
    }
}

// ---- whole extractions ----------------------------------------------------

/// several tables extracted at once into one in-memory file system, each
/// the same as extracted alone to disk
fn extraction(ctx: &Ctx, r: &mut R) -> Res {
    let n = r.range(1, 3);
    let fs = MemoryFileSystem::new();
    let tabs: Vec<_> = (0..n).map(|_| g_vpx(r, &Cfg::expanded())).collect();
    let fmt = FORMATS[r.below(FORMATS.len())];
    let d = Scratch::new("c16x");
    let roots: Vec<PathBuf> = (0..n).map(|i| d.path(&format!("t{i}"))).collect();
    let write = |i: usize, fs: &dyn Fn(&Path) -> Result<(), Viol>| fs(&roots[i]);
    std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|i| {
                let (fs, tabs, write) = (fs.clone(), &tabs, &write);
                s.spawn(move || {
                    let pool = rayon::ThreadPoolBuilder::new().stack_size(64 << 20).num_threads(2).build().unwrap();
                    pool.install(|| write(i, &|root: &Path| sut_ok("extraction to memory", || vpx::expanded::write_fs(&tabs[i], &root, &opts(fmt, false), &fs))))
                })
            })
            .collect();
        h.into_iter().try_for_each(|h| h.join().unwrap())
    })?;
    let mut total = 0;
    for i in 0..n {
        std::fs::create_dir_all(&roots[i]).unwrap();
        sut_ok("extraction to disk", || vpx::expanded::write_fs(&tabs[i], &roots[i], &opts(fmt, false), &RealFileSystem))?;
        let disk = tree(&roots[i]);
        for (p, b) in &disk {
            let p = roots[i].join(p);
            let m = fs.get_file(p.to_str().unwrap());
            match m {
                None => return viol("extraction to memory lacks a file", p.display().to_string()),
                Some(m) => ensure!(m == *b, "extracted file differs in memory", "{}: {}", p.display(), bdiff(b, &m)),
            }
        }
        total += disk.len();
        // the listing of a table file names what extracting it creates
        if fmt == vpin::vpx::expanded::PrimitiveMeshFormat::Obj && r.bool() {
            let stem = ["table", "a.b", "ä x"][r.below(3)];
            let file = d.path(&format!("{stem}.vpx"));
            sut_ok("write", || vpx::write(&file, &tabs[i]))?;
            let pool = rayon::ThreadPoolBuilder::new().stack_size(64 << 20).num_threads(2).build().unwrap();
            let l = pool.install(|| sut("listing", || vpx::expanded::extract_directory_list(&file)))?;
            // what was stored is what a reader gets
            let back = sut_ok("read", || vpx::read(&file))?;
            let o = d.path(&format!("l{i}"));
            std::fs::create_dir_all(&o).unwrap();
            sut_ok("extraction to disk", || vpx::expanded::write_fs(&back, &o, &opts(fmt, false), &RealFileSystem))?;
            let want: Vec<PathBuf> = tree(&o).keys().map(|p| Path::new(stem).join(p)).collect();
            let mut got: Vec<PathBuf> = l.iter().map(PathBuf::from).collect();
            ensure!(l.windows(2).all(|w| w[0] < w[1]), "the listing is not in order", "{l:?}");
            got.sort();
            ensure!(got == want, "the listing differs from what is extracted", "{:?}", want.iter().find(|w| !got.contains(w)).or(got.iter().find(|g| !want.contains(g))));
            ctx.count("files listed", got.len() as u64);
        }
        // and assembled from either, the same table
        let a = sut_ok("assembly from memory", || vpx::expanded::read_fs(&roots[i], &fs))?;
        let b = sut_ok("assembly from disk", || vpx::expanded::read_fs(&roots[i], &RealFileSystem))?;
        ensure!(a == b, "assembled tables differ", "memory and disk");
    }
    ensure!(fs.list_files().len() == total, "extraction to memory has other files", "{} files, {total} on disk", fs.list_files().len());
    ctx.count("files compared", total as u64);
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("histories over ten paths (case-differing, composed and decomposed, nested) run step by step on the in-memory file system (through two clones), on a directory of the disk and on a map: same contents, existence, error kinds, listing, deletion");
    ctx.rule("2 to 5 threads with 3 to 12 operations each on 1 to 3 shared paths: every content read is whole and the history, with call and return times, is linearizable (Wing-Gong search over the whole state)");
    ctx.rule("up to three tables extracted at once into one in-memory file system equal the same tables extracted to disk, file by file, and reassemble to the same tables; the listing of a table file names exactly the files its extraction creates");
    ctx.assume("directories exist before files are written in them and are not queried themselves; while a writer has unflushed data nothing else uses its path, since when such data becomes visible differs");
    let k = if ctx.thorough() { 20 } else { 1 };
    ctx.cases("history", 20000 * k, 6.0 * k as f64, |r, _| history(ctx, r));
    let repeat = if ctx.only.is_some() { 3000 } else { 1 };
    ctx.cases("concurrent", 12000 * k, 10.0 * k as f64, |r, i| {
        for _ in 0..repeat - 1 {
            concurrent(ctx, &mut R::new(ctx.case_seed("concurrent", i)))?;
        }
        concurrent(ctx, r)
    });
    ctx.cases("extraction", 400 * k, 8.0 * k as f64, |r, _| extraction(ctx, r));
    ctx.sample(json!({"overlapping pairs": ctx.get("overlapping pairs"), "calls": ctx.get("concurrent calls")}));
    ctx.require("overlapping pairs", 2000);
    ctx.require("ops:close after another change", 30);
    ctx.require("files compared", 1000);
    ctx.require("files listed", 200);
}
