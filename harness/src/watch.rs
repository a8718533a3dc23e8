//! What no assertion sees: cases that never end, that use memory without
//! bound, or that take the whole process down.
use crate::report::*;
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::Command;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

struct Running {
    sub: String,
    idx: u64,
    start: Instant,
    cpu0: f64,
    clock: libc::clockid_t,
}
static RUNNING: Mutex<BTreeMap<u64, Running>> = Mutex::new(BTreeMap::new());
static NEXT: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static SLOWEST: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<Option<std::fs::File>> = Mutex::new(None);
const REC: usize = 96;
const SLOTS: u64 = 64;

thread_local! { static SLOT: u64 = NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS; }

fn cpu(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0.;
    }
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn note(slot: u64, text: &str) {
    if let Some(f) = STATE.lock().unwrap().as_mut() {
        let mut b = [0u8; REC];
        let n = text.len().min(REC);
        b[..n].copy_from_slice(&text.as_bytes()[..n]);
        let _ = f.seek(SeekFrom::Start(slot * REC as u64));
        let _ = f.write_all(&b);
    }
}

pub struct Guard(u64, Instant);
/// a case begins on this thread; it ends when the guard is dropped
pub fn enter(sub: &str, idx: u64) -> Guard {
    let slot = SLOT.with(|s| *s);
    let mut clock = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    note(slot, &format!("{idx} {sub}"));
    let start = Instant::now();
    RUNNING.lock().unwrap().insert(slot, Running { sub: sub.into(), idx, start, cpu0: cpu(clock), clock });
    Guard(slot, start)
}
impl Drop for Guard {
    fn drop(&mut self) {
        RUNNING.lock().unwrap().remove(&self.0);
        SLOWEST.fetch_max(self.1.elapsed().as_millis() as u64, Ordering::SeqCst);
        note(self.0, "");
    }
}
pub fn peak_mb() -> u64 {
    PEAK.load(Ordering::SeqCst)
}
pub fn slowest_ms() -> u64 {
    SLOWEST.load(Ordering::SeqCst)
}

fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

/// watch the cases of this run
pub fn start(ctx: &'static Ctx, level: &'static str) {
    if let Ok(p) = std::env::var("VPMON_STATE") {
        *STATE.lock().unwrap() = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).ok();
    }
    // thousands of times what a case takes
    let (max_cpu, max_wall, max_run) = if ctx.thorough() { (1500., 5000., 3. * 3600.) } else { (100., 300., 780.) };
    // one case is the stops of a whole compaction, each in a process of its own
    let (max_cpu, max_wall) = if ctx.prop == "C07" { (4. * max_cpu, 2. * max_wall) } else { (max_cpu, max_wall) };
    let max_mb = 12_000;
    let t0 = Instant::now();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let mb = rss_mb();
            PEAK.fetch_max(mb, Ordering::SeqCst);
            let mut found = vec![];
            {
                let r = RUNNING.lock().unwrap();
                for c in r.values() {
                    let (w, u) = (c.start.elapsed().as_secs_f64(), cpu(c.clock) - c.cpu0);
                    if u > max_cpu {
                        found.push((CaseRef { sub: c.sub.clone(), idx: c.idx }, "does not end", format!("{u:.0} s of processor time used and no result")));
                    } else if w > max_wall {
                        found.push((CaseRef { sub: c.sub.clone(), idx: c.idx }, "does not end", format!("no result after {w:.0} s")));
                    }
                }
                if mb > max_mb
                    && let Some(c) = r.values().min_by_key(|c| c.start)
                {
                    found.push((CaseRef { sub: c.sub.clone(), idx: c.idx }, "uses memory without bound", format!("{mb} MB in use")));
                }
            }
            if !found.is_empty() {
                for (c, what, detail) in found {
                    let sig = format!("{}: {what}", c.sub);
                    ctx.report(c, Viol { sig, detail });
                }
                std::process::exit(ctx.finish(level));
            }
            // a run that is slow without any one case being stuck
            if t0.elapsed().as_secs_f64() > max_run {
                println!("INCONCLUSIVE watchdog after {max_run}s");
                std::process::exit(3);
            }
        }
    });
}

/// run the check in a process of its own and see how it ends
pub fn supervise(id: &'static str, tier: &'static str, seed: u64, root: &str) -> i32 {
    let d = crate::util::Scratch::new("state");
    let state = d.path("running");
    let me = std::env::current_exe().expect("own path");
    let run = |args: &[&str], state: &std::path::Path| -> std::process::ExitStatus {
        let mut c = Command::new(&me);
        c.args(args).env("VPMON_STATE", state).env("VERIF_ROOT", root);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            })
        };
        c.status().expect("start check")
    };
    let st = run(&[id], &state);
    let Some(sig) = st.signal() else { return st.code().unwrap_or(2) };
    if ![libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        println!("INCONCLUSIVE property={id} the check was ended by signal {sig}");
        return 3;
    }
    // which of the cases that were running takes the process down?
    let b = std::fs::read(&state).unwrap_or_default();
    let mut bad = vec![];
    for r in b.chunks(REC) {
        let t: String = r.iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
        let Some((idx, sub)) = t.split_once(' ') else { continue };
        let Ok(idx) = idx.parse::<u64>() else { continue };
        let path = format!("{root}/evidence/replay-{id}-crash-{}.json", bad.len());
        let detail = format!("the process was ended by signal {sig}");
        let j = serde_json::json!({"property": id, "tier": tier, "seed": seed, "sub": sub, "case": idx, "signature": format!("{sub}: takes the process down"), "detail": detail});
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay");
        let s2 = run(&["replay", &path], &d.path("again"));
        if s2.signal().is_some() {
            println!("VIOLATION property={id} replay={path}");
            println!("  [{sub}/{idx}] {sub}: takes the process down");
            bad.push(path);
        } else {
            let _ = std::fs::remove_file(&path);
        }
    }
    if bad.is_empty() {
        println!("INCONCLUSIVE property={id} the check was ended by signal {sig}, no single case repeats it");
        return 3;
    }
    1
}
