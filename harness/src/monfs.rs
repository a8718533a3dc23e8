//! A recording file system: the real operations happen in a private map and
//! every call is logged, so that the monitors see each creation, its path
//! and its content.  It can also make one chosen operation fail.
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Write};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vpin::filesystem::FileSystem;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Create(PathBuf),
    Mkdir(PathBuf),
    Read(PathBuf),
}

/// how the chosen operation fails
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the operation itself returns an error
    Error,
    /// a write takes only a part and then fails
    Short,
    /// writes succeed, the flush fails (buffered data could not be stored)
    Flush,
}

#[derive(Default)]
struct St {
    files: BTreeMap<PathBuf, Vec<u8>>,
    log: Vec<Op>,
    /// what each failing operation was
    failed: Vec<String>,
    /// every operation that can fail, in order
    points: Vec<String>,
}

#[derive(Clone)]
pub struct MonFs {
    st: Arc<Mutex<St>>,
    n: Arc<AtomicU64>,
    pub fail_at: u64,
    pub fault: Fault,
}

/// lexical normalisation, as a file system would resolve it
pub fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => {
                o.pop();
            }
            c => o.push(c.as_os_str()),
        }
    }
    o
}

impl MonFs {
    pub fn new() -> MonFs {
        MonFs { st: Default::default(), n: Default::default(), fail_at: u64::MAX, fault: Fault::None }
    }
    pub fn failing(fault: Fault, at: u64) -> MonFs {
        MonFs { fail_at: at, fault, ..MonFs::new() }
    }
    pub fn from_files(f: &BTreeMap<PathBuf, Vec<u8>>) -> MonFs {
        let m = MonFs::new();
        m.st.lock().unwrap().files = f.clone();
        m
    }
    pub fn files(&self) -> BTreeMap<PathBuf, Vec<u8>> {
        self.st.lock().unwrap().files.clone()
    }
    pub fn log(&self) -> Vec<Op> {
        self.st.lock().unwrap().log.clone()
    }
    pub fn failed(&self) -> Vec<String> {
        self.st.lock().unwrap().failed.clone()
    }
    pub fn points(&self) -> Vec<String> {
        self.st.lock().unwrap().points.clone()
    }
    /// fault point: true when this one has to fail
    fn point(&self, what: &str, p: &Path) -> bool {
        let i = self.n.fetch_add(1, Ordering::SeqCst);
        let mut s = self.st.lock().unwrap();
        let d = format!("{what} {}", p.display());
        s.points.push(d.clone());
        if i == self.fail_at {
            s.failed.push(d);
            true
        } else {
            false
        }
    }
}
fn enospc() -> io::Error {
    io::Error::from_raw_os_error(libc::ENOSPC)
}

struct W {
    fs: MonFs,
    path: PathBuf,
    /// once storage failed, nothing more is stored
    dead: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.dead {
            return Err(enospc());
        }
        let mut n = b.len();
        if self.fs.fault != Fault::Flush && !b.is_empty() && self.fs.point("write", &self.path) {
            self.dead = true;
            if self.fs.fault == Fault::Short && n > 1 {
                n /= 2;
            } else {
                return Err(enospc());
            }
        }
        let mut s = self.fs.st.lock().unwrap();
        s.files.entry(self.path.clone()).or_default().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fs.fault == Fault::Flush && self.fs.point("flush", &self.path) {
            return Err(enospc());
        }
        Ok(())
    }
}

impl FileSystem for MonFs {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        let p = norm(path);
        if self.fault != Fault::Flush && self.point("create", &p) {
            return Err(enospc());
        }
        let mut s = self.st.lock().unwrap();
        s.log.push(Op::Create(p.clone()));
        s.files.insert(p.clone(), vec![]);
        Ok(Box::new(W { fs: self.clone(), path: p, dead: false }))
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        Ok(Box::new(Cursor::new(self.read_file(path)?)))
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        let p = norm(path);
        if self.fault == Fault::Error && self.point("read", &p) {
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        let mut s = self.st.lock().unwrap();
        s.log.push(Op::Read(p.clone()));
        s.files.get(&p).cloned().ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))
    }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
        let mut f = self.create_file(path)?;
        f.write_all(data)
    }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        let p = norm(path);
        if self.fault != Fault::Flush && self.point("mkdir", &p) {
            return Err(enospc());
        }
        self.st.lock().unwrap().log.push(Op::Mkdir(p));
        Ok(())
    }
    fn exists(&self, path: &Path) -> bool {
        self.st.lock().unwrap().files.contains_key(&norm(path))
    }
}

/// every file below a real directory
pub fn tree(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("read_dir") {
            let p = e.expect("entry").path();
            if p.is_dir() {
                todo.push(p);
            } else {
                out.insert(p.strip_prefix(root).unwrap().to_path_buf(), std::fs::read(&p).expect("read"));
            }
        }
    }
    out
}
