use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vpin::vpx::VPX;

static N: AtomicU64 = AtomicU64::new(0);
/// scratch directory removed on drop; tmpfs when available
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::metadata("/dev/shm").map(|m| !m.permissions().readonly()).unwrap_or(false) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let name = format!("vpmon-{}-{tag}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
        let mut p = base.join(&name);
        if std::fs::create_dir_all(&p).is_err() {
            p = std::env::temp_dir().join(&name);
            std::fs::create_dir_all(&p).expect("scratch dir");
        }
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn first_word(s: &str) -> String {
    s.split([':', '[']).next().unwrap_or("").trim().to_string()
}

fn dbg_diff(what: &str, a: &impl std::fmt::Debug, b: &impl std::fmt::Debug) -> String {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    if x == y {
        return format!("{what}: differs in data not shown by Debug");
    }
    let xb: Vec<char> = x.chars().collect();
    let yb: Vec<char> = y.chars().collect();
    let i = xb.iter().zip(&yb).position(|(p, q)| p != q).unwrap_or(xb.len().min(yb.len()));
    let s = i.saturating_sub(60);
    let w = |v: &Vec<char>| v[s.min(v.len())..(i + 80).min(v.len())].iter().collect::<String>();
    format!("{what}: ...{} VS ...{}", w(&xb), w(&yb))
}

/// human readable first difference between two tables
pub fn model_diff(a: &VPX, b: &VPX) -> String {
    if a.version != b.version {
        return dbg_diff("version", &a.version, &b.version);
    }
    if a.custominfotags != b.custominfotags {
        return dbg_diff("custominfotags", &a.custominfotags, &b.custominfotags);
    }
    if a.info != b.info {
        return dbg_diff("info", &a.info, &b.info);
    }
    if a.gamedata != b.gamedata {
        return dbg_diff("gamedata", &a.gamedata, &b.gamedata);
    }
    if a.gameitems.len() != b.gameitems.len() {
        return format!("gameitems: {} vs {}", a.gameitems.len(), b.gameitems.len());
    }
    for (i, (x, y)) in a.gameitems.iter().zip(&b.gameitems).enumerate() {
        if x != y {
            return dbg_diff(&format!("gameitem {} [{i}]", x.type_name()), x, y);
        }
    }
    if a.images != b.images {
        for (i, (x, y)) in a.images.iter().zip(&b.images).enumerate() {
            if x != y {
                return dbg_diff(&format!("image [{i}]"), x, y);
            }
        }
        return format!("images: {} vs {}", a.images.len(), b.images.len());
    }
    if a.sounds != b.sounds {
        for (i, (x, y)) in a.sounds.iter().zip(&b.sounds).enumerate() {
            if x != y {
                return dbg_diff(&format!("sound [{i}]"), x, y);
            }
        }
        return format!("sounds: {} vs {}", a.sounds.len(), b.sounds.len());
    }
    if a.fonts != b.fonts {
        return dbg_diff("fonts", &a.fonts, &b.fonts);
    }
    if a.collections != b.collections {
        return dbg_diff("collections", &a.collections, &b.collections);
    }
    "equal".into()
}
