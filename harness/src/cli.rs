//! The built binaries and scratch directories to run them in.

use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("TICV_BIN").unwrap_or_else(|_| "/verif/target/release".into());
    Path::new(&d).join(name)
}

pub fn ticc() -> PathBuf {
    bin("ticc")
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// A command that is ended when it uses more than 30 seconds of processor time.
pub fn command(path: PathBuf) -> Command {
    let mut c = Command::new(path);
    // RLIMIT_CPU
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[30, 40]);
            Ok(())
        });
    }
    c
}

static N: AtomicU64 = AtomicU64::new(0);

/// A directory of its own, removed in the end.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("ticv-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn write(&self, name: &str, text: impl AsRef<[u8]>) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
        std::fs::write(p, text).expect("scratch file");
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
