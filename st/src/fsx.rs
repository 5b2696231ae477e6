//! The calls with which the process changes files, intercepted: a directory can be watched, and what a kill or a power
//! failure at the n-th of its calls leaves is laid out in another directory.
//!
//! A kill leaves what was written; a torn write half of the call in progress too. A power failure leaves of each file
//! what was last synced (names are taken to be durable at once).

use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    Kill,
    Torn,
    Power,
}
#[derive(Default)]
pub struct Watch {
    dir: PathBuf,
    synced: HashMap<PathBuf, Vec<u8>>,
    points: u32,
    at: Option<(u32, How, PathBuf)>,
    hit: bool,
}

static WATCHED: AtomicUsize = AtomicUsize::new(0);
static ALL: Mutex<Vec<Arc<Mutex<Watch>>>> = Mutex::new(vec![]);
thread_local!(static IN: Cell<bool> = const { Cell::new(false) });

fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = IN.with(|x| x.replace(true));
    let r = f();
    IN.with(|x| x.set(was));
    r
}

/// What is there is durable.
pub fn watch(dir: &Path) -> Arc<Mutex<Watch>> {
    quiet(|| {
        let mut w = Watch { dir: dir.to_path_buf(), ..Default::default() };
        fn rec(d: &Path, m: &mut HashMap<PathBuf, Vec<u8>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    rec(&e.path(), m);
                } else if let Ok(b) = std::fs::read(e.path()) {
                    m.insert(e.path(), b);
                }
            }
        }
        rec(dir, &mut w.synced);
        let w = Arc::new(Mutex::new(w));
        ALL.lock().unwrap().push(w.clone());
        WATCHED.fetch_add(1, Ordering::SeqCst);
        w
    })
}
pub fn unwatch(w: &Arc<Mutex<Watch>>) {
    quiet(|| {
        ALL.lock().unwrap().retain(|x| !Arc::ptr_eq(x, w));
        WATCHED.fetch_sub(1, Ordering::SeqCst);
    })
}
pub fn arm(w: &Arc<Mutex<Watch>>, n: u32, how: How, image: &Path) {
    let mut g = w.lock().unwrap();
    g.points = 0;
    g.hit = false;
    g.at = Some((n, how, image.to_path_buf()));
}
/// Whether the point was reached.
pub fn disarm(w: &Arc<Mutex<Watch>>) -> bool {
    let mut g = w.lock().unwrap();
    g.at = None;
    g.hit
}
/// What is left after a kill or power failure now.
pub fn image(w: &Arc<Mutex<Watch>>, how: How, to: &Path) {
    quiet(|| lay_out(&w.lock().unwrap(), how, to))
}
fn lay_out(w: &Watch, how: How, to: &Path) {
    fn rec(w: &Watch, how: How, a: &Path, b: &Path) {
        std::fs::create_dir_all(b).unwrap();
        for e in std::fs::read_dir(a).unwrap().flatten() {
            let t = b.join(e.file_name());
            if e.file_type().unwrap().is_dir() {
                rec(w, how, &e.path(), &t);
            } else if e.file_name() != "LOCK" && e.file_name() != "LOG" {
                if how == How::Power {
                    let none = vec![];
                    std::fs::write(t, w.synced.get(&e.path()).unwrap_or(&none)).unwrap();
                } else {
                    let _ = std::fs::copy(e.path(), t);
                }
            }
        }
    }
    rec(w, how, &w.dir, to);
}

fn of(p: &Path) -> Option<Arc<Mutex<Watch>>> {
    if p.file_name().map(|n| n == "LOG" || n == "LOCK").unwrap_or(false) {
        return None;
    }
    ALL.lock().unwrap().iter().find(|w| p.starts_with(&w.lock().unwrap().dir)).cloned()
}
fn path(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}
/// A call that changes `p` is about to be made: `half` writes the first half of it into the file given.
fn point(p: &Path, half: Option<&dyn Fn(&std::fs::File)>) {
    let Some(w) = of(p) else { return };
    let mut w = w.lock().unwrap();
    w.points += 1;
    let Some((n, how, to)) = w.at.clone() else { return };
    if w.points != n {
        return;
    }
    w.hit = true;
    lay_out(&w, how, &to);
    if how == How::Torn {
        if let (Some(h), Ok(rel)) = (half, p.strip_prefix(&w.dir)) {
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(to.join(rel)) {
                h(&f);
            }
        }
    }
}
fn active() -> bool {
    WATCHED.load(Ordering::Relaxed) > 0 && !IN.with(|x| x.get())
}
fn synced(fd: c_int) {
    if let Some(p) = path(fd) {
        if let Some(w) = of(&p) {
            let mut w = w.lock().unwrap();
            if let Ok(b) = std::fs::read(&p) {
                w.synced.insert(p, b);
            }
        }
    }
}

unsafe fn wr(fd: c_int, buf: *const c_void, n: usize, off: Option<i64>) {
    if let Some(p) = path(fd) {
        let b = std::slice::from_raw_parts(buf as *const u8, n / 2);
        let off = off.unwrap_or_else(|| libc::lseek(fd, 0, libc::SEEK_CUR));
        point(&p, Some(&|f: &std::fs::File| {
            let _ = f.write_all_at(b, off.max(0) as u64);
        }));
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if active() {
        quiet(|| wr(fd, buf, n, None));
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if active() {
        quiet(|| wr(fd, buf, n, Some(off)));
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
unsafe fn syn(fd: c_int, f: impl FnOnce() -> c_int) -> c_int {
    if active() {
        quiet(|| {
            if let Some(p) = path(fd) {
                point(&p, None);
            }
        });
        let r = f();
        if r == 0 {
            quiet(|| synced(fd));
        }
        return r;
    }
    f()
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    syn(fd, || libc::syscall(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    syn(fd, || libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: i64, n: i64, flags: u32) -> c_int {
    let r = libc::syscall(libc::SYS_sync_file_range, fd, off, n, flags) as c_int;
    // Waiting for what is written is what makes it a sync.
    if active() && flags & 4 != 0 {
        quiet(|| synced(fd));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if active() {
        quiet(|| {
            if let Some(p) = path(fd) {
                point(&p, None);
            }
        });
    }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
unsafe fn at(p: *const c_char) -> PathBuf {
    PathBuf::from(CStr::from_ptr(p).to_string_lossy().into_owned())
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        quiet(|| {
            let (a, b) = (at(a), at(b));
            point(&a, None);
            if let Some(w) = of(&a) {
                let mut w = w.lock().unwrap();
                match w.synced.remove(&a) {
                    Some(x) => w.synced.insert(b, x),
                    None => w.synced.remove(&b),
                };
            }
        });
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if active() {
        quiet(|| {
            let a = at(a);
            point(&a, None);
            if let Some(w) = of(&a) {
                w.lock().unwrap().synced.remove(&a);
            }
        });
    }
    libc::syscall(libc::SYS_unlink, a) as c_int
}
