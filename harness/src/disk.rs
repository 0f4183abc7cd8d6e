//! a simulated disk below the C library: the calls of SQLite and of std::fs on files of the run's scratch directory
//! pass through here. Until a sync, data written may be lost, kept or torn by a crash, and changes of the directory
//! are lost from the end. Faults: crash, write, sync, read, open, rename and unlink errors, full disk, short writes.
use libc::{c_char, c_int, c_uint, c_void, off_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::Mutex;

#[derive(Clone)]
enum D {
    W(usize, Vec<u8>),
    T(usize),
}
#[derive(Clone)]
enum N {
    Create(String, usize),
    Unlink(String),
    Rename(String, String),
}
struct Ino {
    synced: Vec<u8>,
    pending: Vec<D>,
}
#[derive(Default)]
pub struct Disk {
    cwd: String,
    ino: Vec<Ino>,
    durable: BTreeMap<String, usize>,
    cur: BTreeMap<String, usize>,
    ns: Vec<N>,
    fds: BTreeMap<c_int, (usize, bool)>,
    dirs: Vec<c_int>,
    rnd: Vec<c_int>,
    frozen: Option<u64>,
    pub ops: u64,
}
static DISK: Mutex<Option<Disk>> = Mutex::new(None);
thread_local! { static BUSY: Cell<bool> = const { Cell::new(false) }; }

/// starts the simulation of the disk: everything in the working directory is durable
pub fn start() {
    let cwd = std::env::current_dir().unwrap().to_string_lossy().to_string();
    let mut d = Disk { cwd, ..Default::default() };
    for e in std::fs::read_dir(".").unwrap().flatten() {
        if e.path().is_file() {
            let n = e.file_name().to_string_lossy().to_string();
            d.ino.push(Ino { synced: std::fs::read(e.path()).unwrap_or_default(), pending: vec![] });
            d.durable.insert(n.clone(), d.ino.len() - 1);
            d.cur.insert(n, d.ino.len() - 1);
        }
    }
    *DISK.lock().unwrap() = Some(d);
}
/// ends the simulation of the disk; after a crash the surviving image replaces the files
pub fn stop() -> (bool, u64) {
    let d = match DISK.lock().unwrap().take() {
        Some(d) => d,
        None => return (false, 0),
    };
    let seed = match d.frozen {
        Some(s) => s,
        None => return (false, d.ops),
    };
    let mut r = simcore::Prng::new(seed);
    let mut names = d.durable.clone();
    let keep = r.below(d.ns.len() as u64 + 1) as usize;
    for n in &d.ns[..keep] {
        apply(&mut names, n);
    }
    // how lossy the crash is
    let loss = r.below(4);
    let mut img = BTreeMap::new();
    for (n, i) in &names {
        let mut c = d.ino[*i].synced.clone();
        for p in &d.ino[*i].pending {
            let all = match loss {
                0 => true,
                1 => false,
                _ => r.below(2) == 0,
            };
            match p {
                D::T(l) => {
                    if all {
                        c.resize(*l, 0);
                    }
                }
                D::W(o, b) => {
                    let mut from = 0;
                    let mut to = b.len();
                    if !all {
                        if loss == 1 || r.below(2) == 0 {
                            continue;
                        }
                        // torn at a sector
                        let s = (r.below(b.len() as u64 / 512 + 1) * 512) as usize;
                        if r.below(4) == 0 {
                            from = s.min(b.len());
                        } else {
                            to = s.min(b.len());
                        }
                    }
                    if to > from {
                        if c.len() < o + to {
                            c.resize(o + to, 0);
                        }
                        c[o + from..o + to].copy_from_slice(&b[from..to]);
                    }
                }
            }
        }
        img.insert(n.clone(), c);
    }
    for e in std::fs::read_dir(".").unwrap().flatten() {
        if e.path().is_file() {
            let _ = std::fs::remove_file(e.path());
        }
    }
    for (n, c) in img {
        std::fs::write(n, c).unwrap();
    }
    (true, d.ops)
}
fn apply(m: &mut BTreeMap<String, usize>, n: &N) {
    match n {
        N::Create(a, i) => {
            m.insert(a.clone(), *i);
        }
        N::Unlink(a) => {
            m.remove(a);
        }
        N::Rename(a, b) => {
            if let Some(i) = m.remove(a) {
                m.insert(b.clone(), i);
            }
        }
    }
}
fn active() -> bool {
    // no lock while not in a simulation: the harness forks
    simcore::in_sim() && !BUSY.with(|b| b.get()) && { DISK.try_lock().map_or(false, |d| d.is_some()) }
}
/// runs f on the model, nested calls pass through
fn with<T>(f: impl FnOnce(&mut Disk) -> T) -> T {
    BUSY.with(|b| b.set(true));
    let mut g = DISK.lock().unwrap();
    let r = f(g.as_mut().unwrap());
    drop(g);
    BUSY.with(|b| b.set(false));
    r
}
fn err(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
/// scheduling point, crash and fault decision of one operation
fn decide(kinds: &[(&str, c_int)]) -> Result<(), c_int> {
    BUSY.with(|b| b.set(true));
    let r = (|| {
        simcore::point("disk");
        if with_inner(|d| d.frozen.is_some()) {
            return Err(libc::EIO);
        }
        with_inner(|d| d.ops += 1);
        if let Some(v) = simcore::fault("disk_crash") {
            with_inner(|d| d.frozen = Some(v as u64));
            return Err(libc::EIO);
        }
        for (k, e) in kinds {
            if simcore::fault(k).is_some() {
                return Err(*e);
            }
        }
        Ok(())
    })();
    BUSY.with(|b| b.set(false));
    r
}
fn with_inner<T>(f: impl FnOnce(&mut Disk) -> T) -> T {
    f(DISK.lock().unwrap().as_mut().unwrap())
}
fn name_of(d: &Disk, p: &str) -> Option<String> {
    let n = match p.strip_prefix(&d.cwd) {
        Some(n) => n.trim_start_matches('/'),
        None => p.trim_start_matches("./"),
    };
    if n.is_empty() || n.contains('/') {
        None
    } else {
        Some(n.to_string())
    }
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}
unsafe fn sys_open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return sys_open(p, flags, mode);
    }
    let path = text(p);
    if path == "/dev/urandom" {
        let fd = sys_open(p, flags, mode);
        with(|d| d.rnd.push(fd));
        return fd;
    }
    let (name, dir) = with(|d| (name_of(d, &path), path.trim_end_matches('/') == d.cwd || path == "."));
    if dir {
        let fd = sys_open(p, flags, mode);
        if fd >= 0 {
            with(|d| d.dirs.push(fd));
        }
        return fd;
    }
    let name = match name {
        Some(n) => n,
        None => return sys_open(p, flags, mode),
    };
    let exists = with(|d| d.cur.contains_key(&name));
    if let Err(e) = decide(if exists { &[("disk_open_err", libc::EMFILE)] } else { &[("disk_open_err", libc::EMFILE), ("disk_full", libc::ENOSPC)] }) {
        return err(e);
    }
    let fd = sys_open(p, flags, mode);
    if fd >= 0 {
        with(|d| {
            let i = match d.cur.get(&name) {
                Some(i) => *i,
                None => {
                    d.ino.push(Ino { synced: vec![], pending: vec![] });
                    let i = d.ino.len() - 1;
                    d.cur.insert(name.clone(), i);
                    d.ns.push(N::Create(name, i));
                    i
                }
            };
            if flags & libc::O_TRUNC != 0 {
                d.ino[i].pending.push(D::T(0));
            }
            d.fds.insert(fd, (i, flags & libc::O_APPEND != 0));
        });
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        with(|d| {
            d.fds.remove(&fd);
            d.dirs.retain(|f| *f != fd);
            d.rnd.retain(|f| *f != fd);
        });
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn put(fd: c_int, b: *const c_void, n: size_t, off: Option<off_t>) -> ssize_t {
    let raw = |n: size_t| match off {
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as ssize_t,
        None => libc::syscall(libc::SYS_write, fd, b, n) as ssize_t,
    };
    if fd <= 2 || !active() {
        return raw(n);
    }
    let (ino, app) = match with(|d| d.fds.get(&fd).copied()) {
        Some(x) => x,
        None => return raw(n),
    };
    if let Err(e) = decide(&[("disk_full", libc::ENOSPC), ("disk_werr", libc::EIO)]) {
        return err(e) as ssize_t;
    }
    let mut n = n;
    if n > 1 {
        BUSY.with(|b| b.set(true));
        if let Some(v) = simcore::fault("disk_wshort") {
            n = 1 + v as usize % n;
        }
        BUSY.with(|b| b.set(false));
    }
    let at = match off {
        Some(o) => o as usize,
        None if app => libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_END) as usize,
        None => libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as usize,
    };
    let r = raw(n);
    if r > 0 {
        let data = std::slice::from_raw_parts(b as *const u8, r as usize).to_vec();
        with(|d| d.ino[ino].pending.push(D::W(at, data)));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    put(fd, b, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    put(fd, b, n, Some(off))
}
unsafe fn get(fd: c_int, b: *mut c_void, n: size_t, off: Option<off_t>) -> ssize_t {
    if fd > 2 && active() {
        if with(|d| d.rnd.contains(&fd)) {
            let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
            for c in s.chunks_mut(8) {
                let v = simcore::sys_entropy().to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
            return n as ssize_t;
        }
        if with(|d| d.fds.contains_key(&fd)) {
            if let Err(e) = decide(&[("disk_rerr", libc::EIO)]) {
                return err(e) as ssize_t;
            }
        }
    }
    match off {
        Some(o) => libc::syscall(libc::SYS_pread64, fd, b, n, o) as ssize_t,
        None => libc::syscall(libc::SYS_read, fd, b, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    get(fd, b, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    get(fd, b, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if active() {
        if let Some((ino, _)) = with(|d| d.fds.get(&fd).copied()) {
            if let Err(e) = decide(&[("disk_werr", libc::EIO)]) {
                return err(e);
            }
            let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
            if r == 0 {
                with(|d| d.ino[ino].pending.push(D::T(len as usize)));
            }
            return r;
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
unsafe fn sync(fd: c_int) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    let f = with(|d| d.fds.get(&fd).copied());
    let dir = with(|d| d.dirs.contains(&fd));
    if f.is_none() && !dir {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    if let Err(e) = decide(&[("disk_sync_err", libc::EIO)]) {
        return err(e);
    }
    with(|d| {
        if let Some((i, _)) = f {
            let p = std::mem::take(&mut d.ino[i].pending);
            let c = &mut d.ino[i].synced;
            for o in p {
                match o {
                    D::T(l) => c.resize(l, 0),
                    D::W(o, b) => {
                        if c.len() < o + b.len() {
                            c.resize(o + b.len(), 0);
                        }
                        c[o..o + b.len()].copy_from_slice(&b);
                    }
                }
            }
        } else {
            let ns = std::mem::take(&mut d.ns);
            for n in &ns {
                apply(&mut d.durable, n);
            }
        }
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_unlink, p) as c_int;
    if !active() {
        return raw();
    }
    let path = text(p);
    let name = match with(|d| name_of(d, &path)) {
        Some(n) => n,
        None => return raw(),
    };
    if let Err(e) = decide(&[("disk_unlink_err", libc::EIO)]) {
        return err(e);
    }
    let r = raw();
    if r == 0 {
        with(|d| {
            d.cur.remove(&name);
            d.ns.push(N::Unlink(name));
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_rename, a, b) as c_int;
    if !active() {
        return raw();
    }
    let (pa, pb) = (text(a), text(b));
    let (na, nb) = match with(|d| (name_of(d, &pa), name_of(d, &pb))) {
        (Some(x), Some(y)) => (x, y),
        _ => return raw(),
    };
    if let Err(e) = decide(&[("disk_rename_err", libc::EIO)]) {
        return err(e);
    }
    let r = raw();
    if r == 0 {
        with(|d| {
            if let Some(i) = d.cur.remove(&na) {
                d.cur.insert(nb.clone(), i);
            }
            d.ns.push(N::Rename(na, nb));
        });
    }
    r
}
/// file copies fall back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut off_t, fo: c_int, oo: *mut off_t, n: size_t, fl: c_uint) -> ssize_t {
    if active() {
        return err(libc::ENOSYS) as ssize_t;
    }
    libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    if active() {
        return err(libc::ENOSYS) as ssize_t;
    }
    libc::syscall(libc::SYS_sendfile, fo, fi, off, n) as ssize_t
}
