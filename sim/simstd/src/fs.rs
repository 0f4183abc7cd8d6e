//! real files (the simulated run lives in a scratch working directory) with injected faults
pub use ::std::fs::*;
use ::std::fs as rfs;
use ::std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use ::std::path::Path;

#[derive(Debug)]
pub struct File(rfs::File);
fn eio() -> Error {
    Error::new(ErrorKind::Other, "simulated I/O error")
}
fn open_fault() -> Result<()> {
    simcore::point("open");
    if simcore::fault("file_open_err").is_some() {
        return Err(Error::new(ErrorKind::PermissionDenied, "simulated open error"));
    }
    Ok(())
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
        open_fault()?;
        rfs::File::open(p).map(File)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
        open_fault()?;
        rfs::File::create(p).map(File)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> Result<File> {
        open_fault()?;
        rfs::File::create_new(p).map(File)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> Result<()> {
        self.0.sync_all()
    }
    pub fn sync_data(&self) -> Result<()> {
        self.0.sync_data()
    }
    pub fn set_len(&self, n: u64) -> Result<()> {
        self.0.set_len(n)
    }
    pub fn metadata(&self) -> Result<rfs::Metadata> {
        self.0.metadata()
    }
    pub fn try_clone(&self) -> Result<File> {
        self.0.try_clone().map(File)
    }
}
fn rd(mut f: &rfs::File, b: &mut [u8]) -> Result<usize> {
    simcore::point("read");
    if simcore::fault("file_eintr").is_some() {
        return Err(Error::from(ErrorKind::Interrupted));
    }
    if simcore::fault("file_eio").is_some() {
        FAILED.store(true, ::std::sync::atomic::Ordering::Relaxed);
        return Err(eio());
    }
    // a device which went away: every further read fails
    if simcore::fault("file_dead").is_some() {
        DEAD.store(true, ::std::sync::atomic::Ordering::Relaxed);
    }
    if DEAD.load(::std::sync::atomic::Ordering::Relaxed) {
        FAILED.store(true, ::std::sync::atomic::Ordering::Relaxed);
        return Err(eio());
    }
    let mut n = b.len();
    if n > 1 {
        if let Some(v) = simcore::fault("file_short") {
            n = 1 + (v as usize % n.min(64));
        }
    }
    let k = f.read(&mut b[..n])?;
    if !FAILED.load(::std::sync::atomic::Ordering::Relaxed) {
        BYTES.fetch_add(k as u64, ::std::sync::atomic::Ordering::Relaxed);
    }
    Ok(k)
}
static FAILED: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
static BYTES: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0);
/// bytes read from files before the first injected read error
pub fn bytes_until_error() -> u64 {
    BYTES.load(::std::sync::atomic::Ordering::Relaxed)
}
static DEAD: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
fn wr(mut f: &rfs::File, b: &[u8]) -> Result<usize> {
    simcore::point("write");
    if simcore::fault("file_werr").is_some() {
        return Err(Error::new(ErrorKind::Other, "simulated write error (disk full)"));
    }
    let mut n = b.len();
    if n > 1 {
        if let Some(v) = simcore::fault("file_wshort") {
            n = 1 + (v as usize % n);
        }
    }
    f.write(&b[..n])
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        rd(&self.0, b)
    }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        rd(&self.0, b)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        wr(&self.0, b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        wr(&self.0, b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}
#[derive(Clone, Debug)]
pub struct OpenOptions(rfs::OpenOptions);
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions(rfs::OpenOptions::new())
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.0.read(v);
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.0.write(v);
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.0.append(v);
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.0.truncate(v);
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.0.create(v);
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.0.create_new(v);
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
        open_fault()?;
        self.0.open(p).map(File)
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
    let mut v = vec![];
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
    let mut v = String::new();
    File::open(p)?.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
