pub use ::std::io::*;
use ::std::sync::Mutex as M;

/// simulated standard input
#[derive(Debug)]
pub struct Stdin(());
#[derive(Debug)]
pub struct StdinLock<'a>(::std::marker::PhantomData<&'a ()>);

struct Shared {
    buf: Vec<u8>,
    pos: usize,
}
static IN: M<Shared> = M::new(Shared { buf: Vec::new(), pos: 0 });
/// a snapshot of the buffer handed out by fill_buf (leaked; runs are short lived processes)
fn fill() -> Result<&'static [u8]> {
    {
        let s = IN.lock().unwrap();
        if s.pos < s.buf.len() {
            let v: Vec<u8> = s.buf[s.pos..].to_vec();
            return Ok(Box::leak(v.into_boxed_slice()));
        }
    }
    let d = simcore::stdin_read(8192).map_err(|k| match k {
        ErrorKind::Interrupted => Error::from(k),
        k => Error::new(k, "simulated input error"),
    })?;
    let mut s = IN.lock().unwrap();
    s.buf = d;
    s.pos = 0;
    let v: Vec<u8> = s.buf.clone();
    Ok(Box::leak(v.into_boxed_slice()))
}
pub fn stdin() -> Stdin {
    Stdin(())
}
impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        StdinLock(::std::marker::PhantomData)
    }
    pub fn read_line(&self, b: &mut String) -> Result<usize> {
        self.lock().read_line(b)
    }
    pub fn lines(self) -> Lines<StdinLock<'static>> {
        self.lock().lines()
    }
}
impl Read for StdinLock<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let d = fill()?;
        let n = d.len().min(b.len());
        b[..n].copy_from_slice(&d[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        fill()
    }
    fn consume(&mut self, n: usize) {
        IN.lock().unwrap().pos += n;
    }
}
impl Read for Stdin {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.lock().read(b)
    }
}
/// simulated standard output
#[derive(Debug)]
pub struct Stdout(bool);
#[derive(Debug)]
pub struct StdoutLock<'a>(bool, ::std::marker::PhantomData<&'a ()>);
pub type Stderr = Stdout;
pub type StderrLock<'a> = StdoutLock<'a>;
pub fn stdout() -> Stdout {
    Stdout(false)
}
pub fn stderr() -> Stderr {
    Stdout(true)
}
impl Stdout {
    pub fn lock(&self) -> StdoutLock<'static> {
        StdoutLock(self.0, ::std::marker::PhantomData)
    }
}
fn put(b: &[u8], e: bool) -> Result<usize> {
    crate::__print(String::from_utf8_lossy(b).to_string(), e);
    Ok(b.len())
}
impl Write for Stdout {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        put(b, self.0)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for &Stdout {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        put(b, self.0)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for StdoutLock<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        put(b, self.0)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
pub fn read_to_string<R: Read>(mut r: R) -> Result<String> {
    let mut s = String::new();
    r.read_to_string(&mut s)?;
    Ok(s)
}
