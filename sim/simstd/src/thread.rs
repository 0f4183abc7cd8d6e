pub use ::std::thread::*;
use ::std::marker::PhantomData;
use ::std::sync::Arc as A;
use ::std::sync::Mutex as M;
use ::std::time::Duration;

pub struct JoinHandle<T> {
    id: usize,
    slot: A<M<Option<Result<T>>>>,
    thread: Thread,
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}
#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ThreadId(usize);
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        TOKENS.lock().unwrap().insert(self.id);
        simcore::wake(park_key(self.id));
    }
}
fn park_key(id: usize) -> u64 {
    (1 << 59) + id as u64
}
static TOKENS: M<::std::collections::BTreeSet<usize>> = M::new(::std::collections::BTreeSet::new());
pub fn park() {
    simcore::point("park");
    let me = simcore::tid();
    while !TOKENS.lock().unwrap().remove(&me) {
        simcore::block(park_key(me), "park");
    }
}
pub fn park_timeout(d: Duration) {
    simcore::point("park");
    let me = simcore::tid();
    let dl = simcore::now_raw().saturating_add(d.as_nanos() as u64);
    while !TOKENS.lock().unwrap().remove(&me) {
        if simcore::block_until(park_key(me), Some(dl), "park") {
            TOKENS.lock().unwrap().remove(&me);
            return;
        }
    }
}
pub fn current() -> Thread {
    Thread { id: simcore::tid(), name: None }
}
pub fn sleep(d: Duration) {
    if simcore::in_sim() {
        simcore::sleep_ns(d.as_nanos() as u64)
    }
}
pub fn yield_now() {
    simcore::point("yield")
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        simcore::join(self.id);
        self.slot.lock().unwrap().take().expect("thread result")
    }
    pub fn is_finished(&self) -> bool {
        simcore::point("isfin");
        simcore::is_done(self.id)
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
}
fn spawn_dyn<'a, F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'a,
    T: Send + 'a,
{
    let slot: A<M<Option<Result<T>>>> = A::new(M::new(None));
    let s2 = slot.clone();
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
        match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)) {
            Ok(v) => *s2.lock().unwrap() = Some(Ok(v)),
            Err(e) => {
                let m = simcore::panic_text(&e);
                *s2.lock().unwrap() = Some(Err(e));
                drop(s2);
                // mark the simulated thread as panicked
                ::std::panic::resume_unwind(Box::new(m));
            }
        }
    });
    // SAFETY: scoped threads are joined before the scope ends; others are 'static
    let body: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(body) };
    simcore::point("spawn");
    let id = simcore::spawn(name.as_deref().unwrap_or("thread"), body);
    simcore::point("spawned");
    JoinHandle { id, slot, thread: Thread { id, name } }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_dyn(None, f)
}
#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _n: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn_dyn(self.name, f))
    }
}
pub struct Scope<'scope, 'env: 'scope> {
    ids: A<M<Vec<usize>>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: JoinHandle<T>,
    p: PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        self.h.join()
    }
    pub fn is_finished(&self) -> bool {
        self.h.is_finished()
    }
    pub fn thread(&self) -> &Thread {
        &self.h.thread
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let h = spawn_dyn(None, f);
        self.ids.lock().unwrap().push(h.id);
        ScopedJoinHandle { h, p: PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let ids = A::new(M::new(vec![]));
    let sc = Scope { ids: ids.clone(), scope: PhantomData, env: PhantomData };
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(&sc)));
    loop {
        let id = ids.lock().unwrap().pop();
        match id {
            Some(i) => simcore::join(i),
            None => break,
        }
    }
    match r {
        Ok(v) => v,
        Err(e) => ::std::panic::resume_unwind(e),
    }
}
