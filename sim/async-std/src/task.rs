pub use async_std_core::task::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

struct W {
    key: u64,
    woken: AtomicBool,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        simcore::wake(self.key);
    }
}
/// every task is one simulated thread (the real executor is multi threaded)
pub fn block_on<F, T>(f: F) -> T
where
    F: Future<Output = T>,
{
    let mut f = Box::pin(f);
    let w = Arc::new(W { key: simcore::new_key(), woken: AtomicBool::new(false) });
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        simcore::point("poll");
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        while !w.woken.swap(false, Ordering::SeqCst) {
            simcore::block(w.key, "task-pending");
        }
    }
}
struct Slot<T> {
    v: Option<T>,
    done: bool,
    wakers: Vec<Waker>,
}
#[derive(Clone, Debug)]
pub struct Task(usize, Option<String>);
impl Task {
    pub fn name(&self) -> Option<&str> {
        self.1.as_deref()
    }
}
pub struct JoinHandle<T> {
    s: Arc<Mutex<Slot<T>>>,
    task: Task,
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn task(&self) -> &Task {
        &self.task
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        simcore::point("await");
        let mut s = self.s.lock().unwrap();
        if let Some(v) = s.v.take() {
            return Poll::Ready(v);
        }
        if s.done {
            panic!("task has failed");
        }
        s.wakers.push(cx.waker().clone());
        Poll::Pending
    }
}
fn spawn_named<F, T>(name: &str, f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + Send + 'static,
    T: Send + 'static,
{
    let s = Arc::new(Mutex::new(Slot { v: None, done: false, wakers: vec![] }));
    let s2 = s.clone();
    simcore::point("task-spawn");
    let id = simcore::spawn(
        name,
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(f)));
            let ws = {
                let mut g = s2.lock().unwrap();
                g.done = true;
                if let Ok(v) = r {
                    g.v = Some(v);
                    std::mem::take(&mut g.wakers)
                } else {
                    let w = std::mem::take(&mut g.wakers);
                    drop(g);
                    for x in w {
                        x.wake();
                    }
                    // as in async-std: the executor survives, whoever awaits the task panics
                    simcore::probe("task_panicked");
                    return;
                }
            };
            for w in ws {
                w.wake();
            }
        }),
    );
    simcore::point("task-spawned");
    JoinHandle { s, task: Task(id, None) }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + Send + 'static,
    T: Send + 'static,
{
    spawn_named("task", f)
}
pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_named("blocking", async move { f() })
}
pub fn spawn_local<F, T>(_f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    unimplemented!("spawn_local in the simulator")
}
#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: Future<Output = T> + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn_named(self.name.as_deref().unwrap_or("task"), f))
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { dl: simcore::now_raw().saturating_add(d.as_nanos() as u64), armed: false }
}
pub struct Sleep {
    dl: u64,
    armed: bool,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if simcore::now_raw() >= self.dl {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            let dl = self.dl;
            let w = cx.waker().clone();
            simcore::spawn(
                "timer",
                Box::new(move || {
                    let n = simcore::now_raw();
                    if dl > n {
                        simcore::sleep_ns(dl - n);
                    }
                    w.wake();
                }),
            );
        }
        Poll::Pending
    }
}
