// A deterministic asynchronous runtime: one thread, virtual time, and a seeded choice of the task that runs next.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::task::{Context, Poll, Wake, Waker};
use crate::AsyncRuntime;
use crate::OptionalSend;
use crate::OptionalSync;

pub struct Sched {
    pub now: u64,
    next: u64,
    tasks: BTreeMap<u64, (u64, Pin<Box<dyn Future<Output = ()>>>)>,
    q: Arc<Mutex<Vec<u64>>>,
    flags: BTreeMap<u64, Arc<Flag>>,
    timers: BTreeMap<(u64, u64), Waker>,
    pub rng: Rng,
    pub group: u64,
    pub panics: Vec<(u64, String)>,
    pub polls: u64,
    /// of 8: how often the task to run is drawn, instead of the one waiting for longest
    pub mix: u64,
    pub yields: bool,
}
struct Flag { id: u64, queued: AtomicBool, q: Arc<Mutex<Vec<u64>>> }
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) { if !self.queued.swap(true, Ordering::SeqCst) { self.q.lock().unwrap().push(self.id); } }
}
thread_local! { static S: std::cell::RefCell<Option<Sched>> = const { std::cell::RefCell::new(None) }; }
pub fn sched<T>(f: impl FnOnce(&mut Sched) -> T) -> T { S.with(|s| f(s.borrow_mut().as_mut().unwrap())) }
fn sched_opt<T>(f: impl FnOnce(&mut Sched) -> T) -> Option<T> { S.try_with(|s| s.try_borrow_mut().ok().and_then(|mut x| x.as_mut().map(f))).ok().flatten() }

pub fn start(seed: u64) {
    let mut rng = Rng::new(seed);
    let mix = *rng.pick(&[0u64, 1, 4, 8]);
    let s = Sched { now: 1_000_000_000, next: 1, tasks: BTreeMap::new(), q: Arc::new(Mutex::new(vec![])), flags: BTreeMap::new(), timers: BTreeMap::new(), rng, group: 0, panics: vec![], polls: 0, mix, yields: false };
    S.with(|x| *x.borrow_mut() = Some(s));
}
pub fn stop() -> Sched {
    loop {
        let (t, w) = sched(|s| (std::mem::take(&mut s.tasks), std::mem::take(&mut s.timers)));
        if t.is_empty() && w.is_empty() { break; }
        drop(t); drop(w);
    }
    S.with(|x| x.borrow_mut().take().unwrap())
}
pub fn rnd(n: u64) -> u64 { sched(|s| s.rng.below(n)) }
pub fn now() -> u64 { sched(|s| s.now) }
pub fn ms(n: u64) -> Duration { Duration::from_millis(n) }
/// everything of a group vanishes, wherever it stands
pub fn kill(group: u64) {
    let dead: Vec<_> = sched(|s| {
        let ids: Vec<u64> = s.tasks.iter().filter(|x| x.1.0 == group).map(|x| *x.0).collect();
        ids.iter().map(|i| { s.flags.remove(i); s.tasks.remove(i) }).collect()
    });
    drop(dead);
}
/// Run until `done`, or virtual time `end`, or `cap` polls.
pub fn run_until(done: impl Fn() -> bool, end: u64, cap: u64) -> &'static str {
    loop {
        if done() { return "done"; }
        let t = sched(|s| {
            if s.polls >= cap { return Err("spinning"); }
            loop {
                let id = {
                    let mut q = s.q.lock().unwrap();
                    if q.is_empty() { None } else { let k = if s.rng.chance(s.mix, 8) { s.rng.below(q.len() as u64) as usize } else { 0 }; Some(q.remove(k)) }
                };
                let Some(id) = id else {
                    let Some(((t, _), _)) = s.timers.first_key_value() else { return Err("idle") };
                    if *t > end { return Err("time"); }
                    s.now = s.now.max(*t);
                    while let Some(e) = s.timers.first_entry() { if e.key().0 > s.now { break; } e.remove().wake(); }
                    continue;
                };
                let Some(f) = s.flags.get(&id).cloned() else { continue };
                f.queued.store(false, Ordering::SeqCst);
                let Some((g, fut)) = s.tasks.remove(&id) else { continue };
                s.polls += 1;
                s.group = g;
                return Ok((id, g, fut, f));
            }
        });
        let (id, g, mut fut, f) = match t { Ok(x) => x, Err(e) => return e };
        let w = Waker::from(f);
        let mut c = Context::from_waker(&w);
        let r = fut.as_mut().poll(&mut c);
        if r.is_pending() { sched(|s| { if s.flags.contains_key(&id) { s.tasks.insert(id, (g, fut)); } else { s.panics.push((g, "killed itself".into())); } }); } else { sched(|s| s.flags.remove(&id)); drop(fut); }
    }
}

#[derive(Debug, Clone, Copy, Eq, PartialEq, Ord, PartialOrd)]
pub struct SimInstant(u64);
impl std::ops::Add<Duration> for SimInstant { type Output = Self; fn add(self, d: Duration) -> Self { SimInstant(self.0 + d.as_nanos() as u64) } }
impl std::ops::AddAssign<Duration> for SimInstant { fn add_assign(&mut self, d: Duration) { self.0 += d.as_nanos() as u64 } }
impl std::ops::Sub<Duration> for SimInstant { type Output = Self; fn sub(self, d: Duration) -> Self { SimInstant(self.0 - d.as_nanos() as u64) } }
impl std::ops::SubAssign<Duration> for SimInstant { fn sub_assign(&mut self, d: Duration) { self.0 -= d.as_nanos() as u64 } }
impl std::ops::Sub<SimInstant> for SimInstant { type Output = Duration; fn sub(self, o: SimInstant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) } }
impl crate::Instant for SimInstant { fn now() -> Self { SimInstant(now()) } }

pub struct Sleep { at: u64, key: Option<u64> }
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        let (at, key) = (self.at, self.key);
        let r = sched(|s| {
            if s.now >= at { return None; }
            let k = key.unwrap_or_else(|| { s.next += 1; s.next });
            s.timers.insert((at, k), c.waker().clone());
            Some(k)
        });
        match r { None => Poll::Ready(()), Some(k) => { self.key = Some(k); Poll::Pending } }
    }
}
impl Drop for Sleep { fn drop(&mut self) { if let Some(k) = self.key { let at = self.at; sched_opt(|s| s.timers.remove(&(at, k))); } } }
pub fn nap(d: Duration) -> Sleep { Sleep { at: now() + d.as_nanos() as u64, key: None } }

#[derive(Debug)]
pub struct Elapsed;
impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "elapsed") } }
pub struct Timeout<F> { fut: Pin<Box<F>>, sleep: Sleep }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(x) = self.fut.as_mut().poll(c) { return Poll::Ready(Ok(x)); }
        match Pin::new(&mut self.sleep).poll(c) { Poll::Ready(()) => Poll::Ready(Err(Elapsed)), Poll::Pending => Poll::Pending }
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Gone { Panic, Killed }
impl std::fmt::Display for Gone { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
struct Slot<T> { v: Option<Result<T, Gone>>, w: Option<Waker>, set: bool }
pub struct Handle<T>(Arc<Mutex<Slot<T>>>);
impl<T> Future for Handle<T> {
    type Output = Result<T, Gone>;
    fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        match s.v.take() { Some(x) => Poll::Ready(x), None => { s.w = Some(c.waker().clone()); Poll::Pending } }
    }
}
struct Setter<T>(Arc<Mutex<Slot<T>>>);
impl<T> Setter<T> {
    fn set(&self, r: Result<T, Gone>) {
        let w = { let mut s = self.0.lock().unwrap(); if s.set { return; } s.set = true; s.v = Some(r); s.w.take() };
        if let Some(w) = w { w.wake(); }
    }
}
impl<T> Drop for Setter<T> { fn drop(&mut self) { self.set(Err(Gone::Killed)); } }

struct Caught<F>(Pin<Box<F>>);
impl<F: Future> Future for Caught<F> {
    type Output = Result<F::Output, ()>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.0.as_mut().poll(c))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
            Err(_) => { sched(|s| { let g = s.group; let t = s.now / 1000; s.panics.push((g, format!("{} (at {t}us)", super::super::common::last_panic()))) }); Poll::Ready(Err(())) }
        }
    }
}
pub fn spawn_in<F: Future + 'static>(group: u64, f: F) -> Handle<F::Output> where F::Output: 'static {
    let slot = Arc::new(Mutex::new(Slot { v: None, w: None, set: false }));
    let set = Setter(slot.clone());
    let fut = Caught(Box::pin(f));
    let t = async move { match fut.await { Ok(x) => set.set(Ok(x)), Err(()) => set.set(Err(Gone::Panic)) } };
    sched(|s| {
        s.next += 1;
        let id = s.next;
        s.tasks.insert(id, (group, Box::pin(t)));
        s.flags.insert(id, Arc::new(Flag { id, queued: AtomicBool::new(true), q: s.q.clone() }));
        s.q.lock().unwrap().push(id);
    });
    Handle(slot)
}
pub struct SimRand;
impl rand::RngCore for SimRand {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { sched(|s| s.rng.next()) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
// A watch channel that wakes its receivers in the order they came (that of tokio picks one at random, from outside the seed).
pub struct Seen;
struct Chan<T> { v: std::sync::RwLock<T>, st: Mutex<ChanSt> }
#[derive(Default)]
struct ChanSt { version: u64, tx_gone: bool, rx: usize, next: u64, wakers: BTreeMap<u64, Waker> }
pub struct SeenTx<T>(Arc<Chan<T>>);
pub struct SeenRx<T> { c: Arc<Chan<T>>, seen: u64 }
pub struct SeenRef<'a, T>(std::sync::RwLockReadGuard<'a, T>);
impl<'a, T> std::ops::Deref for SeenRef<'a, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T> Clone for SeenRx<T> { fn clone(&self) -> Self { self.c.st.lock().unwrap().rx += 1; SeenRx { c: self.c.clone(), seen: self.seen } } }
impl<T> Drop for SeenRx<T> { fn drop(&mut self) { self.c.st.lock().unwrap().rx -= 1; } }
impl<T> Drop for SeenTx<T> { fn drop(&mut self) { let w = { let mut s = self.0.st.lock().unwrap(); s.tx_gone = true; std::mem::take(&mut s.wakers) }; for x in w.into_values() { x.wake(); } } }
impl<T> SeenTx<T> { fn bump(&self) { let w = { let mut s = self.0.st.lock().unwrap(); s.version += 1; std::mem::take(&mut s.wakers) }; for x in w.into_values() { x.wake(); } } }
impl crate::async_runtime::watch::Watch for Seen {
    type Sender<T: OptionalSend + OptionalSync> = SeenTx<T>;
    type Receiver<T: OptionalSend + OptionalSync> = SeenRx<T>;
    type Ref<'a, T: OptionalSend + 'a> = SeenRef<'a, T>;
    fn channel<T: OptionalSend + OptionalSync>(v: T) -> (SeenTx<T>, SeenRx<T>) {
        let c = Arc::new(Chan { v: std::sync::RwLock::new(v), st: Mutex::new(ChanSt { rx: 1, ..Default::default() }) });
        (SeenTx(c.clone()), SeenRx { c, seen: 0 })
    }
}
impl<T: OptionalSend + OptionalSync> crate::async_runtime::watch::WatchSender<Seen, T> for SeenTx<T> {
    fn send(&self, v: T) -> Result<(), crate::async_runtime::watch::SendError<T>> {
        if self.0.st.lock().unwrap().rx == 0 { return Err(crate::async_runtime::watch::SendError(v)); }
        *self.0.v.write().unwrap() = v;
        self.bump();
        Ok(())
    }
    fn send_if_modified<F>(&self, f: F) -> bool where F: FnOnce(&mut T) -> bool {
        let m = f(&mut *self.0.v.write().unwrap());
        if m { self.bump(); }
        m
    }
    fn borrow_watched(&self) -> SeenRef<'_, T> { SeenRef(self.0.v.read().unwrap()) }
}
impl<T: OptionalSend + OptionalSync> crate::async_runtime::watch::WatchReceiver<Seen, T> for SeenRx<T> {
    async fn changed(&mut self) -> Result<(), crate::async_runtime::watch::RecvError> {
        let mut key = None;
        std::future::poll_fn(|cx| {
            let mut s = self.c.st.lock().unwrap();
            if s.version != self.seen { self.seen = s.version; return Poll::Ready(Ok(())); }
            if s.tx_gone { return Poll::Ready(Err(crate::async_runtime::watch::RecvError(()))); }
            let k = *key.get_or_insert_with(|| { s.next += 1; s.next });
            s.wakers.insert(k, cx.waker().clone());
            Poll::Pending
        }).await
    }
    fn borrow_watched(&self) -> SeenRef<'_, T> { SeenRef(self.c.v.read().unwrap()) }
}
type Tk = crate::TokioRuntime;
#[derive(Debug, Default, PartialEq, Eq)]
pub struct SimRuntime;
impl AsyncRuntime for SimRuntime {
    type JoinError = Gone;
    type JoinHandle<T: OptionalSend + 'static> = Handle<T>;
    type Sleep = Sleep;
    type Instant = SimInstant;
    type TimeoutError = Elapsed;
    type Timeout<R, T: Future<Output = R> + OptionalSend> = Timeout<T>;
    type ThreadLocalRng = SimRand;
    fn spawn<T>(future: T) -> Handle<T::Output> where T: Future + OptionalSend + 'static, T::Output: OptionalSend + 'static { let g = sched(|s| s.group); spawn_in(g, future) }
    fn sleep(d: Duration) -> Sleep { nap(d) }
    fn sleep_until(t: SimInstant) -> Sleep { Sleep { at: t.0, key: None } }
    fn timeout<R, F: Future<Output = R> + OptionalSend>(d: Duration, f: F) -> Timeout<F> { Timeout { fut: Box::pin(f), sleep: nap(d) } }
    fn timeout_at<R, F: Future<Output = R> + OptionalSend>(t: SimInstant, f: F) -> Timeout<F> { Timeout { fut: Box::pin(f), sleep: Sleep { at: t.0, key: None } } }
    fn is_panic(e: &Gone) -> bool { matches!(e, Gone::Panic) }
    fn thread_rng() -> SimRand { SimRand }
    type Mpsc = <Tk as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <Tk as AsyncRuntime>::MpscUnbounded;
    type Watch = Seen;
    type Oneshot = <Tk as AsyncRuntime>::Oneshot;
    type Mutex<T: OptionalSend + 'static> = <Tk as AsyncRuntime>::Mutex<T>;
}

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
#[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
pub struct SimCfg {}
impl crate::RaftTypeConfig for SimCfg {
    type D = u64;
    type R = u64;
    type NodeId = u64;
    type Node = u64;
    type Entry = crate::Entry<SimCfg>;
    type SnapshotData = Disk;
    type AsyncRuntime = SimRuntime;
    type Responder = crate::impls::OneshotResponder<Self>;
}

/// A snapshot file: bytes with a position; reads and writes are short at times, and fail when told to.
#[derive(Debug, Clone, Default)]
pub struct Disk { b: std::io::Cursor<Vec<u8>>, pub fail: u64 }
impl Disk {
    pub fn new(v: Vec<u8>) -> Disk { Disk { b: std::io::Cursor::new(v), fail: 0 } }
    pub fn into_inner(self) -> Vec<u8> { self.b.into_inner() }
    fn broken(&self) -> bool { self.fail > 0 && rnd(100) < self.fail }
}
fn bad_disk() -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, "disk") }
impl tokio::io::AsyncRead for Disk {
    fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if rnd(4) == 0 && buf.remaining() > 1 {
            let n = 1 + rnd(buf.remaining() as u64 - 1) as usize;
            let mut v = vec![0; n];
            let k = std::io::Read::read(&mut self.b, &mut v)?;
            buf.put_slice(&v[..k]);
            return Poll::Ready(Ok(()));
        }
        Pin::new(&mut self.b).poll_read(c, buf)
    }
}
impl tokio::io::AsyncWrite for Disk {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        if rnd(4) == 0 { c.waker().wake_by_ref(); return Poll::Pending; }
        if self.broken() { return Poll::Ready(Err(bad_disk())); }
        let n = if buf.len() > 1 && rnd(4) == 0 { 1 + rnd(buf.len() as u64 - 1) as usize } else { buf.len() };
        Poll::Ready(std::io::Write::write(&mut self.b, &buf[..n]))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
impl tokio::io::AsyncSeek for Disk {
    fn start_seek(mut self: Pin<&mut Self>, p: std::io::SeekFrom) -> std::io::Result<()> { std::io::Seek::seek(&mut self.b, p).map(|_| ()) }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<u64>> { Poll::Ready(Ok(self.b.position())) }
}
