//! Deterministic, single-threaded, virtual-time implementation of openraft's `AsyncRuntime`.
//!
//! One execution owns the thread-local scheduler. Everything an execution does is a function of the
//! explorer's choices: tasks run in a fixed order, time moves only when told to, randomness is a counter.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Deref, Sub, SubAssign};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use openraft::async_runtime::watch;
use openraft::AsyncRuntime;

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
type TK = openraft::TokioRuntime;

/// Owner 0 is the environment (clients); every node incarnation has its own owner id.
pub type Owner = u32;

struct Slot {
    fut: Option<BoxFut>,
    owner: Owner,
    waker: Arc<TaskWaker>,
}

struct TaskWaker {
    id: usize,
    epoch: u64,
    queued: AtomicBool,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.queued.swap(true, Ordering::Relaxed) {
            return;
        }
        let _ = RT.try_with(|rt| {
            let mut rt = rt.borrow_mut();
            if rt.epoch == self.epoch {
                rt.ready.push_back(self.id);
            }
        });
    }
}

#[derive(Default)]
pub struct Rt {
    epoch: u64,
    tasks: Vec<Option<Slot>>,
    free: Vec<usize>,
    ready: VecDeque<usize>,
    timers: BTreeMap<(u64, u64), Waker>,
    now: u64,
    seq: u64,
    cur_owner: Owner,
    kill_q: Vec<Owner>,
    pub panics: Vec<(Owner, String)>,
    rng: u64,
    /// What an owner draws: the quarter of the range, and how often it drew.
    draw: std::collections::HashMap<Owner, (u8, u64)>,
    pub polls: u64,
    pub sched_alt: u8,
}

thread_local! {
    static RT: RefCell<Rt> = RefCell::new(Rt::default());
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

const START: u64 = 1_000_000_000_000;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("MC_PANIC").is_ok() {
            eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg.chars().take(300).collect::<String>(), loc)));
    }));
}

/// Drop everything of the previous execution and start afresh.
pub fn reset() {
    loop {
        let slots: Vec<Option<Slot>> = RT.with(|rt| std::mem::take(&mut rt.borrow_mut().tasks));
        if slots.is_empty() {
            break;
        }
        drop_slots(slots.into_iter().flatten().collect());
    }
    let timers = RT.with(|rt| std::mem::take(&mut rt.borrow_mut().timers));
    drop(timers);
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let epoch = rt.epoch + 1;
        *rt = Rt { epoch, now: START, ..Default::default() };
    });
}

fn drop_slots(slots: Vec<Slot>) {
    for s in slots {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(s)));
        if r.is_err() {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            RT.with(|rt| rt.borrow_mut().panics.push((0, format!("panic in drop: {m}"))));
        }
    }
}

pub fn now() -> u64 {
    RT.with(|rt| rt.borrow().now)
}
pub fn now_us() -> u64 {
    (now() - START) / 1000
}
pub fn polls() -> u64 {
    RT.with(|rt| rt.borrow().polls)
}
pub fn take_panics() -> Vec<(Owner, String)> {
    RT.with(|rt| std::mem::take(&mut rt.borrow_mut().panics))
}
pub fn cur_owner() -> Owner {
    RT.with(|rt| rt.borrow().cur_owner)
}
pub fn set_sched_alt(a: u8) {
    RT.with(|rt| rt.borrow_mut().sched_alt = a);
    futures_util::__private::async_await::set_shuffle_mode(a & 1);
}
pub fn set_rng(s: u64) {
    RT.with(|rt| rt.borrow_mut().rng = s)
}
/// Number of live tasks of an owner.
/// The owner draws from quarter `q` (0 to 3) of any range.
pub fn set_draw(owner: Owner, q: u8) {
    RT.with(|rt| {
        rt.borrow_mut().draw.insert(owner, (q, 0));
    })
}

pub fn live_tasks(owner: Owner) -> usize {
    RT.with(|rt| rt.borrow().tasks.iter().flatten().filter(|s| s.owner == owner).count())
}

/// Run `f` with spawned tasks attributed to `owner`.
pub fn with_owner<T>(owner: Owner, f: impl FnOnce() -> T) -> T {
    let prev = RT.with(|rt| std::mem::replace(&mut rt.borrow_mut().cur_owner, owner));
    let r = f();
    RT.with(|rt| rt.borrow_mut().cur_owner = prev);
    r
}

/// Ask for all tasks of `owner` to be dropped as soon as the current poll returns.
pub fn request_kill(owner: Owner) {
    RT.with(|rt| rt.borrow_mut().kill_q.push(owner))
}

pub fn kill_now(owner: Owner) {
    let mut dead = vec![];
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        for i in 0..rt.tasks.len() {
            if rt.tasks[i].as_ref().map(|s| s.owner == owner).unwrap_or(false) {
                dead.push(rt.tasks[i].take().unwrap());
                // ids of killed tasks are not reused: stale queue entries must stay harmless
            }
        }
    });
    drop_slots(dead);
}

pub fn spawn_task(owner: Owner, fut: BoxFut) {
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let id = match rt.free.pop() {
            Some(i) => i,
            None => {
                rt.tasks.push(None);
                rt.tasks.len() - 1
            }
        };
        let waker = Arc::new(TaskWaker { id, epoch: rt.epoch, queued: AtomicBool::new(true) });
        rt.tasks[id] = Some(Slot { fut: Some(fut), owner, waker });
        rt.ready.push_back(id);
    })
}

/// Upper bound on polls without time progress: beyond it the system is live-locked.
pub const MAX_POLLS: u64 = 200_000;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Quiet {
    Idle,
    Livelock,
}

/// Run ready tasks until none is ready. Virtual time does not move.
pub fn run_ready() -> Quiet {
    let start = polls();
    loop {
        if polls() - start > MAX_POLLS {
            return Quiet::Livelock;
        }
        let next = RT.with(|rt| {
            let mut rt = rt.borrow_mut();
            loop {
                let id = if rt.sched_alt & 2 != 0 { rt.ready.pop_back()? } else { rt.ready.pop_front()? };
                let Some(Some(slot)) = rt.tasks.get_mut(id) else { continue };
                slot.waker.queued.store(false, Ordering::Relaxed);
                let Some(fut) = slot.fut.take() else { continue };
                let w = slot.waker.clone();
                let owner = slot.owner;
                rt.cur_owner = owner;
                rt.polls += 1;
                return Some((id, fut, w, owner));
            }
        });
        let Some((id, mut fut, tw, owner)) = next else { return Quiet::Idle };
        let waker = Waker::from(tw);
        let mut cx = Context::from_waker(&waker);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        let mut to_drop = None;
        RT.with(|rt| {
            let mut rt = rt.borrow_mut();
            rt.cur_owner = 0;
            match res {
                Ok(Poll::Pending) => {
                    if let Some(Some(s)) = rt.tasks.get_mut(id) {
                        s.fut = Some(fut);
                    } else {
                        to_drop = Some(fut);
                    }
                }
                Ok(Poll::Ready(())) => {
                    rt.tasks[id] = None;
                    rt.free.push(id);
                    to_drop = Some(fut);
                }
                Err(_) => {
                    let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    rt.panics.push((owner, m));
                    rt.tasks[id] = None;
                    to_drop = Some(fut);
                }
            }
        });
        if let Some(f) = to_drop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
            if r.is_err() {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                RT.with(|rt| rt.borrow_mut().panics.push((owner, format!("panic in drop: {m}"))));
            }
        }
        loop {
            let k = RT.with(|rt| rt.borrow_mut().kill_q.pop());
            match k {
                Some(o) => kill_now(o),
                None => break,
            }
        }
    }
}

/// Deadline of the earliest timer.
pub fn next_timer() -> Option<u64> {
    RT.with(|rt| rt.borrow().timers.keys().next().map(|k| k.0))
}

/// Move virtual time to the earliest timer if it is not after `limit` (else to `limit`), wake it.
pub fn step_time(limit: u64) -> bool {
    let w = RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        match rt.timers.keys().next().copied() {
            Some(k) if k.0 <= limit => {
                rt.now = rt.now.max(k.0);
                rt.timers.remove(&k)
            }
            _ => {
                rt.now = rt.now.max(limit);
                None
            }
        }
    });
    match w {
        Some(w) => {
            w.wake();
            true
        }
        None => false,
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MIns(pub u64);

impl fmt::Debug for MIns {
    // Constant on purpose: state digests built from Debug output must not depend on absolute time.
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "@")
    }
}
impl Add<Duration> for MIns {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        MIns(self.0.saturating_add(d.as_nanos() as u64))
    }
}
impl AddAssign<Duration> for MIns {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for MIns {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        MIns(self.0.saturating_sub(d.as_nanos() as u64))
    }
}
impl SubAssign<Duration> for MIns {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<MIns> for MIns {
    type Output = Duration;
    fn sub(self, o: MIns) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl openraft::Instant for MIns {
    fn now() -> Self {
        MIns(now())
    }
}

pub struct Sleep {
    deadline: u64,
    key: Option<(u64, u64)>,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        RT.with(|rt| {
            let mut rt = rt.borrow_mut();
            if rt.now >= self.deadline {
                if let Some(k) = self.key.take() {
                    rt.timers.remove(&k);
                }
                return Poll::Ready(());
            }
            let k = match self.key {
                Some(k) => k,
                None => {
                    rt.seq += 1;
                    (self.deadline, rt.seq)
                }
            };
            rt.timers.insert(k, cx.waker().clone());
            self.key = Some(k);
            Poll::Pending
        })
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            let w = RT.try_with(|rt| rt.try_borrow_mut().ok().and_then(|mut rt| rt.timers.remove(&k)));
            drop(w);
        }
    }
}

#[derive(Debug)]
pub struct Elapsed;
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "elapsed")
    }
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // Safety: `fut` is structurally pinned and never moved; `sleep` is Unpin.
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed)),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum JoinErr {
    Panicked,
    Cancelled,
}
impl fmt::Display for JoinErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

struct JoinState<T> {
    res: Option<Result<T, JoinErr>>,
    waker: Option<Waker>,
}
pub struct JoinHandle<T>(Arc<Mutex<JoinState<T>>>);
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.0.lock().unwrap();
        match g.res.take() {
            Some(r) => Poll::Ready(r),
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct JoinGuard<T>(Arc<Mutex<JoinState<T>>>, bool);
impl<T> JoinGuard<T> {
    fn set(&mut self, r: Result<T, JoinErr>) {
        self.1 = true;
        let w = {
            let mut g = self.0.lock().unwrap();
            g.res = Some(r);
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl<T> Drop for JoinGuard<T> {
    fn drop(&mut self) {
        if !self.1 {
            let e = if std::thread::panicking() { JoinErr::Panicked } else { JoinErr::Cancelled };
            self.set(Err(e));
        }
    }
}

pub struct McRng;
impl rand::RngCore for McRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        RT.with(|rt| {
            let mut rt = rt.borrow_mut();
            let owner = rt.cur_owner;
            if let Some((q, k)) = rt.draw.get_mut(&owner) {
                *k += 1;
                return ((*q as u64 * 2 + 1) << 61).wrapping_add(*k << 50);
            }
            rt.rng = rt.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = rt.rng ^ ((rt.cur_owner as u64) << 17);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        })
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Debug, Default, PartialEq, Eq)]
pub struct McRt;

impl AsyncRuntime for McRt {
    type JoinError = JoinErr;
    type JoinHandle<T: openraft::OptionalSend + 'static> = JoinHandle<T>;
    type Sleep = Sleep;
    type Instant = MIns;
    type TimeoutError = Elapsed;
    type Timeout<R, T: Future<Output = R> + openraft::OptionalSend> = Timeout<T>;
    type ThreadLocalRng = McRng;

    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + Send + 'static,
        T::Output: Send + 'static,
    {
        let st = Arc::new(Mutex::new(JoinState { res: None, waker: None }));
        let mut guard = JoinGuard(st.clone(), false);
        let owner = cur_owner();
        spawn_task(
            owner,
            Box::pin(async move {
                let r = future.await;
                guard.set(Ok(r));
            }),
        );
        JoinHandle(st)
    }
    fn sleep(duration: Duration) -> Sleep {
        Sleep { deadline: now().saturating_add(duration.as_nanos().min(u64::MAX as u128 / 4) as u64), key: None }
    }
    fn sleep_until(deadline: MIns) -> Sleep {
        Sleep { deadline: deadline.0, key: None }
    }
    fn timeout<R, F: Future<Output = R> + Send>(duration: Duration, future: F) -> Timeout<F> {
        Timeout { fut: future, sleep: Self::sleep(duration) }
    }
    fn timeout_at<R, F: Future<Output = R> + Send>(deadline: MIns, future: F) -> Timeout<F> {
        Timeout { fut: future, sleep: Self::sleep_until(deadline) }
    }
    fn is_panic(e: &JoinErr) -> bool {
        *e == JoinErr::Panicked
    }
    fn thread_rng() -> McRng {
        McRng
    }

    type Mpsc = <TK as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <TK as AsyncRuntime>::MpscUnbounded;
    type Watch = McWatch;
    type Oneshot = <TK as AsyncRuntime>::Oneshot;
    type Mutex<T: openraft::OptionalSend + 'static> = <TK as AsyncRuntime>::Mutex<T>;
}

// --------------------------------------------------------------------------------------------- watch
// tokio's watch wakes its receivers in a random order; this one wakes them in registration order.

pub struct McWatch;

struct WShared<T> {
    val: std::sync::RwLock<T>,
    st: Mutex<WState>,
}
#[derive(Default)]
struct WState {
    ver: u64,
    closed: bool,
    rx_cnt: usize,
    wakers: Vec<Waker>,
}
pub struct WSender<T>(Arc<WShared<T>>);
pub struct WReceiver<T>(Arc<WShared<T>>, u64);

impl<T> Drop for WSender<T> {
    fn drop(&mut self) {
        let ws = {
            let mut s = self.0.st.lock().unwrap();
            s.closed = true;
            std::mem::take(&mut s.wakers)
        };
        ws.into_iter().for_each(|w| w.wake());
    }
}
impl<T> Drop for WReceiver<T> {
    fn drop(&mut self) {
        self.0.st.lock().unwrap().rx_cnt -= 1;
    }
}
impl<T> Clone for WReceiver<T> {
    fn clone(&self) -> Self {
        self.0.st.lock().unwrap().rx_cnt += 1;
        WReceiver(self.0.clone(), self.1)
    }
}
pub struct WRef<'a, T>(std::sync::RwLockReadGuard<'a, T>);
impl<T> Deref for WRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> WSender<T> {
    fn bump(&self) {
        let ws = {
            let mut s = self.0.st.lock().unwrap();
            s.ver += 1;
            std::mem::take(&mut s.wakers)
        };
        ws.into_iter().for_each(|w| w.wake());
    }
}
impl watch::Watch for McWatch {
    type Sender<T: openraft::OptionalSend + openraft::OptionalSync> = WSender<T>;
    type Receiver<T: openraft::OptionalSend + openraft::OptionalSync> = WReceiver<T>;
    type Ref<'a, T: openraft::OptionalSend + 'a> = WRef<'a, T>;
    fn channel<T: Send + Sync>(init: T) -> (WSender<T>, WReceiver<T>) {
        let s = Arc::new(WShared {
            val: std::sync::RwLock::new(init),
            st: Mutex::new(WState { rx_cnt: 1, ..Default::default() }),
        });
        (WSender(s.clone()), WReceiver(s, 0))
    }
}
impl<T: Send + Sync> watch::WatchSender<McWatch, T> for WSender<T> {
    fn send(&self, value: T) -> Result<(), watch::SendError<T>> {
        if self.0.st.lock().unwrap().rx_cnt == 0 {
            return Err(watch::SendError(value));
        }
        let old = std::mem::replace(&mut *self.0.val.write().unwrap(), value);
        drop(old);
        self.bump();
        Ok(())
    }
    fn send_if_modified<F>(&self, modify: F) -> bool
    where F: FnOnce(&mut T) -> bool {
        let m = modify(&mut self.0.val.write().unwrap());
        if m {
            self.bump();
        }
        m
    }
    fn borrow_watched(&self) -> WRef<'_, T> {
        WRef(self.0.val.read().unwrap())
    }
}
impl<T: Send + Sync> watch::WatchReceiver<McWatch, T> for WReceiver<T> {
    async fn changed(&mut self) -> Result<(), watch::RecvError> {
        futures::future::poll_fn(|cx| {
            let mut s = self.0.st.lock().unwrap();
            if s.ver != self.1 {
                self.1 = s.ver;
                return Poll::Ready(Ok(()));
            }
            if s.closed {
                return Poll::Ready(Err(watch::RecvError(())));
            }
            if !s.wakers.iter().any(|w| w.will_wake(cx.waker())) {
                s.wakers.push(cx.waker().clone());
            }
            Poll::Pending
        })
        .await
    }
    fn borrow_watched(&self) -> WRef<'_, T> {
        WRef(self.0.val.read().unwrap())
    }
}

/// Let other tasks run once.
pub async fn pause() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            return std::task::Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
    .await
}
