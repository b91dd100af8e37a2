//! One-at-a-time thread runtime: every switch between the threads of a parallel
//! region is a decision of a seeded scheduler. Settings come from environment
//! variables read at the start of each region:
//!   SIMRT_THREADS  worker threads
//!   SIMRT_SEED     seed of all decisions
//!   SIMRT_SWITCH   chance (per 1000) of switching at a point where it may
//!   SIMRT_CUT      decisions after which nothing is switched voluntarily any more
//!   SIMRT_LOG      file descriptor to append one line of statistics to
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar as SCondvar, Mutex as SMutex};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

struct Region {
    st: Vec<St>,
    cur: usize,
    rng: u64,
    switch: u64,
    cut: u64,
    decisions: u64,
    switches: u64,
    points: u64,
    contended: u64,
    log: u64,
    dead: bool,
}

static REGION: SMutex<Option<Region>> = SMutex::new(None);
static TURN: SCondvar = SCondvar::new();
pub const DEADLOCK: i32 = 97;

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

fn var(name: &str, dflt: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(dflt)
}

impl Region {
    fn rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn note(&mut self, x: u64) {
        self.log = (self.log ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(7);
    }
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.decisions += 1;
        if self.decisions > self.cut {
            return 0;
        }
        let r = self.rand();
        (r % n as u64) as usize
    }
    fn pick(&mut self) -> bool {
        let ready: Vec<usize> = (0..self.st.len()).filter(|&i| self.st[i] == St::Ready).collect();
        if ready.is_empty() {
            return false;
        }
        let k = self.choose(ready.len());
        if ready[k] != self.cur {
            self.switches += 1;
        }
        self.cur = ready[k];
        self.note(self.cur as u64 + 1);
        true
    }
}

fn deadlock() -> ! {
    eprintln!("simrt: deadlock");
    std::process::exit(DEADLOCK)
}

fn wait_turn(mut g: std::sync::MutexGuard<'_, Option<Region>>, me: usize) {
    while g.as_ref().is_some_and(|r| r.cur != me) {
        g = TURN.wait(g).unwrap();
    }
}

/// A point where another thread may run.
pub fn yield_point() {
    let Some(me) = ME.get() else { return };
    let mut g = REGION.lock().unwrap();
    let r = g.as_mut().unwrap();
    r.points += 1;
    if r.decisions > r.cut || r.rand() % 1000 >= r.switch {
        return;
    }
    r.pick();
    if r.cur != me {
        TURN.notify_all();
        wait_turn(g, me);
    }
}

/// Wait until somebody wakes `key`.
pub fn block(key: usize) {
    let Some(me) = ME.get() else { deadlock() };
    let mut g = REGION.lock().unwrap();
    let r = g.as_mut().unwrap();
    r.contended += 1;
    r.st[me] = St::Blocked(key);
    if !r.pick() {
        deadlock();
    }
    TURN.notify_all();
    wait_turn(g, me);
}

pub fn wake(key: usize) {
    if ME.get().is_none() {
        return;
    }
    let mut g = REGION.lock().unwrap();
    if let Some(r) = g.as_mut() {
        for s in &mut r.st {
            if *s == St::Blocked(key) {
                *s = St::Ready;
            }
        }
    }
}

/// A choice among n that is the scheduler's.
pub fn choose(n: usize) -> usize {
    if ME.get().is_none() {
        return 0;
    }
    let mut g = REGION.lock().unwrap();
    let r = g.as_mut().unwrap();
    let k = r.choose(n);
    r.note(k as u64 + 100);
    k
}

pub fn inside() -> bool {
    ME.get().is_some()
}

fn finish(me: usize) {
    let mut g = REGION.lock().unwrap();
    let r = g.as_mut().unwrap();
    r.st[me] = St::Done;
    if !r.pick() {
        if r.st.iter().any(|s| matches!(s, St::Blocked(_))) {
            deadlock();
        }
        r.dead = true;
    }
    TURN.notify_all();
}

/// Run the bodies as threads of one region, one at a time.
pub fn region(bodies: Vec<Box<dyn FnOnce() + Send + '_>>) {
    if bodies.is_empty() {
        return;
    }
    if inside() {
        // nested: somebody's turn already; order is the scheduler's
        let mut left = bodies;
        while !left.is_empty() {
            let k = choose(left.len());
            (left.remove(k))();
        }
        return;
    }
    let mut r = Region {
        st: vec![St::Ready; bodies.len()],
        cur: usize::MAX,
        rng: var("SIMRT_SEED", 0),
        switch: var("SIMRT_SWITCH", 200),
        cut: var("SIMRT_CUT", u64::MAX),
        decisions: 0,
        switches: 0,
        points: 0,
        contended: 0,
        log: 0xcbf2_9ce4_8422_2325,
        dead: false,
    };
    r.pick();
    *REGION.lock().unwrap() = Some(r);
    let panics = SMutex::new(vec![]);
    std::thread::scope(|s| {
        for (i, body) in bodies.into_iter().enumerate() {
            let panics = &panics;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    ME.set(Some(i));
                    wait_turn(REGION.lock().unwrap(), i);
                    if let Err(e) = catch_unwind(AssertUnwindSafe(body)) {
                        panics.lock().unwrap().push(e);
                    }
                    finish(i);
                    ME.set(None);
                })
                .expect("spawn");
        }
    });
    let r = REGION.lock().unwrap().take().unwrap();
    let fd = var("SIMRT_LOG", 0);
    if fd > 0 {
        use std::io::Write as _;
        use std::os::fd::FromRawFd as _;
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd as i32) });
        let _ = writeln!(f, "{} {} {} {} {:x}", r.points, r.decisions, r.switches, r.contended, r.log);
    }
    if let Some(e) = panics.into_inner().unwrap().into_iter().next() {
        resume_unwind(e);
    }
}

/// Every item once, by some thread, in some order.
pub fn par_map<T: Send, R: Send>(items: Vec<T>, f: &(impl Fn(T) -> R + Sync)) -> Vec<R> {
    let n = items.len();
    let slots: SMutex<Vec<Option<T>>> = SMutex::new(items.into_iter().map(Some).collect());
    let left: SMutex<Vec<usize>> = SMutex::new((0..n).collect());
    let out: SMutex<Vec<Option<R>>> = SMutex::new((0..n).map(|_| None).collect());
    let threads = (var("SIMRT_THREADS", 4).max(1) as usize).min(n.max(1));
    let work = || loop {
        yield_point();
        let k = {
            let mut l = left.lock().unwrap();
            if l.is_empty() {
                return;
            }
            let k = choose(l.len());
            l.remove(k)
        };
        let item = slots.lock().unwrap()[k].take().unwrap();
        let r = f(item);
        out.lock().unwrap()[k] = Some(r);
    };
    if inside() {
        work();
    } else {
        region((0..threads).map(|_| Box::new(&work) as Box<dyn FnOnce() + Send>).collect());
    }
    out.into_inner().unwrap().into_iter().map(|x| x.expect("an item was not run")).collect()
}

pub mod sync {
    pub use std::sync::{Arc, LockResult, Once, OnceLock, LazyLock, PoisonError, TryLockError, TryLockResult, Weak};
    use std::ops::{Deref, DerefMut};

    use super::{block, wake, yield_point};

    fn addr<T: ?Sized>(x: &T) -> usize {
        (x as *const T).cast::<u8>() as usize
    }

    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    #[derive(Debug)]
    pub struct MutexGuard<'a, T: ?Sized>(Option<std::sync::MutexGuard<'a, T>>, usize);

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn wrap<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard(Some(g), addr(self))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            yield_point();
            loop {
                match self.0.try_lock() {
                    Ok(g) => return Ok(self.wrap(g)),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wrap(e.into_inner()))),
                    Err(TryLockError::WouldBlock) => block(addr(self)),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            yield_point();
            match self.0.try_lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner()))))
                },
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            yield_point();          // still held
            self.0 = None;
            wake(self.1);
            if !std::thread::panicking() {
                yield_point();
            }
        }
    }

    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    #[derive(Debug)]
    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<std::sync::RwLockReadGuard<'a, T>>, usize);
    #[derive(Debug)]
    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<std::sync::RwLockWriteGuard<'a, T>>, usize);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            yield_point();
            loop {
                match self.0.try_read() {
                    Ok(g) => return Ok(RwLockReadGuard(Some(g), addr(self))),
                    Err(TryLockError::Poisoned(e)) => {
                        return Err(PoisonError::new(RwLockReadGuard(Some(e.into_inner()), addr(self))))
                    },
                    Err(TryLockError::WouldBlock) => block(addr(self)),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            yield_point();
            loop {
                match self.0.try_write() {
                    Ok(g) => return Ok(RwLockWriteGuard(Some(g), addr(self))),
                    Err(TryLockError::Poisoned(e)) => {
                        return Err(PoisonError::new(RwLockWriteGuard(Some(e.into_inner()), addr(self))))
                    },
                    Err(TryLockError::WouldBlock) => block(addr(self)),
                }
            }
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            yield_point();
            self.0 = None;
            wake(self.1);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            yield_point();
            self.0 = None;
            wake(self.1);
        }
    }

    pub mod mpsc {
        pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
        use std::collections::VecDeque;
        use std::sync::{Arc, Mutex as SMutex};

        use super::super::{block, wake, yield_point};

        struct Chan<T> {
            q: VecDeque<T>,
            senders: usize,
            alive: bool,
        }
        type Shared<T> = Arc<SMutex<Chan<T>>>;
        pub struct Sender<T>(Shared<T>);
        pub struct Receiver<T>(Shared<T>);
        pub type SyncSender<T> = Sender<T>;
        fn key<T>(s: &Shared<T>) -> usize {
            Arc::as_ptr(s).cast::<u8>() as usize
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(SMutex::new(Chan { q: VecDeque::new(), senders: 1, alive: true }));
            (Sender(Arc::clone(&c)), Receiver(c))
        }
        pub fn sync_channel<T>(_bound: usize) -> (Sender<T>, Receiver<T>) {
            channel()
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                yield_point();
                {
                    let mut c = self.0.lock().unwrap();
                    if !c.alive {
                        return Err(SendError(t));
                    }
                    c.q.push_back(t);
                }
                wake(key(&self.0));
                yield_point();
                Ok(())
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().senders += 1;
                Self(Arc::clone(&self.0))
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().senders -= 1;
                wake(key(&self.0));
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().alive = false;
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                yield_point();
                let mut c = self.0.lock().unwrap();
                match c.q.pop_front() {
                    Some(t) => Ok(t),
                    None if c.senders == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn recv(&self) -> Result<T, RecvError> {
                loop {
                    match self.try_recv() {
                        Ok(t) => return Ok(t),
                        Err(TryRecvError::Disconnected) => return Err(RecvError),
                        Err(TryRecvError::Empty) => block(key(&self.0)),
                    }
                }
            }
            pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
                std::iter::from_fn(|| self.recv().ok())
            }
            pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
                std::iter::from_fn(|| self.try_recv().ok())
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
    }

    pub mod atomic {
        pub use std::sync::atomic::{compiler_fence, fence, Ordering};

        use super::yield_point;

        macro_rules! atomic {
            ($($name:ident $t:ty;)*) => {$(
                #[derive(Debug, Default)]
                pub struct $name(std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$name::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { yield_point(); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { yield_point(); self.0.store(v, o); yield_point() }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { yield_point(); self.0.swap(v, o) }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        yield_point(); self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        yield_point(); self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        yield_point(); self.0.fetch_update(s, f, &mut g)
                    }
                }
            )*};
        }
        macro_rules! arith {
            ($($name:ident $t:ty;)*) => {$(
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { yield_point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { yield_point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { yield_point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { yield_point(); self.0.fetch_min(v, o) }
                }
            )*};
        }
        atomic! { AtomicBool bool; AtomicUsize usize; AtomicU64 u64; AtomicU32 u32; AtomicI64 i64; AtomicI32 i32; AtomicU8 u8; AtomicU16 u16; AtomicIsize isize; }
        arith! { AtomicUsize usize; AtomicU64 u64; AtomicU32 u32; AtomicI64 i64; AtomicI32 i32; AtomicU8 u8; AtomicU16 u16; AtomicIsize isize; }
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { yield_point(); self.0.fetch_or(v, o) }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { yield_point(); self.0.fetch_and(v, o) }
        }
    }
}

pub mod thread {
    //! scope/spawn with the same scheduler: a scope's threads run as one region
    //! when the scope closes or one of them is joined.
    pub use std::thread::{available_parallelism, current, panicking, sleep, yield_now, Result};
}
