//! Synchronisation primitives with scheduling points, and a scheduler that runs a bounded concurrent program under
//! every schedule.  Outside an exploration the primitives behave as those of `std`.
#![allow(deprecated)]

pub mod sched {
    use std::cell::RefCell;
    use std::sync::{Arc, Condvar, Mutex};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Status {
        Ready,
        Blocked(usize),
        Done,
    }

    struct Choice {
        options: Vec<u8>,
        index: usize,
    }

    struct State {
        status: Vec<Status>,
        current: usize,
        position: usize,
        stack: Vec<Choice>,
        preemptions: usize,
        bound: usize,
        points: u64,
        limit: u64,
        abort: Option<String>,
        schedule: Vec<u8>,
        diverged: bool,
    }

    pub struct Sched {
        state: Mutex<State>,
        wake: Vec<Condvar>,
        release_points: bool,
    }

    thread_local! {
        static CURRENT: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    }

    pub struct Abort;

    fn me() -> Option<(Arc<Sched>, usize)> {
        CURRENT.try_with(|c| c.try_borrow().ok().and_then(|x| x.clone())).ok().flatten()
    }

    pub fn scheduled() -> bool {
        me().is_some()
    }

    impl Sched {
        /// Choose the next thread.  `voluntary` is false where the current thread could go on.
        fn choose(&self, s: &mut State, current: usize, can_go_on: bool) -> Option<usize> {
            let mut options: Vec<u8> = vec![];
            if can_go_on {
                options.push(current as u8);
            }
            if !can_go_on || s.preemptions < s.bound {
                for (i, t) in s.status.iter().enumerate() {
                    if *t == Status::Ready && !(can_go_on && i == current) {
                        options.push(i as u8);
                    }
                }
            }
            if options.is_empty() {
                return None;
            }
            let next = if options.len() == 1 {
                options[0]
            } else {
                if s.position == s.stack.len() {
                    s.stack.push(Choice { options: options.clone(), index: 0 });
                }
                if s.stack[s.position].options != options {
                    s.diverged = true;
                }
                let c = &s.stack[s.position];
                s.position += 1;
                c.options[c.index.min(c.options.len() - 1)]
            };
            if can_go_on && next as usize != current {
                s.preemptions += 1;
            }
            if s.schedule.len() < 4000 {
                s.schedule.push(next);
            }
            Some(next as usize)
        }

        fn fail(&self, s: &mut State, text: String) {
            if s.abort.is_none() {
                s.abort = Some(text);
            }
            for w in &self.wake {
                w.notify_all();
            }
        }

        fn wait_turn<'a>(&'a self, mut s: std::sync::MutexGuard<'a, State>, me: usize) {
            while s.current != me && s.abort.is_none() {
                s = self.wake[me].wait(s).unwrap();
            }
            if s.abort.is_some() {
                drop(s);
                if !std::thread::panicking() {
                    std::panic::resume_unwind(Box::new(Abort));
                }
            }
        }

        fn switch(&self, me: usize, can_go_on: bool) {
            let mut s = self.state.lock().unwrap();
            if s.abort.is_some() {
                drop(s);
                std::panic::resume_unwind(Box::new(Abort));
            }
            s.points += 1;
            if s.points > s.limit {
                let text = format!("no end after {} steps", s.limit);
                self.fail(&mut s, text);
                drop(s);
                std::panic::resume_unwind(Box::new(Abort));
            }
            match self.choose(&mut s, me, can_go_on) {
                None => {
                    let text = format!("deadlock: threads {:?}", s.status);
                    self.fail(&mut s, text);
                    drop(s);
                    std::panic::resume_unwind(Box::new(Abort));
                }
                Some(next) if next == me => {}
                Some(next) => {
                    s.current = next;
                    self.wake[next].notify_all();
                    self.wait_turn(s, me);
                }
            }
        }
    }

    /// A point before a visible operation.
    pub fn point() {
        if std::thread::panicking() {
            return;
        }
        if let Some((s, i)) = me() {
            s.switch(i, true);
        }
    }

    /// A point before a lock is released.
    pub fn release_point() {
        if std::thread::panicking() {
            return;
        }
        if let Some((s, i)) = me() {
            if s.release_points {
                s.switch(i, true);
            }
        }
    }

    /// Give way to the other threads, if there are any that can go on.
    pub fn give_way() {
        if std::thread::panicking() {
            return;
        }
        if let Some((s, i)) = me() {
            let others = s.state.lock().unwrap().status.iter().enumerate().any(|(j, t)| j != i && *t == Status::Ready);
            if others {
                // Not a preemption; this thread stays ready but is not among the options.
                s.state.lock().unwrap().status[i] = Status::Blocked(usize::MAX);
                let mut st = s.state.lock().unwrap();
                st.points += 1;
                if st.points > st.limit {
                    let text = format!("no end after {} steps", st.limit);
                    s.fail(&mut st, text);
                    drop(st);
                    std::panic::resume_unwind(Box::new(Abort));
                }
                let next = s.choose(&mut st, i, false);
                st.status[i] = Status::Ready;
                if let Some(next) = next {
                    st.current = next;
                    s.wake[next].notify_all();
                    s.wait_turn(st, i);
                }
            } else {
                s.switch(i, true);
            }
        }
    }

    /// Wait until `wake` is called for the address.  Returns false outside an exploration.
    pub fn block(address: usize) -> bool {
        match me() {
            None => false,
            Some((s, i)) => {
                if std::thread::panicking() {
                    return false;
                }
                s.state.lock().unwrap().status[i] = Status::Blocked(address);
                s.switch(i, false);
                true
            }
        }
    }

    pub fn wake(address: usize) {
        if let Some((s, _)) = me() {
            let mut s = s.state.lock().unwrap();
            for t in s.status.iter_mut() {
                if *t == Status::Blocked(address) {
                    *t = Status::Ready;
                }
            }
        }
    }

    pub struct Outcome {
        pub abort: Option<String>,
        pub schedule: Vec<u8>,
    }

    #[derive(Default, Clone, Copy, Debug)]
    pub struct Report {
        pub executions: u64,
        pub points: u64,
        pub longest: u64,
        /// Executions that did not follow the prefix of their schedule (order of hash maps): 0 for full coverage.
        pub diverged: u64,
    }

    /// Run `body` on every thread number under every schedule with at most `bound` preemptions.
    /// `done` gets the state after each execution and says whether to go on.
    pub fn explore<S: Sync>(
        threads: usize,
        bound: usize,
        limit: u64,
        release_points: bool,
        mut setup: impl FnMut() -> S,
        body: impl Fn(&S, usize) + Sync,
        mut done: impl FnMut(S, Outcome) -> bool,
    ) -> Report {
        let mut report = Report::default();
        let mut stack: Vec<Choice> = vec![];
        loop {
            let shared = setup();
            let mut first = State {
                status: vec![Status::Ready; threads],
                current: usize::MAX,
                position: 0,
                stack: std::mem::take(&mut stack),
                preemptions: 0,
                bound,
                points: 0,
                limit,
                abort: None,
                schedule: vec![],
                diverged: false,
            };
            let mut sched = Sched { state: Mutex::new(State { status: vec![], current: 0, position: 0, stack: vec![], preemptions: 0, bound: 0, points: 0, limit: 0, abort: None, schedule: vec![], diverged: false }), wake: (0..threads).map(|_| Condvar::new()).collect(), release_points };
            first.current = sched.choose(&mut first, usize::MAX, false).expect("a thread");
            sched.state = Mutex::new(first);
            let sched = Arc::new(sched);
            std::thread::scope(|scope| {
                for i in 0..threads {
                    let sched = Arc::clone(&sched);
                    let (shared, body) = (&shared, &body);
                    std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn_scoped(scope, move || {
                            let outcome = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                CURRENT.with(|c| *c.borrow_mut() = Some((Arc::clone(&sched), i)));
                                sched.wait_turn(sched.state.lock().unwrap(), i);
                                body(shared, i);
                            }));
                            CURRENT.with(|c| *c.borrow_mut() = None);
                            let mut s = sched.state.lock().unwrap();
                            s.status[i] = Status::Done;
                            if let Err(e) = outcome {
                                if !e.is::<Abort>() {
                                    let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                                    sched.fail(&mut s, format!("thread {i} panicked: {text}"));
                                }
                                return;
                            }
                            if s.abort.is_some() || s.status.iter().all(|t| *t == Status::Done) {
                                return;
                            }
                            match sched.choose(&mut s, i, false) {
                                None => {
                                    let text = format!("deadlock: threads {:?}", s.status);
                                    sched.fail(&mut s, text);
                                }
                                Some(next) => {
                                    s.current = next;
                                    sched.wake[next].notify_all();
                                }
                            }
                        })
                        .expect("thread");
                }
            });
            let mut s = sched.state.lock().unwrap();
            report.executions += 1;
            report.points += s.points;
            report.longest = report.longest.max(s.points);
            report.diverged += s.diverged as u64;
            // What was not reached this time is not the prefix of anything.
            let reached = s.position;
            s.stack.truncate(reached);
            stack = std::mem::take(&mut s.stack);
            let outcome = Outcome { abort: s.abort.take(), schedule: std::mem::take(&mut s.schedule) };
            drop(s);
            if !done(shared, outcome) {
                return report;
            }
            // Next schedule, depth first.
            loop {
                match stack.last_mut() {
                    None => return report,
                    Some(c) if c.index + 1 < c.options.len() => {
                        c.index += 1;
                        break;
                    }
                    Some(_) => {
                        stack.pop();
                    }
                }
            }
        }
    }
}

pub mod sync {
    use super::sched;
    pub use std::sync::{mpsc, Arc, Barrier, BarrierWaitResult, LockResult, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
    use std::fmt;
    use std::ops::{Deref, DerefMut};

    macro_rules! guards {
        ($guard:ident, $std:ident, $lock:ident, mut) => {
            guards!($guard, $std, $lock);
            impl<T: ?Sized> DerefMut for $guard<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    self.inner.as_mut().unwrap()
                }
            }
        };
        ($guard:ident, $std:ident, $lock:ident) => {
            pub struct $guard<'a, T: ?Sized> {
                inner: Option<std::sync::$std<'a, T>>,
                #[allow(dead_code)]
                lock: &'a $lock<T>,
            }
            impl<T: ?Sized> Deref for $guard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.inner.as_ref().unwrap()
                }
            }
            impl<T: ?Sized> Drop for $guard<'_, T> {
                fn drop(&mut self) {
                    if self.inner.is_some() {
                        sched::release_point();
                        self.inner = None;
                        sched::wake(self.lock.address());
                    }
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $guard<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }

    guards!(MutexGuard, MutexGuard, Mutex, mut);
    guards!(RwLockReadGuard, RwLockReadGuard, RwLock);
    guards!(RwLockWriteGuard, RwLockWriteGuard, RwLock, mut);

    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(mut s: Self) -> RwLockReadGuard<'a, T> {
            sched::release_point();
            let inner = s.inner.take().map(std::sync::RwLockWriteGuard::downgrade);
            sched::wake(s.lock.address());
            RwLockReadGuard { inner, lock: s.lock }
        }
    }

    macro_rules! acquire {
        ($self:ident, $try:ident, $plain:ident, $guard:ident) => {
            acquire!($self, $try, $plain, $guard, { sched::point(); })
        };
        ($self:ident, $try:ident, $plain:ident, $guard:ident, $before:block) => {{
            $before
            loop {
                match $self.inner.$try() {
                    Ok(g) => return Ok($guard { inner: Some(g), lock: $self }),
                    Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new($guard { inner: Some(p.into_inner()), lock: $self })),
                    Err(TryLockError::WouldBlock) => {
                        if !sched::block($self.address()) {
                            return match $self.inner.$plain() {
                                Ok(g) => Ok($guard { inner: Some(g), lock: $self }),
                                Err(p) => Err(PoisonError::new($guard { inner: Some(p.into_inner()), lock: $self })),
                            };
                        }
                    }
                }
            }
        }};
    }
    macro_rules! attempt {
        ($self:ident, $try:ident, $guard:ident) => {{
            sched::point();
            match $self.inner.$try() {
                Ok(g) => Ok($guard { inner: Some(g), lock: $self }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new($guard { inner: Some(p.into_inner()), lock: $self }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }};
    }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        inner: std::sync::Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(value: T) -> Self {
            Mutex { inner: std::sync::Mutex::new(value) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn address(&self) -> usize {
            &self.inner as *const _ as *const () as usize
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            acquire!(self, try_lock, lock, MutexGuard)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            attempt!(self, try_lock, MutexGuard)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    /// A reader waits while a writer is waiting, as with `std` on Linux, so that reading twice at once can deadlock.
    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        writers: std::sync::atomic::AtomicUsize,
        inner: std::sync::RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(value: T) -> Self {
            RwLock { writers: std::sync::atomic::AtomicUsize::new(0), inner: std::sync::RwLock::new(value) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn address(&self) -> usize {
            &self.inner as *const _ as *const () as usize
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            use std::sync::atomic::Ordering::SeqCst;
            if sched::scheduled() {
                sched::point();
                while self.writers.load(SeqCst) > 0 && sched::block(self.address()) {}
            }
            acquire!(self, try_read, read, RwLockReadGuard, {})
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            use std::sync::atomic::Ordering::SeqCst;
            struct Waiting<'a>(&'a std::sync::atomic::AtomicUsize, usize);
            impl Drop for Waiting<'_> {
                fn drop(&mut self) {
                    if self.0.fetch_sub(1, SeqCst) == 1 {
                        sched::wake(self.1);
                    }
                }
            }
            sched::point();
            self.writers.fetch_add(1, SeqCst);
            let _waiting = Waiting(&self.writers, self.address());
            acquire!(self, try_write, write, RwLockWriteGuard, {})
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            attempt!(self, try_read, RwLockReadGuard)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            attempt!(self, try_write, RwLockWriteGuard)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    /// Whether an initialisation is under way.
    struct Busy<'a>(&'a std::sync::atomic::AtomicBool, usize);
    impl Drop for Busy<'_> {
        fn drop(&mut self) {
            self.0.store(false, std::sync::atomic::Ordering::SeqCst);
            sched::wake(self.1);
        }
    }

    pub struct OnceLock<T> {
        inner: std::sync::OnceLock<T>,
        busy: std::sync::atomic::AtomicBool,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { inner: std::sync::OnceLock::new(), busy: std::sync::atomic::AtomicBool::new(false) }
        }
        fn address(&self) -> usize {
            &self.busy as *const _ as usize
        }
        pub fn get(&self) -> Option<&T> {
            sched::point();
            self.inner.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.inner.get_mut()
        }
        pub fn set(&self, value: T) -> Result<(), T> {
            let mut v = Some(value);
            self.get_or_init(|| v.take().unwrap());
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            sched::point();
            loop {
                if let Some(v) = self.inner.get() {
                    return v;
                }
                if !self.busy.swap(true, std::sync::atomic::Ordering::SeqCst) {
                    let busy = Busy(&self.busy, self.address());
                    let v = f();
                    let _ = self.inner.set(v);
                    drop(busy);
                    return self.inner.get().unwrap();
                }
                if !sched::block(self.address()) {
                    std::thread::yield_now();
                }
            }
        }
        pub fn into_inner(self) -> Option<T> {
            self.inner.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.inner.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            let o = Self::new();
            let _ = o.inner.set(t);
            o
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            OnceLock { inner: self.inner.clone(), busy: Default::default() }
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| {
                let f = this.init.lock().unwrap().take();
                match f {
                    Some(f) => f(),
                    None => panic!("LazyLock instance has previously been poisoned"),
                }
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub struct Once {
        cell: OnceLock<()>,
    }
    impl Once {
        pub const fn new() -> Self {
            Once { cell: OnceLock::new() }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.cell.get_or_init(f);
        }
        pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
            let inner = std::sync::Once::new();
            self.cell.get_or_init(|| inner.call_once_force(f));
        }
        pub fn is_completed(&self) -> bool {
            self.cell.get().is_some()
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: std::sync::Condvar,
        mark: u64,
    }
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { inner: std::sync::Condvar::new(), mark: 0 }
        }
        fn address(&self) -> usize {
            &self.mark as *const _ as usize
        }
        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let lock = guard.lock;
            if !sched::scheduled() {
                let g = guard.inner.take().unwrap();
                return match self.inner.wait(g) {
                    Ok(g) => Ok(MutexGuard { inner: Some(g), lock }),
                    Err(p) => Err(PoisonError::new(MutexGuard { inner: Some(p.into_inner()), lock })),
                };
            }
            guard.inner = None;
            sched::wake(lock.address());
            drop(guard);
            sched::block(self.address());
            lock.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn wait_timeout<'a, T>(&self, mut guard: MutexGuard<'a, T>, _: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let lock = guard.lock;
            guard.inner = None;
            sched::wake(lock.address());
            drop(guard);
            sched::give_way();
            match lock.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(true)))),
            }
        }
        pub fn notify_one(&self) {
            // A waiter may wake at any time, so waking all is one of the allowed behaviours.
            self.notify_all()
        }
        pub fn notify_all(&self) {
            sched::point();
            self.inner.notify_all();
            sched::wake(self.address());
        }
    }

    pub mod atomic {
        use super::sched;
        pub use std::sync::atomic::{compiler_fence, Ordering};
        pub fn fence(o: Ordering) {
            sched::point();
            std::sync::atomic::fence(o)
        }
        macro_rules! atomic {
            ($name:ident, $t:ty, [$($arith:ident),*]) => {
                #[derive(Default, Debug)]
                pub struct $name(std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self { $name(std::sync::atomic::$name::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { sched::point(); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { sched::point(); self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { sched::point(); self.0.swap(v, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { sched::point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { sched::point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { sched::point(); self.0.fetch_update(o, p, f) }
                    pub fn try_update(&self, o: Ordering, p: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(o, p, f) }
                    pub fn update(&self, o: Ordering, p: Ordering, mut f: impl FnMut($t) -> $t) -> $t { self.fetch_update(o, p, |x| Some(f(x))).unwrap() }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    $(pub fn $arith(&self, v: $t, o: Ordering) -> $t { sched::point(); self.0.$arith(v, o) })*
                }
                impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
            };
        }
        atomic!(AtomicBool, bool, [fetch_and, fetch_or, fetch_xor, fetch_nand]);
        atomic!(AtomicUsize, usize, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicIsize, isize, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicU64, u64, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicI64, i64, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicU32, u32, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicI32, i32, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicU16, u16, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicI16, i16, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        atomic!(AtomicI8, i8, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool { sched::point(); self.0.fetch_not(o) }
        }
        atomic!(AtomicU8, u8, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min]);
        pub use std::sync::atomic::AtomicPtr;
    }
}

pub mod cell {
    use super::sched;
    pub use std::cell::{BorrowError, BorrowMutError, Cell, LazyCell, OnceCell, UnsafeCell};
    use std::ops::{Deref, DerefMut};

    /// A cell shared without a lock by mistake is found where a borrow meets another one.
    #[derive(Default, Debug, Clone)]
    pub struct RefCell<T: ?Sized> {
        inner: std::cell::RefCell<T>,
    }
    pub struct Ref<'a, T: ?Sized>(Option<std::cell::Ref<'a, T>>);
    pub struct RefMut<'a, T: ?Sized>(Option<std::cell::RefMut<'a, T>>);
    impl<T> RefCell<T> {
        pub const fn new(v: T) -> Self {
            RefCell { inner: std::cell::RefCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
        pub fn replace(&self, v: T) -> T {
            sched::point();
            self.inner.replace(v)
        }
        pub fn replace_with<F: FnOnce(&mut T) -> T>(&self, f: F) -> T {
            sched::point();
            self.inner.replace_with(f)
        }
        pub fn swap(&self, other: &Self) {
            sched::point();
            self.inner.swap(&other.inner)
        }
        pub fn take(&self) -> T
        where
            T: Default,
        {
            sched::point();
            self.inner.take()
        }
    }
    impl<T: ?Sized> RefCell<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            sched::point();
            Ref(Some(self.inner.borrow()))
        }
        pub fn borrow_mut(&self) -> RefMut<'_, T> {
            sched::point();
            RefMut(Some(self.inner.borrow_mut()))
        }
        pub fn try_borrow(&self) -> Result<Ref<'_, T>, BorrowError> {
            sched::point();
            Ok(Ref(Some(self.inner.try_borrow()?)))
        }
        pub fn try_borrow_mut(&self) -> Result<RefMut<'_, T>, BorrowMutError> {
            sched::point();
            Ok(RefMut(Some(self.inner.try_borrow_mut()?)))
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
        pub fn as_ptr(&self) -> *mut T {
            self.inner.as_ptr()
        }
    }
    impl<'a, T: ?Sized> Ref<'a, T> {
        #[allow(clippy::should_implement_trait)]
        pub fn clone(orig: &Ref<'a, T>) -> Ref<'a, T> {
            Ref(orig.0.as_ref().map(std::cell::Ref::clone))
        }
        pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(mut orig: Ref<'a, T>, f: F) -> Ref<'a, U> {
            Ref(orig.0.take().map(|x| std::cell::Ref::map(x, f)))
        }
        pub fn filter_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(mut orig: Ref<'a, T>, f: F) -> Result<Ref<'a, U>, Ref<'a, T>> {
            match std::cell::Ref::filter_map(orig.0.take().unwrap(), f) {
                Ok(x) => Ok(Ref(Some(x))),
                Err(x) => Err(Ref(Some(x))),
            }
        }
    }
    impl<'a, T: ?Sized> RefMut<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(mut orig: RefMut<'a, T>, f: F) -> RefMut<'a, U> {
            RefMut(orig.0.take().map(|x| std::cell::RefMut::map(x, f)))
        }
    }
    impl<T> From<T> for RefCell<T> {
        fn from(t: T) -> Self {
            RefCell::new(t)
        }
    }
    macro_rules! show {
        ($($guard:ident)*) => { $(
            impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for $guard<'_, T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + std::fmt::Display> std::fmt::Display for $guard<'_, T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    (**self).fmt(f)
                }
            }
        )* };
    }
    show!(Ref RefMut);
    impl<T: ?Sized> Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Drop for Ref<'_, T> {
        fn drop(&mut self) {
            sched::point();
            self.0 = None;
        }
    }
    impl<T: ?Sized> Deref for RefMut<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RefMut<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RefMut<'_, T> {
        fn drop(&mut self) {
            sched::point();
            self.0 = None;
        }
    }
}

pub mod thread {
    pub use std::thread::*;
    pub fn yield_now() {
        crate::sched::give_way()
    }
    pub fn sleep(_: std::time::Duration) {
        crate::sched::give_way()
    }
}
