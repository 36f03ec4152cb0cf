//! A stand-in for `std` whose synchronisation primitives are scheduling points of a controlled scheduler.
//! The crate under test is compiled with `extern crate ttstd as std;` (cfg ttgraph_mc), so every path
//! `std::sync::..` in it resolves here, however it is spelled. Outside of a controlled execution all of
//! them behave like the originals. The scheduler runs one thread at a time and decides at every
//! synchronisation operation who goes on, so the memory model explored is sequential consistency.
#![allow(ambiguous_glob_reexports, hidden_glob_reexports)]
pub use std::*;

pub mod sched {
  use std::cell::{Cell, RefCell};
  use std::panic::{catch_unwind, AssertUnwindSafe};
  use std::sync::{Arc, Condvar, Mutex};

  #[derive(Clone, Copy, PartialEq, Debug)]
  enum St {
    Run,
    /// waits for the resource with this address
    Wait(usize),
    Done,
  }

  /// One decision: who could go on, who did.
  #[derive(Clone, Debug)]
  pub struct Point {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    /// the thread that was running could have gone on (so choosing another one is a preemption)
    pub running: Option<usize>,
  }

  #[derive(Default)]
  struct Inner {
    cur: usize,
    st: Vec<St>,
    prefix: Vec<usize>,
    trace: Vec<Point>,
    same: usize,
    dead: Option<String>,
    started: usize,
  }
  pub struct Sched {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
    done: Condvar,
  }

  thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static OFF: Cell<bool> = const { Cell::new(false) };
  }
  struct Abort;

  /// A thread that goes on this long on its own is assumed to wait for another one.
  const SPIN: usize = 40;
  const HORIZON: usize = 4000;

  impl Sched {
    fn choose(&self, s: &mut Inner, me: Option<usize>) -> bool {
      let mut en: Vec<usize> = Vec::new();
      let run_me = me.filter(|m| s.st[*m] == St::Run);
      let tired = s.same >= SPIN;
      if let Some(m) = run_me {
        if !tired {
          en.push(m);
        }
      }
      let n = s.st.len();
      for k in 0..n {
        // round robin after a tired thread, ascending otherwise
        let t = if tired { (me.unwrap_or(0) + 1 + k) % n } else { k };
        if s.st[t] == St::Run && Some(t) != run_me {
          en.push(t);
        }
      }
      if en.is_empty() {
        if let Some(m) = run_me {
          en.push(m);
        }
      }
      if en.is_empty() {
        if s.st.iter().all(|x| *x == St::Done) {
          return false;
        }
        s.dead = Some("deadlock: every thread waits".into());
        return false;
      }
      if tired && en.len() > 1 {
        // a forced switch is not a choice of ours
        en.truncate(1);
      }
      let k = s.trace.len();
      if k >= HORIZON {
        s.dead = Some(format!("no end after {} scheduling points", HORIZON));
        return false;
      }
      let c = if k < s.prefix.len() { s.prefix[k] } else { 0 };
      if c >= en.len() {
        s.dead = Some(format!("HARNESS: replay of a schedule diverges at point {}", k));
        return false;
      }
      let next = en[c];
      s.trace.push(Point { enabled: en, chosen: c, running: run_me.filter(|_| !tired) });
      s.same = if Some(next) == me { s.same + 1 } else { 0 };
      s.cur = next;
      true
    }
    fn switch(self: &Arc<Self>, me: usize, state: St) {
      let mut s = self.m.lock().unwrap();
      if s.dead.is_some() {
        drop(s);
        std::panic::resume_unwind(Box::new(Abort));
      }
      s.st[me] = state;
      if !self.choose(&mut s, Some(me)) {
        for c in &self.cv {
          c.notify_all();
        }
        self.done.notify_all();
        let dead = s.dead.is_some();
        drop(s);
        if dead && state != St::Done {
          std::panic::resume_unwind(Box::new(Abort));
        }
        return;
      }
      if s.cur != me {
        self.cv[s.cur].notify_all();
        if state == St::Done {
          return;
        }
        while s.cur != me && s.dead.is_none() {
          s = self.cv[me].wait(s).unwrap();
        }
        if s.dead.is_some() {
          drop(s);
          std::panic::resume_unwind(Box::new(Abort));
        }
      }
    }
  }

  fn me() -> Option<(Arc<Sched>, usize)> {
    if OFF.with(|o| o.get()) || std::thread::panicking() {
      return None;
    }
    ME.with(|m| m.borrow().clone())
  }
  pub fn controlled() -> bool {
    me().is_some()
  }
  /// A scheduling point.
  pub fn point() {
    if let Some((s, k)) = me() {
      s.switch(k, St::Run);
    }
  }
  /// Wait until someone calls `wake` with this address.
  pub fn wait(addr: usize) {
    match me() {
      Some((s, k)) => s.switch(k, St::Wait(addr)),
      None => std::thread::yield_now(),
    }
  }
  pub fn wake(addr: usize) {
    let s = ME.with(|m| m.borrow().clone());
    if let Some((s, _)) = s {
      let mut s = s.m.lock().unwrap();
      for x in s.st.iter_mut() {
        if *x == St::Wait(addr) {
          *x = St::Run;
        }
      }
    }
  }
  /// Run something without scheduling points.
  pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    let old = OFF.with(|o| o.replace(true));
    let r = f();
    OFF.with(|o| o.set(old));
    r
  }

  pub struct Outcome<T> {
    pub results: Vec<Option<Result<T, String>>>,
    pub trace: Vec<Point>,
    pub dead: Option<String>,
  }

  /// One execution of the bodies under the schedule `prefix` (then always the first choice).
  pub fn run<T: Send>(prefix: &[usize], bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Outcome<T> {
    let n = bodies.len();
    let sched = Arc::new(Sched {
      m: Mutex::new(Inner { st: vec![St::Run; n], prefix: prefix.to_vec(), cur: usize::MAX, ..Default::default() }),
      cv: (0..n).map(|_| Condvar::new()).collect(),
      done: Condvar::new(),
    });
    let results = std::thread::scope(|sc| {
      let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(k, b)| {
          let s = sched.clone();
          sc.spawn(move || {
            {
              let mut i = s.m.lock().unwrap();
              i.started += 1;
              if i.started == n {
                s.choose(&mut i, None);
                let c = i.cur;
                s.cv[c].notify_all();
              }
              while i.cur != k && i.dead.is_none() {
                i = s.cv[k].wait(i).unwrap();
              }
              if i.dead.is_some() {
                return None;
              }
            }
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), k)));
            let r = catch_unwind(AssertUnwindSafe(b));
            ME.with(|m| *m.borrow_mut() = None);
            let r = match r {
              Ok(v) => Some(Ok(v)),
              Err(e) if e.is::<Abort>() => None,
              Err(e) => Some(Err(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))),
            };
            // leaving: no point of its own
            {
              let mut i = s.m.lock().unwrap();
              if i.dead.is_some() {
                return r;
              }
              i.same = 0;
            }
            s.switch(k, St::Done);
            r
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
    });
    let i = sched.m.lock().unwrap();
    Outcome { results, trace: i.trace.clone(), dead: i.dead.clone() }
  }
}

pub mod hint {
  pub use std::hint::*;
  pub fn spin_loop() {
    crate::sched::point();
    std::hint::spin_loop()
  }
}
pub mod thread {
  pub use std::thread::*;
  pub fn yield_now() {
    if crate::sched::controlled() {
      crate::sched::point();
    } else {
      std::thread::yield_now()
    }
  }
  pub fn sleep(d: std::time::Duration) {
    if crate::sched::controlled() {
      crate::sched::point();
    } else {
      std::thread::sleep(d)
    }
  }
}

pub mod sync {
  use crate::sched;
  use std::cell::UnsafeCell;
  use std::fmt;
  use std::ops::{Deref, DerefMut};
  pub use std::sync::*;

  pub mod atomic {
    use crate::sched::point;
    pub use std::sync::atomic::*;
    pub fn fence(o: Ordering) {
      point();
      std::sync::atomic::fence(o)
    }
    macro_rules! common {
      ($name:ident, $t:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name(std::sync::atomic::$name);
        impl std::fmt::Debug for $name {
          fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
          }
        }
        impl From<$t> for $name {
          fn from(v: $t) -> Self {
            Self::new(v)
          }
        }
        impl $name {
          pub const fn new(v: $t) -> Self {
            Self(std::sync::atomic::$name::new(v))
          }
          pub fn get_mut(&mut self) -> &mut $t {
            self.0.get_mut()
          }
          pub fn into_inner(self) -> $t {
            self.0.into_inner()
          }
          pub const fn as_ptr(&self) -> *mut $t {
            self.0.as_ptr()
          }
          pub fn load(&self, o: Ordering) -> $t {
            point();
            self.0.load(o)
          }
          pub fn store(&self, v: $t, o: Ordering) {
            point();
            self.0.store(v, o)
          }
          pub fn swap(&self, v: $t, o: Ordering) -> $t {
            point();
            self.0.swap(v, o)
          }
          pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
            point();
            self.0.compare_exchange(a, b, s, f)
          }
          pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
            point();
            self.0.compare_exchange(a, b, s, f)
          }
          #[allow(deprecated)]
          pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
            point();
            self.0.compare_and_swap(a, b, o)
          }
          pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
            let mut p = self.load(l);
            while let Some(n) = f(p) {
              match self.compare_exchange_weak(p, n, s, l) {
                x @ Ok(_) => return x,
                Err(q) => p = q,
              }
            }
            Err(p)
          }
        }
      };
    }
    macro_rules! rmw {
      ($name:ident, $t:ty, $($f:ident),*) => {
        impl $name { $( pub fn $f(&self, v: $t, o: Ordering) -> $t { point(); self.0.$f(v, o) } )* }
      };
    }
    macro_rules! int {
      ($($name:ident $t:ty;)*) => { $(
        common!($name, $t);
        rmw!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
      )* };
    }
    int!(AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32; AtomicI32 i32; AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8;);
    common!(AtomicBool, bool);
    rmw!(AtomicBool, bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
    impl AtomicBool {
      pub fn fetch_not(&self, o: Ordering) -> bool {
        point();
        self.0.fetch_xor(true, o)
      }
    }
  }

  // ---- Mutex
  pub struct Mutex<T: ?Sized> {
    held: UnsafeCell<bool>,
    real: std::sync::Mutex<()>,
    poison: std::sync::atomic::AtomicBool,
    v: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
  unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
  pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    /// the real lock protects the flag against threads that are not controlled
    panicking: bool,
  }
  impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
      Mutex { held: UnsafeCell::new(false), real: std::sync::Mutex::new(()), poison: std::sync::atomic::AtomicBool::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
      Ok(self.v.into_inner())
    }
  }
  impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
      &self.held as *const _ as usize
    }
    fn take(&self) -> bool {
      let _r = self.real.lock().unwrap_or_else(|e| e.into_inner());
      let h = unsafe { &mut *self.held.get() };
      let ok = !*h;
      *h = true;
      ok
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
      let g = MutexGuard { m: self, panicking: std::thread::panicking() };
      if self.poison.load(std::sync::atomic::Ordering::SeqCst) {
        Err(PoisonError::new(g))
      } else {
        Ok(g)
      }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
      sched::point();
      while !self.take() {
        sched::wait(self.addr());
      }
      self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
      sched::point();
      if !self.take() {
        return Err(TryLockError::WouldBlock);
      }
      self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
      Ok(self.v.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
      self.poison.load(std::sync::atomic::Ordering::SeqCst)
    }
    pub fn clear_poison(&self) {
      self.poison.store(false, std::sync::atomic::Ordering::SeqCst)
    }
  }
  impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
      Self::new(T::default())
    }
  }
  impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
      Self::new(v)
    }
  }
  impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("Mutex { .. }")
    }
  }
  impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.m.v.get() }
    }
  }
  impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      unsafe { &mut *self.m.v.get() }
    }
  }
  impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
      if !self.panicking && std::thread::panicking() {
        self.m.poison.store(true, std::sync::atomic::Ordering::SeqCst);
      }
      {
        let _r = self.m.real.lock().unwrap_or_else(|e| e.into_inner());
        unsafe { *self.m.held.get() = false };
      }
      sched::wake(self.m.addr());
    }
  }

  // ---- RwLock
  pub struct RwLock<T: ?Sized> {
    /// number of readers, or -1
    n: std::sync::Mutex<isize>,
    v: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
  unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
  pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
  pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
  impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
      RwLock { n: std::sync::Mutex::new(0), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
      Ok(self.v.into_inner())
    }
  }
  impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
      &self.n as *const _ as usize
    }
    fn take(&self, write: bool) -> bool {
      let mut n = self.n.lock().unwrap();
      if write && *n == 0 {
        *n = -1;
        true
      } else if !write && *n >= 0 {
        *n += 1;
        true
      } else {
        false
      }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
      sched::point();
      while !self.take(false) {
        sched::wait(self.addr());
      }
      Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
      sched::point();
      while !self.take(true) {
        sched::wait(self.addr());
      }
      Ok(RwLockWriteGuard(self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
      sched::point();
      if self.take(false) {
        Ok(RwLockReadGuard(self))
      } else {
        Err(TryLockError::WouldBlock)
      }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
      sched::point();
      if self.take(true) {
        Ok(RwLockWriteGuard(self))
      } else {
        Err(TryLockError::WouldBlock)
      }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
      Ok(self.v.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
      false
    }
  }
  impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
      Self::new(T::default())
    }
  }
  impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("RwLock { .. }")
    }
  }
  impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.0.v.get() }
    }
  }
  impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.0.v.get() }
    }
  }
  impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      unsafe { &mut *self.0.v.get() }
    }
  }
  impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
      *self.0.n.lock().unwrap() -= 1;
      sched::wake(self.0.addr());
    }
  }
  impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
      *self.0.n.lock().unwrap() = 0;
      sched::wake(self.0.addr());
    }
  }

  // ---- Condvar
  #[derive(Default)]
  pub struct Condvar {
    real: std::sync::Condvar,
  }
  impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("Condvar { .. }")
    }
  }
  impl Condvar {
    pub const fn new() -> Self {
      Condvar { real: std::sync::Condvar::new() }
    }
    fn addr(&self) -> usize {
      &self.real as *const _ as usize
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
      let m = g.m;
      // released and waiting in one step: nothing runs between the two
      drop(g);
      sched::wait(self.addr());
      m.lock()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
      while f(&mut *g) {
        g = self.wait(g)?;
      }
      Ok(g)
    }
    pub fn notify_one(&self) {
      self.notify_all()
    }
    pub fn notify_all(&self) {
      sched::point();
      sched::wake(self.addr());
    }
  }

  // ---- one time initialisation, on top of the mutex
  pub struct OnceLock<T> {
    m: Mutex<()>,
    v: UnsafeCell<Option<T>>,
  }
  unsafe impl<T: Send> Send for OnceLock<T> {}
  unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
  impl<T> OnceLock<T> {
    pub const fn new() -> Self {
      OnceLock { m: Mutex::new(()), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
      sched::point();
      unsafe { (*self.v.get()).as_ref() }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
      self.v.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
      let _g = self.m.lock();
      let p = unsafe { &mut *self.v.get() };
      if p.is_some() {
        return Err(v);
      }
      *p = Some(v);
      Ok(())
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
      let _g = self.m.lock();
      let p = unsafe { &mut *self.v.get() };
      if p.is_none() {
        *p = Some(f());
      }
      p.as_ref().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
      self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
      self.v.get_mut().take()
    }
  }
  impl<T> Default for OnceLock<T> {
    fn default() -> Self {
      Self::new()
    }
  }
  impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("OnceLock { .. }")
    }
  }
  impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
      OnceLock { m: Mutex::new(()), v: UnsafeCell::new(self.get().cloned()) }
    }
  }
  pub struct LazyLock<T, F = fn() -> T> {
    o: OnceLock<T>,
    f: UnsafeCell<Option<F>>,
  }
  unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
  impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
      LazyLock { o: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
      this.o.get_or_init(|| unsafe { (*this.f.get()).take() }.expect("LazyLock poisoned")())
    }
  }
  impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
      Self::force(self)
    }
  }
}
