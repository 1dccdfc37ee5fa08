//! Two threads under control, one instruction at a time: the first runs with the processor's trap flag set and
//! hands over to the second at chosen instructions, which then runs an operation from beginning to end.

use crate::engine::guard;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static _end: u8;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum At {
    Nowhere,
    Everywhere,
    Point(u64),
    /// at the first execution of the instruction at this offset, by a breakpoint: in a process of its own only,
    /// the program text is shared by all threads
    Break(u32),
}

struct Stepper {
    lo: usize,
    hi: usize,
    at: At,
    /// instructions of this program so far; those inside of the C library do not count
    count: u64,
    handed: u64,
    rips: Vec<u32>,
    record: bool,
    other: *const Shared,
    /// breakpoint and the byte that was there
    broken: Option<(usize, u8)>,
    /// more than one change of threads
    relay: Option<Leg>,
}

/// One of the two threads of a relay.
struct Leg {
    me: usize,
    with: Arc<Relay>,
    /// where this thread gives up the processor, in its own instructions
    stops: Vec<u64>,
    /// the static memory of the program before the last instruction
    memory: Vec<u8>,
    /// before and after every instruction that changed it
    points: Vec<u64>,
}

struct Shared {
    go: AtomicU32,
    done: AtomicU32,
    quit: AtomicBool,
    bad: Mutex<Option<String>>,
    runs: AtomicU32,
    /// the other thread, and the last hand-over it has noticed
    tid: AtomicU32,
    taken: AtomicU32,
}

thread_local! {
    static STEPPER: Cell<*mut Stepper> = const { Cell::new(std::ptr::null_mut()) };
}

fn futex_wait(a: &AtomicU32, value: u32, limit: Option<Duration>) {
    let ts = limit.map(|l| libc::timespec { tv_sec: l.as_secs() as i64, tv_nsec: l.subsec_nanos() as i64 });
    unsafe {
        libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, value, ts.as_ref().map_or(std::ptr::null(), |t| t as *const _));
    }
}

fn futex_wake(a: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
    }
}

/// Is the thread waiting in the kernel?
fn sleeps(tid: u32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut t = tid;
    for i in (16..26).rev() {
        path[i] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    // without leading zeros
    let zeros = path[16..26].iter().take_while(|c| **c == b'0').count();
    path.copy_within(16 + zeros.., 16);
    let mut buf = [0u8; 256];
    let n = unsafe {
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(fd);
        n
    };
    n > 0 && buf[..n as usize].windows(3).rev().find(|w| w[0] == b')').map_or(false, |w| w[2] == b'S')
}

impl Shared {
    /// Lets the other thread run its operation once; it may be unable to (a lock that this thread holds).
    fn hand_over(&self) -> bool {
        let go = self.go.load(Ordering::SeqCst);
        if self.done.load(Ordering::SeqCst) != go {
            return false; // still waiting for this thread
        }
        self.go.store(go + 1, Ordering::SeqCst);
        futex_wake(&self.go);
        let start = Instant::now();
        let mut asleep = 0;
        loop {
            for _ in 0..2000 {
                if self.done.load(Ordering::SeqCst) == go + 1 {
                    return true;
                }
                std::hint::spin_loop();
            }
            futex_wait(&self.done, go, Some(Duration::from_micros(if asleep > 0 { 50 } else { 500 })));
            // it waits for something that only this thread can give
            asleep = if self.taken.load(Ordering::SeqCst) == go + 1 && sleeps(self.tid.load(Ordering::SeqCst)) { asleep + 1 } else { 0 };
            if asleep == 3 {
                return self.done.load(Ordering::SeqCst) == go + 1;
            }
            if start.elapsed() > Duration::from_millis(50) {
                return self.done.load(Ordering::SeqCst) == go + 1;
            }
        }
    }
    fn settle(&self) -> bool {
        let go = self.go.load(Ordering::SeqCst);
        // in small steps: a pause of the whole machine must not count
        let mut steps = 0;
        while self.done.load(Ordering::SeqCst) != go {
            futex_wait(&self.done, go.wrapping_sub(1), Some(Duration::from_millis(5)));
            steps += 1;
            if steps > 5000 {
                return false;
            }
        }
        true
    }
}

extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let p = STEPPER.with(|s| s.get());
    let uc = unsafe { &mut *(ctx as *mut libc::ucontext_t) };
    if p.is_null() {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    let s = unsafe { &mut *p };
    let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    if let Some((addr, byte)) = s.broken {
        if rip == addr + 1 {
            unsafe { *(addr as *mut u8) = byte };
            s.broken = None;
            uc.uc_mcontext.gregs[libc::REG_RIP as usize] = addr as i64;
            let errno = unsafe { *libc::__errno_location() };
            unsafe { (*s.other).hand_over() };
            s.handed += 1;
            unsafe { *libc::__errno_location() = errno };
        }
        return;
    }
    if rip < s.lo || rip >= s.hi {
        return;
    }
    if let Some(ref mut leg) = s.relay {
        let errno = unsafe { *libc::__errno_location() };
        if !leg.with.free.load(Ordering::SeqCst) {
            leg.look(s.count);
            if leg.stops.contains(&s.count) {
                leg.with.hand(leg.me);
                leg.again();
            }
        }
        s.count += 1;
        unsafe { *libc::__errno_location() = errno };
        return;
    }
    if s.record && s.rips.len() < s.rips.capacity() {
        s.rips.push((rip - s.lo) as u32);
    }
    let here = match s.at { At::Nowhere => false, At::Break(_) => false, At::Everywhere => true, At::Point(n) => n == s.count };
    s.count += 1;
    if here {
        let errno = unsafe { *libc::__errno_location() };
        unsafe { (*s.other).hand_over() };
        s.handed += 1;
        unsafe { *libc::__errno_location() = errno };
        if let At::Point(_) = s.at {
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100; // that was it
        }
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    }
}

/// The part of an operation that is explored; nothing special happens when no exploration is on.
pub fn within<T, F: FnOnce() -> T>(f: F) -> T {
    let p = STEPPER.with(|s| s.get());
    if p.is_null() {
        return f();
    }
    let s = unsafe { &mut *p };
    if let At::Break(offset) = s.at {
        // only the first explored part
        s.at = At::Nowhere;
        s.count = u64::max_value();
        let addr = s.lo + offset as usize;
        unsafe {
            libc::mprotect((addr & !4095) as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
            s.broken = Some((addr, *(addr as *const u8)));
            *(addr as *mut u8) = 0xcc;
        }
        let r = f();
        if let Some((addr, byte)) = s.broken.take() {
            unsafe { *(addr as *mut u8) = byte };
        }
        return r;
    }
    if s.count == u64::max_value() {
        return f();
    }
    let off = Off;
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    drop(off);
    r
}

pub struct Other {
    shared: Arc<Shared>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Other {
    /// `make` runs on the new thread and yields the operation; each time its answer has to be the first one's.
    pub fn new<T, M, O>(make: M) -> Other
        where T: PartialEq + std::fmt::Debug, M: FnOnce() -> O + Send + 'static, O: FnMut() -> T
    {
        let shared = Arc::new(Shared { go: AtomicU32::new(1), done: AtomicU32::new(0), quit: AtomicBool::new(false), bad: Mutex::new(None), runs: AtomicU32::new(0), tid: AtomicU32::new(0), taken: AtomicU32::new(1) });
        let s = shared.clone();
        let thread = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            s.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, Ordering::SeqCst);
            let mut op = make();
            let expected = guard(|| op());
            let mut seen = 1;
            loop {
                s.done.store(seen, Ordering::SeqCst);
                futex_wake(&s.done);
                let mut spins = 0;
                while s.go.load(Ordering::SeqCst) == seen {
                    spins += 1;
                    if spins > 3000 {
                        futex_wait(&s.go, seen, None);
                    }
                    std::hint::spin_loop();
                }
                if s.quit.load(Ordering::SeqCst) {
                    return;
                }
                seen += 1;
                s.taken.store(seen, Ordering::SeqCst);
                let got = guard(|| op());
                s.runs.fetch_add(1, Ordering::SeqCst);
                if got != expected {
                    let mut bad = s.bad.lock().unwrap();
                    if bad.is_none() {
                        *bad = Some(format!("{:?} instead of {:?}", got, expected));
                    }
                }
            }
        }).expect("spawn");
        let o = Other { shared, thread: Some(thread) };
        o.shared.settle();
        o
    }
    /// As `new`, but the operation has not run before the first hand-over; `got` collects what it answers then.
    pub fn fresh<T, M, O>(make: M, got: Arc<Mutex<Option<Result<T, String>>>>) -> Other
        where T: Send + 'static, M: FnOnce() -> O + Send + 'static, O: FnMut() -> T
    {
        let shared = Arc::new(Shared { go: AtomicU32::new(1), done: AtomicU32::new(0), quit: AtomicBool::new(false), bad: Mutex::new(None), runs: AtomicU32::new(0), tid: AtomicU32::new(0), taken: AtomicU32::new(1) });
        let s = shared.clone();
        let thread = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            s.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, Ordering::SeqCst);
            let mut op = make();
            s.done.store(1, Ordering::SeqCst);
            futex_wake(&s.done);
            while s.go.load(Ordering::SeqCst) == 1 {
                futex_wait(&s.go, 1, None);
            }
            if s.quit.load(Ordering::SeqCst) {
                return;
            }
            s.taken.store(2, Ordering::SeqCst);
            let r = guard(|| op());
            *got.lock().unwrap() = Some(r);
            s.done.store(2, Ordering::SeqCst);
            futex_wake(&s.done);
            while s.go.load(Ordering::SeqCst) == 2 {
                futex_wait(&s.go, 2, None);
            }
        }).expect("spawn");
        let o = Other { shared, thread: Some(thread) };
        o.shared.settle();
        o
    }
    pub fn bad(&self) -> Option<String> {
        self.shared.bad.lock().unwrap().take()
    }
}

impl Drop for Other {
    fn drop(&mut self) {
        if !self.shared.settle() {
            return; // it hangs: leave it
        }
        self.shared.quit.store(true, Ordering::SeqCst);
        self.shared.go.fetch_add(1, Ordering::SeqCst);
        futex_wake(&self.shared.go);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

pub struct Report<T> {
    pub result: Result<T, String>,
    /// instructions that were points of choice
    pub points: u64,
    /// times the other thread was given the processor
    pub handed: u64,
    pub rips: Vec<u32>,
    /// the other thread came to an end
    pub settled: bool,
}

pub fn explore<T, F: FnOnce() -> T>(other: &Other, at: At, record: bool, f: F) -> Report<T> {
    install();
    let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
    let mut s = Stepper { lo, hi, at, count: 0, handed: 0, rips: Vec::with_capacity(if record { 1 << 20 } else { 0 }), record, other: &*other.shared, broken: None, relay: None };
    STEPPER.with(|c| c.set(&mut s));
    let result = guard(f);
    STEPPER.with(|c| c.set(std::ptr::null_mut()));
    let settled = other.shared.settle();
    Report { result, points: s.count, handed: s.handed, rips: s.rips, settled }
}

// ---------------------------------------------------------------- several changes of threads

fn statics() -> (*const u8, usize) {
    let (lo, hi) = unsafe { (&__data_start as *const u8, &_end as *const u8) };
    (lo, hi as usize - lo as usize)
}

impl Leg {
    fn again(&mut self) {
        let (p, n) = statics();
        unsafe { std::ptr::copy_nonoverlapping(p, self.memory.as_mut_ptr(), n) };
    }
    fn look(&mut self, count: u64) {
        let (p, n) = statics();
        if unsafe { libc::memcmp(p as *const _, self.memory.as_ptr() as *const _, n) } != 0 {
            for c in [count.saturating_sub(1), count] {
                if self.points.len() < self.points.capacity() && self.points.last() != Some(&c) {
                    self.points.push(c);
                }
            }
            self.again();
        }
    }
}

struct Relay {
    turn: AtomicU32,
    /// changes of threads so far, and the last one each thread has noticed
    seq: AtomicU32,
    noticed: [AtomicU32; 2],
    tid: [AtomicU32; 2],
    finished: [AtomicBool; 2],
    /// one waits for the other: both run from here
    free: AtomicBool,
}

impl Relay {
    fn wait(&self, me: usize) {
        while self.turn.load(Ordering::SeqCst) != me as u32 && !self.free.load(Ordering::SeqCst) {
            futex_wait(&self.turn, 1 - me as u32, Some(Duration::from_millis(5)));
        }
        self.noticed[me].store(self.seq.load(Ordering::SeqCst), Ordering::SeqCst);
    }
    fn pass(&self, me: usize) {
        self.seq.fetch_add(1, Ordering::SeqCst);
        self.turn.store(1 - me as u32, Ordering::SeqCst);
        futex_wake(&self.turn);
    }
    fn hand(&self, me: usize) {
        let other = 1 - me;
        if self.finished[other].load(Ordering::SeqCst) || self.free.load(Ordering::SeqCst) {
            return;
        }
        self.pass(me);
        let seq = self.seq.load(Ordering::SeqCst);
        let start = Instant::now();
        let mut asleep = 0;
        while self.turn.load(Ordering::SeqCst) != me as u32 && !self.free.load(Ordering::SeqCst) {
            futex_wait(&self.turn, other as u32, Some(Duration::from_micros(if asleep > 0 { 50 } else { 500 })));
            asleep = if self.noticed[other].load(Ordering::SeqCst) == seq && sleeps(self.tid[other].load(Ordering::SeqCst)) { asleep + 1 } else { 0 };
            if (asleep == 3 || start.elapsed() > Duration::from_millis(50)) && self.turn.load(Ordering::SeqCst) != me as u32 {
                self.free.store(true, Ordering::SeqCst);
                futex_wake(&self.turn);
            }
        }
        self.noticed[me].store(self.seq.load(Ordering::SeqCst), Ordering::SeqCst);
    }
    fn finish(&self, me: usize) {
        self.finished[me].store(true, Ordering::SeqCst);
        self.pass(me);
    }
}

fn leg<T, F: FnOnce() -> T>(me: usize, with: &Arc<Relay>, plan: &[u64], f: F) -> (Result<T, String>, Vec<u64>) {
    let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
    let mut l = Leg { me, with: with.clone(), stops: plan.iter().skip(me).step_by(2).cloned().collect(), memory: vec![0; statics().1], points: Vec::with_capacity(1 << 12) };
    l.again();
    let mut s = Stepper { lo, hi, at: At::Nowhere, count: 0, handed: 0, rips: Vec::new(), record: false, other: std::ptr::null(), broken: None, relay: Some(l) };
    STEPPER.with(|c| c.set(&mut s));
    let r = guard(f);
    STEPPER.with(|c| c.set(std::ptr::null_mut()));
    with.finish(me);
    (r, s.relay.take().expect("leg").points)
}

pub struct Raced<T> {
    pub results: [Option<Result<T, String>>; 2],
    /// where each thread changed static memory, in its own instructions
    pub points: [Vec<u64>; 2],
    /// one waited for the other
    pub free: bool,
}

/// Two operations; the threads change at `plan[0]` (of the first), `plan[1]` (of the second), `plan[2]` (of the first)
/// and so on, and when one comes to its end. For a process of its own.
pub fn race<T, M, O, F>(make: M, first: F, plan: &[u64]) -> Raced<T>
    where T: Send + 'static, M: FnOnce() -> O + Send + 'static, O: FnMut() -> T, F: FnOnce() -> T
{
    install();
    let zero = || AtomicU32::new(0);
    let with = Arc::new(Relay { turn: AtomicU32::new(1), seq: zero(), noticed: [zero(), zero()], tid: [zero(), zero()], finished: [AtomicBool::new(false), AtomicBool::new(false)], free: AtomicBool::new(false) });
    let tid = || unsafe { libc::syscall(libc::SYS_gettid) } as u32;
    with.tid[0].store(tid(), Ordering::SeqCst);
    let got = Arc::new(Mutex::new(None));
    {
        let (with, got, plan) = (with.clone(), got.clone(), plan.to_vec());
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            with.tid[1].store(tid(), Ordering::SeqCst);
            let mut op = make();
            with.pass(1);
            with.wait(1);
            let r = leg(1, &with, &plan, || op());
            *got.lock().unwrap() = Some(r);
            futex_wake(&with.turn);
            loop {
                std::thread::park();
            }
        }).expect("spawn");
    }
    with.wait(0);
    let (a, pa) = leg(0, &with, plan, first);
    let mut steps = 0;
    let second = loop {
        if let Some(x) = got.lock().unwrap().take() {
            break Some(x);
        }
        std::thread::sleep(Duration::from_micros(100));
        steps += 1;
        if steps > 100_000 {
            break None;
        }
    };
    let (b, pb) = match second { Some((r, p)) => (Some(r), p), None => (None, Vec::new()) };
    Raced { results: [Some(a), b], points: [pa, pb], free: with.free.load(Ordering::SeqCst) }
}
