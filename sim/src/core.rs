//! The simulator core: one-at-a-time scheduling of real threads, fault
//! injection, and the seams (allocator, LAPACK/BLAS, libc) it owns.
use crate::rng::{Rng, mix};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 40;
pub const SETUP_TASK: usize = 31;
const MAIN: u32 = 1000;
/// trace entries: the previous task had ended (or none had started)
pub const FREE: u8 = 0x80;

// ---------------------------------------------------------------- fault model
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Site {
    Lapack,
    LinkFunc,
    LinkInv,
    LinkNat,
    LinkDnat,
    Stderr,
}
pub const NSITES: usize = 6;
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// LAPACK reports a singular matrix
    Fail,
    Nan,
    Inf,
    Scale(f64),
    Panic,
    Errno(i32),
    Short,
    /// the caller makes no progress until every other client is done
    Stall,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub task: usize,
    pub op: usize,
    pub site: Site,
    /// first occurrence hit (0-based, counted per op)
    pub nth: u32,
    /// number of consecutive occurrences hit
    pub count: u32,
    pub act: Act,
}
pub const FK_NAMES: [&str; 27] = [
    "lapack_failure",
    "link_nan",
    "link_inf",
    "link_scaled_step",
    "link_panic",
    "stderr_epipe",
    "stderr_enospc",
    "stderr_eio",
    "stderr_eagain",
    "stderr_eintr",
    "stderr_short_write",
    "preemption",
    "blas_reordered_reduction",
    "alloc_poison_fill",
    "alloc_address_reuse",
    "clock_read",
    "entropy_read",
    "futex_wait",
    "library_thread",
    "lapack_rounding_jitter",
    "stderr_write_ok",
    "link_callback",
    "lapack_call",
    "blas_call",
    "link_stall",
    "access_to_process_wide_memory",
    "access_to_another_clients_memory",
];
pub const NFK: usize = FK_NAMES.len();

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fill {
    None,
    Zero,
    Ones,
    Nan,
    Rand,
    Big,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Reuse {
    Lifo,
    Fifo,
    Never,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Blas {
    Native,
    Reorder,
    ReorderJitter,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Env {
    pub fill: Fill,
    pub reuse: Reuse,
    /// 0 steady, 1 frozen, 2 jumping forward, 3 jumping back
    pub clock: u8,
    pub clock_base: u64,
    pub entropy: u64,
    pub blas: Blas,
    pub blas_seed: u64,
    /// chance of a switch at an access to memory that clients share (0: not watched)
    #[serde(default)]
    pub hot: f64,
}
impl Default for Env {
    fn default() -> Self {
        Env {
            fill: Fill::None,
            reuse: Reuse::Lifo,
            clock: 0,
            clock_base: 1_000_000_000,
            entropy: 1,
            blas: Blas::Native,
            blas_seed: 0,
            hot: 0.,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    Serial,
    Random { seed: u64, gap: f64, major: f64 },
    /// a few randomly chosen edges of the code are where clients lose their turn
    Edges { seed: u64, frac: f64, p: f64, gap: f64 },
    Explicit(Vec<(u64, u8)>),
}

// ------------------------------------------------------------- shared memory
/// Written by simulated processes, read by their parent.
#[repr(C)]
pub struct Shm {
    pub status: AtomicU32,
    pub fk: [AtomicU64; NFK],
    pub steps: AtomicU64,
    pub simtime: AtomicU64,
    pub cov: [u8; 1 << 18],
    /// orchestration: progress of this worker, lowest violating run (block 0)
    pub done: AtomicU64,
    pub stop_at: AtomicU64,
}
pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_STEPLIMIT: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub static mut SHM: *mut Shm = std::ptr::null_mut();
/// One block per worker; the orchestrator sums them.
pub fn shm_init(n: usize) {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>() * n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM = p as *mut Shm;
    }
}
pub fn shm_select(i: usize) {
    unsafe { SHM = SHM.add(i) }
}
pub fn shm_block(i: usize) -> &'static Shm {
    unsafe { &*SHM.add(i) }
}
#[inline]
fn count(k: usize) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).fk[k].fetch_add(1, SeqCst);
        }
    }
}

// --------------------------------------------------------------- task state
thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static INOP: Cell<bool> = const { Cell::new(false) };
}
#[derive(Clone, Copy, Default)]
struct OpCtx {
    op: usize,
    cnt: [u32; NSITES],
    fired: u32,
    /// context used for fault lookup (dynamic threads inherit their creator's)
    task: usize,
}
pub struct Core {
    step: u64,
    next: u64,
    cur: usize,
    ntask: usize,
    state: [u8; MAXT],
    ctx: [OpCtx; MAXT],
    pub faults: Vec<Fault>,
    sched: Sched,
    idx: usize,
    rng: Rng,
    pub trace: Vec<(u64, u8)>,
    pub trace_hash: u64,
    spins: u32,
    /// consecutive blocked turns without any progress
    idle: u32,
    last_guard: u32,
    limit: u64,
    env: Env,
    ent: Rng,
    clock_add: i64,
    blas_n: u64,
    pthreads: [u64; MAXT],
}
static mut CORE: *mut Core = std::ptr::null_mut();
static ACTIVE: AtomicBool = AtomicBool::new(false);
static TURN: AtomicU32 = AtomicU32::new(MAIN);
static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

fn core() -> &'static mut Core {
    unsafe { &mut *CORE }
}
#[inline]
fn in_sim() -> bool {
    ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && INOP.get()
}

pub fn raw_syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
fn futex_wait(w: &AtomicU32, v: u32) {
    raw_syscall6(202, w as *const _ as i64, 128, v as i64, 0, 0, 0);
}
fn futex_wake(w: &AtomicU32) {
    raw_syscall6(202, w as *const _ as i64, 129, 1, 0, 0, 0);
}
fn pass_to(t: u32) {
    TURN.store(t, SeqCst);
    let i = if t == MAIN { MAXT } else { t as usize };
    WORD[i].fetch_add(1, SeqCst);
    futex_wake(&WORD[i]);
}
fn await_turn(t: u32) {
    let i = if t == MAIN { MAXT } else { t as usize };
    loop {
        let v = WORD[i].load(SeqCst);
        if TURN.load(SeqCst) == t {
            return;
        }
        futex_wait(&WORD[i], v);
    }
}
pub fn wake(w: &AtomicU32) {
    futex_wake(w)
}
pub fn wait(w: &AtomicU32, v: u32) {
    futex_wait(w, v)
}
pub fn set_status(s: u32) {
    unsafe { (*SHM).status.store(s, SeqCst) }
}
pub fn status() -> u32 {
    unsafe { (*SHM).status.load(SeqCst) }
}
pub fn abort_run(status: u32) -> ! {
    unsafe {
        (*SHM).status.store(status, SeqCst);
        libc::_exit(3)
    }
}

/// Reset the core for a run (in the simulated process).
pub fn start(faults: &[Fault], sched: &Sched, env: &Env, limit: u64) {
    let seed = match sched {
        Sched::Random { seed, .. } | Sched::Edges { seed, .. } => *seed,
        _ => 0,
    };
    let c = Box::new(Core {
        step: 0,
        next: u64::MAX,
        cur: SETUP_TASK,
        ntask: 0,
        state: [0; MAXT],
        ctx: [OpCtx::default(); MAXT],
        faults: faults.to_vec(),
        sched: sched.clone(),
        idx: 0,
        rng: Rng::new(seed),
        trace: Vec::with_capacity(4096),
        trace_hash: 0x1234,
        spins: 0,
        idle: 0,
        last_guard: 0,
        limit,
        env: env.clone(),
        ent: Rng::new(env.entropy),
        clock_add: 0,
        blas_n: 0,
        pthreads: [0; MAXT],
    });
    unsafe {
        EDGE_P = 0.;
        if let Sched::Edges { seed, frac, p, .. } = sched {
            EDGE_P = *p;
            for (i, e) in (*&raw mut EDGE).iter_mut().enumerate() {
                *e = ((mix(*seed, i as u64) as f64 / u64::MAX as f64) < *frac) as u8;
            }
        }
        CORE = Box::into_raw(c);
        hot_start(env.hot);
        FILL = env.fill;
        REUSE = env.reuse;
    }
    BLOCKS.store(1 << 32, SeqCst);
    BYTES.store(1 << 40, SeqCst);
    core().state[SETUP_TASK] = 1;
    core().ctx[SETUP_TASK].task = SETUP_TASK;
    core().next = limit;
    TURN.store(SETUP_TASK as u32, SeqCst);
    ACTIVE.store(true, SeqCst);
}
/// The main thread plays the setup task.
pub fn enter_setup() {
    TID.set(SETUP_TASK as i32);
}
pub fn leave_setup(ntask: usize) {
    TID.set(-1);
    let c = core();
    c.state[SETUP_TASK] = 2;
    c.ntask = ntask;
    for t in 0..ntask {
        c.state[t] = 1;
        c.ctx[t].task = t;
    }
    TURN.store(MAIN, SeqCst);
}
/// Called by the main thread once all task threads exist: let them run.
pub fn run_tasks() {
    let c = core();
    if c.ntask == 0 {
        return;
    }
    let first = c.choose_free(usize::MAX, true);
    c.record(first, true);
    plan_next(c);
    c.cur = first;
    pass_to(first as u32);
    await_turn(MAIN);
}
pub fn finish() -> (u64, u64, Vec<(u64, u8)>) {
    ACTIVE.store(false, SeqCst);
    let c = core();
    unsafe {
        (*SHM).steps.fetch_add(c.step, SeqCst);
        FILL = Fill::None;
    }
    (c.step, c.trace_hash, std::mem::take(&mut c.trace))
}
pub fn task_begin(t: usize) {
    TID.set(t as i32);
    await_turn(t as u32);
}
pub fn task_end(t: usize) {
    INOP.set(false);
    let c = core();
    c.state[t] = 2;
    c.spins = 0;
    TID.set(-1);
    if !(0..MAXT).any(|i| c.state[i] == 1)
        && let Some(n) = (0..MAXT).find(|i| c.state[*i] == 3)
    {
        c.state[n] = 1;
        c.cur = n;
        pass_to(n as u32);
        return;
    }
    let any = (0..MAXT).any(|i| c.state[i] == 1);
    if !any {
        pass_to(MAIN);
        return;
    }
    let n = c.choose_free(t, true);
    c.record(n, true);
    c.cur = n;
    pass_to(n as u32);
}
/// Brackets one library operation of the current task.
pub fn op_begin(op: usize) {
    let t = TID.get() as usize;
    let c = core();
    c.ctx[t] = OpCtx { op, cnt: [0; NSITES], fired: 0, task: t };
    INOP.set(true);
}
pub fn op_end() -> (u32, [u32; NSITES]) {
    INOP.set(false);
    let t = TID.get() as usize;
    core().spins = 0;
    (core().ctx[t].fired, core().ctx[t].cnt)
}
/// Run harness code (transcript bookkeeping) inside an operation.
pub fn steps_now() -> u64 {
    core().step
}

impl Core {
    fn record(&mut self, t: usize, free: bool) {
        self.trace.push((self.step, t as u8 | if free { FREE } else { 0 }));
        self.trace_hash = mix(self.trace_hash, (self.last_guard as u64) << 8 | t as u64);
    }
    /// who runs next when `from` cannot (or at the start)
    fn choose_free(&mut self, from: usize, free: bool) -> usize {
        let run: Vec<usize> = (0..MAXT).filter(|i| self.state[*i] == 1 && *i != from).collect();
        if run.is_empty() {
            return from;
        }
        match &self.sched {
            Sched::Serial => run[0],
            Sched::Random { .. } | Sched::Edges { .. } => {
                let k = self.rng.below(run.len());
                run[k]
            }
            Sched::Explicit(l) => {
                while self.idx < l.len() && l[self.idx].0 < self.step {
                    self.idx += 1;
                }
                let mut i = self.idx;
                while i < l.len() && l[i].0 == self.step {
                    let t = (l[i].1 & !FREE) as usize;
                    if (l[i].1 & FREE != 0) == free && run.contains(&t) {
                        self.idx = i + 1;
                        return t;
                    }
                    i += 1;
                }
                run[0]
            }
        }
    }
}
fn plan_next(c: &mut Core) {
    c.next = match &c.sched {
        Sched::Serial => c.limit,
        Sched::Random { gap, .. } | Sched::Edges { gap, .. } => {
            let g = *gap;
            let d = 1 + (g * c.rng.expo()) as u64;
            (c.step + d).min(c.limit)
        }
        Sched::Explicit(l) => {
            let n = l[c.idx..].iter().find(|e| e.0 > c.step && e.1 & FREE == 0);
            n.map_or(c.limit, |e| e.0.min(c.limit))
        }
    };
}
#[cold]
fn preempt() {
    INOP.set(false);
    let c = core();
    if c.step >= c.limit {
        abort_run(ST_STEPLIMIT);
    }
    let me = TID.get() as usize;
    let multi = (0..MAXT).filter(|i| c.state[*i] == 1).count() > 1;
    if multi && me != SETUP_TASK {
        let n = c.choose_free(me, false);
        plan_next(c);
        if n != me {
            c.record(n, false);
            count(11);
            c.cur = n;
            pass_to(n as u32);
            await_turn(me as u32);
        }
    } else {
        plan_next(c);
    }
    INOP.set(true);
}
#[inline]
fn point() {
    let c = core();
    c.step += 1;
    c.idle = 0;
    if c.step >= c.next {
        preempt();
    }
}
/// A yield point at a seam (allocation, LAPACK, callback): preempted more often.
fn major_point(tag: u32) {
    let c = core();
    c.step += 1;
    c.idle = 0;
    c.last_guard = 0x8000_0000 | tag;
    if c.step >= c.next {
        preempt();
        return;
    }
    if let Sched::Random { major, .. } = c.sched
        && major > 0.0
        && TID.get() as usize != SETUP_TASK
        && c.rng.p(major)
    {
        preempt();
    }
}
/// The current task cannot proceed until another one acts.
fn yield_blocked() {
    INOP.set(false);
    let c = core();
    c.step += 1;
    c.spins += 1;
    c.idle += 1;
    let me = TID.get() as usize;
    let run: Vec<usize> = (0..MAXT).filter(|i| c.state[*i] == 1 && *i != me).collect();
    if c.idle > 2000 || c.spins > 400_000 {
        abort_run(ST_DEADLOCK);
    }
    if let Some(n) = run.iter().find(|i| **i > me).or(run.first()).copied() {
        c.cur = n;
        pass_to(n as u32);
        await_turn(me as u32);
    }
    if c.step >= c.limit {
        abort_run(ST_STEPLIMIT);
    }
    INOP.set(true);
}

/// The current task makes no progress until no other task can.
fn stall() {
    INOP.set(false);
    let c = core();
    let me = TID.get() as usize;
    if me != SETUP_TASK && (0..MAXT).any(|i| i != me && c.state[i] == 1) {
        c.state[me] = 3;
        let n = c.choose_free(me, true);
        c.record(n, true);
        c.cur = n;
        pass_to(n as u32);
        await_turn(me as u32);
    }
    INOP.set(true);
}

fn fault_at(site: Site) -> Option<Act> {
    let c = core();
    let t = TID.get() as usize;
    let x = &mut c.ctx[t];
    let k = x.cnt[site as usize];
    x.cnt[site as usize] += 1;
    for f in &c.faults {
        if f.task == x.task && f.op == x.op && f.site == site && k >= f.nth && (k - f.nth) < f.count
        {
            x.fired += 1;
            return Some(f.act);
        }
    }
    None
}

// -------------------------------------------------------------- coverage seam
static mut NGUARDS: u32 = 0;
const NEDGE: usize = 1 << 16;
/// 0: not chosen; otherwise one more than how often it was hit
static mut EDGE: [u8; NEDGE] = [0; NEDGE];
static mut EDGE_P: f64 = 0.;
#[cold]
fn edge_hit(e: &mut u8) {
    let n = *e;
    *e = n.saturating_add(1);
    let c = core();
    let p = unsafe { EDGE_P } / (1. + (n / 4) as f64);
    if n < 255 && TID.get() as usize != SETUP_TASK && c.step < c.next && c.rng.p(p) {
        c.next = c.step;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        let mut p = a;
        while p < b {
            if *p == 0 {
                NGUARDS += 1;
                *p = NGUARDS;
            }
            p = p.add(1);
        }
    }
}
pub fn n_guards() -> u32 {
    unsafe { NGUARDS }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !in_sim() {
        return;
    }
    unsafe {
        let id = *g;
        (*SHM).cov[(id as usize) & ((1 << 18) - 1)] = 1;
        core().last_guard = id;
        if EDGE_P > 0. {
            let e = &mut (*&raw mut EDGE)[id as usize & (NEDGE - 1)];
            if *e > 0 {
                edge_hit(e);
            }
        }
    }
    point();
}

// ------------------------------------------------------------ memory-access seam
// Where two clients can meet without a lock or a call: process-wide variables and
// heap blocks made by another client. Every load and store of the code under test
// is reported here; those that touch such memory are places to switch clients.
static mut HOT: f64 = 0.;
static mut HOT_LO: usize = 0;
static mut HOT_LEN: usize = 0;
/// client that allocated each 16-byte granule of the simulated heap, plus one
static mut OWNER: *mut u8 = std::ptr::null_mut();
unsafe extern "C" {
    static mut data_start: u8;
    static mut _end: u8;
}
fn hot_start(p: f64) {
    unsafe {
        HOT = p;
        if p > 0. && OWNER.is_null() {
            let a = raw_syscall6(9, 0, (REGION >> 4) as i64, 3, 0x22 | 0x4000, -1, 0);
            if a < 0 {
                libc::abort();
            }
            OWNER = a as *mut u8;
            HOT_LO = &raw const data_start as usize;
            HOT_LEN = &raw const _end as usize - HOT_LO;
        }
    }
}
#[inline]
unsafe fn own(p: *mut u8, size: usize) {
    unsafe {
        if HOT > 0. {
            let t = if in_sim() { TID.get() as u8 + 1 } else { 0 };
            std::ptr::write_bytes(OWNER.add((p as usize - BASE) >> 4), t, size.div_ceil(16));
        }
    }
}
#[inline]
unsafe fn mem(a: usize, store: bool) {
    unsafe {
        if HOT > 0. {
            if a.wrapping_sub(HOT_LO) < HOT_LEN {
                hot(true);
            } else if a.wrapping_sub(BASE) < REGION && BASE != 0 {
                let o = *OWNER.add((a - BASE) >> 4);
                if o != 0 && o as usize != core().cur + 1 && (store || o as usize != SETUP_TASK + 1) {
                    hot(false);
                }
            }
        }
    }
}
#[cold]
fn hot(stat: bool) {
    if !in_sim() {
        return;
    }
    count(if stat { 25 } else { 26 });
    let c = core();
    if !matches!(c.sched, Sched::Serial | Sched::Explicit(_))
        && TID.get() as usize != SETUP_TASK
        && c.step + 1 < c.next
    {
        let p = unsafe { HOT };
        // right here, or a little later: an atomic swap is not reported, its surroundings are
        if c.rng.p(p) {
            let d = c.rng.below(4);
            let d = if d < 2 { 0 } else { c.rng.below(8 * d) as u64 };
            c.next = c.next.min(c.step + 1 + d);
        }
    }
    point();
}
macro_rules! cov_mem {
    ($($l:ident $s:ident),*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $l(a: *const u8) {
            unsafe { mem(a as usize, false) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $s(a: *const u8) {
            unsafe { mem(a as usize, true) }
        }
    )*};
}
cov_mem!(
    __sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

// ---------------------------------------------------------------- link seam
#[unsafe(no_mangle)]
pub unsafe extern "C" fn glmsim_link_hook(site: u32, scale: *mut f64) -> u32 {
    if !in_sim() {
        return 0;
    }
    count(21);
    let s = match site {
        0 => Site::LinkFunc,
        1 => Site::LinkInv,
        2 => Site::LinkNat,
        _ => Site::LinkDnat,
    };
    major_point(site);
    match fault_at(s) {
        Some(Act::Nan) => {
            count(1);
            1
        }
        Some(Act::Scale(x)) => {
            count(3);
            unsafe { *scale = x };
            2
        }
        Some(Act::Panic) => {
            count(4);
            3
        }
        Some(Act::Inf) => {
            count(2);
            4
        }
        Some(Act::Stall) => {
            count(24);
            stall();
            0
        }
        _ => 0,
    }
}

// -------------------------------------------------------------- LAPACK seam
macro_rules! real {
    ($name:expr, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(SeqCst);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const _) }
                as usize;
            if p == 0 {
                unsafe { libc::abort() }
            }
            P.store(p, SeqCst);
        }
        unsafe { std::mem::transmute::<usize, $ty>(p) }
    }};
}
fn held<R>(f: impl FnOnce() -> R) -> R {
    // native code runs atomically: no points inside
    let was = INOP.replace(false);
    let r = f();
    INOP.set(was);
    r
}
fn lapack_gate() -> bool {
    if !in_sim() {
        return false;
    }
    count(22);
    major_point(10);
    if let Some(Act::Fail) = fault_at(Site::Lapack) {
        count(0);
        return true;
    }
    false
}
type CI = *const i32;
macro_rules! lapack_fac_work {
    ($name:ident, $sname:expr, $t:ty, ($($a:ident : $at:ty),*), $info:ident, $lwork:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $at),*) {
            let q = unsafe { *$lwork } == -1;
            if !q && lapack_gate() {
                unsafe { *$info = 1 };
                return;
            }
            let f = real!($sname, unsafe extern "C" fn($($at),*));
            held(|| unsafe { f($($a),*) });
            if !q && in_sim() { major_point(11); }
        }
    };
}
macro_rules! lapack_fac {
    ($name:ident, $sname:expr, ($($a:ident : $at:ty),*), $info:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $at),*) {
            if lapack_gate() {
                unsafe { *$info = 1 };
                return;
            }
            let f = real!($sname, unsafe extern "C" fn($($at),*));
            held(|| unsafe { f($($a),*) });
            if in_sim() { major_point(12); }
        }
    };
}
type PC = *const i8;
lapack_fac_work!(dsytrf_, "dsytrf_", f64, (uplo: PC, n: CI, a: *mut f64, lda: CI, ipiv: *mut i32, work: *mut f64, lwork: CI, info: *mut i32), info, lwork);
lapack_fac_work!(ssytrf_, "ssytrf_", f32, (uplo: PC, n: CI, a: *mut f32, lda: CI, ipiv: *mut i32, work: *mut f32, lwork: CI, info: *mut i32), info, lwork);
lapack_fac_work!(dgetri_, "dgetri_", f64, (n: CI, a: *mut f64, lda: CI, ipiv: CI, work: *mut f64, lwork: CI, info: *mut i32), info, lwork);
lapack_fac_work!(sgetri_, "sgetri_", f32, (n: CI, a: *mut f32, lda: CI, ipiv: CI, work: *mut f32, lwork: CI, info: *mut i32), info, lwork);
lapack_fac!(dgetrf_, "dgetrf_", (m: CI, n: CI, a: *mut f64, lda: CI, ipiv: *mut i32, info: *mut i32), info);
lapack_fac!(sgetrf_, "sgetrf_", (m: CI, n: CI, a: *mut f32, lda: CI, ipiv: *mut i32, info: *mut i32), info);
lapack_fac!(dpotrf_, "dpotrf_", (uplo: PC, n: CI, a: *mut f64, lda: CI, info: *mut i32), info);
lapack_fac!(spotrf_, "spotrf_", (uplo: PC, n: CI, a: *mut f32, lda: CI, info: *mut i32), info);
lapack_fac!(dpotri_, "dpotri_", (uplo: PC, n: CI, a: *mut f64, lda: CI, info: *mut i32), info);
lapack_fac!(spotri_, "spotri_", (uplo: PC, n: CI, a: *mut f32, lda: CI, info: *mut i32), info);
lapack_fac!(ssytri_, "ssytri_", (uplo: PC, n: CI, a: *mut f32, lda: CI, ipiv: CI, work: *mut f32, info: *mut i32), info);
lapack_fac!(sgesv_, "sgesv_", (n: CI, nrhs: CI, a: *mut f32, lda: CI, ipiv: *mut i32, b: *mut f32, ldb: CI, info: *mut i32), info);
lapack_fac!(dsytri_, "dsytri_", (uplo: PC, n: CI, a: *mut f64, lda: CI, ipiv: CI, work: *mut f64, info: *mut i32), info);
lapack_fac!(dgesv_, "dgesv_", (n: CI, nrhs: CI, a: *mut f64, lda: CI, ipiv: *mut i32, b: *mut f64, ldb: CI, info: *mut i32), info);

fn jitter(p: *mut f64, n: usize) {
    let c = core();
    c.blas_n += 1;
    let mut r = Rng::new(mix(c.env.blas_seed, c.blas_n));
    count(19);
    for i in 0..n {
        unsafe { *p.add(i) *= 1.0 + (r.f() - 0.5) * 4.0 * f64::EPSILON };
    }
}
macro_rules! lapack_solve {
    ($name:ident, $sname:expr, ($($a:ident : $at:ty),*), $n:ident, $nrhs:ident, $b:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $at),*) {
            if in_sim() { major_point(13); }
            let f = real!($sname, unsafe extern "C" fn($($at),*));
            held(|| unsafe { f($($a),*) });
            if in_sim() && core().env.blas == Blas::ReorderJitter {
                let k = unsafe { (*$n * *$nrhs) as usize };
                held(|| jitter($b, k));
            }
        }
    };
}
lapack_solve!(dsytrs_, "dsytrs_", (uplo: PC, n: CI, nrhs: CI, a: *const f64, lda: CI, ipiv: CI, b: *mut f64, ldb: CI, info: *mut i32), n, nrhs, b);
lapack_solve!(dgetrs_, "dgetrs_", (tr: PC, n: CI, nrhs: CI, a: *const f64, lda: CI, ipiv: CI, b: *mut f64, ldb: CI, info: *mut i32), n, nrhs, b);
lapack_solve!(dpotrs_, "dpotrs_", (uplo: PC, n: CI, nrhs: CI, a: *const f64, lda: CI, b: *mut f64, ldb: CI, info: *mut i32), n, nrhs, b);

macro_rules! lapack_solve32 {
    ($name:ident, $sname:expr, ($($a:ident : $at:ty),*)) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $at),*) {
            if in_sim() { major_point(13); }
            let f = real!($sname, unsafe extern "C" fn($($at),*));
            held(|| unsafe { f($($a),*) });
        }
    };
}
lapack_solve32!(ssytrs_, "ssytrs_", (uplo: PC, n: CI, nrhs: CI, a: *const f32, lda: CI, ipiv: CI, b: *mut f32, ldb: CI, info: *mut i32));
lapack_solve32!(sgetrs_, "sgetrs_", (tr: PC, n: CI, nrhs: CI, a: *const f32, lda: CI, ipiv: CI, b: *mut f32, ldb: CI, info: *mut i32));
lapack_solve32!(spotrs_, "spotrs_", (uplo: PC, n: CI, nrhs: CI, a: *const f32, lda: CI, b: *mut f32, ldb: CI, info: *mut i32));

// ---------------------------------------------------------------- BLAS seam
fn blas_gate() -> bool {
    if !in_sim() {
        return false;
    }
    count(23);
    major_point(14);
    core().env.blas != Blas::Native
}
/// A reduction evaluated in a per-call random order and blocking.
fn reduce(n: usize, order: &[u32], nacc: usize, f: impl Fn(usize) -> f64) -> f64 {
    let mut acc = [0.0f64; 8];
    for k in 0..n {
        acc[k % nacc] += f(order[k] as usize);
    }
    let mut s = 0.0;
    for a in acc.iter().take(nacc).rev() {
        s += *a;
    }
    s
}
fn new_order(n: usize) -> (Vec<u32>, usize) {
    let c = core();
    c.blas_n += 1;
    count(12);
    let mut r = Rng::new(mix(c.env.blas_seed, c.blas_n));
    let mut o: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        o.swap(i, j);
    }
    (o, 1 + r.below(8))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_ddot(n: i32, x: *const f64, ix: i32, y: *const f64, iy: i32) -> f64 {
    if blas_gate() && ix > 0 && iy > 0 {
        return held(|| {
            let (o, na) = new_order(n as usize);
            reduce(n as usize, &o, na, |k| unsafe {
                *x.offset(k as isize * ix as isize) * *y.offset(k as isize * iy as isize)
            })
        });
    }
    let f = real!("cblas_ddot", unsafe extern "C" fn(i32, *const f64, i32, *const f64, i32) -> f64);
    held(|| unsafe { f(n, x, ix, y, iy) })
}
#[allow(clippy::too_many_arguments)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_dgemv(lay: i32, tr: i32, m: i32, n: i32, alpha: f64, a: *const f64, lda: i32, x: *const f64, incx: i32, beta: f64, y: *mut f64, incy: i32) {
    if blas_gate() && incx > 0 && incy > 0 {
        held(|| unsafe {
            let trans = tr != 111;
            let (rows, cols) = if trans { (n, m) } else { (m, n) };
            let (o, na) = new_order(cols as usize);
            for i in 0..rows as usize {
                let s = reduce(cols as usize, &o, na, |k| {
                    let (r, c) = if trans { (k, i) } else { (i, k) };
                    let e = if lay == 101 { r * lda as usize + c } else { c * lda as usize + r };
                    *a.add(e) * *x.add(k * incx as usize)
                });
                let p = y.add(i * incy as usize);
                *p = if beta == 0.0 { alpha * s } else { alpha * s + beta * *p };
            }
        });
        return;
    }
    let f = real!("cblas_dgemv", unsafe extern "C" fn(i32, i32, i32, i32, f64, *const f64, i32, *const f64, i32, f64, *mut f64, i32));
    held(|| unsafe { f(lay, tr, m, n, alpha, a, lda, x, incx, beta, y, incy) })
}
#[allow(clippy::too_many_arguments)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_dgemm(lay: i32, ta: i32, tb: i32, m: i32, n: i32, k: i32, alpha: f64, a: *const f64, lda: i32, b: *const f64, ldb: i32, beta: f64, c: *mut f64, ldc: i32) {
    if blas_gate() {
        held(|| unsafe {
            let at = |p: *const f64, ld: i32, t: i32, r: usize, cc: usize| {
                let (r, cc) = if t != 111 { (cc, r) } else { (r, cc) };
                let e = if lay == 101 { r * ld as usize + cc } else { cc * ld as usize + r };
                *p.add(e)
            };
            let (o, na) = new_order(k as usize);
            for i in 0..m as usize {
                for j in 0..n as usize {
                    let s = reduce(k as usize, &o, na, |q| at(a, lda, ta, i, q) * at(b, ldb, tb, q, j));
                    let e = if lay == 101 { i * ldc as usize + j } else { j * ldc as usize + i };
                    let p = c.add(e);
                    *p = if beta == 0.0 { alpha * s } else { alpha * s + beta * *p };
                }
            }
        });
        return;
    }
    let f = real!("cblas_dgemm", unsafe extern "C" fn(i32, i32, i32, i32, i32, i32, f64, *const f64, i32, *const f64, i32, f64, *mut f64, i32));
    held(|| unsafe { f(lay, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc) })
}

/// A reduction evaluated in a per-call random order and blocking.
fn reduce32(n: usize, order: &[u32], nacc: usize, f: impl Fn(usize) -> f32) -> f32 {
    let mut acc = [0.0f32; 8];
    for k in 0..n {
        acc[k % nacc] += f(order[k] as usize);
    }
    let mut s = 0.0;
    for a in acc.iter().take(nacc).rev() {
        s += *a;
    }
    s
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_sdot(n: i32, x: *const f32, ix: i32, y: *const f32, iy: i32) -> f32 {
    if blas_gate() && ix > 0 && iy > 0 {
        return held(|| {
            let (o, na) = new_order(n as usize);
            reduce32(n as usize, &o, na, |k| unsafe {
                *x.offset(k as isize * ix as isize) * *y.offset(k as isize * iy as isize)
            })
        });
    }
    let f = real!("cblas_sdot", unsafe extern "C" fn(i32, *const f32, i32, *const f32, i32) -> f32);
    held(|| unsafe { f(n, x, ix, y, iy) })
}
#[allow(clippy::too_many_arguments)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_sgemv(lay: i32, tr: i32, m: i32, n: i32, alpha: f32, a: *const f32, lda: i32, x: *const f32, incx: i32, beta: f32, y: *mut f32, incy: i32) {
    if blas_gate() && incx > 0 && incy > 0 {
        held(|| unsafe {
            let trans = tr != 111;
            let (rows, cols) = if trans { (n, m) } else { (m, n) };
            let (o, na) = new_order(cols as usize);
            for i in 0..rows as usize {
                let s = reduce32(cols as usize, &o, na, |k| {
                    let (r, c) = if trans { (k, i) } else { (i, k) };
                    let e = if lay == 101 { r * lda as usize + c } else { c * lda as usize + r };
                    *a.add(e) * *x.add(k * incx as usize)
                });
                let p = y.add(i * incy as usize);
                *p = if beta == 0.0 { alpha * s } else { alpha * s + beta * *p };
            }
        });
        return;
    }
    let f = real!("cblas_sgemv", unsafe extern "C" fn(i32, i32, i32, i32, f32, *const f32, i32, *const f32, i32, f32, *mut f32, i32));
    held(|| unsafe { f(lay, tr, m, n, alpha, a, lda, x, incx, beta, y, incy) })
}
#[allow(clippy::too_many_arguments)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cblas_sgemm(lay: i32, ta: i32, tb: i32, m: i32, n: i32, k: i32, alpha: f32, a: *const f32, lda: i32, b: *const f32, ldb: i32, beta: f32, c: *mut f32, ldc: i32) {
    if blas_gate() {
        held(|| unsafe {
            let at = |p: *const f32, ld: i32, t: i32, r: usize, cc: usize| {
                let (r, cc) = if t != 111 { (cc, r) } else { (r, cc) };
                let e = if lay == 101 { r * ld as usize + cc } else { cc * ld as usize + r };
                *p.add(e)
            };
            let (o, na) = new_order(k as usize);
            for i in 0..m as usize {
                for j in 0..n as usize {
                    let s = reduce32(k as usize, &o, na, |q| at(a, lda, ta, i, q) * at(b, ldb, tb, q, j));
                    let e = if lay == 101 { i * ldc as usize + j } else { j * ldc as usize + i };
                    let p = c.add(e);
                    *p = if beta == 0.0 { alpha * s } else { alpha * s + beta * *p };
                }
            }
        });
        return;
    }
    let f = real!("cblas_sgemm", unsafe extern "C" fn(i32, i32, i32, i32, i32, i32, f32, *const f32, i32, *const f32, i32, f32, *mut f32, i32));
    held(|| unsafe { f(lay, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc) })
}

// ------------------------------------------------------------------ libc seam
unsafe fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn sim_stderr(total: usize) -> isize {
    major_point(15);
    match fault_at(Site::Stderr) {
        Some(Act::Errno(e)) => {
            count(match e {
                libc::EPIPE => 5,
                libc::ENOSPC => 6,
                libc::EIO => 7,
                libc::EAGAIN => 8,
                _ => 9,
            });
            unsafe { set_errno(e) };
            -1
        }
        Some(Act::Short) => {
            count(10);
            (total / 2).max(1).min(total) as isize
        }
        _ => {
            count(20);
            total as isize
        }
    }
}
#[unsafe(no_mangle)]
#[allow(suspicious_runtime_symbol_definitions)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if in_sim() && (fd == 1 || fd == 2) {
        return sim_stderr(n);
    }
    let r = raw_syscall6(1, fd as i64, buf as i64, n as i64, 0, 0, 0);
    if r < 0 {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    r as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if in_sim() && (fd == 1 || fd == 2) {
        let t: usize = (0..n as usize).map(|i| unsafe { (*iov.add(i)).iov_len }).sum();
        return sim_stderr(t);
    }
    let r = raw_syscall6(20, fd as i64, iov as i64, n as i64, 0, 0, 0);
    if r < 0 {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    r as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && in_sim() {
        let op = b & 127;
        if op == 0 || op == 9 {
            count(17);
            let v = unsafe { (*(a as *const AtomicU32)).load(SeqCst) };
            if v != c as u32 {
                unsafe { set_errno(libc::EAGAIN) };
                return -1;
            }
            yield_blocked();
            if d != 0 {
                core().clock_add += 1_000_000_000;
                unsafe { set_errno(libc::ETIMEDOUT) };
                return -1;
            }
            return 0;
        }
        core().spins = 0;
        return 0;
    }
    let r = raw_syscall6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    r
}
fn sim_now() -> i64 {
    let c = core();
    let t = c.env.clock_base as i64 + c.clock_add;
    let t = match c.env.clock {
        0 => t + c.step as i64 * 100,
        1 => t,
        2 => {
            c.clock_add += 3_600_000_000_000;
            t
        }
        _ => {
            c.clock_add -= 7_000_000;
            t
        }
    };
    unsafe { (*SHM).simtime.fetch_add(100, SeqCst) };
    t.max(0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        count(15);
        let t = sim_now();
        unsafe {
            (*ts).tv_sec = t / 1_000_000_000;
            (*ts).tv_nsec = t % 1_000_000_000;
        }
        return 0;
    }
    let r = raw_syscall6(228, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    0
}
fn sim_sleep(ns: i64) -> i32 {
    core().clock_add += ns;
    yield_once();
    0
}
fn yield_once() {
    core().next = core().step;
    point();
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        return sim_sleep(unsafe { (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec });
    }
    let r = raw_syscall6(35, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        return sim_sleep(unsafe { (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec });
    }
    -raw_syscall6(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        yield_blocked();
        return 0;
    }
    raw_syscall6(24, 0, 0, 0, 0, 0, 0) as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    if ACTIVE.load(SeqCst) && TID.get() >= 0 {
        count(16);
        let c = core();
        for i in 0..n {
            unsafe { *buf.add(i) = c.ent.u64() as u8 };
        }
        return n as isize;
    }
    let r = raw_syscall6(318, buf as i64, n as i64, fl as i64, 0, 0, 0);
    if r < 0 {
        unsafe { set_errno(-r as i32) };
        return -1;
    }
    r as isize
}

// -------------------------------------------------- threads made by the library
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Boot {
    f: Start,
    arg: usize,
    t: usize,
}
extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    let (f, arg, t) = (b.f, b.arg, b.t);
    drop(b);
    task_begin(t);
    INOP.set(true);
    let r = f(arg as *mut _);
    task_end(t);
    r
}
type PthreadCreate = unsafe extern "C" fn(*mut u64, *const libc::c_void, Start, *mut libc::c_void) -> i32;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(th: *mut u64, attr: *const libc::c_void, f: Start, arg: *mut libc::c_void) -> i32 {
    let rf = real!("pthread_create", PthreadCreate);
    if !in_sim() {
        return unsafe { rf(th, attr, f, arg) };
    }
    count(18);
    let was = INOP.replace(false);
    let c = core();
    let me = TID.get() as usize;
    let Some(t) = (SETUP_TASK + 1..MAXT).chain(8..SETUP_TASK).find(|i| c.state[*i] == 0 || (c.state[*i] == 2)) else {
        INOP.set(was);
        return libc::EAGAIN;
    };
    c.state[t] = 1;
    c.ctx[t] = c.ctx[me];
    let b = Box::into_raw(Box::new(Boot { f, arg: arg as usize, t }));
    let r = unsafe { rf(th, attr, boot, b as *mut _) };
    if r == 0 {
        c.pthreads[t] = unsafe { *th };
    } else {
        c.state[t] = 2;
    }
    INOP.set(was);
    major_point(16);
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(th: u64, ret: *mut *mut libc::c_void) -> i32 {
    let rf = real!("pthread_join", unsafe extern "C" fn(u64, *mut *mut libc::c_void) -> i32);
    if in_sim() {
        loop {
            let c = core();
            let alive = (0..MAXT).any(|i| c.pthreads[i] == th && c.state[i] == 1);
            if !alive {
                break;
            }
            yield_blocked();
        }
        return held(|| unsafe { rf(th, ret) });
    }
    unsafe { rf(th, ret) }
}

// -------------------------------------------------------------- allocator seam
pub struct SimAlloc;
const NCLS: usize = 64 + 18;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut BASE: usize = 0;
static mut BUMP: usize = 0;
static mut HEAD: [usize; NCLS] = [0; NCLS];
static mut TAIL: [usize; NCLS] = [0; NCLS];
static mut FILL: Fill = Fill::None;
static mut REUSE: Reuse = Reuse::Lifo;
static mut FSEED: u64 = 1;
const REGION: usize = 1 << 35;
const WANT: usize = 0x2000_0000_0000;

fn cls(size: usize) -> Option<(usize, usize)> {
    if size <= 1024 {
        let c = size.max(1).div_ceil(16);
        return Some((c - 1, c * 16));
    }
    let s = size.next_power_of_two();
    let k = s.trailing_zeros() as usize - 11;
    if k >= 18 { None } else { Some((64 + k, s)) }
}
struct Lk;
impl Lk {
    fn new() -> Lk {
        while LOCK.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        Lk
    }
}
impl Drop for Lk {
    fn drop(&mut self) {
        LOCK.store(false, SeqCst);
    }
}
static BLOCKS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
/// blocks and bytes allocated since the start and not yet freed (may be
/// negative by what was there before)
pub fn live() -> (u64, u64) {
    (BLOCKS.load(SeqCst).wrapping_sub(1 << 32), BYTES.load(SeqCst).wrapping_sub(1 << 40))
}
unsafe fn raw_alloc(size: usize) -> *mut u8 {
    unsafe {
        BLOCKS.fetch_add(1, SeqCst);
        BYTES.fetch_add(size as u64, SeqCst);
        let (k, s) = match cls(size) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        let _l = Lk::new();
        if BASE == 0 {
            let p = raw_syscall6(9, WANT as i64, REGION as i64, 3, 0x22 | 0x4000 | 0x100000, -1, 0);
            if p < 0 {
                libc::abort();
            }
            BASE = p as usize;
            BUMP = BASE;
        }
        if HEAD[k] != 0 && (REUSE != Reuse::Never || BUMP - BASE > (2 << 30)) {
            let p = HEAD[k];
            HEAD[k] = *(p as *const usize);
            if HEAD[k] == 0 {
                TAIL[k] = 0;
            }
            return p as *mut u8;
        }
        let p = BUMP;
        BUMP += s;
        if BUMP > BASE + REGION {
            libc::abort();
        }
        p as *mut u8
    }
}
unsafe fn raw_free(p: *mut u8, size: usize) {
    unsafe {
        BLOCKS.fetch_sub(1, SeqCst);
        BYTES.fetch_sub(size as u64, SeqCst);
        let (k, _) = cls(size).unwrap();
        let _l = Lk::new();
        let a = p as usize;
        if REUSE == Reuse::Fifo {
            *(a as *mut usize) = 0;
            if TAIL[k] != 0 {
                *(TAIL[k] as *mut usize) = a;
            } else {
                HEAD[k] = a;
            }
            TAIL[k] = a;
        } else {
            *(a as *mut usize) = HEAD[k];
            if HEAD[k] == 0 {
                TAIL[k] = a;
            }
            HEAD[k] = a;
        }
    }
}
unsafe fn fill(p: *mut u8, n: usize) {
    unsafe {
        match FILL {
            Fill::None => {}
            Fill::Zero => std::ptr::write_bytes(p, 0, n),
            Fill::Ones => std::ptr::write_bytes(p, 0xff, n),
            Fill::Nan | Fill::Big => {
                let v = if FILL == Fill::Nan { f64::NAN } else { 1.2345e3 };
                for i in 0..n / 8 {
                    (p as *mut f64).add(i).write_unaligned(v);
                }
            }
            Fill::Rand => {
                for i in 0..n / 8 {
                    FSEED = FSEED.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let v = ((FSEED >> 33) as f64) / 1e8 - 10.0;
                    (p as *mut f64).add(i).write_unaligned(v);
                }
            }
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if l.align() > 16 || cls(l.size()).is_none() {
                return System.alloc(l);
            }
            let sim = in_sim();
            if sim {
                major_point(20);
            }
            let p = raw_alloc(l.size());
            own(p, l.size());
            if sim && FILL != Fill::None {
                count(13);
                fill(p, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if l.align() > 16 || cls(l.size()).is_none() {
                return System.dealloc(p, l);
            }
            if in_sim() {
                count(14);
                if FILL != Fill::None {
                    fill(p, l.size());
                }
                raw_free(p, l.size());
                point();
                return;
            }
            raw_free(p, l.size())
        }
    }
}

/// Let the BLAS initialise itself before the first simulated process is forked.
pub fn warm_up() {
    let a = [2.0f64, 0., 0., 2.];
    let mut c = [0.0f64; 4];
    unsafe {
        cblas_dgemm(102, 111, 111, 2, 2, 2, 1., a.as_ptr(), 2, a.as_ptr(), 2, 0., c.as_mut_ptr(), 2);
        cblas_dgemv(102, 111, 2, 2, 1., a.as_ptr(), 2, a.as_ptr(), 1, 0., c.as_mut_ptr(), 1);
        assert_eq!(cblas_ddot(2, a.as_ptr(), 1, a.as_ptr(), 1), 4.);
    }
}
/// Fixed address space and a single BLAS thread: re-executes once if needed.
pub fn settle() {
    if std::env::var("GLMSIM_SETTLED").is_ok() {
        return;
    }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong);
    }
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new("/proc/self/exe")
        .args(std::env::args_os().skip(1))
        .env("GLMSIM_SETTLED", "1")
        .env("OPENBLAS_NUM_THREADS", "1")
        .env("OPENBLAS_CORETYPE", std::env::var("OPENBLAS_CORETYPE").unwrap_or_else(|_| {
            let h = std::arch::is_x86_feature_detected!("avx2") && std::arch::is_x86_feature_detected!("fma");
            if h { "Haswell" } else { "Nehalem" }.into()
        }))
        .env("RUST_BACKTRACE", "0")
        .exec();
    eprintln!("cannot re-execute: {e}");
    std::process::exit(2);
}
