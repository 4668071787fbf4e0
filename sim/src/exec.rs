//! Runs one scenario in a fresh (forked) process under the simulator core.
use crate::core::{self, *};
use crate::scen::*;
use glmdrv::{Data, DynFit, DynModel, ErrOut, FOpts, FitMeta, Q, QOut};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    StepLimit,
    Deadlock,
    Crash(i32),
    Timeout,
    Harness(String),
}
#[derive(Clone, Debug)]
pub struct Exec {
    pub status: Status,
    pub recs: Vec<Rec>,
    pub steps: u64,
    pub hash: u64,
    pub trace: Vec<(u64, u8)>,
}
impl Exec {
    pub fn get(&self, task: usize, op: usize) -> Option<&Rec> {
        self.recs.iter().find(|r| r.task == task && r.op == op)
    }
    pub fn task(&self, t: usize) -> Vec<&Rec> {
        self.recs.iter().filter(|r| r.task == t).collect()
    }
    /// digest of everything observable
    pub fn digest(&self) -> u64 {
        let mut e = Enc(vec![]);
        for r in &self.recs {
            enc_rec(&mut e, r);
        }
        e.u(self.steps);
        e.u(self.hash);
        let mut h = 0xcbf29ce484222325u64;
        for b in e.0 {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        crate::rng::mix(h, matches!(self.status, Status::Ok) as u64)
    }
}

// ------------------------------------------------------------ serialisation
struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn f(&mut self, v: f64) {
        self.u(v.to_bits());
    }
    fn fs(&mut self, v: &[f64]) {
        self.u(v.len() as u64);
        for x in v {
            self.f(*x);
        }
    }
    fn s(&mut self, v: &str) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v.as_bytes());
    }
    fn hist(&mut self, h: &[(Vec<f64>, f64)]) {
        self.u(h.len() as u64);
        for (g, l) in h {
            self.fs(g);
            self.f(*l);
        }
    }
    fn err(&mut self, e: &ErrOut) {
        self.s(&e.kind);
        self.s(&e.msg);
        self.u(e.n_iter.map_or(0, |v| v as u64 + 1));
        self.hist(&e.hist);
    }
    fn meta(&mut self, m: &FitMeta) {
        self.fs(&m.result);
        self.f(m.like);
        self.u(m.n_iter as u64);
        self.hist(&m.hist);
        self.fs(&m.opts);
        self.ofs(&m.init);
    }
    fn ofs(&mut self, v: &Option<Vec<f64>>) {
        match v {
            None => self.u(0),
            Some(v) => {
                self.u(1);
                self.fs(v)
            }
        }
    }
}
struct Dec<'a>(&'a [u8], usize);
impl Dec<'_> {
    fn u(&mut self) -> Option<u64> {
        let b = self.0.get(self.1..self.1 + 8)?;
        self.1 += 8;
        Some(u64::from_le_bytes(b.try_into().unwrap()))
    }
    fn f(&mut self) -> Option<f64> {
        self.u().map(f64::from_bits)
    }
    fn fs(&mut self) -> Option<Vec<f64>> {
        let n = self.u()?;
        (0..n).map(|_| self.f()).collect()
    }
    fn s(&mut self) -> Option<String> {
        let n = self.u()? as usize;
        let b = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(String::from_utf8_lossy(b).into_owned())
    }
    fn hist(&mut self) -> Option<Vec<(Vec<f64>, f64)>> {
        let n = self.u()?;
        (0..n).map(|_| Some((self.fs()?, self.f()?))).collect()
    }
    fn err(&mut self) -> Option<ErrOut> {
        Some(ErrOut {
            kind: self.s()?,
            msg: self.s()?,
            n_iter: self.u()?.checked_sub(1).map(|v| v as usize),
            hist: self.hist()?,
        })
    }
    fn meta(&mut self) -> Option<FitMeta> {
        Some(FitMeta {
            result: self.fs()?,
            like: self.f()?,
            n_iter: self.u()? as usize,
            hist: self.hist()?,
            opts: self.fs()?,
            init: self.ofs()?,
        })
    }
    fn ofs(&mut self) -> Option<Option<Vec<f64>>> {
        Some(if self.u()? == 0 { None } else { Some(self.fs()?) })
    }
}
fn enc_rec(e: &mut Enc, r: &Rec) {
    e.u(r.task as u64);
    e.u(r.op as u64);
    e.u(r.fired as u64);
    for c in r.cnt {
        e.u(c as u64);
    }
    e.u(r.start);
    e.u(r.end);
    e.ofs(&r.init);
    match &r.out {
        Out::Unit => e.u(0),
        Out::Built => e.u(1),
        Out::BuildErr(x) => {
            e.u(2);
            e.err(x)
        }
        Out::Fit(m) => {
            e.u(3);
            e.meta(m)
        }
        Out::FitErr(x) => {
            e.u(4);
            e.err(x)
        }
        Out::Q(QOut::Vals { r, c, v }) => {
            e.u(5);
            e.u(*r as u64);
            e.u(*c as u64);
            e.fs(v)
        }
        Out::Q(QOut::Meta(m)) => {
            e.u(6);
            e.meta(m)
        }
        Out::Q(QOut::Err(x)) => {
            e.u(7);
            e.err(x)
        }
        Out::Q(QOut::NotAvail) => e.u(8),
        Out::Panic(m) => {
            e.u(9);
            e.s(m)
        }
        Out::Skipped => e.u(10),
    }
}
fn dec_rec(d: &mut Dec) -> Option<Rec> {
    let (task, op, fired) = (d.u()?, d.u()?, d.u()?);
    let mut cnt = [0; NSITES];
    for c in cnt.iter_mut() {
        *c = d.u()? as u32;
    }
    let (start, end) = (d.u()?, d.u()?);
    let init = d.ofs()?;
    let out = match d.u()? {
        0 => Out::Unit,
        1 => Out::Built,
        2 => Out::BuildErr(d.err()?),
        3 => Out::Fit(d.meta()?),
        4 => Out::FitErr(d.err()?),
        5 => {
            let (r, c) = (d.u()? as usize, d.u()? as usize);
            Out::Q(QOut::Vals { r, c, v: d.fs()? })
        }
        6 => Out::Q(QOut::Meta(d.meta()?)),
        7 => Out::Q(QOut::Err(d.err()?)),
        8 => Out::Q(QOut::NotAvail),
        9 => Out::Panic(d.s()?),
        10 => Out::Skipped,
        _ => return None,
    };
    Some(Rec { task: task as usize, op: op as usize, fired: fired as u32, cnt, start, end, out, init })
}

// --------------------------------------------------------------- client side
enum FSlot {
    Empty,
    Fit(Box<dyn DynFit>, FitMeta, MRef),
    Err(ErrOut),
}
type MSlot = Option<(Box<dyn DynModel>, usize)>;
struct Client {
    t: usize,
    scen: &'static Scenario,
    shared: *const Vec<MSlot>,
    own: Vec<MSlot>,
    fits: Vec<FSlot>,
    recs: Vec<Rec>,
}
fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
type Called<T> = (Result<T, String>, Seen, u64, u64);
type Seen = (u32, [u32; NSITES]);
const NONE: Seen = (0, [0; NSITES]);
/// One library call, bracketed: simulated inside, plain outside.
fn call<T>(op: usize, f: impl FnOnce() -> T) -> Called<T> {
    core::op_begin(op);
    let a = core::steps_now();
    let r = catch_unwind(AssertUnwindSafe(f));
    let fired = core::op_end();
    let b = core::steps_now();
    (r.map_err(payload), fired, a, b)
}
impl Client {
    fn new(t: usize, scen: &'static Scenario, shared: *const Vec<MSlot>) -> Client {
        Client {
            t,
            scen,
            shared,
            own: (0..NSLOT).map(|_| None).collect(),
            fits: (0..NSLOT).map(|_| FSlot::Empty).collect(),
            recs: Vec::with_capacity(256),
        }
    }
    fn model(&self, m: MRef) -> Option<&'static (Box<dyn DynModel>, usize)> {
        let r = match m {
            MRef::Shared(i) => unsafe { (&*self.shared).get(i)? },
            MRef::Own(i) => self.own.get(i)?,
        };
        // fits are dropped before the model they borrow
        unsafe { std::mem::transmute(r.as_ref()) }
    }
    fn init(&self, i: &Init) -> Result<Option<Vec<f64>>, ()> {
        match i {
            Init::None => Ok(None),
            Init::Abs(v) => Ok(Some(v.clone())),
            Init::FromFit { slot, mag, seed } => match &self.fits[*slot] {
                FSlot::Fit(_, m, _) => Ok(Some(perturb(&m.result, *seed, *mag))),
                _ => Err(()),
            },
            Init::FromHist { slot, frac } => {
                let h = match &self.fits[*slot] {
                    FSlot::Fit(_, m, _) => &m.hist,
                    FSlot::Err(e) => &e.hist,
                    FSlot::Empty => return Err(()),
                };
                if h.is_empty() {
                    return Err(());
                }
                let k = ((h.len() - 1) as f64 * frac).round() as usize;
                Ok(Some(h[k.min(h.len() - 1)].0.clone()))
            }
        }
    }
    fn drop_fit(&mut self, slot: usize, op: usize) -> Called<()> {
        let s = std::mem::replace(&mut self.fits[slot], FSlot::Empty);
        match s {
            FSlot::Fit(f, m, _) => {
                let r = call(op, || drop(f));
                drop(m);
                r
            }
            _ => (Ok(()), NONE, 0, 0),
        }
    }
    fn drop_model(&mut self, slot: usize, op: usize) -> Called<()> {
        for i in 0..NSLOT {
            if let FSlot::Fit(_, _, m) = &self.fits[i]
                && *m == MRef::Own(slot)
            {
                let _ = self.drop_fit(i, op);
            }
        }
        match self.own[slot].take() {
            Some((m, _)) => call(op, || drop(m)),
            None => (Ok(()), NONE, 0, 0),
        }
    }
    fn run(&mut self, op: usize, o: &'static Op) {
        let mut init = None;
        let (out, (fired, cnt), start, end) = match o {
            Op::Build { ds, slot } => {
                let _ = self.drop_model(*slot, op);
                let d: &Data = &unmark_data(&self.scen.data[*ds]);
                let (r, f, a, b) = call(op, || glmdrv::build(d));
                let out = match r {
                    Ok(Ok(m)) => {
                        self.own[*slot] = Some((m, *ds));
                        Out::Built
                    }
                    Ok(Err(e)) => Out::BuildErr(e),
                    Err(p) => Out::Panic(p),
                };
                (out, f, a, b)
            }
            Op::DropModel { slot } => {
                let (r, f, a, b) = self.drop_model(*slot, op);
                (r.map_or_else(Out::Panic, |_| Out::Unit), f, a, b)
            }
            Op::DropFit { slot } => {
                let (r, f, a, b) = self.drop_fit(*slot, op);
                (r.map_or_else(Out::Panic, |_| Out::Unit), f, a, b)
            }
            Op::Weigh => {
                self.epilogue(op);
                for f in self.fits.iter_mut() {
                    *f = FSlot::Empty;
                }
                // the answers weigh something too
                for r in self.recs.iter_mut() {
                    r.out = Out::Unit;
                    r.init = None;
                }
                let (blocks, bytes) = core::live();
                (Out::Unit, NONE, blocks, bytes)
            }
            Op::Fit { model, o, slot } => {
                let ini = self.init(&o.init);
                let _ = self.drop_fit(*slot, op);
                match (self.model(*model), ini) {
                    (Some((m, ds)), Ok(ini)) => {
                        init = ini.clone();
                        let d = &self.scen.data[*ds];
                        let fo = FOpts {
                            max_iter: o.max_iter,
                            tol: o.tol.map(unmark),
                            l1: unmark(o.l1),
                            l2: unmark(o.l2),
                            init: ini.map(|v| v.into_iter().map(unmark).collect()),
                            layout: d.vlayout.unwrap_or(d.layout),
                        };
                        let (r, f, a, b) = call(op, || m.fit(&fo));
                        let out = match r {
                            Ok(Ok(f)) => {
                                let meta = f.meta();
                                self.fits[*slot] = FSlot::Fit(f, meta.clone(), *model);
                                Out::Fit(meta)
                            }
                            Ok(Err(e)) => {
                                self.fits[*slot] = FSlot::Err(e.clone());
                                Out::FitErr(e)
                            }
                            Err(p) => Out::Panic(p),
                        };
                        (out, f, a, b)
                    }
                    _ => (Out::Skipped, NONE, 0, 0),
                }
            }
            Op::Query { slot, q, a } => match &self.fits[*slot] {
                // hundreds of L1 refits would take longer than the rest of the batch
                FSlot::Fit(_, meta, m)
                    if *q == Q::LooExact && meta.opts[2] > 0. && self.scen.data[self.model(*m).unwrap().1].n > 48 =>
                {
                    (Out::Q(QOut::NotAvail), NONE, 0, 0)
                }
                FSlot::Fit(f, meta, m) => {
                    let ds = self.model(*m).unwrap().1;
                    let arg = resolve_arg(a, *q, &meta.result, &self.scen.data[ds]);
                    let (r, f, a, b) = call(op, || f.query(*q, &arg));
                    (r.map_or_else(Out::Panic, Out::Q), f, a, b)
                }
                _ => (Out::Skipped, NONE, 0, 0),
            },
        };
        self.recs.push(Rec { task: self.t, op, out, fired, cnt, start, end, init });
    }
    fn epilogue(&mut self, n: usize) {
        for i in 0..NSLOT {
            let _ = self.drop_fit(i, n);
        }
        for i in 0..NSLOT {
            let _ = self.drop_model(i, n);
        }
    }
}
struct TaskArg {
    t: usize,
    scen: &'static Scenario,
    shared: *const Vec<MSlot>,
    out: *mut Vec<Rec>,
    ready: std::sync::atomic::AtomicU32,
}
extern "C" fn task_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let a: &TaskArg = unsafe { &*(p as *const TaskArg) };
    a.ready.store(1, SeqCst);
    core::wake(&a.ready);
    core::task_begin(a.t);
    let mut c = Client::new(a.t, a.scen, a.shared);
    for (i, o) in a.scen.tasks[a.t].iter().enumerate() {
        c.run(i, o);
    }
    c.epilogue(a.scen.tasks[a.t].len());
    unsafe { *a.out = std::mem::take(&mut c.recs) };
    core::task_end(a.t);
    // never exit: thread teardown is outside the simulation
    loop {
        unsafe { libc::pause() };
    }
}

pub const STEP_LIMIT: u64 = 400_000_000;

fn child(s: &'static Scenario, fd: i32, limit: u64) -> ! {
    // hangs outside instrumented code: by processor time, as the machine may be busy
    unsafe {
        let t = libc::timeval { tv_sec: 100, tv_usec: 0 };
        let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
        libc::setitimer(libc::ITIMER_PROF, &libc::itimerval { it_interval: z, it_value: t }, std::ptr::null_mut());
        libc::alarm(350);
    }
    core::start(&s.faults, &s.sched, &s.env, limit);
    core::enter_setup();
    let empty: Vec<MSlot> = vec![];
    let mut c = Client::new(SETUP_TASK, s, &empty);
    for (i, o) in s.setup.iter().enumerate() {
        c.run(i, o);
    }
    let mut recs = std::mem::take(&mut c.recs);
    let n = s.tasks.len();
    core::leave_setup(n);
    let mut outs: Vec<Vec<Rec>> = (0..n).map(|_| vec![]).collect();
    let shared: *const Vec<MSlot> = &c.own;
    let mut args: Vec<TaskArg> = vec![];
    for (t, o) in outs.iter_mut().enumerate() {
        args.push(TaskArg { t, scen: s, shared, out: o, ready: Default::default() });
    }
    for a in &args {
        unsafe {
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 4 << 20);
            let mut th: u64 = 0;
            let r = core::pthread_create(
                &mut th,
                &attr as *const _ as *const _,
                task_main,
                a as *const TaskArg as *mut _,
            );
            if r != 0 {
                libc::_exit(9);
            }
        }
        while a.ready.load(SeqCst) == 0 {
            core::wait(&a.ready, 0);
        }
    }
    core::run_tasks();
    let (steps, hash, trace) = core::finish();
    for o in outs {
        recs.extend(o);
    }
    let mut e = Enc(Vec::with_capacity(1 << 16));
    e.u(steps);
    e.u(hash);
    e.u(trace.len() as u64);
    for (a, b) in &trace {
        e.u(*a);
        e.u(*b as u64);
    }
    e.u(recs.len() as u64);
    for r in &recs {
        enc_rec(&mut e, r);
    }
    let mut k = 0;
    while k < e.0.len() {
        let r = unsafe { core::write(fd, e.0.as_ptr().add(k), e.0.len() - k) };
        if r <= 0 {
            unsafe { libc::_exit(8) };
        }
        k += r as usize;
    }
    core::set_status(ST_OK);
    unsafe { libc::_exit(0) }
}

/// Simulate one execution in a forked process.
pub fn execute(s: &Scenario) -> Exec {
    execute_lim(s, STEP_LIMIT)
}
pub fn execute_lim(s: &Scenario, limit: u64) -> Exec {
    let fail = |m: &str| Exec {
        status: Status::Harness(m.into()),
        recs: vec![],
        steps: 0,
        hash: 0,
        trace: vec![],
    };
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return fail("pipe");
        }
        core::set_status(ST_RUNNING);
        let pid = libc::fork();
        if pid < 0 {
            libc::close(p[0]);
            libc::close(p[1]);
            return fail("fork");
        }
        if pid == 0 {
            libc::close(p[0]);
            let st: &'static Scenario = std::mem::transmute(s);
            child(st, p[1], limit);
        }
        libc::close(p[1]);
        let mut buf: Vec<u8> = vec![];
        let mut tmp = [0u8; 65536];
        loop {
            let r = libc::read(p[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if r < 0 {
                continue;
            }
            if r == 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..r as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let status = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGALRM | libc::SIGPROF => Status::Timeout,
                k => Status::Crash(k),
            }
        } else {
            match (core::status(), libc::WEXITSTATUS(st)) {
                (ST_OK, 0) => Status::Ok,
                (ST_STEPLIMIT, _) => Status::StepLimit,
                (ST_DEADLOCK, _) => Status::Deadlock,
                (_, c) => Status::Harness(format!("simulated process exited {c}")),
            }
        };
        let mut ex = Exec { status, recs: vec![], steps: 0, hash: 0, trace: vec![] };
        if ex.status != Status::Ok {
            return ex;
        }
        let mut d = Dec(&buf, 0);
        let ok = (|| {
            ex.steps = d.u()?;
            ex.hash = d.u()?;
            let n = d.u()?;
            for _ in 0..n {
                let a = d.u()?;
                let b = d.u()?;
                ex.trace.push((a, b as u8));
            }
            let n = d.u()?;
            for _ in 0..n {
                ex.recs.push(dec_rec(&mut d)?);
            }
            Some(())
        })();
        if ok.is_none() {
            ex.status = Status::Harness("truncated transcript".into());
        }
        ex
    }
}
#[allow(dead_code)]
pub fn q_is_result(q: Q) -> bool {
    !matches!(
        q,
        Q::NullLike | Q::ScoreTest | Q::LrTest | Q::WaldTest | Q::RSq | Q::PLr | Q::Predict | Q::Fisher | Q::Score
    )
}
