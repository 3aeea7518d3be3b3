//! Compositions of systems (spec/Systems.tla).
use crate::graph::Sut;
use crate::json::J;
use goggles::resources::{ResourceConflict, RwResources};
use goggles::system::{parallelize, Error, Par, ParList, Pool, Seq, SeqList, SeqPool, System};
use goggles::RayonPool;
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const VARIANTS: &[&str] = &["boxed"];
pub const PLIZE: &[&str] = &["plain", "in a box"];

#[derive(Debug)]
pub struct Errs(pub Vec<i64>);
impl Error for Errs {
    fn combine(mut self, other: Self) -> Self {
        self.0.extend(other.0);
        self
    }
}

/// What a run hands to every system.
#[derive(Clone, Copy, PartialEq)]
pub struct Args {
    a: u64,
    b: u32,
}

type Res = RwResources<u32>;
pub type Path = Vec<(u64, u8)>;
thread_local! {
    /// the sides of the joins around what runs here
    static PATH: RefCell<Path> = const { RefCell::new(Vec::new()) };
}
struct Restore(Path);
impl Drop for Restore {
    fn drop(&mut self) {
        PATH.with(|p| *p.borrow_mut() = std::mem::take(&mut self.0));
    }
}
fn within<T>(path: Path, f: impl FnOnce() -> T) -> T {
    let _r = Restore(PATH.with(|p| std::mem::replace(&mut *p.borrow_mut(), path)));
    f()
}

pub enum P {
    Seq,
    Rev,
    Threads,
    Rayon,
    /// one side after the other, either first
    Mixed,
}
static JOINS: AtomicU64 = AtomicU64::new(0);
impl Pool for P {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let id = JOINS.fetch_add(1, Ordering::Relaxed);
        let here = PATH.with(|p| p.borrow().clone());
        let side = |s: u8| {
            let mut p = here.clone();
            p.push((id, s));
            p
        };
        let (pa, pb) = (side(0), side(1));
        let a = move || within(pa, a);
        let b = move || within(pb, b);
        match self {
            P::Seq => SeqPool.join(a, b),
            P::Rev => {
                let rb = b();
                let ra = a();
                (ra, rb)
            }
            P::Threads => std::thread::scope(|s| {
                let h = s.spawn(b);
                let ra = catch_unwind(AssertUnwindSafe(a));
                let rb = h.join();
                match (ra, rb) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(p), _) | (_, Err(p)) => resume_unwind(p),
                }
            }),
            P::Rayon => RayonPool.join(a, b),
            P::Mixed => {
                if id.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 0 {
                    SeqPool.join(a, b)
                } else {
                    let rb = b();
                    let ra = a();
                    (ra, rb)
                }
            }
        }
    }
}

#[derive(Default)]
pub struct Log {
    clock: AtomicU64,
    /// (system, arguments as expected, start, end, path)
    pub ran: Mutex<Vec<(i64, bool, u64, u64, Path)>>,
}

#[derive(Clone, Default)]
pub struct Plan {
    args: Option<Args>,
    pub fail: Vec<i64>,
    pub panic: i64,
    jitter: bool,
}

/// A system of the user's.
pub struct Leaf {
    n: i64,
    bad: bool,
    res: Res,
    plan: Arc<Mutex<Plan>>,
    log: Arc<Mutex<Arc<Log>>>,
    runs: u64,
}
impl System<Args> for Leaf {
    type Resources = Res;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<Res, ResourceConflict> {
        if self.bad {
            Err(ResourceConflict::conflict_in::<Leaf>())
        } else {
            Ok(self.res.clone())
        }
    }
    fn run(&mut self, _: &P, args: Args) -> Result<(), Errs> {
        let plan = self.plan.lock().unwrap().clone();
        let log = self.log.lock().unwrap().clone();
        let start = log.clock.fetch_add(1, Ordering::SeqCst);
        self.runs += 1;
        if plan.jitter {
            match (self.n as u64 * 7 + self.runs * 3 + args.a) % 5 {
                0 | 1 => {}
                k => (0..k).for_each(|_| std::thread::yield_now()),
            }
        }
        let end = log.clock.fetch_add(1, Ordering::SeqCst);
        let path = PATH.with(|p| p.borrow().clone());
        log.ran.lock().unwrap().push((self.n, plan.args == Some(args), start, end, path));
        if plan.panic == self.n {
            panic_any(format!("system {}", self.n));
        }
        if plan.fail.contains(&self.n) {
            Err(Errs(vec![self.n]))
        } else {
            Ok(())
        }
    }
}

type Dyn = Box<dyn System<Args, Resources = Res, Pool = P, Error = Errs> + Send>;

pub struct S {
    plize: bool,
    boxed: bool,
    sys: Option<Dyn>,
    leaves: usize,
    plan: Arc<Mutex<Plan>>,
    log: Arc<Mutex<Arc<Log>>>,
    runs: u64,
}
pub fn make(v: &str) -> S {
    S {
        plize: v != "boxed",
        boxed: v == "in a box",
        sys: None,
        leaves: 0,
        plan: Default::default(),
        log: Default::default(),
        runs: 0,
    }
}

impl S {
    fn leaf(&self, n: usize, res: &[J]) -> Leaf {
        let x = &res[n - 1];
        let mut r = Res::new();
        for (i, m) in x.at("r").ints().into_iter().enumerate() {
            match m {
                1 => r.add_read(i as u32 + 1),
                2 => r.add_write(i as u32 + 1),
                _ => {}
            }
        }
        Leaf {
            n: n as i64,
            bad: x.at("bad").bool(),
            res: r,
            plan: self.plan.clone(),
            log: self.log.clone(),
            runs: 0,
        }
    }
    fn tree(&mut self, t: &J, res: &[J]) -> Dyn {
        let k = t.at("k").str();
        if k == "leaf" {
            self.leaves += 1;
            return Box::new(self.leaf(t.at("n").int() as usize, res));
        }
        let v: Vec<Dyn> = t.at("xs").arr().iter().map(|x| self.tree(x, res)).collect();
        let n = v.len();
        let mut i = v.into_iter();
        macro_rules! x {
            () => {
                i.next().unwrap()
            };
        }
        match (k, n) {
            ("seqlist", _) => Box::new(SeqList(i.collect::<Vec<_>>())),
            ("parlist", _) => Box::new(ParList(i.collect::<Vec<_>>())),
            ("seq", 2) => Box::new(Seq::new(x!(), x!())),
            ("par", 2) => Box::new(Par::new(x!(), x!())),
            ("seqm", 3) => Box::new(goggles::seq!(x!(), x!(), x!())),
            ("seqm", 4) => Box::new(goggles::seq!(x!(), x!(), x!(), x!(),)),
            ("seqm", 5) => Box::new(goggles::seq!(x!(), x!(), x!(), x!(), x!())),
            ("seqm", 6) => Box::new(goggles::seq!(x!(), x!(), x!(), x!(), x!(), x!())),
            ("seqm", 7) => Box::new(goggles::seq!(x!(), x!(), x!(), x!(), x!(), x!(), x!())),
            ("seqm", 8) => Box::new(goggles::seq!(x!(), x!(), x!(), x!(), x!(), x!(), x!(), x!())),
            ("parm", 3) => Box::new(goggles::par!(x!(), x!(), x!())),
            ("parm", 4) => Box::new(goggles::par!(x!(), x!(), x!(), x!(),)),
            ("parm", 5) => Box::new(goggles::par!(x!(), x!(), x!(), x!(), x!())),
            ("parm", 6) => Box::new(goggles::par!(x!(), x!(), x!(), x!(), x!(), x!())),
            ("parm", 7) => Box::new(goggles::par!(x!(), x!(), x!(), x!(), x!(), x!(), x!())),
            ("parm", 8) => Box::new(goggles::par!(x!(), x!(), x!(), x!(), x!(), x!(), x!(), x!())),
            _ => panic!("harness: node {k} of {n}"),
        }
    }
    pub fn run(&mut self, plan: Plan, pool: &str) -> (Option<Result<(), Errs>>, Log) {
        self.runs += 1;
        let args = Args { a: self.runs * 1000 + 17, b: !(self.runs as u32) };
        let p = match pool {
            "seq" => P::Seq,
            "rev" => P::Rev,
            "threads" => P::Threads,
            "rayon" | "rayon1" | "rayon3" => P::Rayon,
            "mixed" => P::Mixed,
            o => panic!("harness: pool {o}"),
        };
        *self.plan.lock().unwrap() = Plan { args: Some(args), jitter: pool == "threads" || pool.starts_with("rayon"), ..plan };
        *self.log.lock().unwrap() = Arc::new(Log::default());
        let sys = self.sys.as_mut().unwrap_or_else(|| panic!("harness: not built"));
        let go = AssertUnwindSafe(|| within(vec![], || sys.run(&p, args)));
        let r = catch_unwind(|| match pool {
            "rayon1" => crate::pools::pool(1).install(go),
            "rayon3" => crate::pools::pool(3).install(go),
            _ => go(),
        })
        .ok();
        let log = std::mem::take(&mut *self.log.lock().unwrap());
        let log = Arc::try_unwrap(log).unwrap_or_else(|_| panic!("harness: a system is still running"));
        (r, log)
    }
}

/// Each system that ran, once; a second run of it or wrong arguments show as other numbers.
fn ran(log: &[(i64, bool, u64, u64, Path)]) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for (n, good, ..) in log {
        let n = if !good { 1000 + n } else { *n };
        v.push(if v.contains(&n) { 2000 + n } else { n });
    }
    v
}
fn pairs(log: &[(i64, bool, u64, u64, Path)], f: impl Fn(&(i64, bool, u64, u64, Path), &(i64, bool, u64, u64, Path)) -> bool) -> J {
    let mut v = vec![];
    for x in log {
        for y in log {
            if !std::ptr::eq(x, y) && f(x, y) {
                v.push(J::seq([x.0, y.0]));
            }
        }
    }
    J::Sub(v)
}

impl Sut for S {
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        match op.at("op").str() {
            "build" => {
                let res = a.at("res").arr().to_vec();
                self.sys = Some(self.tree(a.at("tree"), &res));
                obj! { panic: false }
            }
            "parallelize" => {
                let res = a.at("res").arr().to_vec();
                let n = res.len();
                self.leaves = n;
                let leaves: Vec<Leaf> = (1..=n).map(|i| self.leaf(i, &res)).collect();
                let groups: Vec<Vec<i64>>;
                if self.boxed {
                    let l = parallelize::<Args, Dyn>(leaves.into_iter().map(|l| Box::new(l) as Dyn));
                    // the members are opaque: their numbers show when they run
                    let sizes: Vec<usize> = l.0.iter().map(|g| g.0.len()).collect();
                    let mut i = 0;
                    groups = sizes.iter().map(|s| (0..*s).map(|_| { i += 1; i }).collect()).collect();
                    self.sys = Some(Box::new(l));
                } else {
                    let l = parallelize::<Args, Leaf>(leaves);
                    groups = l.0.iter().map(|g| g.0.iter().map(|l| l.n).collect()).collect();
                    self.sys = Some(Box::new(l));
                }
                let groups: Vec<J> = groups.into_iter().filter(|g| !g.is_empty()).map(J::set).collect();
                obj! { panic: false, groups: groups }
            }
            "check" => {
                let sys = self.sys.as_ref().unwrap_or_else(|| panic!("harness: not built"));
                match sys.check_resources() {
                    Ok(r) => obj! {
                        panic: false, ok: true,
                        reads: J::set(r.reads().filter(|x| !r.writes().any(|w| w == *x)).map(|x| *x as i64)),
                        writes: J::set(r.writes().map(|x| *x as i64)),
                    },
                    Err(_) => obj! { panic: false, ok: false, reads: J::set([]), writes: J::set([]) },
                }
            }
            "run" => {
                let plan = Plan { fail: a.at("fail").ints(), ..Plan::default() };
                let (r, log) = self.run(plan, a.at("pool").str());
                let l = log.ran.into_inner().unwrap();
                let errs = match &r {
                    Some(Err(e)) => e.0.clone(),
                    _ => vec![],
                };
                obj! {
                    panic: r.is_none(),
                    ok: matches!(r, Some(Ok(()))),
                    ran: J::set(ran(&l)),
                    errors: J::seq(errs),
                    offered: pairs(&l, |x, y| x.4.iter().any(|(j, s)| y.4.contains(&(*j, 1 - s)))),
                    unordered: pairs(&l, |x, y| x.3 > y.2),
                }
            }
            "run_panic" => {
                let plan = Plan { panic: a.at("l").int(), ..Plan::default() };
                let (r, log) = self.run(plan, a.at("pool").str());
                let l = log.ran.into_inner().unwrap();
                let ran = ran(&l);
                let missed = (1..=self.leaves as i64).filter(|n| !ran.contains(n)).map(J::N).collect();
                obj! {
                    panic: r.is_none(),
                    ran: J::Sub(ran.into_iter().map(J::N).collect()),
                    missed: J::Sub(missed),
                    offered: pairs(&l, |x, y| x.4.iter().any(|(j, s)| y.4.contains(&(*j, 1 - s)))),
                    unordered: pairs(&l, |x, y| x.3 > y.2),
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    fn observe(&mut self) -> J {
        obj! { built: self.sys.is_some(), plize: self.plize && self.sys.is_some() }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    match op.at("op").str() {
        "parallelize" => vec!["C22"],
        "build" => vec!["C19", "C20", "C21"],
        "check" => vec!["C19"],
        "run" => {
            let fails = !op.at("arg").at("fail").arr().is_empty();
            match field {
                "ret.offered" | "ret.unordered" => vec!["C20"],
                "ret.ran" if fails => vec!["C21"],
                "ret.ran" => vec!["C20"],
                "ret.ok" | "ret.errors" => vec!["C21"],
                _ if fails => vec!["C21"],
                _ => vec!["C20", "C21"],
            }
        }
        "run_panic" => vec!["C23"],
        o => panic!("harness: {o}"),
    }
}
/// The schedules that parallelize makes: their shape, their check and the order in which they run
/// concern C22, and they are compositions like any other.
pub fn plize_tags(op: &J, field: &str) -> Vec<&'static str> {
    let mut t = tags(op, field);
    let shape = match op.at("op").str() {
        "parallelize" | "check" => true,
        "run" => match field {
            "ret.unordered" => true,
            "ret.ran" => op.at("arg").at("fail").arr().is_empty(),
            _ => false,
        },
        _ => false,
    };
    if shape && !t.contains(&"C22") {
        t.push("C22");
    }
    t
}
