//! Records what the entity allocator does when several threads use it (spec/ConcTrace.tla).
//!
//! `schedules`: with the hooks built in, every interleaving of the accesses to shared memory of
//! small programs, by a scheduler that lets one thread run at a time.
//! `stress`: threads that run freely.
use crate::json::J;
use crate::rng::Rng;
use goggles::entity::Allocator;
use goggles::{Entity, IntoJoinExt, World};
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};

// ---------------------------------------------------------------------------------------------
// what is under test

pub enum A {
    Alloc(Allocator),
    World(World),
}
impl A {
    fn new(world: bool) -> A {
        if world {
            A::World(World::new())
        } else {
            A::Alloc(Allocator::new())
        }
    }
    fn create(&self) -> Entity {
        match self {
            A::Alloc(a) => a.allocate_atomic(),
            A::World(w) => w.entities().create(),
        }
    }
    fn delete(&self, e: Entity) -> bool {
        match self {
            A::Alloc(a) => a.kill_atomic(e).is_ok(),
            A::World(w) => w.entities().delete(e).is_ok(),
        }
    }
    fn alive(&self, e: Entity) -> bool {
        match self {
            A::Alloc(a) => a.is_alive(e),
            A::World(w) => w.entities().is_alive(e),
        }
    }
    fn entity(&self, i: u32) -> Option<Entity> {
        match self {
            A::Alloc(a) => a.entity(i),
            A::World(w) => w.entities().entity(i),
        }
    }
    fn max(&self) -> u32 {
        match self {
            A::Alloc(a) => a.max_entity_count(),
            A::World(w) => w.entities().max_entity_count(),
        }
    }
    fn set(&self) -> Vec<Entity> {
        match self {
            A::Alloc(a) => a.join().collect(),
            A::World(w) => (&w.entities()).join().collect(),
        }
    }
    fn create_now(&mut self) -> Entity {
        match self {
            A::Alloc(a) => a.allocate(),
            A::World(w) => w.create_entity(),
        }
    }
    fn kill_now(&mut self, e: Entity) -> bool {
        match self {
            A::Alloc(a) => a.kill(e).is_ok(),
            A::World(w) => w.delete_entity(e).is_ok(),
        }
    }
    fn merge(&mut self, known: &[Entity]) -> Vec<Entity> {
        match self {
            A::Alloc(a) => {
                let mut v = vec![];
                a.merge_atomic(&mut v);
                v
            }
            A::World(w) => {
                let before: Vec<Entity> = known.iter().copied().filter(|e| w.entities().is_alive(*e)).collect();
                w.merge();
                before.into_iter().filter(|e| !w.entities().is_alive(*e)).collect()
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// programs

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Create,
    /// the n-th entity that exists when the threads start
    Delete(usize),
    Alive(usize),
    /// the last one this thread made
    DeleteOwn,
    AliveOwn,
    /// the last one made by any thread
    DeleteLast,
    AliveLast,
    Entity(u32),
    /// look an index up and delete what is there
    DeleteAt(u32),
    Max,
    Set,
}

#[derive(Clone, Copy)]
pub enum Pre {
    New,
    Kill(usize),
    Atomic,
    Later(usize),
    Merge,
}
use Pre::*;

/// Histories before the threads start: the setups of spec/AllocatorConc.tla and a few more.
const SETUPS: &[&[Pre]] = &[
    &[],
    &[New],
    &[New, Kill(0)],
    &[New, New, Kill(1), New, Kill(2)],
    &[New, New, Kill(1), Kill(0)],
    &[New, New, New, Kill(0), Kill(1), New, Kill(3), Later(2)],
    &[New, New, Kill(0), Atomic],
    &[New, New, Kill(0), Atomic, Atomic, Later(2)],
    &[New, New, New, Kill(2), Kill(1), Kill(0), New, Atomic, Later(4)],
    &[Atomic, Atomic, Later(0), Merge],
    &[Atomic, Atomic, Later(0), Later(1), Merge, Atomic],
    &[New, New, New, Later(0), Later(2), Merge, Kill(1)],
];

#[derive(Clone)]
pub struct Program {
    world: bool,
    setup: usize,
    threads: Vec<Vec<Op>>,
}

#[derive(Clone)]
pub struct Call {
    o: &'static str,
    e: Option<Entity>,
    r: &'static str,
    re: Option<Entity>,
    rs: Vec<Entity>,
    n: u32,
    a: u64,
    b: u64,
}
fn call(o: &'static str) -> Call {
    Call { o, e: None, r: "", re: None, rs: vec![], n: 0, a: 0, b: 0 }
}
fn pair(e: Entity) -> J {
    J::seq([e.index() as i64, e.generation() as i64])
}
fn opt(e: Option<Entity>) -> J {
    e.map_or(J::seq([0, 0]), pair)
}
fn list(v: &[Entity]) -> J {
    J::A(v.iter().copied().map(pair).collect())
}
impl Call {
    fn json(&self) -> J {
        obj! {
            o: self.o, e: opt(self.e), r: self.r, re: opt(self.re), rs: list(&self.rs),
            n: self.n, a: self.a as i64, b: self.b as i64,
        }
    }
}

/// One execution: the calls made so far and who can be referred to.
struct Exec {
    a: RwLock<A>,
    clock: AtomicU64,
    start: Vec<Entity>,
    made: Mutex<Vec<Entity>>,
}
impl Exec {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    fn timed(&self, mut c: Call, f: impl FnOnce(&mut Call)) -> Call {
        c.a = self.tick();
        if catch_unwind(AssertUnwindSafe(|| f(&mut c))).is_err() {
            c.r = "panic";
            c.re = None;
        }
        c.b = self.tick();
        c
    }
    fn shared(&self, a: &A, op: Op, own: &mut Vec<Entity>, out: &mut Vec<Call>) {
        let last = || self.made.lock().unwrap().last().copied();
        let (o, e) = match op {
            Op::Delete(k) => ("delete", self.start.get(k).copied()),
            Op::DeleteOwn => ("delete", own.last().copied()),
            Op::DeleteLast => ("delete", last()),
            Op::Alive(k) => ("alive", self.start.get(k).copied()),
            Op::AliveOwn => ("alive", own.last().copied()),
            Op::AliveLast => ("alive", last()),
            _ => ("", None),
        };
        match op {
            Op::Create => {
                let c = self.timed(call("create"), |c| c.re = Some(a.create()));
                if let Some(e) = c.re {
                    own.push(e);
                    self.made.lock().unwrap().push(e);
                }
                out.push(c);
            }
            Op::Entity(i) | Op::DeleteAt(i) => {
                let c = self.timed(Call { n: i, ..call("entity") }, |c| {
                    c.re = a.entity(i);
                    c.r = if c.re.is_some() { "some" } else { "none" };
                });
                let found = c.re;
                out.push(c);
                if let (Op::DeleteAt(_), Some(e)) = (op, found) {
                    out.push(self.timed(Call { e: Some(e), ..call("delete") }, |c| {
                        c.r = if a.delete(e) { "ok" } else { "err" }
                    }));
                }
            }
            Op::Max => out.push(self.timed(call("max"), |c| c.n = a.max())),
            Op::Set => out.push(self.timed(call("set"), |c| c.rs = a.set())),
            _ => {
                if let Some(e) = e {
                    out.push(self.timed(Call { e: Some(e), ..call(o) }, |c| {
                        c.r = match o {
                            "delete" if a.delete(e) => "ok",
                            "delete" => "err",
                            _ if a.alive(e) => "yes",
                            _ => "no",
                        }
                    }));
                }
            }
        }
    }
    fn begin(p: &Program) -> (Exec, Vec<Call>) {
        let mut x = Exec { a: RwLock::new(A::new(p.world)), clock: AtomicU64::new(0), start: vec![], made: Mutex::new(vec![]) };
        let mut calls = vec![];
        let mut start: Vec<Entity> = vec![];
        for s in SETUPS[p.setup] {
            let mut a = x.a.write().unwrap();
            let c = match *s {
                New => x.timed(call("create_now"), |c| c.re = Some(a.create_now())),
                Atomic => x.timed(call("create"), |c| c.re = Some(a.create())),
                Kill(k) => x.timed(Call { e: start.get(k).copied(), ..call("kill_now") }, |c| {
                    c.r = if a.kill_now(c.e.unwrap()) { "ok" } else { "err" }
                }),
                Later(k) => x.timed(Call { e: start.get(k).copied(), ..call("delete") }, |c| {
                    c.r = if a.delete(c.e.unwrap()) { "ok" } else { "err" }
                }),
                Merge => x.timed(call("merge"), |c| c.rs = a.merge(&start)),
            };
            if let Some(e) = c.re {
                start.push(e);
            }
            calls.push(c);
        }
        x.start = start;
        (x, calls)
    }
    /// What a single owner sees afterwards.
    fn finish(self, mut calls: Vec<Call>, mut per: Vec<Vec<Call>>) -> String {
        for p in &mut per {
            calls.append(p);
        }
        let mut known: Vec<Entity> = self.start.clone();
        known.extend(self.made.lock().unwrap().iter());
        let mut a = self.a.write().unwrap_or_else(|e| e.into_inner());
        let t = |c, f: &mut dyn FnMut(&mut Call)| self.timed(c, |c| f(c));
        for e in known.clone() {
            calls.push(t(Call { e: Some(e), ..call("alive") }, &mut |c| c.r = if a.alive(e) { "yes" } else { "no" }));
        }
        calls.push(t(call("set"), &mut |c| c.rs = a.set()));
        calls.push(t(call("max"), &mut |c| c.n = a.max()));
        calls.push(t(call("merge"), &mut |c| c.rs = a.merge(&known)));
        calls.push(t(call("set"), &mut |c| c.rs = a.set()));
        // use up what is free
        let free = (a.max() as usize).saturating_sub(calls.last().unwrap().rs.len()).min(8);
        for k in 0..=free {
            calls.push(t(call(if k % 2 == 0 { "create" } else { "create_now" }), &mut |c| {
                c.re = Some(if k % 2 == 0 { a.create() } else { a.create_now() })
            }));
        }
        calls.push(t(call("max"), &mut |c| c.n = a.max()));
        calls.push(t(call("merge"), &mut |c| c.rs = a.merge(&known)));
        calls.push(t(call("set"), &mut |c| c.rs = a.set()));
        rank(&mut calls);
        obj! { kind: "hist", calls: J::A(calls.iter().map(|c| c.json()).collect()) }.to_string()
    }
}

/// Keep only the order of the instants, and of that only which calls overlap.
fn rank(calls: &mut Vec<Call>) {
    calls.sort_by_key(|c| c.a);
    // an invocation moves back to right after the latest return that precedes it
    let mut rets: Vec<u64> = calls.iter().map(|c| c.b).collect();
    rets.sort();
    let at = |t: u64| rets.iter().filter(|r| **r < t).count() as u64;
    for c in calls.iter_mut() {
        let (a, b) = (at(c.a), at(c.b));
        c.a = 2 * a;
        c.b = 2 * b + 1;
    }
    calls.sort_by(|x, y| (x.a, x.b, x.o).cmp(&(y.a, y.b, y.o)));
}

// ---------------------------------------------------------------------------------------------
// scheduler

struct Turn {
    /// whose turn it is
    current: usize,
    alive: Vec<bool>,
    prefix: Vec<u8>,
    /// (choice, number of choices) so far
    trail: Vec<(u8, u8)>,
    preempts: usize,
    bound: usize,
    points: usize,
    rng: Option<Rng>,
    spurious: usize,
}
pub struct Sched {
    t: Mutex<Turn>,
    cv: Vec<std::sync::Condvar>,
    moves: AtomicU64,
    gave_up: AtomicBool,
}
thread_local! {
    static ME: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = const { std::cell::RefCell::new(None) };
}
#[allow(dead_code)]
fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, k)) = me {
        s.point(k);
    }
}
#[allow(dead_code)]
fn weak() -> bool {
    let me = ME.with(|m| m.borrow().clone());
    me.map_or(false, |(s, _)| s.weak())
}
impl Sched {
    fn new(n: usize, prefix: Vec<u8>, bound: usize, spurious: usize, rng: Option<Rng>) -> Sched {
        Sched {
            t: Mutex::new(Turn {
                current: usize::MAX,
                alive: vec![true; n],
                prefix,
                trail: vec![],
                preempts: 0,
                bound,
                points: 0,
                rng,
                spurious,
            }),
            cv: (0..n).map(|_| Default::default()).collect(),
            moves: AtomicU64::new(0),
            gave_up: AtomicBool::new(false),
        }
    }
    fn choose(t: &mut Turn, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = t.trail.len();
        let c = match (&mut t.rng, t.prefix.get(k)) {
            (_, Some(c)) => *c,
            (Some(r), None) => r.range(0, n - 1) as u8,
            (None, None) => 0,
        };
        t.trail.push((c, n as u8));
        c as usize
    }
    fn weak(&self) -> bool {
        let mut t = self.t.lock().unwrap();
        if t.spurious == 0 {
            return false;
        }
        if Self::choose(&mut t, 2) == 1 {
            t.spurious -= 1;
            return true;
        }
        false
    }
    /// Thread `k` is about to take a step.
    fn point(&self, k: usize) {
        self.moves.fetch_add(1, Ordering::Relaxed);
        let mut t = self.t.lock().unwrap();
        t.points += 1;
        if t.points > 20_000 || self.gave_up.load(Ordering::Relaxed) {
            self.gave_up.store(true, Ordering::Relaxed);
            return;
        }
        let others: Vec<usize> = (0..t.alive.len()).filter(|o| *o != k && t.alive[*o]).collect();
        let c = if t.points > 2_000 {
            // whoever waits for another thread gets to see it move
            t.points % (others.len() + 1)
        } else if t.preempts < t.bound {
            Self::choose(&mut t, others.len() + 1)
        } else {
            0
        };
        if c > 0 {
            t.preempts += 1;
            let o = others[c - 1];
            self.hand(t, o);
            self.wait(k);
        }
    }
    fn hand(&self, mut t: std::sync::MutexGuard<Turn>, o: usize) {
        t.current = o;
        drop(t);
        self.cv[o].notify_one();
    }
    fn wait(&self, k: usize) {
        let mut t = self.t.lock().unwrap();
        while t.current != k && !self.gave_up.load(Ordering::Relaxed) {
            t = self.cv[k].wait_timeout(t, std::time::Duration::from_millis(200)).unwrap().0;
        }
    }
    fn done(&self, k: usize) {
        let mut t = self.t.lock().unwrap();
        t.alive[k] = false;
        let others: Vec<usize> = (0..t.alive.len()).filter(|o| t.alive[*o]).collect();
        if !others.is_empty() {
            let c = Self::choose(&mut t, others.len());
            self.hand(t, others[c]);
        }
    }
}

/// Run a program under one schedule; None if the code blocks where the scheduler cannot see it.
fn run_one(p: &Program, prefix: Vec<u8>, bound: usize, spurious: usize, rng: Option<Rng>) -> Option<(String, Vec<(u8, u8)>)> {
    let (x, calls) = Exec::begin(p);
    let s = Arc::new(Sched::new(p.threads.len(), prefix, bound, spurious, rng));
    {
        // who starts
        let mut t = s.t.lock().unwrap();
        let c = Sched::choose(&mut t, p.threads.len());
        t.current = c;
    }
    let finished = AtomicUsize::new(0);
    let per: Vec<Vec<Call>> = std::thread::scope(|sc| {
        let hs: Vec<_> = p
            .threads
            .iter()
            .enumerate()
            .map(|(k, ops)| {
                let (s, x, finished) = (s.clone(), &x, &finished);
                sc.spawn(move || {
                    s.wait(k);
                    ME.with(|m| *m.borrow_mut() = Some((s.clone(), k)));
                    let a = x.a.read().unwrap();
                    let (mut own, mut out) = (vec![], vec![]);
                    for (j, op) in ops.iter().enumerate() {
                        if j > 0 {
                            s.point(k);
                        }
                        x.shared(&a, *op, &mut own, &mut out);
                    }
                    ME.with(|m| *m.borrow_mut() = None);
                    s.done(k);
                    finished.fetch_add(1, Ordering::SeqCst);
                    out
                })
            })
            .collect();
        // a thread blocked on something else than its turn lets nobody move
        let (mut last, mut still) = (0, 0);
        while finished.load(Ordering::SeqCst) < p.threads.len() {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            let m = s.moves.load(Ordering::Relaxed);
            if m != last {
                last = m;
                still = 0;
            }
            still += 1;
            if still > 200 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            } else {
                std::thread::yield_now();
            }
            if still > 3_000 {
                s.gave_up.store(true, Ordering::Relaxed);
            }
        }
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    if s.gave_up.load(Ordering::Relaxed) {
        return None;
    }
    let trail = std::mem::take(&mut s.t.lock().unwrap().trail);
    Some((x.finish(calls, per), trail))
}

/// All schedules of a program, or at most `cap` of them and then as many random ones.
fn explore(p: &Program, bound: usize, spurious: usize, cap: usize, seed: u64, out: &mut dyn FnMut(String)) -> Option<(usize, bool)> {
    let mut prefix = vec![];
    let mut n = 0;
    loop {
        let (h, trail) = run_one(p, prefix, bound, spurious, None)?;
        out(h);
        n += 1;
        let mut t = trail;
        while let Some((c, k)) = t.pop() {
            if c + 1 < k {
                t.push((c + 1, k));
                break;
            }
        }
        if t.is_empty() {
            return Some((n, true));
        }
        if n >= cap {
            for k in 0..cap as u64 {
                let (h, _) = run_one(p, vec![], usize::MAX, spurious, Some(Rng::new(seed ^ (k << 8))))?;
                out(h);
                n += 1;
            }
            return Some((n, false));
        }
        prefix = t.into_iter().map(|c| c.0).collect();
    }
}

fn menu(setup: usize) -> Vec<Op> {
    let n = SETUPS[setup].iter().filter(|s| matches!(s, New | Atomic)).count();
    let mut m = vec![Op::Create, Op::Max, Op::Set];
    for k in 0..n {
        m.push(Op::Delete(k));
        m.push(Op::Alive(k));
    }
    for i in 0..=(n as u32 + 1).min(3) {
        m.push(Op::Entity(i));
        m.push(Op::DeleteAt(i));
    }
    m
}

fn programs(size: usize, seed: u64) -> Vec<(Program, usize, usize, usize)> {
    // (program, preemption bound, spurious failures, cap)
    let mut rng = Rng::new(seed);
    let mut v = vec![];
    for setup in 0..SETUPS.len() {
        let m = menu(setup);
        // two threads, one call each against a creation
        for &x in &m {
            v.push((vec![vec![Op::Create], vec![x]], setup, 99, 1, 3000));
        }
        // two threads, two calls each
        for t in [
            vec![vec![Op::Create, Op::DeleteOwn], vec![Op::Create, Op::DeleteOwn]],
            vec![vec![Op::Create, Op::DeleteOwn], vec![Op::AliveLast, Op::DeleteLast]],
            vec![vec![Op::Create, Op::AliveOwn], vec![Op::DeleteLast, Op::Create]],
            vec![vec![Op::Create, Op::Create], vec![Op::Create, Op::Create]],
            vec![vec![Op::Create, Op::Create], vec![Op::Set, Op::Max]],
            vec![vec![Op::Delete(0), Op::Create], vec![Op::Delete(0), Op::Alive(0)]],
            vec![vec![Op::Delete(0), Op::Alive(0)], vec![Op::Delete(1), Op::DeleteAt(0)]],
        ] {
            v.push((t, setup, 99, 0, 1500));
        }
        // three threads
        v.push((vec![vec![Op::Create]; 3], setup, 99, 0, 1500));
        v.push((vec![vec![Op::Create], vec![Op::Create], vec![Op::Set]], setup, 3, 0, 800));
        v.push((vec![vec![Op::Create, Op::Create]; 3], setup, 2, 0, 800));
        v.push((vec![vec![Op::Create, Op::DeleteOwn], vec![Op::DeleteLast, Op::Create], vec![Op::DeleteAt(0), Op::Create]], setup, 2, 0, 800));
    }
    for _ in 0..size {
        let setup = rng.range(0, SETUPS.len() - 1);
        let mut m = menu(setup);
        m.extend([Op::Create, Op::Create, Op::Create, Op::DeleteOwn, Op::AliveOwn, Op::DeleteLast, Op::AliveLast]);
        let nt = rng.range(2, 3);
        let t = (0..nt).map(|_| (0..rng.range(1, 3)).map(|_| *rng.pick(&m)).collect()).collect();
        v.push((t, setup, 2, 1, 300));
    }
    v.into_iter()
        .enumerate()
        .map(|(k, (threads, setup, b, s, c))| (Program { world: k % 3 == 2, setup, threads }, b, s, c))
        .collect()
}

#[cfg(goggles_verif)]
fn install() {
    let _ = goggles::verif::HOOK.set(point);
    let _ = goggles::verif::WEAK.set(weak);
}
#[cfg(not(goggles_verif))]
fn install() {
    panic!("harness: built without schedule points");
}

pub fn schedules(out: &str, seed: u64, size: usize) {
    install();
    let ps = programs(size, seed);
    let next = AtomicUsize::new(0);
    let seen: Mutex<BTreeSet<String>> = Default::default();
    let runs = AtomicU64::new(0);
    let complete = AtomicU64::new(0);
    let gave_up = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..6 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= ps.len() || gave_up.load(Ordering::Relaxed) > 2 {
                    break;
                }
                let (p, bound, spurious, cap) = &ps[k];
                let mut mine: HashSet<String> = HashSet::new();
                match explore(p, *bound, *spurious, *cap, seed ^ k as u64, &mut |h| {
                    mine.insert(h);
                }) {
                    Some((n, all)) => {
                        runs.fetch_add(n as u64, Ordering::Relaxed);
                        complete.fetch_add(all as u64, Ordering::Relaxed);
                    }
                    None => {
                        gave_up.fetch_add(1, Ordering::Relaxed);
                    }
                }
                seen.lock().unwrap().extend(mine);
            });
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let seen = seen.into_inner().unwrap();
    for h in &seen {
        writeln!(f, "{h}").unwrap();
    }
    f.flush().unwrap();
    println!(
        "{{\"programs\":{},\"explored_completely\":{},\"schedules\":{},\"distinct_histories\":{},\"gave_up\":{}}}",
        ps.len(),
        complete.load(Ordering::Relaxed),
        runs.load(Ordering::Relaxed),
        seen.len(),
        gave_up.load(Ordering::Relaxed)
    );
}

// ---------------------------------------------------------------------------------------------
// free running

/// A barrier that does not put anybody to sleep.
struct Gate {
    n: usize,
    at: AtomicUsize,
    round: AtomicUsize,
}
impl Gate {
    fn pass(&self) {
        let r = self.round.load(Ordering::SeqCst);
        if self.at.fetch_add(1, Ordering::SeqCst) + 1 == self.n {
            self.at.store(0, Ordering::SeqCst);
            self.round.store(r + 1, Ordering::SeqCst);
        } else {
            let mut k = 0u32;
            while self.round.load(Ordering::SeqCst) == r {
                k += 1;
                if k > 2000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

fn free_run(world: bool, nt: usize, rounds: usize, seed: u64) -> BTreeSet<String> {
    let mut rng = Rng::new(seed);
    let mut progs = vec![];
    for _ in 0..rounds {
        let setup = rng.range(0, SETUPS.len() - 1);
        let mut m = menu(setup);
        m.extend([Op::Create, Op::Create, Op::Create, Op::Create, Op::Create, Op::Create, Op::DeleteOwn, Op::AliveOwn, Op::DeleteLast, Op::AliveLast]);
        let threads = (0..nt).map(|_| (0..rng.range(1, if nt > 2 { 2 } else { 3 })).map(|_| *rng.pick(&m)).collect()).collect();
        progs.push(Program { world, setup, threads });
    }
    let gate = Gate { n: nt, at: AtomicUsize::new(0), round: AtomicUsize::new(0) };
    let cur: RwLock<Option<(Exec, Vec<Call>)>> = RwLock::new(None);
    let results: Vec<Mutex<Vec<Call>>> = (0..nt).map(|_| Mutex::new(vec![])).collect();
    let seen = Mutex::new(BTreeSet::new());
    std::thread::scope(|sc| {
        for k in 0..nt {
            let (gate, cur, results, progs, seen) = (&gate, &cur, &results, &progs, &seen);
            sc.spawn(move || {
                for p in progs {
                    if k == 0 {
                        moved();
                        *cur.write().unwrap() = Some(Exec::begin(p));
                    }
                    gate.pass();
                    {
                        let g = cur.read().unwrap();
                        let x = &g.as_ref().unwrap().0;
                        let a = x.a.read().unwrap();
                        let (mut own, mut out) = (vec![], vec![]);
                        gate.pass();
                        for op in &p.threads[k] {
                            x.shared(&a, *op, &mut own, &mut out);
                        }
                        *results[k].lock().unwrap() = out;
                    }
                    gate.pass();
                    if k == 0 {
                        let (x, calls) = cur.write().unwrap().take().unwrap();
                        let per = results.iter().map(|r| std::mem::take(&mut *r.lock().unwrap())).collect();
                        seen.lock().unwrap().insert(x.finish(calls, per));
                    }
                    gate.pass();
                }
            });
        }
    });
    seen.into_inner().unwrap()
}

/// Thousands of calls at once.
fn bulk(world: bool, nt: usize, per: usize, seed: u64) -> String {
    let mut rng = Rng::new(seed);
    let mut a = A::new(world);
    let mut ever = vec![];
    let mut before = vec![];
    for _ in 0..rng.range(0, per * nt) {
        let e = a.create_now();
        ever.push(e);
        before.push(e);
    }
    // free some again, now and at a merge
    let mut kept = vec![];
    for e in before {
        match rng.range(0, 3) {
            0 => {
                a.kill_now(e);
            }
            1 => {
                a.delete(e);
            }
            _ => kept.push(e),
        }
    }
    a.merge(&ever);
    let before = kept;
    let used = a.max();
    let go = std::sync::Barrier::new(nt);
    let refused = AtomicUsize::new(0);
    let res: Vec<(Vec<Entity>, Vec<Entity>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|k| {
                let (a, before, go, refused) = (&a, &before, &go, &refused);
                sc.spawn(move || {
                    let mut rng = Rng::new(seed ^ ((k as u64 + 1) << 32));
                    let (mut made, mut asked) = (vec![], vec![]);
                    go.wait();
                    for j in 0..per {
                        let e = a.create();
                        made.push(e);
                        if !a.alive(e) || a.entity(e.index()) != Some(e) || a.max() <= e.index() {
                            refused.fetch_add(1, Ordering::Relaxed);
                        }
                        if j % 3 == 0 {
                            asked.push(e);
                        } else if j % 3 == 1 && !before.is_empty() {
                            asked.push(*rng.pick(before));
                        } else {
                            continue;
                        }
                        if !a.delete(*asked.last().unwrap()) {
                            refused.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                    (made, asked)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let made: Vec<Entity> = res.iter().flat_map(|r| r.0.iter().copied()).collect();
    let asked: Vec<Entity> = res.iter().flat_map(|r| r.1.iter().copied()).collect();
    let short = made.len() != nt * per;
    let live = a.set();
    let max = a.max();
    let mut known = ever.clone();
    known.extend(&made);
    let merged = a.merge(&known.iter().copied().collect::<HashSet<_>>().into_iter().collect::<Vec<_>>());
    let left = a.set();
    let again: Vec<Entity> = (0..(max as usize).saturating_sub(left.len()))
        .map(|k| if k % 2 == 0 { a.create() } else { a.create_now() })
        .collect();
    let max2 = a.max();
    obj! {
        kind: "bulk", before: list(&before), ever: list(&ever), made: list(&made), asked: list(&asked),
        live: list(&live), used: used, max: max, merged: list(&merged), left: list(&left),
        again: list(&again), max2: max2, refused: refused.load(Ordering::Relaxed) + short as usize,
    }
    .to_string()
}

/// Nothing but creations, as fast as the threads can, over `free` freed indexes; only counted.
fn race(world: bool, nt: usize, per: usize, free: usize, occupied: usize) -> String {
    let mut a = A::new(world);
    let all: Vec<Entity> = (0..free + occupied).map(|_| a.create_now()).collect();
    let (gone, stay): (Vec<_>, Vec<_>) = all.iter().enumerate().partition(|(k, _)| if occupied == 0 { true } else { k % (1 + free / occupied) != 0 || k / (1 + free / occupied) >= occupied });
    for (_, &e) in &gone {
        a.kill_now(e);
    }
    let used = a.max();
    let go = std::sync::Barrier::new(nt);
    let res: Vec<Vec<Entity>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                let (a, go) = (&a, &go);
                sc.spawn(move || {
                    let mut made = Vec::with_capacity(per);
                    go.wait();
                    for _ in 0..per {
                        made.push(a.create());
                    }
                    made
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let max = a.max();
    let made: Vec<Entity> = res.into_iter().flatten().collect();
    let mut idx: Vec<u32> = made.iter().map(|e| e.index()).collect();
    idx.sort();
    idx.dedup();
    let old: HashSet<Entity> = all.iter().copied().collect();
    let again = made.iter().filter(|e| old.contains(e)).count();
    let on: HashSet<u32> = stay.iter().map(|x| x.1.index()).collect();
    let taken = made.iter().filter(|e| on.contains(&e.index())).count();
    let dead = made.iter().filter(|&&e| !a.alive(e)).count();
    let live = a.set().len();
    a.merge(&[]);
    let after = made.iter().filter(|&&e| !a.alive(e)).count();
    obj! {
        kind: "race", used: used, kept: stay.len(), asked: nt * per, made: made.len(), indexes: idx.len(), top: idx.last().map_or(0, |i| i + 1),
        again: again, taken: taken, dead: dead + after, live: live, max: max,
    }
    .to_string()
}

/// Nothing but requests for deletion, by all threads on neighbouring indexes.
fn rush(world: bool, nt: usize, n: usize, twice: bool) -> String {
    let mut a = A::new(world);
    let mut all: Vec<Entity> = (0..n).map(|k| if k % 1000 == 0 { a.create_now() } else { a.create() }).collect();
    if twice {
        a.merge(&[]);
        all.extend((0..n).map(|_| a.create()));
    }
    let go = std::sync::Barrier::new(nt);
    let refused = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (a, go, all, refused) = (&a, &go, &all, &refused);
            sc.spawn(move || {
                go.wait();
                // every entity but the multiples of 5, some by two threads
                for (k, &e) in all.iter().enumerate() {
                    if k % 5 != 0 && (k % nt == t || twice && (k + 1) % nt == t) && !a.delete(e) {
                        refused.fetch_add(1, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let live = a.set().len();
    let merged = a.merge(&all);
    let asked = |k: usize| k % 5 != 0;
    let n_asked = (0..all.len()).filter(|&k| asked(k)).count();
    let distinct: HashSet<Entity> = merged.iter().copied().collect();
    let wrong = all.iter().enumerate().filter(|&(k, e)| a.alive(*e) == asked(k) || distinct.contains(e) != asked(k)).count();
    obj! {
        kind: "rush", n: all.len(), asked: n_asked, refused: refused.load(Ordering::Relaxed), live: live, merged: merged.len(),
        wrong: wrong, left: a.set().len(), max: a.max(),
    }
    .to_string()
}

/// Requests for deletion far apart: in each of `rounds` turns one entity out of `gap` is asked to go.
fn sparse(world: bool, nt: usize, n: usize, gap: usize, rounds: usize) -> String {
    let mut a = A::new(world);
    let all: Vec<Entity> = (0..n).map(|k| if k % 1000 == 0 { a.create_now() } else { a.create() }).collect();
    a.merge(&[]);
    let refused = AtomicUsize::new(0);
    let (mut n_asked, mut n_merged, mut wrong) = (0, 0, 0);
    for r in 0..rounds {
        let turn: Vec<Entity> = all.iter().copied().skip(r * (gap / rounds)).step_by(gap).collect();
        let go = std::sync::Barrier::new(nt);
        std::thread::scope(|sc| {
            for t in 0..nt {
                let (a, go, turn, refused) = (&a, &go, &turn, &refused);
                sc.spawn(move || {
                    go.wait();
                    for &e in turn.iter().skip(t).step_by(nt) {
                        if !a.delete(e) {
                            refused.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
        n_asked += turn.len();
        let merged = a.merge(&turn);
        n_merged += merged.len();
        let merged: HashSet<Entity> = merged.into_iter().collect();
        wrong += turn.iter().filter(|&&e| a.alive(e) || !merged.contains(&e)).count();
    }
    let left = a.set().len();
    let live = all.iter().filter(|&&e| a.alive(e)).count() + n_asked;
    obj! {
        kind: "rush", n: all.len(), asked: n_asked, refused: refused.load(Ordering::Relaxed), live: live, merged: n_merged,
        wrong: wrong, left: left, max: a.max(),
    }
    .to_string()
}

/// Counts what has been done.
static MOVED: AtomicUsize = AtomicUsize::new(1);
fn moved() {
    MOVED.fetch_add(1, Ordering::Relaxed);
}

pub fn stress(out: &str, seed: u64, size: usize) {
    {
        let out = out.to_string();
        std::thread::spawn(move || {
            // a thread has gone astray when nothing moves for long
            let mut seen = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(150));
                if seen == MOVED.load(Ordering::Relaxed) {
                    break;
                }
                seen = MOVED.load(Ordering::Relaxed);
            }
            let _ = std::fs::write(&out, "{\"kind\":\"hang\"}\n");
            std::process::exit(4);
        });
    }
    let mut seen = BTreeSet::new();
    for (k, nt) in [2usize, 3, 4, 2, 3].into_iter().enumerate() {
        let world = k % 2 == 1;
        seen.extend(free_run(world, nt, size, seed * 31 + k as u64));
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for h in &seen {
        writeln!(f, "{h}").unwrap();
    }
    let bulks: &[(usize, usize)] = &[(2, 50), (4, 200), (8, 300), (8, 500), (8, 100), (3, 700)];
    for (k, (nt, per)) in bulks.iter().enumerate() {
        moved();
        writeln!(f, "{}", bulk(k % 2 == 1, *nt, *per, seed * 77 + k as u64)).unwrap();
    }
    for k in 0..(size / 40).min(200) {
        let world = k % 4 == 1;
        let (free, occupied) = [(100_000, 0), (80_000, 3_000), (0, 5), (30_000, 30_000), (90_000, 1), (100_000, 0)][k % 6];
        moved();
        writeln!(f, "{}", race(world, 8, 12_000, free, occupied)).unwrap();
    }
    for k in 0..(size / 80).min(100) {
        moved();
        writeln!(f, "{}", rush(k % 4 == 1, 8, [20_000, 40_000, 5_000, 70_000][k % 4], k % 3 == 0)).unwrap();
    }
    for k in 0..(size / 400).min(20) {
        moved();
        writeln!(f, "{}", sparse(false, 8, [300_000, 1_000_000][k % 2], 4096, 64)).unwrap();
    }
    f.flush().unwrap();
    println!("{{\"distinct_histories\":{},\"bulk\":{}}}", seen.len(), bulks.len());
}
