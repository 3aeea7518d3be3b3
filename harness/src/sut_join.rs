//! Joins over every operand shape of spec/JoinShapes.tla (spec/Join.tla).
use crate::graph::Sut;
use crate::json::J;
use goggles::hibitset::{
    AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor,
};
use goggles::entity::Allocator;
use goggles::masked::GuardedElement;
use goggles::par_join::ParJoinExt;
use goggles::rayon::{self, iter::ParallelIterator};
use goggles::storage::{DenseVecStorage, HashMapStorage, RawStorage, VecStorage};
use goggles::{Component, Entity, Flagged, IntoJoin, IntoJoinExt, JoinIter, MaskedStorage, World};
use std::sync::atomic::{AtomicU32, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// "index map / threads of the pool"
pub const VARIANTS: &[&str] = &["id/4", "edge/1", "wide/4", "blk/64", "far/2"];

macro_rules! comp {
    ($n:ident, $s:ty) => {
        #[derive(Debug)]
        pub struct $n {
            magic: u32,
            /// how often it was handed out exclusively
            out: AtomicU32,
            v: i64,
        }
        impl Component for $n {
            type Storage = $s;
        }
        impl Cell for $n {
            fn new(v: i64) -> Self {
                $n { magic: MAGIC, out: AtomicU32::new(0), v }
            }
            fn v(&self) -> i64 {
                if self.magic == MAGIC { self.v } else { -7 }
            }
            fn exclusive(&self) -> i64 {
                if self.magic == MAGIC && self.out.fetch_add(1, Ordering::Relaxed) > 0 { -9 } else { self.v() }
            }
            fn set(&mut self, v: i64) {
                if self.magic == MAGIC {
                    self.v = v
                }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                self.magic = 0;
            }
        }
    };
}
const MAGIC: u32 = 0x5eed_ce11;
pub trait Cell {
    fn new(v: i64) -> Self;
    /// The value; -7 if there is none.
    fn v(&self) -> i64;
    /// As `v`, for one item of a join that may change it: -9 if another item has been given it.
    fn exclusive(&self) -> i64;
    fn set(&mut self, v: i64);
}
comp!(JA, VecStorage<JA>);
comp!(JB, DenseVecStorage<JB>);
comp!(JC, Flagged<HashMapStorage<JC>>);

/// One item of a join, before indexes are translated back.
#[derive(Clone, Debug)]
pub enum It {
    Idx(u32),
    Val(i64),
    None,
    Tup(Vec<It>),
}
pub trait Item {
    fn it(self) -> It;
}
impl Item for u32 {
    fn it(self) -> It {
        It::Idx(self)
    }
}
impl Item for Entity {
    fn it(self) -> It {
        It::Idx(self.index())
    }
}
impl<T: Cell> Item for &T {
    fn it(self) -> It {
        It::Val(self.v())
    }
}
impl<T: Cell> Item for &mut T {
    fn it(self) -> It {
        let v = self.exclusive();
        self.set(v + 50);
        It::Val(v)
    }
}
impl<'a, S: RawStorage> Item for GuardedElement<'a, S>
where
    S::Item: Cell + 'a,
{
    fn it(mut self) -> It {
        let v = self.get().exclusive();
        if v % 2 == 0 {
            self.get_mut().set(v + 50);
        }
        It::Val(v)
    }
}
impl<T: Item> Item for Option<T> {
    fn it(self) -> It {
        self.map_or(It::None, |x| x.it())
    }
}
macro_rules! tuple_items {
    () => {};
    ($a:ident $($r:ident)*) => {
        impl<$a: Item, $($r: Item),*> Item for ($a, $($r,)*) {
            #[allow(non_snake_case)]
            fn it(self) -> It {
                let ($a, $($r,)*) = self;
                It::Tup(vec![$a.it(), $($r.it()),*])
            }
        }
        tuple_items!($($r)*);
    };
}
tuple_items!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z);

/// What the operands are made of; built on demand.
pub struct Fix {
    m: [Vec<i64>; 3],
    map: Map,
    pub b1: BitSet,
    pub b2: BitSet,
    pub b3: BitSet,
    pub a1: AtomicBitSet,
    pub a2: AtomicBitSet,
    pub a3: AtomicBitSet,
    pub e1: Allocator,
    pub e2: Allocator,
    pub e3: Allocator,
    pub s1: MaskedStorage<VecStorage<JA>>,
    pub s2: MaskedStorage<DenseVecStorage<JB>>,
    pub s3: MaskedStorage<Flagged<HashMapStorage<JC>>>,
    pub w: World,
    has: Vec<String>,
    /// how many items to take at most
    cap: usize,
    threads: usize,
}

/// slot -> ascending real indexes
#[derive(Clone)]
struct Map(Vec<Vec<u32>>);
impl Map {
    fn new(name: &str) -> Map {
        let one = |v: &[u32]| Map(v.iter().map(|x| vec![*x]).collect());
        match name {
            "id" => one(&[0, 1, 2, 3, 4]),
            "edge" => one(&[62, 63, 64]),
            "wide" => one(&[5, 4095, 4096]),
            "far" => one(&[63, 4096, 262144]),
            "blk" => Map(vec![
                (3..200).collect(),
                (4000..4200).collect(),
                (0..60).map(|x| 5000 + 701 * x).collect(),
            ]),
            _ => panic!("harness: map {name}"),
        }
    }
    /// real index -> (slot, position in the slot)
    fn back(&self, i: u32) -> Option<(i64, usize)> {
        self.0
            .iter()
            .enumerate()
            .find_map(|(s, v)| v.iter().position(|x| *x == i).map(|o| (s as i64, o)))
    }
    fn reals(&self, slots: &[i64]) -> Vec<u32> {
        slots.iter().flat_map(|s| self.0[*s as usize].iter().copied()).collect()
    }
}

pub fn atomic(b: &BitSet) -> AtomicBitSet {
    let a = AtomicBitSet::new();
    for i in b.iter() {
        a.add_atomic(i);
    }
    a
}
fn allocator(live: &[u32]) -> Allocator {
    let mut a = Allocator::new();
    fill(live, || a.allocate()).into_iter().for_each(|e| a.kill(e).unwrap_or_else(|_| panic!("harness: kill")));
    a
}
/// Creates entities up to the last live index; returns those that are to die.
fn fill(live: &[u32], mut f: impl FnMut() -> Entity) -> Vec<Entity> {
    let mut dead = vec![];
    if let Some(&max) = live.last() {
        for _ in 0..=max {
            let e = f();
            if live.binary_search(&e.index()).is_err() {
                dead.push(e);
            }
        }
    }
    dead
}

impl Fix {
    fn new(m: &[Vec<i64>; 3], map: &Map, threads: usize, cap: usize) -> Fix {
        let mut w = World::new();
        w.insert_component::<JA>();
        w.insert_component::<JB>();
        w.insert_component::<JC>();
        Fix {
            m: m.clone(),
            map: map.clone(),
            b1: BitSet::new(),
            b2: BitSet::new(),
            b3: BitSet::new(),
            a1: AtomicBitSet::new(),
            a2: AtomicBitSet::new(),
            a3: AtomicBitSet::new(),
            e1: Allocator::new(),
            e2: Allocator::new(),
            e3: Allocator::new(),
            s1: Default::default(),
            s2: Default::default(),
            s3: Default::default(),
            w,
            has: vec![],
            cap,
            threads,
        }
    }
    pub fn need(&mut self, what: &[&str]) {
        fn fill_storage<S: RawStorage>(s: &mut MaskedStorage<S>, k: i64, slots: &[i64], map: &Map)
        where
            S::Item: Cell,
        {
            for i in slots {
                for (o, r) in map.0[*i as usize].iter().enumerate() {
                    s.insert(*r, S::Item::new(100 * k + i + 1 + 1000 * o as i64));
                }
            }
        }
        for w in what {
            self.has.push(w.to_string());
            let (c, k) = w.split_at(1);
            let k = k.parse::<usize>().unwrap_or(0);
            let slots = if k > 0 { self.m[k - 1].clone() } else { vec![] };
            let reals = self.map.reals(&slots);
            match (c, k) {
                ("b", 1) => self.b1.extend(reals),
                ("b", 2) => self.b2.extend(reals),
                ("b", 3) => self.b3.extend(reals),
                ("a", 1) => reals.into_iter().for_each(|i| { self.a1.add_atomic(i); }),
                ("a", 2) => reals.into_iter().for_each(|i| { self.a2.add(i); }),
                ("a", 3) => reals.into_iter().for_each(|i| { self.a3.add_atomic(i); }),
                ("e", 1) => self.e1 = allocator(&reals),
                ("e", 2) => self.e2 = allocator(&reals),
                ("e", 3) => self.e3 = allocator(&reals),
                ("n", _) => {
                    let live = self.map.reals(&self.m[0]);
                    for e in fill(&live, || self.w.create_entity()) {
                        self.w.delete_entity(e).unwrap_or_else(|_| panic!("harness: delete"));
                    }
                }
                ("s", 1) => fill_storage(&mut self.s1, 1, &slots, &self.map),
                ("s", 2) => fill_storage(&mut self.s2, 2, &slots, &self.map),
                ("s", 3) => {
                    fill_storage(&mut self.s3, 3, &slots, &self.map);
                    self.s3.set_track_modified(true);
                }
                ("w", 1) => fill_storage(self.w.write_component::<JA>().storage_mut(), 1, &slots, &self.map),
                ("w", 2) => fill_storage(self.w.write_component::<JB>().storage_mut(), 2, &slots, &self.map),
                ("w", 3) => {
                    let mut a = self.w.write_component::<JC>();
                    fill_storage(a.storage_mut(), 3, &slots, &self.map);
                    a.set_track_modified(true);
                }
                ("d", _) | ("w", _) => {}
                _ => panic!("harness: need {w}"),
            }
        }
        // after the storages, which must exist
        let two = self.map.reals(&self.m[1]);
        if what.contains(&"d") {
            two.iter().for_each(|i| self.s3.mark_modified(*i));
        }
        if what.contains(&"wd") {
            let mut a = self.w.write_component::<JC>();
            two.iter().for_each(|i| a.storage_mut().mark_modified(*i));
        }
    }
    fn uses(&self, x: &str) -> bool {
        self.has.iter().any(|h| h == x)
    }

    /// One item, and the position in the block of indexes it stands for.
    fn abs(&self, it: &It, at: &mut Vec<usize>) -> J {
        match it {
            It::Idx(i) => match self.map.back(*i) {
                Some((s, o)) => {
                    at.push(o);
                    J::N(s)
                }
                None => J::N(-1000 - *i as i64),
            },
            It::Val(v) => {
                at.push((*v / 1000) as usize);
                J::N(v % 1000)
            }
            It::None => J::N(-1),
            It::Tup(v) => J::A(v.iter().map(|x| self.abs(x, at)).collect()),
        }
    }
    /// Each complete block of items, in order, becomes one item.
    fn items(&self, its: &[It], sort: bool) -> J {
        let mut v: Vec<(J, usize)> = its
            .iter()
            .map(|it| {
                let mut at = vec![];
                let j = self.abs(it, &mut at);
                let o = at.first().copied().unwrap_or(0);
                if at.iter().all(|x| *x == o) {
                    (j, o)
                } else {
                    (J::s(&format!("items of different indexes together: {j}")), 0)
                }
            })
            .collect();
        if sort {
            v.sort_by_cached_key(|(j, o)| (j.to_string(), *o));
        }
        let mut out = vec![];
        let mut i = 0;
        while i < v.len() {
            let n = slot_of(&v[i].0).and_then(|s| self.map.0.get(s)).map_or(1, |b| b.len());
            let g = &v[i..(i + n).min(v.len())];
            if n > 1 && g.len() == n && g.iter().enumerate().all(|(k, x)| x.1 == k && x.0 == v[i].0) {
                i += n;
                out.push(g[0].0.clone());
            } else if n > 1 {
                out.push(J::s(&format!("{} at {}", v[i].0, v[i].1)));
                i += 1;
            } else {
                out.push(v[i].0.clone());
                i += 1;
            }
        }
        if sort {
            J::Set(out)
        } else {
            J::A(out)
        }
    }

    fn contents<S: RawStorage>(&self, s: &MaskedStorage<S>) -> J
    where
        S::Item: Cell,
    {
        let its: Vec<It> = (0..self.map.0.len())
            .flat_map(|k| self.map.0[k].iter().copied())
            .filter(|i| s.contains(*i))
            .map(|i| It::Tup(vec![It::Idx(i), It::Val(s.get(i).map_or(-5, |c| c.v()))]))
            .collect();
        self.items(&its, false)
    }
    fn flagged<S: BitSetLike>(&self, s: S) -> J {
        let its: Vec<It> = s.iter().map(It::Idx).collect();
        match self.items(&its, false) {
            J::A(v) => J::Set(v),
            j => j,
        }
    }
    fn out(&self, r: Result<Vec<It>, ()>, sort: bool) -> Out {
        let (panic, items) = match &r {
            Ok(v) => (false, self.items(v, sort)),
            Err(()) => (true, J::A(vec![])),
        };
        let none = || J::A(vec![]);
        let (wa, wb, wc) = (self.w.read_component::<JA>(), self.w.read_component::<JB>(), self.w.read_component::<JC>());
        Out(obj! {
            panic: panic,
            items: items,
            s: vec![
                if self.uses("s1") { self.contents(&self.s1) } else { none() },
                if self.uses("s2") { self.contents(&self.s2) } else { none() },
                if self.uses("s3") { self.contents(&self.s3) } else { none() },
            ],
            w: vec![
                if self.uses("w1") { self.contents(wa.storage()) } else { none() },
                if self.uses("w2") { self.contents(wb.storage()) } else { none() },
                if self.uses("w3") { self.contents(wc.storage()) } else { none() },
            ],
            flagged: vec![
                if self.uses("s3") { self.flagged(self.s3.modified_indexes()) } else { none() },
                if self.uses("w3") { self.flagged(wc.modified_indexes()) } else { none() },
            ],
        })
    }
}

/// The slot an item of a block belongs to: named by any index or value in it.
fn slot_of(j: &J) -> Option<usize> {
    match j {
        J::N(n) if *n >= 100 => Some(((n % 50) - 1).max(0) as usize),
        J::N(n) if *n >= 0 => Some(*n as usize),
        J::A(v) => v.iter().find_map(slot_of),
        _ => None,
    }
}

pub struct Out(J);

fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 65] = [const { OnceLock::new() }; 65];
    P[n].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("harness: pool"))
}

/// The expression is evaluated anew in each branch.
macro_rules! ops {
    (@ $op:expr, $f:expr, $e:expr, $($rest:tt)*) => {{
        let cap = $f.cap;
        let threads = $f.threads;
        let _ = threads;
        let r = catch_unwind(AssertUnwindSafe(|| ops!(@@ $op, $f, $e, cap, threads, $($rest)*)));
        $f.out(r.map_err(|_| ()), $op.starts_with("par"))
    }};
    (@@ $op:expr, $f:expr, $e:expr, $cap:expr, $threads:expr, ) => {
        match $op {
            "join_u" => ($e).join_unconstrained().take($cap).map(|i| i.it()).collect::<Vec<It>>(),
            o => panic!("harness: {o}"),
        }
    };
    (@@ $op:expr, $f:expr, $e:expr, $cap:expr, $threads:expr, join) => {
        match $op {
            "join" => ($e).join().take($cap).map(|i| i.it()).collect::<Vec<It>>(),
            _ => ops!(@@ $op, $f, $e, $cap, $threads, ),
        }
    };
    (@@ $op:expr, $f:expr, $e:expr, $cap:expr, $threads:expr, par) => {
        match $op {
            // a join that should be refused is only built: it might never end
            "par" if $cap == 0 => {
                let _ = ($e).par_join();
                vec![]
            }
            "par" => collect(pool($threads), ($e).par_join()),
            "par_u" => collect(pool($threads), ($e).par_join_unconstrained()),
            _ => ops!(@@ $op, $f, $e, $cap, $threads, join),
        }
    };
    (try $f:expr, $e:expr) => {
{
        let a = JoinIter::new(($e).into_join()).is_ok();
        let b = goggles::JoinParIter::new(($e).into_join()).is_ok();
        let c = goggles::par_join::JoinParIter::new(($e).into_join()).is_ok();
        Out(obj! { panic: false, ok: vec![J::B(a), J::B(b), J::B(c)] })
    }    };
    (unchecked, $op:expr, $f:ident, $e:expr) => {
        ops!(@ $op, $f, $e, )
    };
    (seq, $op:expr, $f:ident, $e:expr) => {
        if $op == "try" { ops!(try $f, $e) } else { ops!(@ $op, $f, $e, join) }
    };
    (par, $op:expr, $f:ident, $e:expr) => {
        if $op == "try" { ops!(try $f, $e) } else { ops!(@ $op, $f, $e, par) }
    };
}

/// The join is built where it would panic, and driven in the given pool.
fn collect<P>(pool: &rayon::ThreadPool, p: P) -> Vec<It>
where
    P: ParallelIterator,
    P::Item: Item,
{
    struct Own<P>(P);
    // the iterator stays on the stack of this call while the pool runs it
    unsafe impl<P> Send for Own<P> {}
    let p = Own(p);
    pool.install(move || {
        let p = p;
        p.0.map(|i| i.it()).collect()
    })
}

#[path = "join_shapes.rs"]
mod shapes;

pub struct S {
    m: [Vec<i64>; 3],
    ready: bool,
    map: Map,
    single: bool,
    blocks: bool,
    threads: usize,
}

pub fn make(variant: &str) -> S {
    let (m, t) = variant.split_once('/').unwrap();
    S { m: Default::default(), ready: false, map: Map::new(m), single: m == "id", blocks: m == "blk", threads: t.parse().unwrap() }
}

impl Sut for S {
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        match op.at("op").str() {
            "setup" => {
                self.m = ["x", "y", "z"].map(|k| {
                    let mut v = a.at(k).ints();
                    v.sort();
                    v
                });
                self.ready = true;
                obj! { panic: false }
            }
            o => {
                let inf = a.at("inf").bool();
                if inf && !self.single {
                    return J::Skip;
                }
                if self.blocks && op.at("ret").get("items").map_or(false, |v| v.arr().iter().any(|x| slot_of(x).is_none())) {
                    // nothing in the item says which index of the block it is for
                    return J::Skip;
                }
                let cap = if inf { op.at("ret").at("items").arr().len() } else { 100_000 };
                let mut f = Fix::new(&self.m, &self.map, self.threads, cap);
                shapes::run(a.at("n").int() as usize, o, &mut f).0
            }
        }
    }
    fn observe(&mut self) -> J {
        obj! { ready: self.ready }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let o = op.at("op").str();
    let par = o.starts_with("par");
    match (o, field) {
        ("try", _) | (_, "ret.panic") => vec!["C12"],
        (_, "hang" | "crash") if op.at("ret").at("panic").bool() => vec!["C12"],
        (_, "ret.flagged") => vec!["C09"],
        (_, "ret.s") | (_, "ret.w") | (_, "ret.items") if par => vec!["C11"],
        _ if par => vec!["C11"],
        _ => vec!["C10"],
    }
}
