//! Records long and large histories (spec/ScaleTrace.tla).
use crate::comps::*;
use crate::json::J;
use crate::pools::pool;
use crate::rng::Rng;
use crate::val::{Led, Val};
use goggles::entity::Allocator;
use goggles::hibitset::{BitSet, BitSetAll, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use goggles::rayon::iter::ParallelIterator;
use goggles::storage::{DenseVecStorage, HashMapStorage, VecStorage};
use goggles::{Component, Entity, Flagged, IntoJoinExt, MaskedStorage, ParJoinExt, World};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU8, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};

const TYPES: usize = 6;

/// Numbers for new values: every value written anywhere in a recording is different.
static NEXT: AtomicI64 = AtomicI64::new(1);
fn fresh() -> i64 {
    NEXT.fetch_add(1, Ordering::SeqCst)
}

fn ints<I: IntoIterator<Item = i64>>(i: I) -> J {
    J::seq(i)
}
fn rows(v: &[Vec<i64>]) -> J {
    J::A(v.iter().map(|r| ints(r.iter().copied())).collect())
}

/// What the value's reader sees.  Zero means that there is none, so nothing is ever zero.
trait HasVal {
    fn v(&self) -> &Val;
    fn vm(&mut self) -> &mut Val;
}
impl HasVal for Val {
    fn v(&self) -> &Val {
        self
    }
    fn vm(&mut self) -> &mut Val {
        self
    }
}
macro_rules! hv {
    ($($t:ident)*) => { $(impl HasVal for $t {
        fn v(&self) -> &Val { self.val() }
        fn vm(&mut self) -> &mut Val { self.val_mut() }
    })* };
}
hv!(CVec CDense CHash CFVec CFDense CFHash);

fn see<T: HasVal>(t: &T) -> i64 {
    t.v().see()
}
fn change<T: HasVal>(t: &mut T) -> (i64, i64) {
    let old = t.v().see();
    let new = fresh();
    t.vm().tag = new;
    (old, new)
}

#[derive(Default)]
struct Raw {
    s0: MaskedStorage<VecStorage<Val>>,
    s1: MaskedStorage<DenseVecStorage<Val>>,
    s2: MaskedStorage<HashMapStorage<Val>>,
    s3: MaskedStorage<Flagged<VecStorage<Val>>>,
    s4: MaskedStorage<Flagged<DenseVecStorage<Val>>>,
    s5: MaskedStorage<Flagged<HashMapStorage<Val>>>,
}

enum Sub {
    Alloc(Allocator),
    World(World),
    Raw(Box<Raw>),
}

struct Rec {
    out: std::io::BufWriter<std::fs::File>,
    sub: Sub,
    led: Led,
    handles: HashMap<Entity, i64>,
    ents: Vec<Entity>,
    /// what the recorder believes to be live, to choose what to do
    live: Vec<i64>,
    pend: bool,
    /// some entities with pending requests
    pends: Vec<i64>,
    events: usize,
    dead: bool,
    bits: BitSet,
}

macro_rules! raw {
    ($w:expr, $t:expr, $s:ident => $e:expr) => {
        match $t {
            0 => { let $s = &mut $w.s0; $e }
            1 => { let $s = &mut $w.s1; $e }
            2 => { let $s = &mut $w.s2; $e }
            3 => { let $s = &mut $w.s3; $e }
            4 => { let $s = &mut $w.s4; $e }
            _ => { let $s = &mut $w.s5; $e }
        }
    };
}
macro_rules! tracked {
    ($w:expr, $t:expr, $s:ident => $e:expr) => {
        match $t {
            3 => { let $s = &mut $w.s3; $e }
            4 => { let $s = &mut $w.s4; $e }
            _ => { let $s = &mut $w.s5; $e }
        }
    };
}
macro_rules! comp {
    ($t:expr, $c:ident => $e:expr) => {
        match $t {
            0 => { type $c = CVec; $e }
            1 => { type $c = CDense; $e }
            2 => { type $c = CHash; $e }
            3 => { type $c = CFVec; $e }
            4 => { type $c = CFDense; $e }
            _ => { type $c = CFHash; $e }
        }
    };
}
macro_rules! tcomp {
    ($t:expr, $c:ident => $e:expr) => {
        match $t {
            3 => { type $c = CFVec; $e }
            4 => { type $c = CFDense; $e }
            _ => { type $c = CFHash; $e }
        }
    };
}

/// Turn the first column of a join's items into the number that stands for it.
trait Ident: Copy + Send {
    fn num(self, h: &HashMap<Entity, i64>) -> i64;
}
impl Ident for u32 {
    fn num(self, _: &HashMap<Entity, i64>) -> i64 {
        self as i64
    }
}
impl Ident for Entity {
    fn num(self, h: &HashMap<Entity, i64>) -> i64 {
        h.get(&self).copied().unwrap_or(0)
    }
}

/// The same join, one after the other or on a pool.
macro_rules! go {
    ($p:expr, $j:expr, $f:expr) => {
        if $p == 0 {
            ($j).join().map($f).collect::<Vec<_>>()
        } else {
            pool($p).install(|| ($j).par_join().map($f).collect::<Vec<_>>())
        }
    };
}

/// What the other ways to use an iterator say of a join: how many, the last, every third one from the
/// second on, every third one, and whether the promised bounds on the number hold.
struct Ways {
    n: i64,
    last: Vec<Vec<i64>>,
    step: Vec<Vec<i64>>,
    nth: Vec<Vec<i64>>,
    hint: bool,
}
impl Ways {
    fn none() -> Ways {
        Ways { n: -1, last: vec![], step: vec![], nth: vec![], hint: true }
    }
    fn json(&self) -> J {
        J::O(vec![
            ("n".to_string(), J::N(self.n)),
            ("last".to_string(), rows(&self.last)),
            ("step".to_string(), rows(&self.step)),
            ("nth".to_string(), rows(&self.nth)),
            ("hint".to_string(), J::B(self.hint)),
        ])
    }
}

/// A join that changes nothing, used in several ways.
macro_rules! ro {
    ($w:expr, $p:expr, $j:expr, $f:expr) => {{
        let v = go!($p, $j, $f);
        if $p != 0 {
            $w.n = pool($p).install(|| ($j).par_join().count()) as i64;
        } else {
            $w.n = ($j).join().count() as i64;
            $w.last = ($j).join().last().map($f).into_iter().collect();
            $w.step = ($j).join().skip(1).step_by(3).map($f).collect();
            let mut it = ($j).join();
            while let Some(x) = it.nth(2) {
                $w.nth.extend(Some(x).map($f));
            }
            let mut it = ($j).join();
            for left in (0..=v.len()).rev() {
                let (lo, hi) = it.size_hint();
                $w.hint &= lo <= left && hi.map_or(true, |hi| left <= hi);
                it.next();
            }
            $w.hint &= it.next().is_none() && ($j).join().fold(0, |n, _| n + 1) == v.len();
        }
        v
    }};
}

/// All the join shapes over three storages.
macro_rules! shapes {
    ($ways:expr, $id:expr, $k:expr, $p:expr, $h:expr, $bits:expr, $a:ident, $b:ident, $c:ident) => {{
        let h = $h;
        match $k {
            "maybe" => ro!($ways, $p, ($id, &*$a, (&*$b).maybe()), |(e, a, b)| vec![e.num(h), see(a), b.map_or(0, |b| see(b))]),
            "mut" => go!($p, ($id, &mut *$a, &*$b), |(e, a, b)| {
                let (old, new) = change(a);
                vec![e.num(h), old, new, see(b)]
            }),
            "not" => ro!($ways, $p, ($id, &*$a, BitSetNot($b.mask())), |(e, a, _)| vec![e.num(h), see(a)]),
            "guard" => go!($p, ($id, $a.guard()), |(e, mut g)| {
                let old = see(g.get());
                if old % 3 == 0 {
                    let (_, new) = change(g.get_mut());
                    vec![e.num(h), old, new]
                } else {
                    vec![e.num(h), old, 0]
                }
            }),
            "or" => ro!($ways, $p, ($id, BitSetOr($a.mask(), $b.mask()), &*$c), |(e, _, c)| vec![e.num(h), see(c)]),
            "xor" => ro!($ways, $p, ($id, BitSetXor($a.mask(), $b.mask())), |(e, _)| vec![e.num(h)]),
            "nor" => ro!($ways, $p, ($id, BitSetNot(BitSetOr($a.mask(), $b.mask())), &*$c), |(e, _, c)| vec![e.num(h), see(c)]),
            "bits" => ro!($ways, $p, ($id, $bits, &*$a), |(e, _, a)| vec![e.num(h), see(a)]),
            "three" => ro!($ways, $p, ($id, &*$a, &*$b, &*$c), |(e, a, b, c)| vec![e.num(h), see(a), see(b), see(c)]),
            k => panic!("harness: no join {k}"),
        }
    }};
}
const SHAPES: &[&str] = &["maybe", "mut", "not", "guard", "or", "xor", "nor", "bits", "three"];
/// Which three storages a join is over.
const TRIPLES: &[[usize; 3]] = &[[0, 1, 2], [1, 2, 3], [5, 0, 4], [3, 4, 5], [4, 1, 0], [2, 5, 1]];

impl Rec {
    fn open(out: &str) -> Rec {
        NEXT.store(1, Ordering::SeqCst);
        Rec {
            out: std::io::BufWriter::new(std::fs::File::create(out).unwrap()),
            sub: Sub::Alloc(Allocator::new()),
            led: Led::start(),
            handles: HashMap::new(),
            ents: vec![],
            live: vec![],
            pend: false,
            pends: vec![],
            events: 0,
            dead: false,
            bits: BitSet::new(),
        }
    }
    fn emit(&mut self, mut o: Vec<(&str, J)>) {
        let gone = self.led.gone();
        o.push(("d", ints(gone)));
        o.push(("e", J::N(self.led.errors())));
        let j = J::O(o.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        writeln!(self.out, "{j}").unwrap();
        self.events += 1;
    }
    fn start(&mut self, kind: &str) {
        self.sub = match kind {
            "alloc" => Sub::Alloc(Allocator::new()),
            "raw" => Sub::Raw(Default::default()),
            _ => {
                let mut w = World::new();
                if kind == "world" {
                    w.insert_component::<CVec>();
                    w.insert_component::<CDense>();
                    w.insert_component::<CHash>();
                    w.insert_component::<CFVec>();
                    w.insert_component::<CFDense>();
                    w.insert_component::<CFHash>();
                }
                Sub::World(w)
            }
        };
        self.led = Led::start();
        NEXT.store(1, Ordering::SeqCst);
        self.handles.clear();
        self.ents.clear();
        self.live.clear();
        self.pend = false;
        self.pends.clear();
        self.dead = false;
        let types = if kind == "raw" || kind == "world" { TYPES } else { 0 };
        self.emit(vec![("o", J::s("new")), ("kind", J::s(kind)), ("raw", J::B(kind == "raw")), ("types", J::from(types))]);
    }
    /// Run `f`, turning a panic into an event that ends the recording of this history.
    fn guard<R>(&mut self, what: &str, f: impl FnOnce(&mut Rec) -> R) -> Option<R> {
        if self.dead {
            return None;
        }
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => Some(r),
            Err(p) => {
                let msg = crate::graph::panic_text(p);
                self.dead = true;
                self.emit(vec![("o", J::s("panic")), ("in", J::s(what)), ("msg", J::S(msg.chars().take(200).collect()))]);
                None
            }
        }
    }
    fn end(&mut self) {
        self.end_with(None)
    }
    /// Drops everything, maybe with a destructor that panics.
    fn end_with(&mut self, at: Option<(usize, i64)>) {
        self.guard("end", |r| {
            let bomb = r.arm(at);
            let s = std::mem::replace(&mut r.sub, Sub::Alloc(Allocator::new()));
            let mut pan = false;
            if bomb != 0 || r.events % 2 == 0 {
                pan = catch_unwind(AssertUnwindSafe(move || drop(s))).is_err();
            } else {
                // it goes while a panic unwinds
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _s = s;
                    std::panic::panic_any("harness: unwinding");
                }));
            }
            r.led.bomb_armed();
            r.emit(vec![("o", J::s("end")), ("bomb", J::N(bomb)), ("pan", J::B(pan))]);
        });
    }
    /// From now on the destructor of a value there, of this type if there is one, panics once.  Says
    /// which value that is.
    fn arm(&mut self, at: Option<(usize, i64)>) -> i64 {
        let Some((t, h)) = at else { return 0 };
        fn id<T: HasVal>(x: &T) -> (u32, i64) {
            (x.v().uid(), see(x))
        }
        let v = (0..TYPES).find_map(|k| {
            let t = (t + k) % TYPES;
            match &mut self.sub {
                Sub::Raw(w) => raw!(w, t, s => s.get(h as u32).map(|x| id(x))),
                Sub::World(w) => comp!(t, C => w.read_component::<C>().get(self.ents[h as usize - 1]).map(|x| id(x))),
                Sub::Alloc(_) => None,
            }
        });
        v.map_or(0, |(uid, tag)| {
            self.led.set_bomb(uid);
            tag
        })
    }
    /// The storage of a type is removed from the world, or registered again.
    fn rereg(&mut self, t: usize, remove: bool, at: Option<(usize, i64)>) {
        self.guard("rereg", |r| {
            let bomb = r.arm(at);
            let Sub::World(w) = &mut r.sub else { unreachable!() };
            let (had, pan) = comp!(t, C => {
                let old = if remove {
                    let o = w.remove_component::<C>();
                    w.insert_component::<C>();
                    o
                } else {
                    w.insert_component::<C>()
                };
                (old.is_some(), catch_unwind(AssertUnwindSafe(move || drop(old))).is_err())
            });
            r.led.bomb_armed();
            r.emit(vec![("o", J::s("rereg")), ("t", J::from(t + 1)), ("had", J::B(had)), ("bomb", J::N(bomb)), ("pan", J::B(pan))]);
        });
    }
    /// A join over the multiples of `a` and of `b` below `n`, only counted.
    fn many(&mut self, n: u32, a: u32, b: u32, p: usize, write: bool) {
        self.guard(if p == 0 { "join" } else { "joinp" }, |r| {
            let mut store = MaskedStorage::<VecStorage<u32>>::default();
            for k in (0..n).step_by(a as usize) {
                store.insert(k, k ^ 0x55);
            }
            let set: BitSet = (0..n).step_by(b as usize).collect();
            let visits: Vec<AtomicU8> = (0..n + 64).map(|_| AtomicU8::new(0)).collect();
            let (wrong, last, unsorted) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
            let visit = |k: u32, v: u32| {
                if visits[k as usize].fetch_add(1, Ordering::Relaxed) == u8::MAX {
                    visits[k as usize].store(u8::MAX, Ordering::Relaxed);
                }
                if v != k ^ 0x55 || k % a != 0 || k % b != 0 {
                    wrong.fetch_add(1, Ordering::Relaxed);
                }
                if p == 0 && last.swap(k as usize + 1, Ordering::Relaxed) > k as usize {
                    unsorted.fetch_add(1, Ordering::Relaxed);
                }
            };
            match (p, write) {
                (0, false) => (&set, &store).join().for_each(|(k, v)| visit(k, *v)),
                (0, true) => (&set, &mut store).join().for_each(|(k, v)| {
                    visit(k, *v);
                    *v ^= 0x3300;
                }),
                (_, false) => pool(p).install(|| (&set, &store).par_join().for_each(|(k, v)| visit(k, *v))),
                (_, true) => pool(p).install(|| {
                    (&set, &mut store).par_join().for_each(|(k, v)| {
                        visit(k, *v);
                        *v ^= 0x3300;
                    })
                }),
            }
            let count = |f: &dyn Fn(u8) -> bool| visits.iter().filter(|v| f(v.load(Ordering::Relaxed))).count();
            // what is written is found there afterwards, and nothing else
            let kept = (&set, &store).join().count();
            let changed = (0..n).filter(|&k| store.get(k).map_or(false, |v| *v == k ^ 0x3355)).count();
            let intact = (0..n).filter(|&k| store.get(k).map_or(false, |v| *v == k ^ 0x55)).count();
            r.emit(vec![
                ("o", J::s("many")), ("size", J::from(n as usize)), ("a", J::from(a as usize)), ("b", J::from(b as usize)), ("p", J::from(p)), ("write", J::B(write)),
                ("visited", J::from(count(&|v| v > 0))), ("twice", J::from(count(&|v| v > 1))), ("wrong", J::from(wrong.load(Ordering::Relaxed))),
                ("unsorted", J::from(unsorted.load(Ordering::Relaxed))), ("kept", J::from(kept)), ("changed", J::from(changed)), ("intact", J::from(intact)),
            ]);
        });
    }
    /// A mutable join whose body panics at the n-th item.
    fn join_panic(&mut self, ab: [usize; 2], n: usize, p: usize) {
        self.guard(if p == 0 { "join" } else { "joinp" }, |r| {
            let h = &r.handles;
            let seen: Mutex<Vec<Vec<i64>>> = Mutex::new(vec![]);
            macro_rules! bad {
                ($id:expr, $a:expr, $b:expr) => {
                    catch_unwind(AssertUnwindSafe(|| {
                        go!(p, ($id, $a, $b), |(e, a, b)| {
                            let (x, y) = change(a);
                            let mut s = seen.lock().unwrap_or_else(|e| e.into_inner());
                            s.push(vec![e.num(h), x, y, see(b)]);
                            if s.len() == n {
                                std::panic::panic_any("harness: body");
                            }
                        });
                    }))
                    .is_err()
                };
            }
            let pan = match &mut r.sub {
                Sub::Raw(w) => {
                    let Raw { s0, s1, s2, s3, s4, s5 } = &mut **w;
                    let all = BitSetAll;
                    match ab {
                        [0, 4] => bad!(&all, s0, &*s4),
                        [4, 1] => bad!(&all, s4, &*s1),
                        [2, 3] => bad!(&all, s2, &*s3),
                        _ => bad!(&all, s5, &*s0),
                    }
                }
                Sub::World(w) => {
                    macro_rules! with {
                        ($a:ident $b:ident) => {{
                            let ents = w.entities();
                            // the borrows end with the panic
                            catch_unwind(AssertUnwindSafe(|| {
                                let (mut a, b) = (w.write_component::<$a>(), w.read_component::<$b>());
                                if bad!(&ents, &mut a, &b) {
                                    std::panic::panic_any("harness: body");
                                }
                            }))
                            .is_err()
                        }};
                    }
                    match ab {
                        [0, 4] => with!(CVec CFDense),
                        [4, 1] => with!(CFDense CDense),
                        [2, 3] => with!(CHash CFVec),
                        _ => with!(CFHash CVec),
                    }
                }
                Sub::Alloc(_) => unreachable!(),
            };
            let g = seen.into_inner().unwrap_or_else(|e| e.into_inner());
            r.emit(vec![("o", J::s("jpan")), ("k", J::s("mut")), ("p", J::from(p)), ("a", J::from(ab[0] + 1)), ("b", J::from(ab[1] + 1)), ("c", J::N(1)),
                        ("n", J::from(n)), ("g", rows(&g)), ("pan", J::B(pan))]);
        });
    }

    // ----- entities
    fn handle(&mut self, e: Entity) -> i64 {
        if let Some(h) = self.handles.get(&e) {
            return *h;
        }
        self.ents.push(e);
        let h = self.ents.len() as i64;
        self.handles.insert(e, h);
        h
    }
    fn known(&self, e: Entity) -> i64 {
        self.handles.get(&e).copied().unwrap_or(0)
    }
    fn is_alive(&self, e: Entity) -> bool {
        match &self.sub {
            Sub::Alloc(a) => a.is_alive(e),
            Sub::World(w) => w.entities().is_alive(e),
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn entity(&self, i: u32) -> Option<Entity> {
        match &self.sub {
            Sub::Alloc(a) => a.entity(i),
            Sub::World(w) => w.entities().entity(i),
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn max(&self) -> u32 {
        match &self.sub {
            Sub::Alloc(a) => a.max_entity_count(),
            Sub::World(w) => w.entities().max_entity_count(),
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn make(&mut self, atomic: bool) -> Entity {
        match &mut self.sub {
            Sub::Alloc(a) => if atomic { a.allocate_atomic() } else { a.allocate() },
            Sub::World(w) => if atomic { w.entities().create() } else { w.create_entity() },
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn kill_one(&mut self, e: Entity) -> bool {
        match &mut self.sub {
            Sub::Alloc(a) => a.kill(e).is_ok(),
            Sub::World(w) => w.delete_entity(e).is_ok(),
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn req_one(&mut self, e: Entity) -> bool {
        match &mut self.sub {
            Sub::Alloc(a) => a.kill_atomic(e).is_ok(),
            Sub::World(w) => w.entities().delete(e).is_ok(),
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn merge_now(&mut self, killed: &mut Vec<Entity>) -> bool {
        match &mut self.sub {
            Sub::Alloc(a) => {
                a.merge_atomic(killed);
                true
            }
            Sub::World(w) => {
                w.merge();
                false
            }
            Sub::Raw(_) => unreachable!(),
        }
    }
    fn create(&mut self, n: usize, atomic: bool) {
        self.guard("create", |r| {
            let (mut h, mut i, mut na, mut z) = (vec![], vec![], 0, 0);
            for _ in 0..n {
                let e = r.make(atomic);
                na += !r.is_alive(e) as i64;
                z += (e.generation() == 0) as i64;
                i.push(e.index() as i64);
                h.push(r.handle(e));
            }
            r.live.extend(&h);
            r.emit(vec![("o", J::s("create")), ("atomic", J::B(atomic)), ("h", ints(h)), ("i", ints(i)), ("na", J::N(na)), ("z", J::N(z))]);
        });
    }
    fn churn(&mut self, n: usize, how: usize) {
        if how >= 2 && self.pend {
            self.merge();
        }
        self.guard("churn", |r| {
            let (mut idx, mut z, mut old, mut fresh, mut rep) = (HashSet::new(), 0, 0, 0, 0);
            let mut mine: Vec<Entity> = vec![];
            for _ in 0..n {
                let e = r.make(how % 2 == 1);
                let before = r.ents.len();
                r.handle(e);
                fresh += (r.ents.len() > before) as i64;
                z += (e.generation() == 0) as i64;
                idx.insert(e.index() as i64);
                // none of the earlier ones may be live again
                let m = mine.len();
                for back in [1, 2, 3, 4, 128, 256, 512, 32768, 65536, m] {
                    if back <= m && back > 0 {
                        old += r.is_alive(mine[m - back]) as i64;
                    }
                }
                mine.push(e);
                let mut killed = vec![e];
                if how < 2 {
                    rep += !r.kill_one(e) as i64;
                } else {
                    rep += !r.req_one(e) as i64;
                    if r.merge_now(&mut killed) {
                        rep += (killed != vec![e]) as i64;
                    }
                }
            }
            let idx: Vec<i64> = idx.into_iter().collect();
            r.emit(vec![("o", J::s("churn")), ("how", J::from(how)), ("n", J::from(n)), ("i", ints(idx)), ("z", J::N(z)), ("old", J::N(old)),
                        ("fresh", J::N(fresh)), ("rep", J::N(rep))]);
        });
    }
    fn kill(&mut self, h: &[i64], deferred: bool) {
        self.kill_with(h, deferred, None)
    }
    fn kill_with(&mut self, h: &[i64], deferred: bool, at: Option<(usize, i64)>) {
        let what = if deferred { "req" } else { "kill" };
        self.guard(what, |r| {
            let bomb = r.arm(at);
            let mut pan = false;
            let ok: Vec<bool> = h
                .iter()
                .map(|&h| {
                    let e = r.ents[h as usize - 1];
                    if deferred {
                        r.req_one(e)
                    } else if bomb == 0 {
                        r.kill_one(e)
                    } else {
                        // the panic takes the place of the reply that it was killed
                        catch_unwind(AssertUnwindSafe(|| r.kill_one(e))).unwrap_or_else(|_| {
                            pan = true;
                            true
                        })
                    }
                })
                .collect();
            r.led.bomb_armed();
            if deferred {
                r.pend = true;
            } else {
                let s: HashSet<i64> = h.iter().copied().collect();
                r.live.retain(|h| !s.contains(h));
            }
            r.emit(vec![("o", J::s(what)), ("h", ints(h.iter().copied())), ("ok", ints(ok.iter().map(|&b| b as i64))), ("bomb", J::N(bomb)), ("pan", J::B(pan))]);
        });
    }
    fn merge(&mut self) {
        self.merge_with(None)
    }
    fn merge_with(&mut self, at: Option<(usize, i64)>) {
        self.guard("merge", |r| {
            let bomb = r.arm(at);
            let mut pan = false;
            // something that was in the list before must not stay in it
            let mut killed: Vec<Entity> = r.ents.iter().take(2).copied().collect();
            let reports = if bomb == 0 {
                r.merge_now(&mut killed)
            } else {
                catch_unwind(AssertUnwindSafe(|| r.merge_now(&mut killed))).unwrap_or_else(|_| {
                    pan = true;
                    false
                })
            };
            r.led.bomb_armed();
            let rep = if reports { ints(killed.iter().map(|&e| r.known(e))) } else { ints([-1]) };
            r.pend = false;
            let live: Vec<i64> = r.live.iter().copied().filter(|&h| r.is_alive(r.ents[h as usize - 1])).collect();
            r.live = live;
            r.emit(vec![("o", J::s("merge")), ("rep", rep), ("bomb", J::N(bomb)), ("pan", J::B(pan))]);
        });
    }
    fn see(&mut self) {
        self.guard("see", |r| {
            let live: Vec<i64> = (1..=r.ents.len() as i64).filter(|&h| r.is_alive(r.ents[h as usize - 1])).collect();
            let max = r.max();
            let mut look = vec![];
            for i in (0..max + 70).chain([(1 << 18) - 1, 1 << 18, (1 << 24) - 1, 1 << 24, u32::MAX]) {
                if let Some(e) = r.entity(i) {
                    look.push(if e.index() == i { r.known(e) } else { 0 });
                }
            }
            let (set, join): (Vec<i64>, Vec<Entity>) = match &r.sub {
                Sub::Alloc(a) => (a.live_bitset().iter().map(|i| i as i64).collect(), a.join().collect()),
                Sub::World(w) => (w.entities().live_bitset().iter().map(|i| i as i64).collect(), (&w.entities()).join().collect()),
                Sub::Raw(_) => unreachable!(),
            };
            let join: Vec<i64> = join.into_iter().map(|e| r.known(e)).collect();
            // entities of an allocator that has used its first indexes many times
            static FOREIGN: OnceLock<Vec<Entity>> = OnceLock::new();
            let f = FOREIGN.get_or_init(|| {
                let mut a = Allocator::new();
                let mut v: Vec<Entity> = vec![];
                for _ in 0..3 {
                    let es: Vec<Entity> = (0..40).map(|_| a.allocate()).collect();
                    for _ in 0..30 {
                        a.allocate_atomic();
                    }
                    v.extend(&es);
                    for e in es {
                        a.kill(e).unwrap();
                    }
                }
                v
            });
            // only those that are not equal to one handed out here are foreign
            let foreign = f.iter().any(|&e| !r.handles.contains_key(&e) && r.is_alive(e));
            r.emit(vec![("o", J::s("see")), ("live", ints(live)), ("look", ints(look)), ("set", ints(set)), ("join", ints(join)), ("max", J::from(max)), ("foreign", J::B(foreign))]);
        });
    }

    // ----- components
    fn op(&mut self, o: &str, t: usize, h: &[i64]) {
        self.guard(o, |r| {
            let led = r.led;
            let mut rs = vec![];
            let mut vs = vec![];
            for &h in h {
                let v = fresh();
                vs.push(v);
                let res: i64 = match &mut r.sub {
                    Sub::Raw(w) => {
                        let i = h as u32;
                        raw!(w, t, s => match o {
                            "put" => s.insert(i, led.val(v)).map_or(0, |v| led.take(v)),
                            "take" => s.remove(i).map_or(0, |v| led.take(v)),
                            "goi" => see(s.get_or_insert_with(i, || led.val(v))),
                            "get" => s.get(i).map_or(0, |x| see(x)),
                            "mut" => s.get_mut(i).map_or(0, |x| { let old = x.see(); x.tag = v; old }),
                            "gread" => s.get_guard(i).map_or(0, |g| see(g.get())),
                            _ => s.get_guard(i).map_or(0, |mut g| { let x = g.get_mut(); let old = x.see(); x.tag = v; old }),
                        })
                    }
                    Sub::World(w) => {
                        let e = r.ents[h as usize - 1];
                        comp!(t, C => {
                            // the three ways to the components of a type
                            match h % 3 {
                                0 if o == "get" => w.read_component::<C>().get(e).map_or(0, |x| see(x)),
                                1 => one::<C, _>(o, w.get_component_mut::<C>(), e, v, led),
                                _ => one::<C, _>(o, w.write_component::<C>(), e, v, led),
                            }
                        })
                    }
                    Sub::Alloc(_) => unreachable!(),
                };
                rs.push(res);
            }
            r.emit(vec![("o", J::s(o)), ("t", J::from(t + 1)), ("h", ints(h.iter().copied())), ("v", ints(vs)), ("r", ints(rs))]);
        });
    }
    fn scan(&mut self, t: usize) {
        self.guard("scan", |r| {
            let (mut get, mut has) = (vec![], vec![]);
            let (mask, mods, trk, slice): (Vec<i64>, Vec<i64>, bool, Vec<i64>);
            match &mut r.sub {
                Sub::Raw(w) => {
                    mask = raw!(w, t, s => s.mask().iter().map(|i| i as i64).collect());
                    for &i in &mask {
                        for i in [i, i + 1, i + 64] {
                            // `contains` on everything that is present and some that may not be
                            if raw!(w, t, s => s.contains(i as u32)) {
                                has.push(i);
                            }
                            if let Some(v) = raw!(w, t, s => s.get(i as u32).map(|x| see(x))) {
                                get.push(vec![i, v]);
                            }
                        }
                    }
                    get.sort();
                    get.dedup();
                    has.sort();
                    has.dedup();
                    (mods, trk) = if t >= 3 {
                        tracked!(w, t, s => (s.modified_indexes().iter().map(|i| i as i64).collect(), s.tracking_modified()))
                    } else {
                        (vec![-1], false)
                    };
                    slice = if t == 1 { w.s1.as_slice().iter().map(|x| see(x)).collect() } else { vec![-1] };
                }
                Sub::World(w) => {
                    comp!(t, C => {
                        let a = w.read_component::<C>();
                        mask = a.mask().iter().map(|i| i as i64).collect();
                        for (k, &e) in r.ents.iter().enumerate() {
                            if let Some(v) = a.get(e) {
                                get.push(vec![k as i64 + 1, see(v)]);
                            }
                            if a.contains(e) {
                                has.push(k as i64 + 1);
                            }
                        }
                    });
                    (mods, trk) = if t >= 3 {
                        tcomp!(t, C => {
                            let a = w.read_component::<C>();
                            let m = a.modified_indexes().iter().map(|i| i as i64).collect();
                            (m, a.tracking_modified())
                        })
                    } else {
                        (vec![-1], false)
                    };
                    slice = if t == 1 { w.read_component::<CDense>().as_slice().iter().map(|x| see(x)).collect() } else { vec![-1] };
                }
                Sub::Alloc(_) => unreachable!(),
            }
            r.emit(vec![("o", J::s("scan")), ("t", J::from(t + 1)), ("mask", ints(mask)), ("get", rows(&get)), ("has", ints(has)),
                        ("mods", ints(mods)), ("trk", J::B(trk)), ("slice", ints(slice))]);
        });
    }
    fn slice(&mut self) {
        // numbers stay below 2^30
        if NEXT.load(Ordering::SeqCst) > 1 << 28 {
            return;
        }
        self.guard("slice", |r| {
            let by = NEXT.load(Ordering::SeqCst);
            NEXT.store(2 * by, Ordering::SeqCst);
            fn add<T: HasVal>(s: &mut [T], by: i64) -> Vec<i64> {
                s.iter_mut().map(|x| { let old = see(x); x.vm().tag += by; old }).collect()
            }
            let s = match &mut r.sub {
                Sub::Raw(w) => add(w.s1.as_mut_slice(), by),
                Sub::World(w) => add(w.write_component::<CDense>().as_mut_slice(), by),
                Sub::Alloc(_) => unreachable!(),
            };
            r.emit(vec![("o", J::s("slice")), ("t", J::N(2)), ("by", J::N(by)), ("s", ints(s))]);
        });
    }
    fn track(&mut self, t: usize, b: bool) {
        self.guard("track", |r| {
            match &mut r.sub {
                Sub::Raw(w) => tracked!(w, t, s => s.set_track_modified(b)),
                Sub::World(w) => tcomp!(t, C => w.write_component::<C>().set_track_modified(b)),
                Sub::Alloc(_) => unreachable!(),
            }
            r.emit(vec![("o", J::s("track")), ("t", J::from(t + 1)), ("b", J::B(b))]);
        });
    }
    fn clear(&mut self, t: usize) {
        self.guard("clear", |r| {
            match &mut r.sub {
                Sub::Raw(w) => tracked!(w, t, s => s.clear_modified()),
                Sub::World(w) => tcomp!(t, C => w.get_component_mut::<C>().clear_modified()),
                Sub::Alloc(_) => unreachable!(),
            }
            r.emit(vec![("o", J::s("clear")), ("t", J::from(t + 1))]);
        });
    }
    fn mark(&mut self, t: usize, h: &[i64]) {
        self.guard("mark", |r| {
            let ok: Vec<i64> = match &mut r.sub {
                Sub::Raw(w) => h.iter().map(|&i| { tracked!(w, t, s => s.mark_modified(i as u32)); 1 }).collect(),
                Sub::World(w) => tcomp!(t, C => {
                    let a = w.read_component::<C>();
                    h.iter().map(|&h| a.mark_modified(r.ents[h as usize - 1]).is_ok() as i64).collect()
                }),
                Sub::Alloc(_) => unreachable!(),
            };
            r.emit(vec![("o", J::s("mark")), ("t", J::from(t + 1)), ("h", ints(h.iter().copied())), ("ok", ints(ok))]);
        });
    }
    fn join(&mut self, k: &str, tr: [usize; 3], p: usize) {
        let what = if p == 0 { "join" } else { "joinp" };
        self.guard(what, |r| {
            let h = &r.handles;
            let bits = &r.bits;
            let mut ways = Ways::none();
            let g: Vec<Vec<i64>> = match &mut r.sub {
                Sub::Raw(w) => {
                    let Raw { s0, s1, s2, s3, s4, s5 } = &mut **w;
                    let all = BitSetAll;
                    match tr {
                        [0, 1, 2] => shapes!(ways, &all, k, p, h, bits, s0, s1, s2),
                        [1, 2, 3] => shapes!(ways, &all, k, p, h, bits, s1, s2, s3),
                        [5, 0, 4] => shapes!(ways, &all, k, p, h, bits, s5, s0, s4),
                        [3, 4, 5] => shapes!(ways, &all, k, p, h, bits, s3, s4, s5),
                        [4, 1, 0] => shapes!(ways, &all, k, p, h, bits, s4, s1, s0),
                        _ => shapes!(ways, &all, k, p, h, bits, s2, s5, s1),
                    }
                }
                Sub::World(w) => {
                    macro_rules! with {
                        ($a:ident $b:ident $c:ident) => {{
                            let ents = w.entities();
                            let (mut a, b, c) = (w.write_component::<$a>(), w.read_component::<$b>(), w.read_component::<$c>());
                            let (a, b, c) = (&mut a, &b, &c);
                            shapes!(ways, &ents, k, p, h, bits, a, b, c)
                        }};
                    }
                    match tr {
                        [0, 1, 2] => with!(CVec CDense CHash),
                        [1, 2, 3] => with!(CDense CHash CFVec),
                        [5, 0, 4] => with!(CFHash CVec CFDense),
                        [3, 4, 5] => with!(CFVec CFDense CFHash),
                        [4, 1, 0] => with!(CFDense CDense CVec),
                        _ => with!(CHash CFHash CDense),
                    }
                }
                Sub::Alloc(_) => unreachable!(),
            };
            let b = if k == "bits" { ints(r.bits.clone().iter().map(|i| i as i64)) } else { ints([]) };
            r.emit(vec![("o", J::s("join")), ("k", J::s(k)), ("p", J::from(p)), ("a", J::from(tr[0] + 1)), ("b", J::from(tr[1] + 1)), ("c", J::from(tr[2] + 1)),
                        ("bits", b), ("g", rows(&g)), ("w", ways.json())]);
        });
    }
    fn modified(&mut self, t: usize, mutable: bool, p: usize) {
        self.guard(if p == 0 { "join" } else { "joinp" }, |r| {
            fn m<T: HasVal>(x: Option<&mut T>) -> [i64; 2] {
                x.map_or([0, 0], |x| { let (a, b) = change(x); [a, b] })
            }
            let all = BitSetAll;
            macro_rules! both {
                ($a:expr) => {{
                    let a = $a;
                    if mutable {
                        go!(p, (&all, a.modified_mut()), |(i, x)| { let v = m(x); vec![i as i64, v[0], v[1]] })
                    } else {
                        go!(p, (&all, a.modified()), |(i, x)| vec![i as i64, x.map_or(0, |x| see(x))])
                    }
                }};
            }
            let mut g: Vec<Vec<i64>> = match &mut r.sub {
                Sub::Raw(w) => tracked!(w, t, s => both!(s)),
                Sub::World(w) => tcomp!(t, C => both!(&mut w.write_component::<C>())),
                Sub::Alloc(_) => unreachable!(),
            };
            // the modified set has indexes, whose entity may be dead: any handle at that index will do
            if let Sub::World(_) = r.sub {
                let by: HashMap<i64, i64> = r.ents.iter().enumerate().map(|(k, e)| (e.index() as i64, k as i64 + 1)).collect();
                for row in &mut g {
                    row[0] = by.get(&row[0]).copied().unwrap_or(0);
                }
            }
            r.emit(vec![("o", J::s("join")), ("k", J::s(if mutable { "modified_mut" } else { "modified" })), ("p", J::from(p)), ("a", J::from(t + 1)), ("b", J::N(1)), ("c", J::N(1)),
                        ("bits", ints([])), ("g", rows(&g)), ("w", Ways::none().json())]);
        });
    }
}

fn one<'a, C, R>(o: &str, mut a: goggles::world::ComponentAccess<'a, C, R>, e: Entity, v: i64, led: Led) -> i64
where
    C: Comp + HasVal,
    C::Storage: goggles::RawStorage<Item = C> + Default + Send + Sync,
    R: std::ops::DerefMut<Target = MaskedStorage<<C as Component>::Storage>>,
{
    match o {
        "put" => match a.insert(e, C::new(led.val(v))) {
            Ok(x) => x.map_or(0, |x| led.take(x.into_val())),
            Err(_) => -1,
        },
        "take" => match a.remove(e) {
            Ok(x) => x.map_or(0, |x| led.take(x.into_val())),
            Err(_) => -1,
        },
        "goi" => match a.get_or_insert_with(e, || C::new(led.val(v))) {
            Ok(x) => see(x),
            Err(_) => -1,
        },
        "get" => a.get(e).map_or(0, |x| see(x)),
        "mut" => a.get_mut(e).map_or(0, |x| {
            let old = see(x);
            x.vm().tag = v;
            old
        }),
        "gread" => a.get_guard(e).map_or(0, |g| see(g.get())),
        _ => a.get_guard(e).map_or(0, |mut g| {
            let x = g.get_mut();
            let old = see(x);
            x.vm().tag = v;
            old
        }),
    }
}

/// Which two storages a join with a panicking body is over.
const PAIRS: &[[usize; 2]] = &[[0, 4], [4, 1], [2, 3], [5, 0]];
const OPS: &[&str] = &["put", "put", "put", "take", "take", "goi", "mut", "gmut", "get", "gread"];

fn sample(r: &mut Rng, from: &[i64], n: usize) -> Vec<i64> {
    let mut v: Vec<i64> = (0..n).map(|_| *r.pick(from)).collect();
    v.sort();
    v.dedup();
    for k in (1..v.len()).rev() {
        v.swap(k, r.below(k + 1));
    }
    v
}

/// Entities only (C01 to C04).
pub fn entities(out: &str, seed: u64, size: usize) {
    let mut rng = Rng::new(seed);
    let mut rec = Rec::open(out);
    // long histories with few entities
    for kind in ["alloc", "entities"] {
        for cap in [2usize, 5, 12, 70] {
            rec.start(kind);
            for _ in 0..size {
                let room = rec.live.len() < cap;
                let nh = rec.ents.len();
                match rng.below(10) {
                    0..=3 if room => {
                        let a = rng.chance(1, 2);
                        let n = rng.range(1, 3.min(cap));
                        rec.create(n, a)
                    }
                    4 | 5 if nh > 0 => {
                        // mostly live ones, sometimes any
                        let from: Vec<i64> = if rng.chance(3, 4) && !rec.live.is_empty() { rec.live.clone() } else { (1..=nh as i64).collect() };
                        let n = rng.range(1, 2);
                        let h = sample(&mut rng, &from, n);
                        rec.kill(&h, false)
                    }
                    6 | 7 if nh > 0 => {
                        let from: Vec<i64> = if rng.chance(3, 4) && !rec.live.is_empty() { rec.live.clone() } else { (1..=nh as i64).collect() };
                        let n = rng.range(1, 3);
                        let h = sample(&mut rng, &from, n);
                        rec.kill(&h, true)
                    }
                    8 => rec.merge(),
                    _ => rec.see(),
                }
            }
            rec.see();
            rec.end();
        }
        // the same index again and again
        rec.start(kind);
        for how in 0..4 {
            rec.churn(if how < 2 { 70000 } else { 1500 }, how);
            rec.create(3, how % 2 == 0);
            rec.see();
        }
        rec.end();
        // very many at once
        rec.start(kind);
        for round in 0..3 {
            let n = [70000, 40000, 66000][round];
            rec.create(n, round % 2 == 1);
            let live = rec.live.clone();
            let some: Vec<i64> = live.iter().copied().filter(|_| rng.chance(3, 4)).collect();
            rec.kill(&some, round == 0);
            if round == 1 {
                rec.see();
            }
            let again: Vec<i64> = some.iter().copied().filter(|_| rng.chance(1, 8)).collect();
            rec.kill(&again, round != 0);
            rec.create(500, true);
            rec.merge();
            rec.see();
        }
        let all: Vec<i64> = rec.live.clone();
        rec.kill(&all, true);
        rec.merge();
        rec.create(1000, true);
        rec.create(all.len(), false);
        rec.see();
        rec.end();
    }
    rec.out.flush().unwrap();
    println!("{{\"events\":{}}}", rec.events);
}

/// Index universes that reach every layer of the bit sets.
fn universe(r: &mut Rng, k: usize) -> Vec<i64> {
    match k {
        0 => (0..8).collect(),
        1 => (0..150).collect(),
        2 => vec![0, 1, 62, 63, 64, 65, 127, 128, 4095, 4096, 4097, 8191, 8192, 262143, 262144, 262145, 524288, 16777150, 16777214, 16777215],
        3 => (0..3000).collect(),
        4 => (0..70).map(|i| i * 64).chain((0..70).map(|i| i * 64 + 63)).collect(),
        5 => (0..200).map(|i| i * 4096 + (i % 3)).collect(),
        _ => {
            let mut v: Vec<i64> = (0..400)
                .map(|_| {
                    let bits = (6 + 6 * r.below(4)).min(20);
                    r.below(1 << bits) as i64
                })
                .collect();
            v.sort();
            v.dedup();
            v
        }
    }
}

fn joins(rec: &mut Rec, rng: &mut Rng, n: usize, universe: &[i64]) {
    for _ in 0..n {
        let k = *rng.pick(SHAPES);
        let tr = *rng.pick(TRIPLES);
        if k == "bits" {
            rec.bits = BitSet::new();
            for &i in universe {
                if rng.chance(1, 3) {
                    rec.bits.add(i as u32);
                }
            }
        }
        let p = *rng.pick(&[0, 0, 1, 2, 8, 32]);
        rec.join(k, tr, p);
    }
}

fn tracking(rec: &mut Rec, rng: &mut Rng, from: &[i64]) {
    let t = rng.range(3, 5);
    match rng.below(6) {
        0 => rec.clear(t),
        1 => rec.track(t, false),
        2 | 3 => rec.track(t, true),
        _ => {
            let h = sample(rng, from, 3);
            rec.mark(t, &h)
        }
    }
}

/// Storages without entities (C06 to C11).
pub fn storages(out: &str, seed: u64, size: usize) {
    let mut rng = Rng::new(seed);
    let mut rec = Rec::open(out);
    for u in 0..9 {
        let all = universe(&mut rng, u);
        let big = all.len() > 20;
        rec.start("raw");
        for _ in 0..size {
            let t = rng.below(TYPES);
            match rng.below(21) {
                20 => rec.join_panic(*rng.pick(PAIRS), rng.range(1, 1 + all.len() / 2), *rng.pick(&[0, 1, 8])),
                0..=9 => {
                    let n = if big && rng.chance(1, 8) { all.len() } else { rng.range(1, 4) };
                    let h = sample(&mut rng, &all, n);
                    rec.op(rng.pick(OPS), t, &h)
                }
                10..=12 => rec.scan(t),
                13 => rec.slice(),
                14 | 15 => tracking(&mut rec, &mut rng, &all),
                16 | 17 => {
                    let (m, p) = (rng.chance(1, 2), *rng.pick(&[0, 1, 8]));
                    rec.modified(rng.range(3, 5), m, p)
                }
                _ => joins(&mut rec, &mut rng, 1, &all),
            }
        }
        let at = (rng.below(TYPES), *rng.pick(&all));
        rec.end_with(Some(at));
    }
    // many values
    rec.start("raw");
    let n = 70000i64;
    let all: Vec<i64> = (0..n).collect();
    for t in 0..TYPES {
        if t >= 3 {
            rec.track(t, true);
        }
        let m = [n, n, n, 9000, 9000, 9000][t];
        let h: Vec<i64> = all[..m as usize].iter().copied().filter(|i| t % 3 != 2 || i % 3 != 0).collect();
        rec.op("put", t, &h);
        if t < 3 {
            rec.scan(t);
        }
        let h: Vec<i64> = h.iter().copied().filter(|_| rng.chance(1, 3)).collect();
        rec.op("take", t, &h);
        if t >= 3 {
            rec.clear(t);
        }
        let h: Vec<i64> = all[..m as usize].iter().copied().filter(|_| rng.chance(1, 20)).collect();
        rec.op(["goi", "put", "goi", "gmut", "take", "goi"][t], t, &h);
        rec.scan(t);
    }
    for (k, tr, p) in [("maybe", 0, 0), ("mut", 0, 1), ("mut", 0, 2), ("three", 0, 8), ("not", 0, 1), ("nor", 1, 4), ("or", 2, 1), ("xor", 0, 8), ("guard", 3, 1), ("maybe", 0, 32), ("mut", 3, 8), ("guard", 4, 32)] {
        rec.join(k, TRIPLES[tr], p);
    }
    for t in 3..6 {
        rec.modified(t, t == 4, if t == 5 { 8 } else { 0 });
    }
    for (n, a, b, p, write) in [
        (300_000, 1, 1, 0, false), (300_000, 1, 1, 1, true), (300_000, 1, 2, 1, false), (300_000, 1, 1, 2, false), (300_000, 2, 3, 8, true),
        (400_000, 4096, 1, 1, false), (5_000, 1, 1, 1, true), (400_000, 1, 64, 3, true), (270_000, 7, 1, 0, true), (300_000, 1, 1, 32, true),
    ] {
        rec.many(n, a, b, p, write);
    }
    rec.slice();
    for (ab, p) in PAIRS.iter().zip([0, 8, 2, 0]) {
        rec.join_panic(*ab, 3000, p);
    }
    for t in 0..TYPES {
        rec.scan(t);
    }
    rec.end_with(Some((rng.below(3), rng.range(0, n as usize - 1) as i64)));
    rec.out.flush().unwrap();
    println!("{{\"events\":{}}}", rec.events);
}

/// Worlds with components (C01 to C03, C06 to C11, C13).
pub fn worlds(out: &str, seed: u64, size: usize) {
    let mut rng = Rng::new(seed);
    let mut rec = Rec::open(out);
    for cap in [3usize, 8, 40, 200] {
        rec.start("world");
        for _ in 0..size {
            let nh = rec.ents.len();
            let t = rng.below(TYPES);
            let anyone: Vec<i64> = if rng.chance(5, 6) && !rec.live.is_empty() { rec.live.clone() } else { (1..=nh as i64).collect() };
            if nh == 0 {
                rec.create(1, false);
                continue;
            }
            let boom = if rng.chance(1, 2) && !rec.live.is_empty() { Some((t, *rng.pick(&rec.live))) } else { None };
            match rng.below(26) {
                24 => rec.join_panic(*rng.pick(PAIRS), rng.range(1, 1 + cap / 6), *rng.pick(&[0, 1, 8])),
                25 if rng.chance(1, 3) => rec.rereg(t, rng.chance(1, 2), boom),
                0..=2 if rec.live.len() < cap => {
                    let (n, a) = (rng.range(1, 1 + cap / 4), rng.chance(1, 2));
                    rec.create(n, a)
                }
                0..=2 | 3 => {
                    let h = sample(&mut rng, &anyone, 1 + cap / 10);
                    let at = if rng.chance(1, 3) { Some((t, *rng.pick(&h))) } else { None };
                    rec.kill_with(&h, false, at)
                }
                4 => {
                    let h = sample(&mut rng, &anyone, 2 + cap / 10);
                    rec.pends = h.clone();
                    rec.kill(&h, true)
                }
                5 => {
                    let at = if rng.chance(1, 2) && !rec.pends.is_empty() { Some((t, *rng.pick(&rec.pends))) } else { None };
                    rec.merge_with(at)
                }
                6 => rec.see(),
                7..=14 => {
                    let n = if rng.chance(1, 4) { cap } else { 2 };
                    let h = sample(&mut rng, &anyone, n);
                    rec.op(rng.pick(OPS), t, &h)
                }
                15 | 16 => rec.scan(t),
                17 => rec.slice(),
                18 | 19 => tracking(&mut rec, &mut rng, &anyone),
                20 => {
                    let (m, p) = (rng.chance(1, 2), *rng.pick(&[0, 1, 8]));
                    rec.modified(rng.range(3, 5), m, p)
                }
                _ => {
                    let idx: Vec<i64> = (0..cap as i64 * 2).collect();
                    joins(&mut rec, &mut rng, 1, &idx)
                }
            }
        }
        for t in 0..TYPES {
            rec.scan(t);
        }
        rec.see();
        rec.end();
    }
    // many entities
    rec.start("world");
    rec.track(4, true);
    for round in 0..2 {
        rec.create(9000, round == 1);
        for t in 0..TYPES {
            let live = rec.live.clone();
            let h: Vec<i64> = live.iter().copied().filter(|_| rng.chance(2, 3)).collect();
            rec.op(if round == 0 { "put" } else { "goi" }, t, &h);
        }
        let live = rec.live.clone();
        let h: Vec<i64> = live.iter().copied().filter(|_| rng.chance(1, 2)).collect();
        let at = Some((rng.below(TYPES), *rng.pick(&h)));
        rec.kill_with(&h, round == 0, if round == 0 { None } else { at });
        let g: Vec<i64> = live.iter().copied().filter(|_| rng.chance(1, 10)).collect();
        let ag = Some((rng.below(TYPES), *rng.pick(&g)));
        rec.kill(&g, round == 1);
        rec.create(700, true);
        rec.merge_with(if round == 0 { at } else { ag });
        rec.join_panic(PAIRS[round], 2000, [0, 4][round]);
        for (k, tr, p) in [("maybe", 0, 0), ("mut", 0, 1), ("three", 3, 8), ("guard", 4, 2), ("not", 5, 1), ("mut", 3, 0)] {
            rec.join(k, TRIPLES[tr], p);
        }
        for t in 0..TYPES {
            rec.scan(t);
        }
        rec.see();
    }
    for t in 0..TYPES {
        let at = Some((t, *rng.pick(&rec.live)));
        rec.rereg(t, t % 2 == 0, at);
        rec.scan(t);
    }
    rec.end();
    rec.out.flush().unwrap();
    println!("{{\"events\":{}}}", rec.events);
}
