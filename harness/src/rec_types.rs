//! Records worlds with dozens of component and resource types (spec/TypesTrace.tla).
use crate::json::J;
use crate::rng::Rng;
use goggles::world_common::ComponentStorage;
use goggles::*;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

/// How many values there are, and the one that panics when it is destroyed.
static HELD: AtomicI64 = AtomicI64::new(0);
static BOMB: AtomicI64 = AtomicI64::new(-1);
const NONE: i64 = -1;
const DEAD: i64 = -2;
const PANIC: i64 = -3;

/// What is kept: the same number in types of different sizes and alignments.
trait Value: Clone + Send + Sync + 'static {
    fn make(v: i64) -> Self;
    fn v(&self) -> i64;
    fn swap(&mut self, v: i64) -> i64;
}
fn gone(v: i64) {
    HELD.fetch_sub(1, SeqCst);
    if v > 0 && BOMB.compare_exchange(v, -1, SeqCst, SeqCst).is_ok() {
        panic!("a value panics when it is destroyed");
    }
}
macro_rules! value {
    ($(#[$a:meta])* $t:ident($i:ty), $new:expr, $get:expr) => {
        $(#[$a])*
        struct $t($i);
        impl Value for $t {
            fn make(v: i64) -> Self {
                HELD.fetch_add(1, SeqCst);
                let new: fn(i64) -> $i = $new;
                $t(new(v))
            }
            fn v(&self) -> i64 {
                let get: fn(&$i) -> i64 = $get;
                get(&self.0)
            }
            fn swap(&mut self, v: i64) -> i64 {
                let old = self.v();
                let new: fn(i64) -> $i = $new;
                self.0 = new(v);
                old
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                $t::make(self.v())
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let old = self.swap(0xdead);
                gone(old);
            }
        }
    };
}
value!(Val(i64), |v| v, |x| *x);
value!(
    Odd([u8; 7]),
    |v| { let b = v.to_le_bytes(); [b[0], b[1], b[2], b[3], b[0] ^ 1, b[1] ^ 2, b[2] ^ 3] },
    |x| if x[4..] == [x[0] ^ 1, x[1] ^ 2, x[2] ^ 3] { i32::from_le_bytes([x[0], x[1], x[2], x[3]]) as i64 } else { PANIC }
);
value!(Big([i64; 65]), |v| std::array::from_fn(|k| v + k as i64), |x| if x.iter().enumerate().all(|(k, y)| *y == x[0] + k as i64) { x[0] } else { PANIC });
value!(#[repr(align(64))] Wide((i64, u8)), |v| (v, v as u8), |x| if x as *const _ as usize % 64 == 0 && x.0 as u8 == x.1 { x.0 } else { PANIC });
value!(Heap(Box<i64>), |v| Box::new(v), |x| **x);
/// No size at all, so that all of them are the same.
value!(Unit(()), |_| (), |_| 0);

#[derive(Clone)]
struct K<const N: usize, V>(V);
struct R<const N: usize, V>(V);
trait Keep {}
impl<T> Keep for T {}

struct Ops {
    reg: fn(&mut World) -> Vec<i64>,
    unreg: fn(&mut World) -> Vec<i64>,
    has: fn(&World) -> bool,
    put: fn(&mut World, Entity, i64, bool) -> i64,
    take: fn(&mut World, Entity, bool) -> i64,
    see: fn(&World) -> Vec<(Option<Entity>, i64)>,
    aput: fn(&mut AnyComponentSet, i64) -> i64,
    atake: fn(&mut AnyComponentSet) -> i64,
    asee: fn(&AnyComponentSet) -> i64,
    amut: fn(&mut AnyComponentSet, i64) -> i64,
    cput: fn(&mut AnyCloneComponentSet, i64) -> i64,
    csee: fn(&AnyCloneComponentSet) -> i64,
    cmut: fn(&mut AnyCloneComponentSet, i64) -> i64,
    rput: fn(&mut World, i64) -> i64,
    rtake: fn(&mut World) -> i64,
    rsee: fn(&World) -> i64,
    slice: fn(&World) -> Option<Vec<i64>>,
    unit: bool,
    hold: for<'a> fn(&'a World, bool, bool) -> Box<dyn Keep + 'a>,
}

fn back<C: Component>(s: Option<ComponentStorage<C>>, v: impl Fn(&C) -> i64) -> Vec<i64>
where
    C::Storage: Send,
{
    match s {
        None => vec![NONE],
        Some(s) => {
            let mut vs: Vec<i64> = (&s).join().map(v).collect();
            vs.sort();
            vs
        }
    }
}
/// What `f` replies, or that it panics.
fn tried(f: impl FnOnce() -> i64) -> i64 {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(PANIC)
}
fn reply<const N: usize, V: Value>(r: Result<Option<K<N, V>>, goggles::entity::WrongGeneration>) -> i64 {
    match r {
        Ok(None) => NONE,
        Ok(Some(c)) => c.0.v(),
        Err(_) => DEAD,
    }
}
fn old<const N: usize, V: Value>(c: Option<K<N, V>>) -> i64 {
    c.map_or(NONE, |c| c.0.v())
}

const fn ops<const N: usize, V: Value>(slice: fn(&World) -> Option<Vec<i64>>) -> Ops
where
    K<N, V>: Component,
    <K<N, V> as Component>::Storage: Default + Send + Sync,
{
    Ops {
        reg: |w| back(w.insert_component::<K<N, V>>(), |c: &K<N, V>| c.0.v()),
        unreg: |w| back(w.remove_component::<K<N, V>>(), |c: &K<N, V>| c.0.v()),
        has: |w| w.contains_component::<K<N, V>>(),
        put: |w, e, v, own| tried(|| reply(if own { w.get_component_mut::<K<N, V>>().insert(e, K(V::make(v))) } else { w.write_component::<K<N, V>>().insert(e, K(V::make(v))) })),
        take: |w, e, own| tried(|| reply(if own { w.get_component_mut::<K<N, V>>().remove(e) } else { w.write_component::<K<N, V>>().remove(e) })),
        see: |w| {
            // also what is kept for an index without an entity
            let (es, cs) = (w.entities(), w.read_component::<K<N, V>>());
            let mut all: Vec<_> = (cs.mask(), &cs).join().map(|(i, c)| (es.entity(i), c.0.v())).collect();
            let joined: Vec<_> = (&es, &cs).join().map(|(e, c)| (Some(e), c.0.v())).collect();
            let of_live = all.iter().filter(|x| x.0.map_or(false, |e| cs.get(e).map(|c| c.0.v()) == Some(x.1)));
            if !of_live.eq(joined.iter()) {
                all.push((None, PANIC));
            }
            all
        },
        aput: |s, v| old(s.insert(K::<N, V>(V::make(v)))),
        atake: |s| old(s.remove::<K<N, V>>()),
        asee: |s| match s.get::<K<N, V>>() {
            Some(c) if s.contains::<K<N, V>>() => c.0.v(),
            None if !s.contains::<K<N, V>>() => NONE,
            _ => PANIC,
        },
        amut: |s, v| s.get_mut::<K<N, V>>().map_or(NONE, |c| c.0.swap(v)),
        cput: |s, v| old(s.insert(K::<N, V>(V::make(v)))),
        csee: |s| match s.get::<K<N, V>>() {
            Some(c) if s.contains::<K<N, V>>() => c.0.v(),
            None if !s.contains::<K<N, V>>() => NONE,
            _ => PANIC,
        },
        cmut: |s, v| s.get_mut::<K<N, V>>().map_or(NONE, |c| c.0.swap(v)),
        rput: |w, v| w.insert_resource(R::<N, V>(V::make(v))).map_or(NONE, |r| r.0.v()),
        rtake: |w| w.remove_resource::<R<N, V>>().map_or(NONE, |r| r.0.v()),
        rsee: |w| if w.contains_resource::<R<N, V>>() { tried(|| w.read_resource::<R<N, V>>().0.v()) } else { NONE },
        slice: slice,
        unit: std::mem::size_of::<V>() == 0,
        hold: |w, write, resource| match (write, resource) {
            (false, false) => Box::new(w.read_component::<K<N, V>>()),
            (true, false) => Box::new(w.write_component::<K<N, V>>()),
            (false, true) => Box::new(w.read_resource::<R<N, V>>()),
            (true, true) => Box::new(w.write_resource::<R<N, V>>()),
        },
    }
}
macro_rules! many {
    ($($V:ident: $($n:literal $v:literal $d:literal $h:literal)*;)*) => {
        $($(
            impl Component for K<$n, $V> { type Storage = VecStorage<Self>; }
            impl Component for K<$v, $V> { type Storage = DenseVecStorage<Self>; }
            impl Component for K<$d, $V> { type Storage = HashMapStorage<Self>; }
            impl Component for K<$h, $V> { type Storage = Flagged<VecStorage<Self>>; }
        )*)*
        static TYPES: &[Ops] = &[$($(
            ops::<$n, $V>(|_| None),
            ops::<$v, $V>(|w| Some(w.read_component::<K<$v, $V>>().as_slice().iter().map(|c| c.0.v()).collect())),
            ops::<$d, $V>(|_| None),
            ops::<$h, $V>(|_| None)
        ),*),*];
    };
}
many! {
    Val: 0 1 2 3  4 5 6 7  8 9 10 11;
    Odd: 12 13 14 15  16 17 18 19  20 21 22 23;
    Big: 24 25 26 27  28 29 30 31  32 33 34 35;
    Wide: 36 37 38 39  40 41 42 43  44 45 46 47;
    Heap: 48 49 50 51  52 53 54 55  56 57 58 59;
    Unit: 60 61 62 63  64 65 66 67  68 69 70 71;
}

struct Rec {
    out: Vec<u8>,
    world: World,
    any: Vec<AnyComponentSet>,
    clo: Vec<AnyCloneComponentSet>,
    ents: Vec<Entity>,
    handles: HashMap<Entity, i64>,
    next: i64,
    events: usize,
    dead: bool,
}
fn ints<I: IntoIterator<Item = i64>>(i: I) -> J {
    J::seq(i)
}
const SETS: usize = 3;

impl Rec {
    fn start() -> Rec {
        HELD.store(0, SeqCst);
        let mut r = Rec {
            out: vec![], world: World::new(), any: (0..SETS).map(|_| Default::default()).collect(), clo: (0..SETS).map(|_| Default::default()).collect(),
            ents: vec![], handles: HashMap::new(), next: 0, events: 0, dead: false,
        };
        r.emit(vec![("o", J::s("new"))]);
        r
    }
    fn emit(&mut self, o: Vec<(&str, J)>) {
        let j = J::O(o.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        writeln!(self.out, "{j}").unwrap();
        self.events += 1;
    }
    fn guard(&mut self, what: &str, f: impl FnOnce(&mut Rec)) {
        if self.dead {
            return;
        }
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(self))) {
            let msg = crate::graph::panic_text(p);
            self.dead = true;
            self.emit(vec![("o", J::s("panic")), ("in", J::s(what)), ("msg", J::S(msg.chars().take(200).collect()))]);
        }
    }
    fn val(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    /// A few types or nearly all of them.
    fn some(rng: &mut Rng) -> Vec<usize> {
        let p = *rng.pick(&[1, 1, 3, 8, 15, 16]);
        let mut ts: Vec<usize> = (0..TYPES.len()).filter(|_| rng.chance(p, 16)).collect();
        for k in (1..ts.len()).rev() {
            ts.swap(k, rng.below(k + 1));
        }
        ts
    }
    fn ent(&self, h: i64) -> Entity {
        self.ents[h as usize - 1]
    }
    fn types(&mut self, what: &'static str, ts: &[usize], f: impl Fn(&mut World, &Ops) -> Vec<i64>) {
        self.guard(what, |r| {
            let b: Vec<J> = ts.iter().map(|&t| ints(f(&mut r.world, &TYPES[t]))).collect();
            r.emit(vec![("o", J::s(what)), ("ts", ints(ts.iter().map(|&t| t as i64))), ("b", J::A(b))]);
        });
    }
    /// One value for each of the types.
    fn values(&mut self, what: &'static str, h: i64, ts: &[usize], mut f: impl FnMut(&mut Rec, &Ops, i64) -> i64) {
        self.guard(what, |r| {
            let (mut tv, mut b) = (vec![], vec![]);
            for &t in ts {
                let v = if TYPES[t].unit { 0 } else { r.val() };
                b.push(f(r, &TYPES[t], v));
                tv.push(ints([t as i64, v]));
            }
            r.emit(vec![("o", J::s(what)), ("h", J::N(h)), ("tv", J::A(tv)), ("b", ints(b))]);
        });
    }
    fn handle(&mut self, rng: &mut Rng) -> i64 {
        if self.ents.is_empty() {
            self.born(false);
        }
        let n = self.ents.len();
        if rng.chance(4, 5) {
            for _ in 0..20 {
                let h = n - rng.below(n.min(12));
                if self.world.entities().is_alive(self.ents[h - 1]) {
                    return h as i64;
                }
            }
        }
        rng.range(1, n) as i64
    }
    fn born(&mut self, atomic: bool) {
        self.guard("born", |r| {
            let e = if atomic { r.world.entities().create() } else { r.world.create_entity() };
            r.ents.push(e);
            let h = r.ents.len() as i64;
            let fresh = r.handles.insert(e, h).is_none();
            r.emit(vec![("o", J::s("born")), ("h", J::N(h)), ("fresh", J::B(fresh))]);
        });
    }
    /// Sets the value that panics when it is destroyed to one of a component of `e`.
    fn arm(&mut self, rng: &mut Rng, e: Entity) -> i64 {
        if !rng.chance(1, 3) {
            return NONE;
        }
        let vs: Vec<i64> = TYPES.iter().filter(|t| (t.has)(&self.world)).flat_map(|t| (t.see)(&self.world)).filter(|x| x.0 == Some(e) && x.1 > 0).map(|x| x.1).collect();
        if vs.is_empty() {
            return NONE;
        }
        let v = *rng.pick(&vs);
        BOMB.store(v, SeqCst);
        v
    }
    fn die(&mut self, rng: &mut Rng, h: i64) {
        self.guard("die", |r| {
            let e = r.ent(h);
            let bomb = r.arm(rng, e);
            let ok = catch_unwind(AssertUnwindSafe(|| r.world.delete_entity(e).is_ok() as i64)).unwrap_or(PANIC);
            BOMB.store(-1, SeqCst);
            r.emit(vec![("o", J::s("die")), ("h", J::N(h)), ("ok", J::N(ok)), ("bomb", J::N(bomb))]);
        });
    }
    fn ask(&mut self, h: i64) {
        self.guard("ask", |r| {
            let ok = r.world.entities().delete(r.ent(h)).is_ok();
            r.emit(vec![("o", J::s("ask")), ("h", J::N(h)), ("ok", J::N(ok as i64))]);
        });
    }
    fn merge(&mut self, rng: &mut Rng, h: i64) {
        self.guard("merge", |r| {
            let e = r.ent(h);
            let bomb = r.arm(rng, e);
            let ok = catch_unwind(AssertUnwindSafe(|| { r.world.merge(); 1 })).unwrap_or(PANIC);
            BOMB.store(-1, SeqCst);
            r.emit(vec![("o", J::s("merge")), ("ok", J::N(ok)), ("bomb", J::N(bomb))]);
        });
    }
    /// Puts set number `s` into the world, unless a type of it is missing there.
    fn into_world(&mut self, s: usize, h: i64, clone: bool) {
        self.guard("iworld", |r| {
            let in_set = |t: &Ops| if clone { (t.csee)(&r.clo[s]) } else { (t.asee)(&r.any[s]) } != NONE;
            let n = TYPES.iter().filter(|t| in_set(t)).count();
            let e = r.ent(h);
            if TYPES.iter().any(|t| in_set(t) && !(t.has)(&r.world)) || (n == 0 && !r.world.entities().is_alive(e)) {
                return;
            }
            let ok = if clone { r.clo[s].insert_into_world(&mut r.world, e) } else { std::mem::take(&mut r.any[s]).insert_into_world(&mut r.world, e) };
            let ok = ok.map_or(DEAD, |b| b as i64);
            r.emit(vec![("o", J::s("iworld")), ("s", J::N((s + if clone { SETS } else { 0 }) as i64)), ("h", J::N(h)), ("ok", J::N(ok))]);
        });
    }
    /// Merges a set into another of its kind, or clones a set into one.
    fn into_set(&mut self, kind: usize, a: usize, b: usize) {
        self.guard("iset", |r| {
            let (to, from, ok) = match kind {
                0 if a != b => {
                    let x = std::mem::take(&mut r.any[b]);
                    (a, b, r.any[a].merge(x))
                }
                1 if a != b => {
                    let x = std::mem::take(&mut r.clo[b]);
                    (SETS + a, SETS + b, r.clo[a].merge(x))
                }
                2 => (a, SETS + b, r.clo[b].clone_into_set(&mut r.any[a])),
                _ => return,
            };
            r.emit(vec![("o", J::s("iset")), ("a", J::N(to as i64)), ("s", J::N(from as i64)), ("keep", J::B(kind == 2)), ("ok", J::N(ok as i64))]);
        });
    }
    /// Borrows until the end of the operation, one after the other.
    fn hold(&mut self, rng: &mut Rng) {
        self.guard("hold", |r| {
            let ts = Rec::some(rng);
            let (mut q, mut b, mut held) = (vec![], vec![], vec![]);
            let writes = rng.below(4);
            for _ in 0..rng.range(1, 2) {
                for &t in &ts {
                    let (w, res) = (rng.chance(writes, 4), rng.chance(1, 2));
                    let g = catch_unwind(AssertUnwindSafe(|| (TYPES[t].hold)(&r.world, w, res)));
                    q.push(ints([t as i64, w as i64, res as i64]));
                    b.push(g.is_ok() as i64);
                    held.extend(g.ok());
                }
            }
            for _ in 0..held.len() {
                let k = rng.below(held.len());
                drop(held.swap_remove(k));
            }
            drop(held);
            r.emit(vec![("o", J::s("hold")), ("q", J::A(q)), ("b", ints(b))]);
        });
    }
    fn see(&mut self, after: &str, bomb: bool) {
        self.guard("see", |r| {
            let reg: Vec<usize> = (0..TYPES.len()).filter(|&t| (TYPES[t].has)(&r.world)).collect();
            let mut comps = vec![];
            for &t in &reg {
                for (e, v) in (TYPES[t].see)(&r.world) {
                    comps.push(ints([t as i64, e.and_then(|e| r.handles.get(&e).copied()).unwrap_or(0), v]));
                }
            }
            let slices = reg.iter().filter_map(|&t| (TYPES[t].slice)(&r.world).map(|vs| J::A(vec![J::N(t as i64), ints(vs)]))).collect();
            let mut sets = vec![];
            let mut lens = vec![];
            for k in 0..2 * SETS {
                let mut tv = vec![];
                for (t, o) in TYPES.iter().enumerate() {
                    let v = if k < SETS { (o.asee)(&r.any[k]) } else { (o.csee)(&r.clo[k - SETS]) };
                    if v != NONE {
                        tv.push(ints([t as i64, v]));
                    }
                }
                lens.push(if k < SETS { r.any[k].len() as i64 } else { tv.len() as i64 });
                sets.push(J::A(tv));
            }
            let res = TYPES.iter().enumerate().map(|(t, o)| (t as i64, (o.rsee)(&r.world))).filter(|x| x.1 != NONE).map(|x| ints([x.0, x.1])).collect();
            let live: Vec<i64> = (1..=r.ents.len() as i64).filter(|&h| r.world.entities().is_alive(r.ent(h))).collect();
            r.emit(vec![("o", J::s("see")), ("after", J::s(after)), ("bomb", J::B(bomb)), ("live", ints(live)), ("reg", ints(reg.iter().map(|&t| t as i64))),
                        ("comps", J::A(comps)), ("slices", J::A(slices)), ("sets", J::A(sets)), ("lens", ints(lens)), ("res", J::A(res)), ("held", J::N(HELD.load(SeqCst)))]);
        });
    }
    fn step(&mut self, rng: &mut Rng) -> &'static str {
        let own = rng.chance(1, 2);
        match rng.below(28) {
            0 => {
                let mut ts = Rec::some(rng);
                ts.truncate(*rng.pick(&[2, 5, TYPES.len()]));
                self.types("reg", &ts, |w, o| (o.reg)(w));
                "reg"
            }
            1 => {
                let mut ts = Rec::some(rng);
                ts.truncate(4);
                self.types("unreg", &ts, |w, o| (o.unreg)(w));
                "unreg"
            }
            2..=5 => {
                let (h, ts) = (self.handle(rng), Rec::some(rng));
                let e = self.ent(h);
                self.values("put", h, &ts, |r, o, v| (o.put)(&mut r.world, e, v, own));
                "put"
            }
            6 => {
                let (h, ts) = (self.handle(rng), Rec::some(rng));
                let e = self.ent(h);
                self.values("take", h, &ts, |r, o, _| (o.take)(&mut r.world, e, own));
                "take"
            }
            7 | 8 => {
                let atomic = rng.chance(1, 2);
                self.born(atomic);
                "born"
            }
            9 | 10 => {
                let h = self.handle(rng);
                self.die(rng, h);
                "die"
            }
            11 => {
                for _ in 0..rng.range(1, 4) {
                    let h = self.handle(rng);
                    self.ask(h);
                }
                "ask"
            }
            12 => {
                let h = self.handle(rng);
                self.ask(h);
                self.merge(rng, h);
                "merge"
            }
            13 | 14 => {
                let (s, ts, what) = (rng.below(SETS), Rec::some(rng), *rng.pick(&["sput", "sput", "smut", "stake"]));
                self.values(what, s as i64, &ts, |r, o, v| match what {
                    "sput" => (o.aput)(&mut r.any[s], v),
                    "smut" => (o.amut)(&mut r.any[s], v),
                    _ => (o.atake)(&mut r.any[s]),
                });
                what
            }
            15 | 16 => {
                let (s, ts, what) = (rng.below(SETS), Rec::some(rng), *rng.pick(&["sput", "sput", "smut"]));
                self.values(what, (s + SETS) as i64, &ts, |r, o, v| if what == "sput" { (o.cput)(&mut r.clo[s], v) } else { (o.cmut)(&mut r.clo[s], v) });
                what
            }
            17 | 18 | 24..=26 => {
                let h = self.handle(rng);
                self.into_world(rng.below(SETS), h, rng.chance(1, 2));
                "iworld"
            }
            19 | 27 => {
                self.into_set(rng.below(3), rng.below(SETS), rng.below(SETS));
                "iset"
            }
            20 => {
                let ts = Rec::some(rng);
                if rng.chance(2, 3) {
                    self.values("rput", 0, &ts, |r, o, v| (o.rput)(&mut r.world, v));
                } else {
                    self.values("rtake", 0, &ts, |r, o, _| (o.rtake)(&mut r.world));
                }
                "res"
            }
            _ => {
                self.hold(rng);
                "hold"
            }
        }
    }
}

pub fn types(out: &str, seed: u64, size: usize) {
    let mut f = std::fs::File::create(out).unwrap();
    let mut events = 0;
    for k in 0..3 {
        let mut rng = Rng::new(seed * 10 + k);
        let mut r = Rec::start();
        let all: Vec<usize> = (0..TYPES.len()).collect();
        if k > 0 {
            r.types("reg", &all, |w, o| (o.reg)(w));
            r.values("rput", 0, &all, |r, o, v| (o.rput)(&mut r.world, v));
        }
        for _ in 0..size {
            let what = r.step(&mut rng);
            r.see(what, what == "die" || what == "merge");
        }
        events += r.events;
        f.write_all(&r.out).unwrap();
        let Rec { world, any, clo, .. } = r;
        drop((world, any, clo));
        writeln!(f, "{}", obj! {o: J::s("end"), held: HELD.load(SeqCst)}).unwrap();
        events += 1;
    }
    println!("{{\"events\":{events}}}");
}
