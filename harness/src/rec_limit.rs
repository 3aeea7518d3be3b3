//! Records entity allocators at their last index and their last generation (spec/LimitTrace.tla).
use crate::json::J;
use crate::rng::Rng;
use goggles::entity::Allocator;
use goggles::hibitset::BitSetLike;
use goggles::{Entity, IntoJoinExt, World};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CAPACITY: u32 = 1 << 24;
const LIVES: u32 = i32::MAX as u32;

enum Sub {
    Alloc(Allocator),
    World(World),
}
impl Sub {
    fn new(world: bool) -> Sub {
        if world { Sub::World(World::new()) } else { Sub::Alloc(Allocator::new()) }
    }
    #[inline]
    fn make(&mut self, atomic: bool) -> Entity {
        match self {
            Sub::Alloc(a) => if atomic { a.allocate_atomic() } else { a.allocate() },
            Sub::World(w) => if atomic { w.entities().create() } else { w.create_entity() },
        }
    }
    fn make_shared(&self) -> Entity {
        match self {
            Sub::Alloc(a) => a.allocate_atomic(),
            Sub::World(w) => w.entities().create(),
        }
    }
    #[inline]
    fn kill(&mut self, e: Entity) -> bool {
        match self {
            Sub::Alloc(a) => a.kill(e).is_ok(),
            Sub::World(w) => w.delete_entity(e).is_ok(),
        }
    }
    fn req(&self, e: Entity) -> bool {
        match self {
            Sub::Alloc(a) => a.kill_atomic(e).is_ok(),
            Sub::World(w) => w.entities().delete(e).is_ok(),
        }
    }
    fn merge(&mut self, killed: &mut Vec<Entity>) -> bool {
        match self {
            Sub::Alloc(a) => {
                a.merge_atomic(killed);
                true
            }
            Sub::World(w) => {
                w.merge();
                false
            }
        }
    }
    #[inline]
    fn is_alive(&self, e: Entity) -> bool {
        match self {
            Sub::Alloc(a) => a.is_alive(e),
            Sub::World(w) => w.entities().is_alive(e),
        }
    }
    fn entity(&self, i: u32) -> Option<Entity> {
        match self {
            Sub::Alloc(a) => a.entity(i),
            Sub::World(w) => w.entities().entity(i),
        }
    }
    fn max(&self) -> u32 {
        match self {
            Sub::Alloc(a) => a.max_entity_count(),
            Sub::World(w) => w.entities().max_entity_count(),
        }
    }
    /// The indexes in the live set and the entities of a join, from `base` on, and whether exactly
    /// all indexes below it are there.
    fn views(&self, base: u32) -> (Vec<u32>, Vec<Entity>, bool) {
        fn cut<T>(it: impl Iterator<Item = T>, base: u32, f: impl Fn(&T) -> u32) -> (Vec<T>, bool) {
            let (mut v, mut n, mut ok) = (vec![], 0, true);
            for x in it {
                if f(&x) < base {
                    ok &= f(&x) == n;
                    n += 1;
                } else {
                    v.push(x);
                }
            }
            (v, ok && n == base)
        }
        let ((s, a), (j, b)) = match self {
            Sub::Alloc(x) => (cut(x.live_bitset().iter(), base, |i| *i), cut(x.join(), base, |e: &Entity| e.index())),
            Sub::World(w) => {
                let es = w.entities();
                let r = (cut(es.live_bitset().iter(), base, |i| *i), cut((&es).join(), base, |e: &Entity| e.index()));
                r
            }
        };
        (s, j, a && b)
    }
}

struct Rec {
    out: Vec<u8>,
    sub: Sub,
    base: u32,
    last_filler: Option<Entity>,
    handles: HashMap<Entity, i64>,
    ents: Vec<Entity>,
    live: Vec<i64>,
    /// some of those that came and went in between
    past: HashSet<Entity>,
    events: usize,
    dead: bool,
}

fn ints<I: IntoIterator<Item = i64>>(i: I) -> J {
    J::seq(i)
}

impl Rec {
    fn start(world: bool, base: u32, atomic: bool) -> Rec {
        let mut r = Rec {
            out: vec![], sub: Sub::new(world), base, last_filler: None, handles: HashMap::new(), ents: vec![], live: vec![], past: HashSet::new(), events: 0, dead: false,
        };
        r.emit(vec![("o", J::s("new")), ("room", J::from(CAPACITY - base))]);
        r.guard("create", |r| {
            for k in 0..base {
                r.last_filler = Some(r.sub.make(atomic));
                if k % (1 << 22) == 5 {
                    r.sub.merge(&mut vec![]);
                }
            }
        });
        r
    }
    fn emit(&mut self, o: Vec<(&str, J)>) {
        let j = J::O(o.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        writeln!(self.out, "{j}").unwrap();
        self.events += 1;
    }
    fn guard(&mut self, what: &str, f: impl FnOnce(&mut Rec)) {
        if self.dead {
            return;
        }
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(self))) {
            let msg = crate::graph::panic_text(p);
            self.dead = true;
            self.emit(vec![("o", J::s("panic")), ("in", J::s(what)), ("msg", J::S(msg.chars().take(200).collect()))]);
        }
    }
    fn at(&self, i: u32) -> i64 {
        i as i64 - self.base as i64
    }
    fn known(&self, e: Entity) -> i64 {
        self.handles.get(&e).copied().unwrap_or(0)
    }
    /// `n` creations, of which some may be refused.
    fn create(&mut self, n: usize, atomic: bool, threads: usize) {
        self.guard("create", |r| {
            let es: Vec<Entity> = if threads > 1 {
                let sub = &r.sub;
                // the threads of the subject's own crate are not at hand here, so share by scope
                struct Shared<'a>(&'a Sub);
                unsafe impl Sync for Shared<'_> {}
                let s = Shared(sub);
                let s = &s;
                std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..threads)
                        .map(|k| sc.spawn(move || {
                            let s = s;
                            let mine = n / threads + (k < n % threads) as usize;
                            (0..mine).filter_map(|_| catch_unwind(AssertUnwindSafe(|| s.0.make_shared())).ok()).collect::<Vec<_>>()
                        }))
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
                })
            } else {
                (0..n).filter_map(|_| catch_unwind(AssertUnwindSafe(|| r.sub.make(atomic))).ok()).collect()
            };
            let (mut h, mut i, mut na) = (vec![], vec![], 0);
            for e in es {
                na += !r.sub.is_alive(e) as i64;
                i.push(r.at(e.index()));
                let k = r.known(e);
                h.push(if k != 0 {
                    k
                } else if r.past.contains(&e) {
                    0
                } else {
                    r.ents.push(e);
                    r.handles.insert(e, r.ents.len() as i64);
                    r.ents.len() as i64
                });
            }
            r.live.extend(&h);
            r.emit(vec![("o", J::s("create")), ("n", J::from(n)), ("atomic", J::B(atomic)), ("threads", J::from(threads)), ("h", ints(h)), ("i", ints(i)), ("na", J::N(na))]);
        });
    }
    /// One entity after the other, `n` of them.
    fn wear(&mut self, n: u32) {
        self.guard("wear", |r| {
            let mut u: Vec<(u32, u32)> = vec![];
            let (mut dup, mut dead, mut old) = (0, 0, 0);
            let (mut first, mut prev) = (None::<Entity>, None::<Entity>);
            for k in 0..n {
                let e = r.sub.make(false);
                if prev == Some(e) || first == Some(e) {
                    dup += 1;
                }
                match u.last_mut() {
                    Some(l) if l.0 == e.index() => l.1 += 1,
                    _ => match u.iter_mut().find(|l| l.0 == e.index()) {
                        Some(l) => l.1 += 1,
                        None => u.push((e.index(), 1)),
                    },
                }
                if k % 1024 == 0 || n - k < 8 {
                    dup += (e.generation() == 0 || r.handles.contains_key(&e)) as i64;
                    dead += !r.sub.is_alive(e) as i64;
                    old += first.map_or(0, |f| r.sub.is_alive(f) as i64) + prev.map_or(0, |f| r.sub.is_alive(f) as i64);
                }
                dead += !r.sub.kill(e) as i64;
                if k < 3 || n - k < 8 {
                    r.past.insert(e);
                }
                first = first.or(Some(e));
                prev = Some(e);
            }
            let u = J::A(u.iter().map(|p| ints([r.at(p.0), p.1 as i64])).collect());
            r.emit(vec![("o", J::s("wear")), ("u", u), ("dup", J::N(dup)), ("dead", J::N(dead)), ("old", J::N(old))]);
        });
    }
    fn kill(&mut self, h: &[i64], deferred: bool) {
        let what = if deferred { "req" } else { "kill" };
        self.guard(what, |r| {
            let ok: Vec<i64> = h
                .iter()
                .map(|&h| {
                    let e = r.ents[h as usize - 1];
                    (if deferred { r.sub.req(e) } else { r.sub.kill(e) }) as i64
                })
                .collect();
            if !deferred {
                r.live.retain(|l| !h.contains(l));
            }
            r.emit(vec![("o", J::s(what)), ("h", ints(h.iter().copied())), ("ok", ints(ok))]);
        });
    }
    fn merge(&mut self) {
        self.guard("merge", |r| {
            let mut killed = r.ents.iter().take(1).copied().collect();
            let rep = if r.sub.merge(&mut killed) { ints(killed.iter().map(|&e| r.known(e))) } else { ints([-1]) };
            let live: Vec<i64> = r.live.iter().copied().filter(|&h| r.sub.is_alive(r.ents[h as usize - 1])).collect();
            r.live = live;
            r.emit(vec![("o", J::s("merge")), ("rep", rep)]);
        });
    }
    fn see(&mut self) {
        self.guard("see", |r| {
            let live: Vec<i64> = (1..=r.ents.len() as i64).filter(|&h| r.sub.is_alive(r.ents[h as usize - 1])).collect();
            let (mut look, mut pan) = (vec![], 0);
            for i in (0..40).map(|k| r.base.wrapping_add(k)).chain([CAPACITY, CAPACITY + 1, CAPACITY + 70, u32::MAX]) {
                match catch_unwind(AssertUnwindSafe(|| r.sub.entity(i))) {
                    Ok(Some(e)) => look.push(ints([r.at(i), if e.index() == i { r.known(e) } else { 0 }])),
                    Ok(None) => {}
                    Err(_) => pan += 1,
                }
            }
            let (set, join, mut below) = r.sub.views(r.base);
            if let Some(f) = r.last_filler {
                below &= r.sub.is_alive(f) && r.sub.entity(f.index()) == Some(f);
            }
            let max = r.sub.max() as i64 - r.base as i64;
            r.emit(vec![("o", J::s("see")), ("live", ints(live)), ("look", J::A(look)), ("pan", J::N(pan)), ("below", J::B(below)),
                        ("set", ints(set.iter().map(|&i| r.at(i)))), ("join", ints(join.iter().map(|&e| r.known(e)))), ("max", J::N(max))]);
        });
    }
    fn some(&self, rng: &mut Rng) -> Vec<i64> {
        let from: Vec<i64> = if rng.chance(4, 5) && !self.live.is_empty() { self.live.clone() } else { (1..=self.ents.len() as i64).collect() };
        if from.is_empty() {
            return vec![];
        }
        let mut h: Vec<i64> = (0..rng.range(1, 3)).map(|_| from[rng.below(from.len())]).collect();
        h.sort();
        h.dedup();
        h
    }
    fn random(&mut self, rng: &mut Rng, steps: usize, most: usize) {
        for _ in 0..steps {
            match rng.below(9) {
                0..=2 => {
                    let (n, a) = (rng.range(1, most), rng.chance(1, 2));
                    let t = if rng.chance(1, 3) { 3 } else { 1 };
                    self.create(if t > 1 { n * 2 } else { n }, a || t > 1, t)
                }
                3 | 4 => {
                    let h = self.some(rng);
                    self.kill(&h, false)
                }
                5 | 6 => {
                    let h = self.some(rng);
                    self.kill(&h, true)
                }
                7 => self.merge(),
                _ => {}
            }
            if rng.chance(1, 3) {
                self.see();
            }
        }
        self.see();
    }
}

/// At the last index.
pub fn capacity(out: &str, seed: u64, size: usize) {
    write(out, (0..4u64).map(|k| move || {
        let mut rng = Rng::new(seed * 10 + k);
        let mut r = Rec::start(k % 2 == 1, CAPACITY - [3, 1, 9, 5][k as usize], k >= 2);
        r.random(&mut rng, size, 4);
        r
    }));
}

/// At the last generation.
pub fn lifetimes(out: &str, seed: u64, size: usize) {
    write(out, (0..3u64).map(|k| move || {
        let mut rng = Rng::new(seed * 10 + k);
        let mut r = Rec::start(k == 2, 0, false);
        r.create(k as usize, false, 1);
        r.wear(LIVES - [1, 3, 2][k as usize]);
        r.see();
        // the last lives of the index that was worn
        for _ in 0..3 {
            let e = r.ents.len() as i64 + 1;
            r.create(1, k > 0, 1);
            if r.ents.len() as i64 == e {
                r.kill(&[e], k == 1);
                r.merge();
            }
            r.see();
        }
        r.random(&mut rng, size, 2);
        r
    }));
}

fn write<F: FnOnce() -> Rec + Send>(out: &str, jobs: impl Iterator<Item = F>) {
    let parts: Vec<(Vec<u8>, usize)> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs.map(|f| s.spawn(move || {
            let r = f();
            (r.out, r.events)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut f = std::fs::File::create(out).unwrap();
    for (b, _) in &parts {
        f.write_all(b).unwrap();
    }
    println!("{{\"events\":{}}}", parts.iter().map(|p| p.1).sum::<usize>());
}
