//! Records whole applications (spec/AppTrace.tla): worlds with entities, components and resources,
//! and compositions of systems that fetch what they use and run on a pool; and borrows that several
//! threads attempt at once (spec/HoldTrace.tla).
use crate::json::J;
use crate::pools::pool;
use crate::rng::Rng;
use crate::sut_sys::{Errs, P};
use goggles::rayon::iter::ParallelIterator;
use goggles::storage::{DenseVecStorage, HashMapStorage, VecStorage};
use goggles::system::{parallelize, Par, ParList, Seq, SeqList, System};
use goggles::{
    Component, Entities, Entity, FetchNone, FetchResources, Flagged, IntoJoinExt, ParJoinExt, Read, ReadComponent, ReadResource,
    ResourceConflict, ResourceSet, World, WorldResourceId, WorldResources, Write, WriteComponent, WriteResource,
};
use std::cell::Cell;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn rows(v: &[Vec<i64>]) -> J {
    J::A(v.iter().map(|r| J::seq(r.iter().copied())).collect())
}
struct Out(std::io::BufWriter<std::fs::File>, usize);
impl Out {
    fn open(path: &str) -> Out {
        Out(std::io::BufWriter::new(std::fs::File::create(path).unwrap()), 0)
    }
    fn put(&mut self, v: Vec<(&str, J)>) {
        writeln!(self.0, "{}", o(v)).unwrap();
        self.1 += 1;
    }
    fn close(mut self) {
        self.0.flush().unwrap();
        println!("{{\"events\":{}}}", self.1);
    }
}

const BIG: i64 = 1_000_003;

macro_rules! comp {
    ($n:ident, $s:ty) => {
        #[derive(Clone, Debug)]
        pub struct $n(pub i64);
        impl Component for $n {
            type Storage = $s;
        }
    };
}
comp!(Ca, VecStorage<Ca>);
comp!(Cb, DenseVecStorage<Cb>);
comp!(Cc, HashMapStorage<Cc>);
comp!(Cd, Flagged<VecStorage<Cd>>);
pub struct Ra(i64);
pub struct Rb(i64);
/// Not Sync.
pub struct Rc(Cell<i64>);

/// The numbers of what can be declared: 1 the entity list, 2.. resources, 5.. components.
fn num(r: &WorldResourceId) -> i64 {
    [
        WorldResourceId::Entities,
        WorldResourceId::resource::<Ra>(),
        WorldResourceId::resource::<Rb>(),
        WorldResourceId::resource::<Rc>(),
        WorldResourceId::component::<Ca>(),
        WorldResourceId::component::<Cb>(),
        WorldResourceId::component::<Cc>(),
        WorldResourceId::component::<Cd>(),
    ]
    .iter()
    .position(|x| x == r)
    .map_or(0, |k| k as i64 + 1)
}

fn ent(e: Entity) -> Vec<i64> {
    vec![e.index() as i64, e.generation() as i64]
}

/// What one run of a system sees and does.
struct Cx<'w> {
    world: &'w World,
    n: i64,
    par: bool,
    targets: Vec<Entity>,
    made: Vec<Entity>,
    done: Vec<J>,
}

trait Item {
    fn act(&mut self, cx: &mut Cx);
}
impl Item for FetchNone<World, WorldResources> {
    fn act(&mut self, _: &mut Cx) {}
}
impl<'a> Item for Entities<'a> {
    fn act(&mut self, cx: &mut Cx) {
        let mut made = vec![];
        for _ in 0..cx.n % 4 {
            let e = self.create();
            made.push(ent(e));
            cx.made.push(e);
        }
        let mut asked = vec![];
        for t in &cx.targets {
            let mut r = ent(*t);
            r.push(self.delete(*t).is_ok() as i64);
            r.push(self.is_alive(*t) as i64);
            asked.push(r);
        }
        let seen: Vec<Vec<i64>> = if cx.par { (&*self).par_join().map(ent).collect() } else { (&*self).join().map(ent).collect() };
        cx.done.push(o(vec![
            ("k", J::s("E")),
            ("par", J::B(cx.par)),
            ("made", rows(&made)),
            ("asked", rows(&asked)),
            ("seen", rows(&seen)),
        ]));
    }
}
macro_rules! items {
    ($($c:ident $t:literal)*) => { $(
        impl<'a> Item for ReadComponent<'a, $c> {
            fn act(&mut self, cx: &mut Cx) {
                let es = cx.world.entities();
                let f = |(e, c): (Entity, &$c)| { let mut r = ent(e); r.push(c.0); r };
                let got: Vec<Vec<i64>> = if cx.par { (&es, &*self).par_join().map(f).collect() } else { (&es, &*self).join().map(f).collect() };
                cx.done.push(o(vec![("k", J::s("C")), ("t", J::N($t)), ("w", J::B(false)), ("par", J::B(cx.par)), ("rows", rows(&got)), ("put", rows(&[]))]));
            }
        }
        impl<'a> Item for WriteComponent<'a, $c> {
            fn act(&mut self, cx: &mut Cx) {
                let es = cx.world.entities();
                let n = cx.n;
                let f = |(e, c): (Entity, &mut $c)| {
                    let mut r = ent(e);
                    r.push(c.0);
                    c.0 = (c.0 * 3 + n) % BIG;
                    r
                };
                let got: Vec<Vec<i64>> = if cx.par { (&es, &mut *self).par_join().map(f).collect() } else { (&es, &mut *self).join().map(f).collect() };
                let mut put = vec![];
                for e in &cx.made {
                    let mut r = ent(*e);
                    r.push(match self.insert(*e, $c(10 * n)) {
                        Ok(None) => 0,
                        Ok(Some(c)) => c.0,
                        Err(_) => -1,
                    });
                    put.push(r);
                }
                cx.done.push(o(vec![("k", J::s("C")), ("t", J::N($t)), ("w", J::B(true)), ("par", J::B(cx.par)), ("rows", rows(&got)), ("put", rows(&put))]));
            }
        }
    )* };
}
items!(Ca 5 Cb 6 Cc 7 Cd 8);
macro_rules! read_res {
    ($($r:ident $t:literal)*) => { $(
        impl<'a> Item for ReadResource<'a, $r> {
            fn act(&mut self, cx: &mut Cx) {
                cx.done.push(o(vec![("k", J::s("R")), ("t", J::N($t)), ("w", J::B(false)), ("v", J::N(self.0))]));
            }
        }
    )* };
}
macro_rules! write_res {
    ($($r:ident $t:literal $get:expr, $set:expr;)*) => { $(
        impl<'a> Item for WriteResource<'a, $r> {
            fn act(&mut self, cx: &mut Cx) {
                let v: i64 = $get(&**self);
                $set(&mut **self, (v * 3 + cx.n) % BIG);
                cx.done.push(o(vec![("k", J::s("R")), ("t", J::N($t)), ("w", J::B(true)), ("v", J::N(v))]));
            }
        }
    )* };
}
read_res!(Ra 2 Rb 3);
write_res! {
    Ra 2 |r: &Ra| r.0, |r: &mut Ra, v| r.0 = v;
    Rb 3 |r: &Rb| r.0, |r: &mut Rb, v| r.0 = v;
    Rc 4 |r: &Rc| r.0.get(), |r: &mut Rc, v| r.0.set(v);
}
macro_rules! tuples {
    ($(($($x:ident)*))*) => { $(
        impl<$($x: Item),*> Item for ($($x,)*) {
            #[allow(non_snake_case)]
            fn act(&mut self, cx: &mut Cx) {
                let ($($x,)*) = self;
                $($x.act(cx);)*
            }
        }
    )* };
}
tuples!((A) (A B) (A B C) (A B C D) (A B C D E));

/// What systems fetch: the type and, for the specification, its members.
macro_rules! kinds {
    ($($n:literal $d:literal $t:ident = $ty:ty;)*) => {
        mod fetched {
            use super::*;
            $(#[allow(unused_lifetimes)] pub type $t<'a> = $ty;)*
        }
        const KINDS: &[(i64, &str)] = &[$(($n, $d)),*];
        fn declared(kind: i64) -> Result<WorldResources, ResourceConflict> {
            match kind {
                $($n => <fetched::$t<'_> as FetchResources<'_, World>>::check_resources(),)*
                _ => panic!("harness: kind"),
            }
        }
        fn run_kind(kind: i64, cx: &mut Cx, begin: &dyn Fn(), end: &dyn Fn()) {
            let w: &World = cx.world;
            match kind {
                $($n => {
                    let mut f: fetched::$t<'_> = w.fetch();
                    begin();
                    f.act(cx);
                    end();
                })*
                _ => panic!("harness: kind"),
            }
        }
    };
}
kinds! {
    1 "E" F1 = Entities<'a>;
    2 "r5" F2 = ReadComponent<'a, Ca>;
    3 "w5" F3 = WriteComponent<'a, Ca>;
    4 "w6" F4 = WriteComponent<'a, Cb>;
    5 "r6 w5" F5 = (ReadComponent<'a, Cb>, WriteComponent<'a, Ca>);
    6 "E w5" F6 = (Entities<'a>, WriteComponent<'a, Ca>);
    7 "E w7 r2" F7 = (Entities<'a>, WriteComponent<'a, Cc>, ReadResource<'a, Ra>);
    8 "w2" F8 = WriteResource<'a, Ra>;
    9 "r2 r3" F9 = (ReadResource<'a, Ra>, ReadResource<'a, Rb>);
    10 "w4 r7" F10 = (WriteResource<'a, Rc>, ReadComponent<'a, Cc>);
    11 "r8" F11 = ReadComponent<'a, Cd>;
    12 "w8 r2" F12 = (WriteComponent<'a, Cd>, ReadResource<'a, Ra>);
    13 "w8 w5 w6" F13 = (WriteComponent<'a, Cd>, WriteComponent<'a, Ca>, WriteComponent<'a, Cb>);
    14 "r5 r6 r7 r8" F14 = (ReadComponent<'a, Ca>, ReadComponent<'a, Cb>, ReadComponent<'a, Cc>, ReadComponent<'a, Cd>);
    15 "" F15 = FetchNone<World, WorldResources>;
    16 "E E" F16 = (Entities<'a>, Entities<'a>);
    17 "r5 w3 r8" F17 = ((ReadComponent<'a, Ca>, WriteResource<'a, Rb>), ReadComponent<'a, Cd>);
    18 "w3 w7" F18 = (WriteResource<'a, Rb>, WriteComponent<'a, Cc>);
    19 "w5 r5" F19 = (WriteComponent<'a, Ca>, ReadComponent<'a, Ca>);
    20 "E w6 w8" F20 = (Entities<'a>, WriteComponent<'a, Cb>, WriteComponent<'a, Cd>);
    21 "r3 w6" F21 = (ReadResource<'a, Rb>, WriteComponent<'a, Cb>);
    22 "w4" F22 = WriteResource<'a, Rc>;
    23 "r5 r5" F23 = (ReadComponent<'a, Ca>, ReadComponent<'a, Ca>);
    24 "w2 r3 w2" F24 = (WriteResource<'a, Ra>, ReadResource<'a, Rb>, WriteResource<'a, Ra>);
    25 "w7" F25 = WriteComponent<'a, Cc>;
    26 "w3" F26 = WriteResource<'a, Rb>;
    27 "E r5 r6 r7 w8" F27 = (Entities<'a>, ReadComponent<'a, Ca>, ReadComponent<'a, Cb>, ReadComponent<'a, Cc>, WriteComponent<'a, Cd>);
}

/// What a run hands to every system.
#[derive(Clone, Copy)]
struct W(*const World);
// the world outlives the run
unsafe impl Send for W {}
unsafe impl Sync for W {}

struct Ev {
    n: i64,
    begin: u64,
    end: u64,
    done: Vec<J>,
}
#[derive(Default)]
struct Shared {
    clock: AtomicU64,
    log: Mutex<Vec<Ev>>,
    par: Mutex<Vec<bool>>,
    targets: Mutex<Vec<Vec<Entity>>>,
}
struct Leaf {
    n: i64,
    kind: i64,
    sh: Arc<Shared>,
}
impl System<W> for Leaf {
    type Resources = WorldResources;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<WorldResources, ResourceConflict> {
        declared(self.kind)
    }
    fn run(&mut self, _: &P, w: W) -> Result<(), Errs> {
        let world = unsafe { &*w.0 };
        let k = self.n as usize - 1;
        let mut cx = Cx {
            world,
            n: self.n,
            par: self.sh.par.lock().unwrap()[k],
            targets: self.sh.targets.lock().unwrap()[k].clone(),
            made: vec![],
            done: vec![],
        };
        let (b, e) = (Cell::new(0), Cell::new(0));
        let sh = self.sh.clone();
        run_kind(
            self.kind,
            &mut cx,
            &|| b.set(sh.clock.fetch_add(1, Ordering::SeqCst)),
            &|| e.set(sh.clock.fetch_add(1, Ordering::SeqCst)),
        );
        self.sh.log.lock().unwrap().push(Ev { n: self.n, begin: b.get(), end: e.get(), done: cx.done });
        Ok(())
    }
}
type Dyn = Box<dyn System<W, Resources = WorldResources, Pool = P, Error = Errs> + Send>;

fn tree(r: &mut Rng, next: &mut i64, n: usize, depth: usize) -> J {
    let node = |k: &str, xs: Vec<J>| o(vec![("k", J::s(k)), ("xs", J::A(xs))]);
    if n == 1 {
        *next += 1;
        return o(vec![("k", J::s("leaf")), ("n", J::N(*next - 1))]);
    }
    let parts = if depth == 0 { n } else { r.range(2, n.min(5)) };
    let mut cut = vec![1; parts];
    for _ in parts..n {
        cut[r.below(parts)] += 1;
    }
    let xs: Vec<J> = cut.into_iter().map(|m| tree(r, next, m, depth.saturating_sub(1))).collect();
    match parts {
        2 => node(*r.pick(&["seq", "par", "seqlist", "parlist"]), xs),
        3..=4 => node(*r.pick(&["seqm", "parm", "seqlist", "parlist"]), xs),
        _ => node(*r.pick(&["seqlist", "parlist"]), xs),
    }
}
fn build(t: &J, leaf: &dyn Fn(i64) -> Leaf) -> Dyn {
    let k = t.at("k").str();
    if k == "leaf" {
        return Box::new(leaf(t.at("n").int()));
    }
    let v: Vec<Dyn> = t.at("xs").arr().iter().map(|x| build(x, leaf)).collect();
    let n = v.len();
    let mut i = v.into_iter();
    macro_rules! x {
        () => {
            i.next().unwrap()
        };
    }
    match (k, n) {
        ("seqlist", _) => Box::new(SeqList(i.collect::<Vec<_>>())),
        ("parlist", _) => Box::new(ParList(i.collect::<Vec<_>>())),
        ("seq", 2) => Box::new(Seq::new(x!(), x!())),
        ("par", 2) => Box::new(Par::new(x!(), x!())),
        ("seqm", 3) => Box::new(goggles::seq!(x!(), x!(), x!())),
        ("seqm", 4) => Box::new(goggles::seq!(x!(), x!(), x!(), x!())),
        ("parm", 3) => Box::new(goggles::par!(x!(), x!(), x!())),
        ("parm", 4) => Box::new(goggles::par!(x!(), x!(), x!(), x!())),
        _ => panic!("harness: node {k} of {n}"),
    }
}

fn said(r: std::thread::Result<Result<WorldResources, ResourceConflict>>) -> Vec<(&'static str, J)> {
    match r {
        Ok(Ok(w)) => vec![
            ("panic", J::B(false)),
            ("ok", J::B(true)),
            ("reads", J::seq(w.reads().map(num))),
            ("writes", J::seq(w.writes().map(num))),
        ],
        r => vec![("panic", J::B(r.is_err())), ("ok", J::B(false)), ("reads", J::seq([])), ("writes", J::seq([]))],
    }
}

struct App {
    world: Box<World>,
    ents: Vec<Entity>,
}
impl App {
    /// Create and delete entities in one thread.
    fn edit(&mut self, r: &mut Rng, out: &mut Out, size: usize) {
        let mut new = vec![];
        let w = &mut *self.world;
        for _ in 0..r.below(size + 1) {
            let e = if r.chance(1, 3) { w.entities().create() } else { w.create_entity() };
            let mut row = ent(e);
            macro_rules! put {
                ($($c:ident)*) => { $(
                    let v = r.range(1, 1000) as i64;
                    if r.chance(1, 2) {
                        w.get_component_mut::<$c>().insert(e, $c(v)).expect("harness: a new entity");
                        row.push(v);
                    } else {
                        row.push(0);
                    }
                )* };
            }
            put!(Ca Cb Cc Cd);
            new.push(row);
            self.ents.push(e);
        }
        let mut killed = vec![];
        if !self.ents.is_empty() {
            for _ in 0..r.below(size / 2 + 1) {
                let e = *r.pick(&self.ents);
                let mut row = ent(e);
                row.push(w.delete_entity(e).is_ok() as i64);
                killed.push(row);
            }
        }
        out.put(vec![("o", J::s("edit")), ("new", rows(&new)), ("killed", rows(&killed))]);
    }
    fn see(&mut self, out: &mut Out) {
        let w = &*self.world;
        let live: Vec<Vec<i64>> = (&w.entities()).join().map(ent).collect();
        let mut by = vec![];
        macro_rules! get {
            ($($c:ident)*) => { $(
                let s = w.read_component::<$c>();
                let mut v: Vec<Vec<i64>> = vec![];
                for e in &self.ents {
                    if let Some(c) = s.get(*e) {
                        let mut r = ent(*e);
                        r.push(c.0);
                        v.push(r);
                    }
                }
                by.push(rows(&v));
                drop(s);
            )* };
        }
        get!(Ca Cb Cc Cd);
        let res = vec![w.read_resource::<Ra>().0, w.read_resource::<Rb>().0, w.write_resource::<Rc>().0.get()];
        out.put(vec![("o", J::s("see")), ("live", rows(&live)), ("comps", J::A(by)), ("res", J::seq(res))]);
    }
    fn run(&mut self, r: &mut Rng, out: &mut Out, sys: &mut Dyn, sh: &Arc<Shared>, n: usize, calm: bool) {
        *sh.par.lock().unwrap() = (0..n).map(|_| r.chance(1, 2)).collect();
        *sh.targets.lock().unwrap() = (0..n)
            .map(|_| (0..r.below(3)).filter_map(|_| if self.ents.is_empty() { None } else { Some(*r.pick(&self.ents)) }).collect())
            .collect();
        sh.log.lock().unwrap().clear();
        let (name, p) = if calm {
            [("seq", P::Seq), ("rev", P::Rev)].into_iter().nth(r.below(2)).unwrap()
        } else {
            match r.below(8) {
                0 => ("seq", P::Seq),
                1 => ("rev", P::Rev),
                2 => ("threads", P::Threads),
                3 => ("mixed", P::Mixed),
                _ => ("rayon", P::Rayon),
            }
        };
        let w = W(&*self.world);
        let threads = *r.pick(&[1usize, 2, 3, 4, 8]);
        let got = catch_unwind(AssertUnwindSafe(|| pool(threads).install(|| sys.run(&p, w))));
        let mut log = std::mem::take(&mut *sh.log.lock().unwrap());
        let mut evs: Vec<(u64, J)> = vec![];
        for e in log.drain(..) {
            evs.push((e.begin, o(vec![("n", J::N(e.n)), ("items", J::A(e.done))])));
            evs.push((e.end, o(vec![("n", J::N(-e.n)), ("items", J::A(vec![]))])));
        }
        evs.sort_by_key(|e| e.0);
        // what systems created
        for (_, e) in &evs {
            for i in e.at("items").arr() {
                if i.at("k").str() == "E" {
                    let made = i.at("made").arr();
                    for m in made {
                        let m = m.ints();
                        if let Some(e) = self.world.entities().entity(m[0] as u32) {
                            if e.generation() as i64 == m[1] {
                                self.ents.push(e);
                            }
                        }
                    }
                }
            }
        }
        let msg = match got {
            Err(p) => crate::graph::panic_text(p),
            _ => String::new(),
        };
        out.put(vec![
            ("o", J::s("run")),
            ("pool", J::S(format!("{name} {threads}"))),
            ("ev", J::A(evs.into_iter().map(|e| e.1).collect())),
            ("panic", J::B(!msg.is_empty())),
            ("msg", J::S(msg.chars().take(200).collect())),
        ]);
    }
}

pub fn record(path: &str, seed: u64, size: usize) {
    let mut r = Rng::new(seed);
    let mut out = Out::open(path);
    for k in 0..size {
        let n = if k % 7 == 6 { r.range(8, 24) } else { r.range(2, 9) };
        // all kinds, or those that seldom conflict
        let calm = [1, 2, 9, 11, 14, 15, 16, 22, 23, 25, 4, 26];
        let few = r.chance(2, 3);
        let kinds: Vec<i64> = (0..n)
            .map(|_| loop {
                let x = if few { *r.pick(&calm) } else { r.pick(KINDS).0 };
                if ![19, 24].contains(&x) || r.chance(1, 6) {
                    break x;
                }
            })
            .collect();
        let sh: Arc<Shared> = Arc::default();
        let leaf = |m: i64| Leaf { n: m, kind: kinds[m as usize - 1], sh: sh.clone() };
        let mut app = App { world: Box::new(World::new()), ents: vec![] };
        app.world.insert_component::<Ca>();
        app.world.insert_component::<Cb>();
        app.world.insert_component::<Cc>();
        app.world.insert_component::<Cd>();
        app.world.get_component_mut::<Cd>().set_track_modified(r.chance(1, 2));
        app.world.insert_resource(Ra(1));
        app.world.insert_resource(Rb(2));
        app.world.insert_resource(Rc(Cell::new(3)));
        let items = |k: i64| -> J {
            let d = KINDS.iter().find(|x| x.0 == k).unwrap().1;
            let item = |s: &str| match s.split_at(1) {
                ("E", _) => J::seq([1, 1]),
                (m, t) => J::seq([t.parse().unwrap(), if m == "r" { 1 } else { 2 }]),
            };
            J::A(d.split(' ').filter(|s| !s.is_empty()).map(item).collect())
        };
        let leaves: Vec<J> = kinds
            .iter()
            .map(|k| {
                let mut v = said(catch_unwind(|| declared(*k)));
                v.push(("items", items(*k)));
                o(v)
            })
            .collect();
        let plize = k % 3 == 2;
        let depth = *r.pick(&[0, 1, 2, 4]);
        let t = if plize { J::Null } else { tree(&mut r, &mut 1, n, depth) };
        let mut sys: Dyn = if plize {
            let v: Vec<Leaf> = (1..=n as i64).map(leaf).collect();
            let s = parallelize::<W, _>(v);
            let gs = s.0.iter().map(|g| J::seq(g.0.iter().map(|l| l.n))).collect();
            out.put(vec![("o", J::s("plize")), ("leaves", J::A(leaves)), ("groups", J::A(gs))]);
            Box::new(s)
        } else {
            let s = build(&t, &leaf);
            out.put(vec![("o", J::s("app")), ("leaves", J::A(leaves)), ("tree", t)]);
            s
        };
        let c = said(catch_unwind(AssertUnwindSafe(|| sys.check_resources())));
        let ok = c[1].1.bool();
        let mut v = vec![("o", J::s("check"))];
        v.extend(c);
        out.put(v);
        // a system in conflict with itself cannot run
        let bad = kinds.iter().any(|k| [19, 24].contains(k));
        let many = *r.pick(&[6, 20, 90]);
        app.edit(&mut r, &mut out, many);
        for _ in 0..r.range(2, 4) {
            if !bad {
                app.run(&mut r, &mut out, &mut sys, &sh, n, !ok);
                app.see(&mut out);
            }
            match r.below(4) {
                0 => {}
                1 => app.edit(&mut r, &mut out, 6),
                _ => {
                    app.world.merge();
                    out.put(vec![("o", J::s("merge"))]);
                }
            }
            app.see(&mut out);
        }
    }
    out.close();
}

// ----- several threads borrow

#[derive(Clone, Copy)]
enum Src {
    Set(&'static ResourceSet),
    World(&'static World),
}
struct Call {
    th: i64,
    what: &'static [[i64; 2]],
    a: u64,
    b: u64,
    ok: bool,
    c: u64,
    d: u64,
    msg: String,
}

/// [type, mode]: types 1, 2, 3, modes 1 read, 2 write.
macro_rules! attempts {
    ($f:ident $src:ty; $($n:literal [$($w:tt)*] $t:ident = $ty:ty;)*) => {
        mod $f {
            use super::*;
            $(#[allow(unused_lifetimes)] pub type $t<'a> = $ty;)*
            pub const WHAT: &[&[[i64; 2]]] = &[$(&[$($w)*]),*];
            /// fetches, and calls `f` while holding what was fetched
            pub fn attempt(k: usize, src: &'static $src, f: impl FnOnce()) {
                match k {
                    $($n => {
                        let x: $t<'static> = <$t<'static> as FetchResources<'static, $src>>::fetch(src);
                        f();
                        drop(x);
                    })*
                    _ => panic!("harness: attempt"),
                }
            }
        }
    };
}
attempts! { set_attempts ResourceSet;
    0 [[1, 1]] A0 = Read<'a, Ra>;
    1 [[1, 2]] A1 = Write<'a, Ra>;
    2 [[2, 1]] A2 = Read<'a, Rb>;
    3 [[2, 2]] A3 = Write<'a, Rb>;
    4 [[3, 2]] A4 = Write<'a, Rc>;
    5 [[1, 1], [2, 2]] A5 = (Read<'a, Ra>, Write<'a, Rb>);
    6 [[2, 1], [1, 2]] A6 = (Read<'a, Rb>, Write<'a, Ra>);
    7 [[1, 1], [2, 1]] A7 = (Read<'a, Ra>, Read<'a, Rb>);
    8 [[3, 2], [1, 1]] A8 = (Write<'a, Rc>, Read<'a, Ra>);
    9 [[1, 1], [1, 1]] A9 = (Read<'a, Ra>, Read<'a, Ra>);
}
attempts! { world_attempts World;
    0 [[1, 1]] A0 = ReadResource<'a, Ra>;
    1 [[1, 2]] A1 = WriteResource<'a, Ra>;
    2 [[2, 1]] A2 = ReadComponent<'a, Ca>;
    3 [[2, 2]] A3 = WriteComponent<'a, Ca>;
    4 [[3, 2]] A4 = WriteResource<'a, Rc>;
    5 [[1, 1], [2, 2]] A5 = (ReadResource<'a, Ra>, WriteComponent<'a, Ca>);
    6 [[2, 1], [1, 2]] A6 = (ReadComponent<'a, Ca>, WriteResource<'a, Ra>);
    7 [[1, 1], [2, 1]] A7 = (ReadResource<'a, Ra>, ReadComponent<'a, Ca>);
    8 [[3, 2], [1, 1]] A8 = (WriteResource<'a, Rc>, ReadResource<'a, Ra>);
    9 [[1, 1], [1, 1]] A9 = (ReadResource<'a, Ra>, ReadResource<'a, Ra>);
}

pub fn holds(path: &str, seed: u64, size: usize) {
    let mut r = Rng::new(seed);
    let mut out = Out::open(path);
    for k in 0..size {
        // kept for good: borrows may outlive anything
        let src = if k % 2 == 0 {
            let mut s = ResourceSet::new();
            s.insert(Ra(1));
            s.insert(Rb(2));
            s.insert(Rc(Cell::new(3)));
            Src::Set(Box::leak(Box::new(s)))
        } else {
            let mut w = World::new();
            w.insert_resource(Ra(1));
            w.insert_component::<Ca>();
            w.insert_resource(Rc(Cell::new(3)));
            Src::World(Box::leak(Box::new(w)))
        };
        let clock = AtomicU64::new(0);
        let threads = r.range(2, 4);
        let calls = r.range(2, 7);
        let all: Mutex<Vec<Call>> = Mutex::new(vec![]);
        let bar = std::sync::Barrier::new(threads);
        let rs: Vec<Rng> = (0..threads).map(|_| Rng::new(r.next())).collect();
        std::thread::scope(|s| {
            for (th, mut r) in rs.into_iter().enumerate() {
                let (clock, all, bar) = (&clock, &all, &bar);
                s.spawn(move || {
                    bar.wait();
                    for _ in 0..calls {
                        let k = r.below(set_attempts::WHAT.len());
                        let stay = r.below(40);
                        let now = || clock.fetch_add(1, Ordering::SeqCst);
                        let (b, c) = (Cell::new(0), Cell::new(0));
                        let inside = || {
                            b.set(now());
                            for _ in 0..stay {
                                std::thread::yield_now();
                            }
                            c.set(now());
                        };
                        let a = now();
                        let got = catch_unwind(AssertUnwindSafe(|| match src {
                            Src::Set(s) => set_attempts::attempt(k, s, inside),
                            Src::World(w) => world_attempts::attempt(k, w, inside),
                        }));
                        let d = now();
                        let (ok, msg) = match got {
                            Ok(()) => (true, String::new()),
                            Err(p) => (false, crate::graph::panic_text(p)),
                        };
                        let what = if let Src::Set(_) = src { set_attempts::WHAT[k] } else { world_attempts::WHAT[k] };
                        let (b, c) = (b.get(), c.get());
                        all.lock().unwrap().push(Call { th: th as i64, what, a, b, ok, c, d, msg });
                        if r.chance(1, 3) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        // at the end everything can be had again
        let mut left = vec![];
        for k in [1usize, 3, 4] {
            let free = catch_unwind(AssertUnwindSafe(|| match src {
                Src::Set(s) => set_attempts::attempt(k, s, || ()),
                Src::World(w) => world_attempts::attempt(k, w, || ()),
            }));
            left.push(free.is_ok() as i64);
        }
        let calls = all.into_inner().unwrap();
        out.put(vec![
            ("src", J::s(if k % 2 == 0 { "set" } else { "world" })),
            ("calls", J::A(calls.iter().map(|c| o(vec![
                ("th", J::N(c.th)),
                ("what", J::A(c.what.iter().map(|w| J::seq(w.iter().copied())).collect())),
                ("a", J::N(c.a as i64)),
                ("b", J::N(c.b as i64)),
                ("ok", J::B(c.ok)),
                ("c", J::N(c.c as i64)),
                ("d", J::N(c.d as i64)),
                ("msg", J::S(c.msg.chars().take(120).collect())),
            ])).collect())),
            ("left", J::seq(left)),
        ]);
    }
    out.close();
}
