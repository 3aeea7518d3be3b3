//! MaskedStorage over every provided raw storage (spec/Storage.tla).
use crate::graph::Sut;
use crate::json::J;
use crate::own::Own;
use crate::val::{dispose, Led, Val};
use goggles::hibitset::{BitSet, BitSetLike};
use goggles::storage::{DenseVecStorage, HashMapStorage, RawStorage, VecStorage};
use goggles::{Flagged, IntoJoinExt, MaskedStorage, ParJoinExt};
use goggles::rayon::prelude::*;
use std::collections::HashMap;
use std::mem;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub const PLAIN: &[&str] = &[
    "Vec/0", "Vec/1", "Vec/2", "Dense/0", "Dense/1", "Dense/2", "Hash/0", "Hash/1", "Hash/2", "Hash/3",
    "Own/0", "Own/3",
];
pub const TRACKED: &[&str] = &[
    "FVec/0", "FVec/1", "FVec/2", "FDense/0", "FDense/1", "FDense/2", "FHash/0", "FHash/1", "FHash/3", "FOwn/0",
];

/// Index maps: slot i of the model is MAPS[m][i - 1] in the code.
pub const MAPS: [[u32; 6]; 4] = [
    [0, 1, 2, 3, 4, 5],
    [5, 63, 64, 127, 128, 4095],
    [0, 4095, 4096, 8191, 8192, 70_000],
    [63, 4096, 262_143, 262_144, 1_000_000, (1 << 24) - 1],
];

/// What differs between the storages.
pub trait Kind: RawStorage<Item = Val> + Default + Send + Sync + 'static {
    const DENSE: bool = false;
    const TRACKED: bool = false;
    fn slice(_: &MaskedStorage<Self>) -> &[Val] {
        panic!("harness: not dense")
    }
    fn slice_mut(_: &mut MaskedStorage<Self>) -> &mut [Val] {
        panic!("harness: not dense")
    }
    fn tracking(_: &MaskedStorage<Self>) -> bool {
        false
    }
    fn modified(_: &MaskedStorage<Self>) -> Vec<u32> {
        vec![]
    }
    fn set_track(_: &mut MaskedStorage<Self>, _: bool) {
        panic!("harness: not tracked")
    }
    fn clear(_: &mut MaskedStorage<Self>) {
        panic!("harness: not tracked")
    }
    fn mark(_: &MaskedStorage<Self>, _: u32) {
        panic!("harness: not tracked")
    }
    fn guard_mark(_: &mut MaskedStorage<Self>, _: u32) -> bool {
        panic!("harness: not tracked")
    }
    /// (index, value seen or 0) for every visited index; `w` writes to each visited value.
    fn mod_join(_: &mut MaskedStorage<Self>, _par: bool, _w: Option<&(dyn Fn(&mut Val) + Sync)>) -> Vec<(u32, i64)> {
        panic!("harness: not tracked")
    }
}
impl Kind for VecStorage<Val> {}
impl Kind for HashMapStorage<Val> {}
impl Kind for Own<Val> {}
impl Kind for DenseVecStorage<Val> {
    const DENSE: bool = true;
    fn slice(m: &MaskedStorage<Self>) -> &[Val] {
        m.as_slice()
    }
    fn slice_mut(m: &mut MaskedStorage<Self>) -> &mut [Val] {
        m.as_mut_slice()
    }
}
impl<S: Kind> Kind for Flagged<S> {
    const TRACKED: bool = true;
    fn tracking(m: &MaskedStorage<Self>) -> bool {
        m.tracking_modified()
    }
    fn modified(m: &MaskedStorage<Self>) -> Vec<u32> {
        m.modified_indexes().iter().collect()
    }
    fn set_track(m: &mut MaskedStorage<Self>, b: bool) {
        m.set_track_modified(b)
    }
    fn clear(m: &mut MaskedStorage<Self>) {
        m.clear_modified()
    }
    fn mark(m: &MaskedStorage<Self>, i: u32) {
        m.mark_modified(i)
    }
    fn guard_mark(m: &mut MaskedStorage<Self>, i: u32) -> bool {
        match m.get_guard(i) {
            Some(g) => {
                g.mark_modified();
                true
            }
            None => false,
        }
    }
    fn mod_join(m: &mut MaskedStorage<Self>, par: bool, w: Option<&(dyn Fn(&mut Val) + Sync)>) -> Vec<(u32, i64)> {
        // without indexes first (the join's own mask decides what is visited), then with
        let idx: Vec<u32> = m.modified_indexes().iter().collect();
        let all: BitSet = idx.iter().copied().collect();
        match (w, par) {
            (None, false) => {
                let alone: Vec<i64> = m.modified().join().map(|o| o.map_or(0, |v| v.see())).collect();
                let both: Vec<(u32, i64)> =
                    (&all, m.modified()).join().map(|(i, o)| (i, o.map_or(0, |v| v.see()))).collect();
                if alone.iter().eq(both.iter().map(|x| &x.1)) {
                    both
                } else {
                    alone.into_iter().map(|v| (u32::MAX, v)).collect()
                }
            }
            (None, true) => {
                let mut alone: Vec<i64> = m.modified().par().map(|o| o.map_or(0, |v| v.see())).collect();
                let mut both: Vec<(u32, i64)> = (&all, m.modified())
                    .par_join()
                    .map(|(i, o)| (i, o.map_or(0, |v| v.see())))
                    .collect();
                both.sort();
                let mut vals: Vec<i64> = both.iter().map(|x| x.1).collect();
                vals.sort();
                alone.sort();
                if alone == vals {
                    both
                } else {
                    alone.into_iter().map(|v| (u32::MAX, v)).collect()
                }
            }
            (Some(w), false) => (&all, m.modified_mut())
                .join()
                .map(|(i, o)| match o {
                    Some(v) => {
                        let s = v.see();
                        w(v);
                        (i, s)
                    }
                    None => (i, 0),
                })
                .collect(),
            (Some(w), true) => {
                let mut r: Vec<(u32, i64)> = (&all, m.modified_mut())
                    .par_join()
                    .map(|(i, o)| match o {
                        Some(v) => {
                            let s = v.see();
                            w(v);
                            (i, s)
                        }
                        None => (i, 0),
                    })
                    .collect();
                r.sort();
                r
            }
        }
    }
}

/// `par_join` by another name, so that a single operand does not clash with rayon's own methods.
trait Par: goggles::IntoJoin + Sized {
    fn par(self) -> goggles::par_join::JoinParIter<Self::IntoJoin>
    where
        Self: Send + Sync,
        Self::Item: Send,
        <Self::IntoJoin as goggles::Join>::Mask: goggles::join::BitSetConstrained + Send + Sync,
    {
        ParJoinExt::par_join(self)
    }
}
impl<T: goggles::IntoJoin> Par for T {}

pub struct S<K: Kind> {
    m: MaskedStorage<K>,
    map: &'static [u32; 6],
    n: usize,
    led: Led,
}

pub trait Any {
    fn apply(&mut self, op: &J) -> J;
    fn observe(&mut self) -> J;
}
impl Sut for Box<dyn Any> {
    fn apply(&mut self, op: &J) -> J {
        (**self).apply(op)
    }
    fn observe(&mut self) -> J {
        (**self).observe()
    }
}

pub fn make(variant: &str) -> Box<dyn Any> {
    let (k, m) = variant.split_once('/').unwrap();
    let map = &MAPS[m.parse::<usize>().unwrap()];
    fn new<K: Kind>(map: &'static [u32; 6]) -> Box<dyn Any> {
        Box::new(S::<K> { m: Default::default(), map, n: 6, led: Led::start() })
    }
    match k {
        "Vec" => new::<VecStorage<Val>>(map),
        "Dense" => new::<DenseVecStorage<Val>>(map),
        "Hash" => new::<HashMapStorage<Val>>(map),
        "Own" => new::<Own<Val>>(map),
        "FOwn" => new::<Flagged<Own<Val>>>(map),
        "FVec" => new::<Flagged<VecStorage<Val>>>(map),
        "FDense" => new::<Flagged<DenseVecStorage<Val>>>(map),
        "FHash" => new::<Flagged<HashMapStorage<Val>>>(map),
        _ => panic!("harness: kind {k}"),
    }
}

impl<K: Kind> S<K> {
    fn idx(&self, i: i64) -> u32 {
        self.map[i as usize - 1]
    }
    fn slot(&self, i: u32) -> i64 {
        self.map.iter().position(|x| *x == i).map_or(-1, |p| p as i64 + 1)
    }
    fn taken(&self, v: Option<Val>) -> i64 {
        v.map_or(0, |v| self.led.take(v))
    }
    /// uid -> slot of every present value
    fn whose(&self) -> HashMap<u32, i64> {
        (1..=self.n as i64)
            .filter_map(|i| self.m.get(self.idx(i)).map(|v| (v.uid(), i)))
            .collect()
    }
    fn pairs(v: Vec<(i64, i64)>) -> J {
        J::A(v.into_iter().map(|(a, b)| J::seq([a, b])).collect())
    }
}

fn put(led: Led, at: &mut Val, tag: i64) -> i64 {
    let old = mem::replace(at, led.val(tag));
    led.take(old)
}

impl<K: Kind> Any for S<K> {
    fn apply(&mut self, op: &J) -> J {
        let arg = op.at("arg");
        let (a, v) = (arg.at("i").int(), arg.at("v").int());
        let led = self.led;
        led.gone();
        let mut panicked = false;
        let val = match op.at("op").str() {
            "insert" => {
                let i = self.idx(a);
                let old = self.m.insert(i, led.val(v));
                J::N(self.taken(old))
            }
            "remove" => {
                let old = self.m.remove(self.idx(a));
                J::N(self.taken(old))
            }
            "get" => {
                let i = self.idx(a);
                let x = self.m.get(i).map_or(0, |v| v.see());
                J::N(if self.m.contains(i) == (x != 0) { x } else { -9 })
            }
            "get_mut" => {
                let i = self.idx(a);
                J::N(match self.m.get_mut(i) {
                    None => 0,
                    Some(r) if v == 0 => r.see(),
                    Some(r) => put(led, r, v),
                })
            }
            "guard_peek" => J::B(self.m.get_guard(self.idx(a)).is_some()),
            "guard_read" => {
                let i = self.idx(a);
                J::N(self.m.get_guard(i).map_or(0, |g| g.get().see()))
            }
            "guard_write" => {
                let i = self.idx(a);
                J::N(self.m.get_guard(i).map_or(0, |mut g| put(led, g.get_mut(), v)))
            }
            "guard_mark" => {
                let i = self.idx(a);
                J::B(K::guard_mark(&mut self.m, i))
            }
            "goi" => {
                let i = self.idx(a);
                let mut called = false;
                let r = self.m.get_or_insert_with(i, || {
                    called = true;
                    led.val(v)
                });
                J::A(vec![J::N(r.see()), J::B(called)])
            }
            "goi_panic" => {
                let i = self.idx(a);
                let m = &mut self.m;
                match catch_unwind(AssertUnwindSafe(|| {
                    m.get_or_insert_with(i, || panic_any("goi".to_string())).see()
                })) {
                    Ok(x) => J::N(x),
                    Err(_) => {
                        panicked = true;
                        J::N(0)
                    }
                }
            }
            o @ ("join" | "par_join") => {
                let who = self.whose();
                let f = |v: &Val| (who.get(&v.uid()).copied().unwrap_or(-1), v.see());
                let mut r: Vec<(i64, i64)> = if o == "join" {
                    (&self.m).join().map(f).collect()
                } else {
                    (&self.m).par().map(f).collect()
                };
                if o != "join" {
                    r.sort();
                }
                Self::pairs(r)
            }
            "join_mut" => {
                let who = self.whose();
                let r = (&mut self.m)
                    .join()
                    .take(a as usize)
                    .map(|r| {
                        let s = who.get(&r.uid()).copied().unwrap_or(-1);
                        (s, put(led, r, v))
                    })
                    .collect();
                Self::pairs(r)
            }
            "join_mut_panic" => {
                let who = self.whose();
                let mut r = vec![];
                let m = &mut self.m;
                panicked = catch_unwind(AssertUnwindSafe(|| {
                    for x in m.join() {
                        let s = who.get(&x.uid()).copied().unwrap_or(-1);
                        r.push((s, put(led, x, v)));
                        if r.len() == a as usize {
                            panic_any("body".to_string());
                        }
                    }
                }))
                .is_err();
                Self::pairs(r)
            }
            "par_join_mut" => {
                let who = self.whose();
                let mut r: Vec<(i64, i64)> = (&mut self.m)
                    .par()
                    .map(|r| {
                        let s = who.get(&r.uid()).copied().unwrap_or(-1);
                        (s, put(led, r, v))
                    })
                    .collect();
                r.sort();
                Self::pairs(r)
            }
            o @ ("guard_join" | "par_guard_join") => {
                let who = self.whose();
                let f = |mut g: goggles::masked::GuardedElement<K>| {
                    let s = who.get(&g.get().uid()).copied().unwrap_or(-1);
                    let x = g.get().see();
                    if x == a {
                        put(led, g.get_mut(), v);
                    }
                    (s, x)
                };
                let mut r: Vec<(i64, i64)> = if o == "guard_join" {
                    self.m.guard().join().map(f).collect()
                } else {
                    self.m.guard().par().map(f).collect()
                };
                if o != "guard_join" {
                    r.sort();
                }
                Self::pairs(r)
            }
            "slice_set" => {
                if !K::DENSE {
                    // no slice view: the effect is a mutable access
                    let i = self.idx(a);
                    J::N(self.m.get_mut(i).map_or(0, |r| put(led, r, v)))
                } else {
                    let uid = self.m.get(self.idx(a)).map(|v| v.uid());
                    match K::slice_mut(&mut self.m).iter_mut().find(|x| Some(x.uid()) == uid) {
                        Some(x) => J::N(put(led, x, v)),
                        None => J::N(-5),
                    }
                }
            }
            "slice_swap" => {
                let (i, j) = (self.idx(a), self.idx(v));
                let (x, y) = (self.m.get(i).map(|v| v.uid()), self.m.get(j).map(|v| v.uid()));
                if K::DENSE {
                    let s = K::slice_mut(&mut self.m);
                    let p = s.iter().position(|v| Some(v.uid()) == x);
                    let q = s.iter().position(|v| Some(v.uid()) == y);
                    match (p, q) {
                        (Some(p), Some(q)) => {
                            s.swap(p, q);
                            J::N(0)
                        }
                        _ => J::N(-5),
                    }
                } else {
                    let x = self.m.remove(i).unwrap();
                    let y = self.m.insert(j, x).unwrap();
                    self.m.insert(i, y);
                    J::N(0)
                }
            }
            "set_track" => {
                K::set_track(&mut self.m, a == 1);
                J::N(0)
            }
            "clear_modified" => {
                K::clear(&mut self.m);
                J::N(0)
            }
            "mark" => {
                K::mark(&self.m, self.idx(a));
                J::N(0)
            }
            o @ ("mod_join" | "par_mod_join" | "mod_join_mut" | "par_mod_join_mut") => {
                let w = move |r: &mut Val| {
                    put(led, r, v);
                };
                let w: Option<&(dyn Fn(&mut Val) + Sync)> = if o.ends_with("mut") { Some(&w) } else { None };
                let r = K::mod_join(&mut self.m, o.starts_with("par"), w);
                Self::pairs(r.into_iter().map(|(i, x)| (self.slot(i), x)).collect())
            }
            "drop" | "drop_unwinding" => {
                dispose(mem::take(&mut self.m), op.at("op").str() == "drop_unwinding");
                J::N(0)
            }
            "drop_panic" => {
                led.set_bomb(self.m.get(self.idx(a)).map_or(u32::MAX, |v| v.uid()));
                let old = mem::take(&mut self.m);
                panicked = catch_unwind(AssertUnwindSafe(|| drop(old))).is_err();
                led.bomb_armed();
                J::N(0)
            }
            o => panic!("harness: storage op {o}"),
        };
        let mut gone = led.gone();
        gone.sort();
        obj! { val: val, gone: J::set(gone), panic: panicked }
    }

    fn observe(&mut self) -> J {
        let see: Vec<i64> =
            (1..=self.n as i64).map(|i| self.m.get(self.idx(i)).map_or(0, |v| v.see())).collect();
        let mask: Vec<i64> = self.m.mask().iter().map(|i| self.slot(i)).collect();
        let contains = (1..=self.n as i64).filter(|i| self.m.contains(self.idx(*i)));
        let who = self.whose();
        let items: Vec<(i64, i64)> = (&self.m)
            .join()
            .map(|v| (who.get(&v.uid()).copied().unwrap_or(-1), v.see()))
            .collect();
        let slice = if K::DENSE {
            let s = K::slice(&self.m);
            if s.iter().all(|v| who.contains_key(&v.uid())) {
                J::set(s.iter().map(|v| v.see()))
            } else {
                J::s("a value that is at no index")
            }
        } else {
            J::set(see.iter().copied().filter(|x| *x != 0))
        };
        // the model has fewer slots than the maps; the others must be empty
        let mut map = see.clone();
        while map.last() == Some(&0) {
            map.pop();
        }
        obj! {
            map: J::Pad(map),
            mask: J::set(mask),
            contains: J::set(contains),
            items: Self::pairs(items),
            tracking: K::tracking(&self.m),
            modified: J::set(K::modified(&self.m).into_iter().map(|i| self.slot(i))),
            slice: slice,
            held: self.led.held(),
            errors: self.led.errors(),
        }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let o = op.at("op").str();
    let par = o.starts_with("par_");
    let panics = o.ends_with("_panic");
    match field {
        "ret.gone" | "held" => {
            if panics {
                vec!["C07", "C23"]
            } else {
                vec!["C07"]
            }
        }
        "errors" => {
            if panics {
                vec!["C07", "C23"]
            } else {
                vec!["C07"]
            }
        }
        "ret.panic" => vec!["C23"],
        "slice" => vec!["C08"],
        "modified" | "tracking" => {
            if panics {
                vec!["C09", "C23"]
            } else {
                vec!["C09"]
            }
        }
        "items" if par => vec!["C11"],
        "items" => vec!["C06", "C10"],
        // ret.val, map, mask, contains, observe, panic, hang, crash, teardown
        f => match o {
            _ if panics && f == "ret.val" && o == "join_mut_panic" => vec!["C10"],
            _ if panics => vec!["C23"],
            _ if par && o.contains("mod_join") => vec!["C09", "C11"],
            _ if par => vec!["C11"],
            "join" => vec!["C10"],
            "join_mut" | "guard_join" if f == "ret.val" => vec!["C10"],
            "slice_set" | "slice_swap" => vec!["C08"],
            "mod_join" | "mod_join_mut" | "mark" | "guard_mark" | "set_track" | "clear_modified" => vec!["C09"],
            "drop" | "drop_unwinding" => vec!["C07"],
            _ if f == "teardown" => vec!["C07"],
            _ => vec!["C06"],
        },
    }
}
