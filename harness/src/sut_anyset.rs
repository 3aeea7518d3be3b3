//! Dynamic component sets (spec/AnySet.tla).
use crate::comps::*;
use crate::graph::Sut;
use crate::json::J;
use crate::val::{dispose, Led};
use goggles::hibitset::BitSetLike;
use goggles::storage::RawStorage;
use goggles::{AnyCloneComponentSet, AnyComponentSet, Entity, World};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MOVING: &[&str] = &["Vec+FDense", "Hash+Dense"];
pub const CLONING: &[&str] = &["clone/Vec+FDense", "clone/FHash+Vec"];

pub struct S<A, B> {
    cloning: bool,
    any: Vec<AnyComponentSet>,
    cl: Vec<AnyCloneComponentSet>,
    w: World,
    ents: Vec<Entity>,
    dead: Entity,
    led: Led,
    p: PhantomData<(A, B)>,
}

pub fn make(v: &str) -> Box<dyn Sut> {
    let cloning = v.starts_with("clone/");
    match v.trim_start_matches("clone/") {
        "Vec+FDense" => new::<CVec, CFDense>(cloning),
        "Hash+Dense" => new::<CHash, CDense>(cloning),
        "FHash+Vec" => new::<CFHash, CVec>(cloning),
        _ => panic!("harness: {v}"),
    }
}
fn new<A: Comp, B: Comp>(cloning: bool) -> Box<dyn Sut>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    let mut w = World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    let e1 = w.create_entity();
    let dead = w.create_entity();
    w.delete_entity(dead).unwrap_or_else(|_| panic!("harness: delete"));
    let e2 = w.create_entity();
    Box::new(S::<A, B> {
        cloning,
        any: (0..3).map(|_| AnyComponentSet::new()).collect(),
        cl: (0..2).map(|_| AnyCloneComponentSet::new()).collect(),
        w,
        ents: vec![e1, e2],
        dead,
        led: Led::start(),
        p: PhantomData,
    })
}

fn text(r: Result<bool, goggles::WrongGeneration>) -> J {
    J::s(match r {
        Ok(true) => "replaced",
        Ok(false) => "new",
        Err(_) => "err",
    })
}

impl<A: Comp, B: Comp> S<A, B>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    fn is_cl(&self, k: usize) -> bool {
        self.cloning && k < 2
    }
    fn on<X: Comp>(&mut self, o: &str, k: usize, c: i64, v: i64, h: usize) -> J
    where
        X::Storage: RawStorage<Item = X> + Default + Send + Sync,
    {
        let led = self.led;
        let tag = 10 * c + v;
        let back = |o: Option<X>| J::N(o.map_or(0, |x| led.take(x.into_val())));
        let cl = self.is_cl(k);
        match o {
            "insert" => back(if cl { self.cl[k].insert(X::new(led.val(tag))) } else { self.any[k].insert(X::new(led.val(tag))) }),
            "remove" => back(self.any[k].remove::<X>()),
            "get_mut" => {
                let m = if cl { self.cl[k].get_mut::<X>() } else { self.any[k].get_mut::<X>() };
                J::N(m.map_or(0, |m| led.take(std::mem::replace(m, X::new(led.val(tag))).into_val())))
            }
            "w_put" => {
                let mut a = self.w.get_component_mut::<X>();
                let old = if v == 0 { a.remove(self.ents[h]) } else { a.insert(self.ents[h], X::new(led.val(tag))) };
                match old {
                    Ok(o) => back(o),
                    Err(_) => J::s("err"),
                }
            }
            "register" => {
                // what is replaced or removed is dropped with all it holds
                if v == 1 {
                    drop(self.w.insert_component::<X>())
                } else {
                    drop(self.w.remove_component::<X>())
                }
                J::N(0)
            }
            o => panic!("harness: {o}"),
        }
    }
    fn in_set<X: Comp>(&self, k: usize) -> J
    where
        X::Storage: RawStorage<Item = X> + Default + Send + Sync,
    {
        let (has, v) = if self.is_cl(k) {
            (self.cl[k].contains::<X>(), self.cl[k].get::<X>())
        } else {
            (self.any[k].contains::<X>(), self.any[k].get::<X>())
        };
        match v {
            None => J::N(if has { -3 } else { 0 }),
            Some(x) => J::N(if has { x.val().see() } else { -4 }),
        }
    }
    fn in_world<X: Comp>(&self, e: Entity) -> J
    where
        X::Storage: RawStorage<Item = X> + Default + Send + Sync,
    {
        if !self.w.contains_component::<X>() {
            return J::N(0);
        }
        let a = self.w.read_component::<X>();
        // nothing may be stored but for the two entities
        if a.mask().iter().any(|i| !self.ents.iter().any(|e| e.index() == i)) {
            return J::N(-6);
        }
        J::N(a.get(e).map_or(0, |x| x.val().see()))
    }
    /// The value set k (or the world) holds for type c: its number.
    fn uid(&self, c: i64, k: Option<usize>, h: usize) -> u32 {
        fn of<X: Comp>(x: Option<&X>) -> u32
        where
            X::Storage: RawStorage<Item = X> + Default + Send + Sync,
        {
            x.map_or(u32::MAX - 1, |x| x.val().uid())
        }
        match (k, c) {
            (Some(k), 1) if self.is_cl(k) => of(self.cl[k].get::<A>()),
            (Some(k), _) if self.is_cl(k) => of(self.cl[k].get::<B>()),
            (Some(k), 1) => of(self.any[k].get::<A>()),
            (Some(k), _) => of(self.any[k].get::<B>()),
            (None, 1) => of(self.w.read_component::<A>().get(self.ents[h])),
            (None, _) => of(self.w.read_component::<B>().get(self.ents[h])),
        }
    }
    /// The tag of the only value of set k.
    fn only(&self, k: usize, c: i64) -> i64 {
        let j = if c == 1 { self.in_set::<A>(k) } else { self.in_set::<B>(k) };
        j.int()
    }
}

impl<A: Comp, B: Comp> Sut for S<A, B>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        let n = |k: &str| a.at(k).int();
        let (k, c, v, h) = (n("k") as usize, n("c"), n("v"), n("h") as usize);
        let k = k.wrapping_sub(1);
        let h = h.wrapping_sub(1);
        let led = self.led;
        led.gone();
        let mark = led.mark();
        let o = op.at("op").str();
        let cloning = self.cloning;
        let ent = if h < 2 { self.ents[h] } else { self.dead };
        let mut panic = false;
        let val = match o {
            "drop" | "drop_unwinding" => {
                let unwinding = o == "drop_unwinding";
                if self.is_cl(k) {
                    dispose(std::mem::replace(&mut self.cl[k], AnyCloneComponentSet::new()), unwinding)
                } else {
                    dispose(std::mem::replace(&mut self.any[k], AnyComponentSet::new()), unwinding)
                }
                J::N(0)
            }
            "merge" | "merge_bomb" => {
                if o == "merge_bomb" {
                    led.set_bomb(self.uid(c, Some(k), 0));
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if cloning {
                        let other = std::mem::take(&mut self.cl[1 - k]);
                        self.cl[k].merge(other)
                    } else {
                        let other = std::mem::take(&mut self.any[1 - k]);
                        self.any[k].merge(other)
                    }
                }));
                panic = r.is_err();
                led.bomb_armed();
                J::B(r.unwrap_or(false))
            }
            "into_world" | "into_world_bomb" | "into_world_clone_panic" => {
                if o == "into_world_bomb" {
                    led.set_bomb(self.uid(c, None, h));
                }
                if o == "into_world_clone_panic" {
                    led.set_clone_bomb(self.only(k, c));
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if cloning {
                        self.cl[k].insert_into_world(&mut self.w, ent)
                    } else {
                        std::mem::take(&mut self.any[k]).insert_into_world(&mut self.w, ent)
                    }
                }));
                led.bomb_armed();
                led.clear_clone_bomb();
                panic = r.is_err();
                r.map_or(J::s("panic"), text)
            }
            "into_set" | "into_set_clone_panic" => {
                if o == "into_set_clone_panic" {
                    led.set_clone_bomb(self.only(k, c));
                }
                let r = catch_unwind(AssertUnwindSafe(|| self.cl[k].clone_into_set(&mut self.any[2])));
                led.clear_clone_bomb();
                panic = r.is_err();
                J::B(r.unwrap_or(false))
            }
            "register" => self.on::<B>(o, k, c, v, h),
            o if c == 1 => self.on::<A>(o, k, c, v, h),
            o => self.on::<B>(o, k, c, v, h),
        };
        obj! { val: val, gone: J::set(led.gone_before(mark)), panic: panic }
    }

    fn observe(&mut self) -> J {
        let n = 3;
        let len: Vec<J> = (0..n)
            .map(|k| if self.is_cl(k) { J::Skip } else { J::from(self.any[k].len()) })
            .collect();
        // the model of the cloning kind has one live entity
        let live = if self.cloning { 1 } else { 2 };
        obj! {
            sets: (0..n).map(|k| J::A(vec![self.in_set::<A>(k), self.in_set::<B>(k)])).collect::<Vec<_>>(),
            len: len,
            world: (0..live).map(|h| J::A(vec![self.in_world::<A>(self.ents[h]), self.in_world::<B>(self.ents[h])])).collect::<Vec<_>>(),
            held: self.led.held(),
            errors: self.led.errors(),
        }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let o = op.at("op").str();
    let panics = o.ends_with("_panic") || o.ends_with("_bomb");
    match field {
        "ret.gone" | "held" | "errors" | "teardown" if panics => vec!["C07", "C23"],
        "ret.gone" | "held" | "errors" | "teardown" => vec!["C07"],
        _ if panics => vec!["C16", "C23"],
        _ => match o {
            "w_put" => vec!["C13"],
            "register" => vec!["C14"],
            _ => vec!["C16"],
        },
    }
}
