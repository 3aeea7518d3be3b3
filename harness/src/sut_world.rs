//! Entities and components in a World (spec/World.tla).
use crate::comps::*;
use crate::graph::Sut;
use crate::json::J;
use crate::val::{dispose, Led, Val};
use goggles::hibitset::BitSetLike;
use goggles::storage::RawStorage;
use goggles::{Entity, IntoJoinExt, World};
use std::marker::PhantomData;
use std::mem;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub const VARIANTS: &[&str] = &["Vec+FDense/w", "Dense+FHash/g", "Hash+FVec/w", "Vec+Dense/g", "FDense+Vec/w", "Own+FHash/g"];
pub const TRACKED: &[&str] = &["Vec+FDense/w", "Dense+FHash/g", "Hash+FVec/w"];

pub struct S<A: Comp, B: Comp>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    w: World,
    ents: Vec<Entity>,
    /// model index -> real index, as long as that is one to one
    idx: Vec<(i64, u32)>,
    consistent: bool,
    /// access through get_component_mut instead of write_component
    gm: bool,
    led: Led,
    p: PhantomData<(A, B)>,
}

pub trait Any {
    fn apply(&mut self, op: &J) -> J;
    fn observe(&mut self) -> J;
}
impl Sut for Box<dyn Any> {
    fn apply(&mut self, op: &J) -> J {
        (**self).apply(op)
    }
    fn observe(&mut self) -> J {
        (**self).observe()
    }
}

pub fn make(variant: &str) -> Box<dyn Any> {
    let (k, via) = variant.split_once('/').unwrap();
    let gm = via == "g";
    match k {
        "Vec+FDense" => new::<CVec, CFDense>(gm),
        "Dense+FHash" => new::<CDense, CFHash>(gm),
        "Hash+FVec" => new::<CHash, CFVec>(gm),
        "Vec+Dense" => new::<CVec, CDense>(gm),
        "Own+FHash" => new::<COwn, CFHash>(gm),
        "FDense+Vec" => new::<CFDense, CVec>(gm),
        _ => panic!("harness: {variant}"),
    }
}
fn new<A: Comp, B: Comp>(gm: bool) -> Box<dyn Any>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    Box::new(S::<A, B> {
        w: world::<A, B>(),
        ents: vec![],
        idx: vec![],
        consistent: true,
        gm,
        led: Led::start(),
        p: PhantomData,
    })
}
fn world<A: Comp, B: Comp>() -> World
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    let mut w = World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    w
}

fn ok(b: bool) -> J {
    J::s(if b { "ok" } else { "err" })
}

macro_rules! acc {
    ($self:ident, $x:ty, |$a:ident| $e:expr) => {
        if $self.gm {
            #[allow(unused_mut)]
            let mut $a = $self.w.get_component_mut::<$x>();
            $e
        } else {
            #[allow(unused_mut)]
            let mut $a = $self.w.write_component::<$x>();
            $e
        }
    };
}

impl<A: Comp, B: Comp> S<A, B>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    fn handle(&self, e: Entity) -> i64 {
        self.ents.iter().position(|x| *x == e).map_or(-1, |p| p as i64 + 1)
    }
    fn created(&mut self, e: Entity, model: i64) {
        self.ents.push(e);
        let real = e.index();
        match self.idx.iter().find(|(m, r)| *m == model || *r == real) {
            None => self.idx.push((model, real)),
            Some(p) => self.consistent &= *p == (model, real),
        }
    }
    /// Operations on component type X; `c` is its number in the model.
    fn on<X: Comp>(&mut self, op: &str, h: i64, v: i64, c: i64, panicked: &mut bool) -> J
    where
        X::Storage: RawStorage<Item = X> + Default + Send + Sync,
    {
        let led = self.led;
        let e = if h > 0 { Some(self.ents[h as usize - 1]) } else { None };
        let tag = 100 * h + 10 * c + v;
        let take = |o: Option<X>| o.map_or(0, |x| led.take(x.into_val()));
        let put = |at: &mut X| led.take(mem::replace(at, X::new(led.val(tag))).into_val());
        match op {
            "insert" => match acc!(self, X, |a| a.insert(e.unwrap(), X::new(led.val(tag)))) {
                Ok(o) => J::N(take(o)),
                Err(_) => ok(false),
            },
            "remove" => match acc!(self, X, |a| a.remove(e.unwrap())) {
                Ok(o) => J::N(take(o)),
                Err(_) => ok(false),
            },
            "get_mut" => J::N(acc!(self, X, |a| a.get_mut(e.unwrap()).map_or(0, put))),
            "guard_read" => J::N(acc!(self, X, |a| a.get_guard(e.unwrap()).map_or(0, |g| g.get().val().see()))),
            "guard_write" => J::N(acc!(self, X, |a| a.get_guard(e.unwrap()).map_or(0, |mut g| put(g.get_mut())))),
            "goi" => {
                match acc!(self, X, |a| a
                    .get_or_insert_with(e.unwrap(), || X::new(led.val(tag)))
                    .map(|x| x.val().see()))
                {
                    Ok(x) => J::N(x),
                    Err(_) => ok(false),
                }
            }
            "goi_panic" => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    acc!(self, X, |a| a
                        .get_or_insert_with(e.unwrap(), || panic_any("goi".to_string()))
                        .map(|x| x.val().see()))
                }));
                match r {
                    Ok(Ok(x)) => J::N(x),
                    Ok(Err(_)) => ok(false),
                    Err(_) => {
                        *panicked = true;
                        J::N(0)
                    }
                }
            }
            "mark" => ok(X::mark(&self.w, e.unwrap())),
            "set_track" => {
                X::set_track(&mut self.w, v == 1);
                ok(true)
            }
            "clear" => {
                X::clear(&mut self.w);
                ok(true)
            }
            "delete_panic" | "merge_panic" => {
                let uid = self.w.read_component::<X>().get(e.unwrap()).map_or(u32::MAX, |x| x.val().uid());
                led.set_bomb(uid);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if op == "delete_panic" {
                        ok(self.w.delete_entity(e.unwrap()).is_ok())
                    } else {
                        self.w.merge();
                        ok(true)
                    }
                }));
                led.bomb_armed();
                match r {
                    Ok(x) => x,
                    Err(_) => {
                        *panicked = true;
                        J::s("panic")
                    }
                }
            }
            "register" => J::B(self.w.insert_component::<X>().is_some()),
            "unregister" => J::B(self.w.remove_component::<X>().is_some()),
            "access_unregistered" => {
                let mut r = vec![];
                let w = &mut self.w;
                r.push(catch_unwind(AssertUnwindSafe(|| drop(w.read_component::<X>()))).is_err());
                r.push(catch_unwind(AssertUnwindSafe(|| drop(w.write_component::<X>()))).is_err());
                r.push(catch_unwind(AssertUnwindSafe(|| drop(w.get_component_mut::<X>()))).is_err());
                J::A(r.into_iter().map(|p| J::s(if p { "panic" } else { "value" })).collect())
            }
            o => panic!("harness: world op {o}"),
        }
    }
    fn see<X: Comp>(&self) -> (J, J, J)
    where
        X::Storage: RawStorage<Item = X> + Default + Send + Sync,
    {
        if !self.w.contains_component::<X>() {
            return (J::A(vec![]), J::A(vec![]), J::A(vec![]));
        }
        let r = self.w.read_component::<X>();
        let es = self.w.entities();
        let comp = self.ents.iter().map(|e| {
            let g = r.get(*e).map_or(0, |x| x.val().see());
            if r.contains(*e) == (g != 0) {
                g
            } else {
                -9
            }
        });
        let mask = r.mask().iter().map(|i| es.entity(i).map_or(-1, |e| self.handle(e)));
        let join = (&es, &r).join().map(|(e, x)| J::seq([self.handle(e), x.val().see()])).collect();
        (J::seq(comp), J::set(mask), J::Set(join))
    }
}

impl<A: Comp, B: Comp> Any for S<A, B>
where
    A::Storage: RawStorage<Item = A> + Default + Send + Sync,
    B::Storage: RawStorage<Item = B> + Default + Send + Sync,
{
    fn apply(&mut self, op: &J) -> J {
        let arg = op.at("arg");
        let (h, c, v) = (arg.at("h").int(), arg.at("c").int(), arg.at("v").int());
        self.led.gone();
        let mut panicked = false;
        let val = match op.at("op").str() {
            "create" => {
                let e = self.w.create_entity();
                self.created(e, h);
                J::N(0)
            }
            "create_atomic" => {
                let e = self.w.entities().create();
                self.created(e, h);
                J::N(0)
            }
            "delete" => ok(self.w.delete_entity(self.ents[h as usize - 1]).is_ok()),
            "delete_later" => ok(self.w.entities().delete(self.ents[h as usize - 1]).is_ok()),
            "merge" => {
                self.w.merge();
                ok(true)
            }
            o @ ("drop_world" | "drop_unwinding") => {
                dispose(std::mem::replace(&mut self.w, world::<A, B>()), o == "drop_unwinding");
                self.ents.clear();
                self.idx.clear();
                self.consistent = true;
                ok(true)
            }
            o if c == 1 => self.on::<A>(o, h, v, c, &mut panicked),
            o => self.on::<B>(o, h, v, c, &mut panicked),
        };
        let mut gone = self.led.gone();
        gone.sort();
        obj! { val: val, gone: J::set(gone), panic: panicked }
    }

    fn observe(&mut self) -> J {
        let es = self.w.entities();
        let live = J::set(self.ents.iter().filter(|e| es.is_alive(**e)).map(|e| self.handle(*e)));
        let (ca, ma, ja) = self.see::<A>();
        let (cb, mb, jb) = self.see::<B>();
        let mut reg = vec![];
        if self.w.contains_component::<A>() {
            reg.push(1);
        }
        let has_b = self.w.contains_component::<B>();
        if has_b {
            reg.push(2);
        }
        let (tracking, modified) = if has_b && B::TRACKED {
            (
                J::B(B::tracking(&self.w)),
                if self.consistent {
                    J::set(
                        B::modified(&self.w)
                            .into_iter()
                            .map(|r| self.idx.iter().find(|p| p.1 == r).map_or(-1, |p| p.0)),
                    )
                } else {
                    J::Skip
                },
            )
        } else {
            (J::B(false), J::set([]))
        };
        obj! {
            live: live,
            comp: vec![ca, cb],
            mask: vec![ma, mb],
            join: vec![ja, jb],
            reg: J::set(reg),
            tracking: tracking,
            modified: modified,
            held: self.led.held(),
            errors: self.led.errors(),
        }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let o = op.at("op").str();
    let panics = o.ends_with("_panic");
    let registry = matches!(o, "register" | "unregister" | "access_unregistered");
    match field {
        "ret.gone" | "held" | "errors" => {
            if panics {
                vec!["C07", "C23"]
            } else {
                vec!["C07"]
            }
        }
        "ret.panic" => vec!["C23"],
        "live" if o == "merge" || o == "delete_later" => vec!["C02", "C03"],
        "live" => vec!["C02"],
        "tracking" | "modified" => vec!["C09"],
        "reg" => vec!["C14"],
        f => match o {
            "create" | "create_atomic" if f == "panic" => vec!["C01"],
            _ if panics && matches!(f, "comp" | "mask" | "join") => vec!["C13", "C23"],
            _ if panics => vec!["C23"],
            "mark" | "set_track" | "clear" => vec!["C09"],
            _ if registry => vec!["C14"],
            // an entity dies after a type was removed
            "delete" | "merge" if matches!(f, "panic" | "ret.val" | "crash" | "hang") && op.at("arg").at("v").int() > 0 => vec!["C13", "C14"],
            "drop_world" | "drop_unwinding" => vec!["C07"],
            _ if f == "teardown" => vec!["C07"],
            _ => vec!["C13"],
        },
    }
}
#[allow(unused)]
fn _keep(_: Val) {}
