//! Resources and component storages by type, and borrows of them (spec/Registry.tla).
use crate::graph::Sut;
use crate::json::J;
use crate::val::{dispose, Led, Val};
use goggles::resource_set::ResourceId as SetId;
use goggles::storage::VecStorage;
use goggles::{
    Component, Entities, Entity, FetchNone, FetchResources, Read, ReadComponent, ReadResource, ResourceConflict,
    ResourceSet, RwResources, World, WorldResourceId, WorldResources, Write, WriteComponent, WriteResource,
};
use std::cell::Cell;
use std::mem;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// "…/t": every borrow is made, held and released on a thread of its own.
pub const SET: &[&str] = &["set/s", "set/t"];
pub const WORLD: &[&str] = &["world/s", "world/t"];

pub struct T1(Val);
pub struct T2(Val);
/// Not Sync.
pub struct T3(Val, Cell<i64>);
impl Component for T1 {
    type Storage = VecStorage<T1>;
}
trait Res {
    fn new(v: Val) -> Self;
    fn val(&self) -> &Val;
    fn into_val(self) -> Val;
}
macro_rules! res {
    ($t:ident $(, $x:expr)?) => {
        impl Res for $t {
            fn new(v: Val) -> Self {
                $t(v $(, $x)?)
            }
            fn val(&self) -> &Val {
                &self.0
            }
            fn into_val(self) -> Val {
                self.0
            }
        }
    };
}
res!(T1);
res!(T2);
res!(T3, Cell::new(0));

type NoneS = FetchNone<ResourceSet, RwResources<SetId>>;
type NoneW = FetchNone<World, WorldResources>;

/// Something fetched.
pub trait Hold: Send {
    /// Notes the values this gives access to; -9 where two disagree.
    fn seen(&self, out: &mut [i64; 3]);
    /// Writes to type t, if this has write access to it.
    fn store(&mut self, t: usize, put: &mut dyn FnMut(&mut dyn Slot));
}
pub trait Slot {
    fn set(&mut self, led: Led, e: Entity, tag: i64);
}
fn note(out: &mut [i64; 3], t: usize, v: i64) {
    out[t - 1] = if out[t - 1] == 0 || out[t - 1] == v { v } else { -9 };
}
macro_rules! slot {
    ($($t:ty),*) => {$(
        impl Slot for $t {
            fn set(&mut self, led: Led, _: Entity, tag: i64) {
                led.take(mem::replace(self, <$t>::new(led.val(tag))).into_val());
            }
        }
    )*};
}
slot!(T1, T2, T3);
fn set_comp<'a, R>(c: &mut goggles::world::ComponentAccess<'a, T1, R>, led: Led, e: Entity, tag: i64)
where
    R: std::ops::DerefMut<Target = goggles::world_common::ComponentStorage<T1>>,
{
    let old = if tag == 21 { c.remove(e) } else { c.insert(e, T1(led.val(tag))) };
    if let Ok(Some(o)) = old {
        led.take(o.into_val());
    }
}
fn see_comp<'a, R>(c: &goggles::world::ComponentAccess<'a, T1, R>) -> i64
where
    R: std::ops::Deref<Target = goggles::world_common::ComponentStorage<T1>>,
{
    use goggles::hibitset::BitSetLike;
    let all: Vec<u32> = c.mask().iter().collect();
    match all.as_slice() {
        [] => 21,
        [i] => c.storage().get(*i).map_or(-4, |x| x.val().see()),
        _ => -5,
    }
}
impl<'a> Slot for WriteComponent<'a, T1> {
    fn set(&mut self, led: Led, e: Entity, tag: i64) {
        set_comp(self, led, e, tag)
    }
}
macro_rules! hold {
    ($(($g:ty, $t:expr, $mode:ident)),* $(,)?) => {$(
        impl Hold for $g {
            fn seen(&self, out: &mut [i64; 3]) {
                note(out, $t, hold!(@see $mode self))
            }
            #[allow(unused)]
            fn store(&mut self, t: usize, put: &mut dyn FnMut(&mut dyn Slot)) {
                hold!(@put $mode self, t, $t, put)
            }
        }
    )*};
    (@see comp_r $s:ident) => { see_comp($s) };
    (@see comp_w $s:ident) => { see_comp($s) };
    (@see $m:ident $s:ident) => { $s.val().see() };
    (@put w $s:ident, $a:ident, $t:expr, $put:ident) => { if $a == $t { $put(&mut **$s) } };
    (@put comp_w $s:ident, $a:ident, $t:expr, $put:ident) => { if $a == $t { $put($s) } };
    (@put $m:ident $s:ident, $a:ident, $t:expr, $put:ident) => { () };
}
hold! {
    (Read<'static, T1>, 1, r),
    (Read<'static, T2>, 2, r),
    (Write<'static, T1>, 1, w),
    (Write<'static, T2>, 2, w),
    (Write<'static, T3>, 3, w),
    (ReadResource<'static, T1>, 1, r),
    (WriteResource<'static, T1>, 1, w),
    (WriteResource<'static, T3>, 3, w),
    (ReadComponent<'static, T1>, 2, comp_r),
    (WriteComponent<'static, T1>, 2, comp_w),
}
macro_rules! hold_nothing {
    ($($t:ty),*) => {$(
        impl Hold for $t {
            fn seen(&self, _: &mut [i64; 3]) {}
            fn store(&mut self, _: usize, _: &mut dyn FnMut(&mut dyn Slot)) {}
        }
    )*};
}
hold_nothing!(NoneS, NoneW, Entities<'static>);
/// What ResourceSet::borrow and borrow_mut return.
struct Guard<G>(G, usize);
impl<G: std::ops::Deref + Send> Hold for Guard<G>
where
    G::Target: Res,
{
    fn seen(&self, out: &mut [i64; 3]) {
        note(out, self.1, self.0.val().see())
    }
    fn store(&mut self, _: usize, _: &mut dyn FnMut(&mut dyn Slot)) {}
}
struct GuardMut<G>(G, usize);
impl<G: std::ops::DerefMut + Send> Hold for GuardMut<G>
where
    G::Target: Res + Slot + Sized,
{
    fn seen(&self, out: &mut [i64; 3]) {
        note(out, self.1, self.0.val().see())
    }
    fn store(&mut self, t: usize, put: &mut dyn FnMut(&mut dyn Slot)) {
        if t == self.1 {
            put(&mut *self.0)
        }
    }
}
macro_rules! hold_tuple {
    () => {};
    ($a:ident $($r:ident)*) => {
        impl<$a: Hold, $($r: Hold),*> Hold for ($a, $($r,)*) {
            #[allow(non_snake_case)]
            fn seen(&self, out: &mut [i64; 3]) {
                let ($a, $($r,)*) = self;
                $a.seen(out);
                $($r.seen(out);)*
            }
            #[allow(non_snake_case)]
            fn store(&mut self, t: usize, put: &mut dyn FnMut(&mut dyn Slot)) {
                let ($a, $($r,)*) = self;
                $a.store(t, put);
                $($r.store(t, put);)*
            }
        }
        hold_tuple!($($r)*);
    };
}
hold_tuple!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z);

#[derive(Clone, Copy)]
pub enum Act {
    Check,
    Fetch,
    /// panics while holding it
    Panic,
}
pub enum Done {
    Checked(J),
    Held(Box<dyn Hold>),
}
macro_rules! act {
    (@ set, $t:ty) => { checked_set::<$t>() };
    (@ world, $t:ty) => { checked_world::<$t>() };
    ($n:ident, $op:expr, $src:expr, $t:ty) => {
        match $op {
            Act::Check => Done::Checked(act!(@ $n, $t)),
            _ => fetched($op, $src.fetch::<$t>()),
        }
    };
}
fn fetched<F: Hold + 'static>(op: Act, f: F) -> Done {
    if let Act::Panic = op {
        panic_any("after the fetch".to_string());
    }
    Done::Held(Box::new(f))
}
fn decl<R: Eq + std::hash::Hash>(r: Result<RwResources<R>, ResourceConflict>, name: impl Fn(&R) -> i64) -> J {
    match r {
        Ok(r) => obj! { ok: true, reads: J::set(r.reads().map(&name)), writes: J::set(r.writes().map(&name)) },
        Err(_) => obj! { ok: false, reads: J::set([]), writes: J::set([]) },
    }
}
fn checked_set<F: FetchResources<'static, ResourceSet, Resources = RwResources<SetId>>>() -> J {
    decl(F::check_resources(), |r| {
        [SetId::of::<T1>(), SetId::of::<T2>(), SetId::of::<T3>()].iter().position(|x| x == r).map_or(99, |p| p as i64 + 1)
    })
}
fn checked_world<F: FetchResources<'static, World, Resources = WorldResources>>() -> J {
    decl(F::check_resources(), |r| {
        [
            WorldResourceId::Entities,
            WorldResourceId::resource::<T1>(),
            WorldResourceId::component::<T1>(),
            WorldResourceId::resource::<T3>(),
        ]
        .iter()
        .position(|x| x == r)
        .map_or(99, |p| p as i64)
    })
}

#[path = "fetch_shapes.rs"]
mod shapes;

enum Src {
    Set(Box<ResourceSet>),
    World(Box<World>),
}
pub struct S {
    slots: Vec<Option<Box<dyn Hold>>>,
    src: Src,
    e: Entity,
    threads: bool,
    led: Led,
}
impl Drop for S {
    fn drop(&mut self) {
        // before what they borrow from
        self.slots.clear();
    }
}

pub fn make(variant: &str) -> S {
    let (k, t) = variant.split_once('/').unwrap();
    let mut w = World::new();
    w.create_entity();
    let e = w.create_entity();
    S {
        slots: vec![None, None, None],
        src: if k == "set" { Src::Set(Box::new(ResourceSet::new())) } else { Src::World(Box::new(w)) },
        e,
        threads: t == "t",
        led: Led::start(),
    }
}

/// Runs f here or on another thread; what f panics with comes back as Err.
fn on<R: Send>(thread: bool, f: impl FnOnce() -> R + Send) -> Result<R, ()> {
    if thread {
        std::thread::scope(|s| s.spawn(|| catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())).join().unwrap())
    } else {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
    }
}

impl S {
    /// The references live only as long as nothing changes the source exclusively.
    fn set(&self) -> Option<&'static ResourceSet> {
        match &self.src {
            Src::Set(s) => Some(unsafe { mem::transmute(&**s) }),
            _ => None,
        }
    }
    fn world(&self) -> &'static World {
        match &self.src {
            Src::World(s) => unsafe { mem::transmute(&**s) },
            _ => panic!("harness: no world"),
        }
    }
    fn borrow(&self, t: i64, write: bool) -> Result<Box<dyn Hold>, ()> {
        let set = self.set();
        let wld = if set.is_none() { Some(self.world()) } else { None };
        on(self.threads, move || -> Box<dyn Hold> {
            match (set, wld, t, write) {
                (Some(s), _, 1, false) => Box::new(Guard(s.borrow::<T1>(), 1)),
                (Some(s), _, 2, false) => Box::new(Guard(s.borrow::<T2>(), 2)),
                (Some(s), _, 1, true) => Box::new(GuardMut(s.borrow_mut::<T1>(), 1)),
                (Some(s), _, 2, true) => Box::new(GuardMut(s.borrow_mut::<T2>(), 2)),
                (Some(s), _, 3, true) => Box::new(GuardMut(s.borrow_mut::<T3>(), 3)),
                (_, Some(w), 1, false) => Box::new(w.read_resource::<T1>()),
                (_, Some(w), 2, false) => Box::new(w.read_component::<T1>()),
                (_, Some(w), 1, true) => Box::new(w.write_resource::<T1>()),
                (_, Some(w), 2, true) => Box::new(w.write_component::<T1>()),
                (_, Some(w), 3, true) => Box::new(w.write_resource::<T3>()),
                x => panic!("harness: borrow {}", x.2),
            }
        })
    }
    fn exclusive(&mut self, op: &str, t: i64, v: i64) -> J {
        let led = self.led;
        let tag = 10 * t + v;
        fn back<T: Res>(led: Led, o: Option<T>) -> J {
            J::N(o.map_or(0, |x| led.take(x.into_val())))
        }
        macro_rules! res {
            ($s:expr, $t:ty, $get:ident, $ins:ident, $rem:ident) => {
                match op {
                    "insert" => back(led, $s.$ins(<$t>::new(led.val(tag)))),
                    "remove" => back(led, $s.$rem::<$t>()),
                    _ => {
                        led.take(mem::replace($s.$get::<$t>(), <$t>::new(led.val(tag))).into_val());
                        J::s("ok")
                    }
                }
            };
        }
        match (&mut self.src, t) {
            (Src::Set(s), 1) => res!(s, T1, get_mut, insert, remove),
            (Src::Set(s), 2) => res!(s, T2, get_mut, insert, remove),
            (Src::Set(s), 3) => res!(s, T3, get_mut, insert, remove),
            (Src::World(s), 1) => res!(s, T1, get_resource_mut, insert_resource, remove_resource),
            (Src::World(s), 3) => res!(s, T3, get_resource_mut, insert_resource, remove_resource),
            (Src::World(s), 2) => match op {
                "get_mut" => {
                    set_comp(&mut s.get_component_mut::<T1>(), led, self.e, tag);
                    J::s("ok")
                }
                _ => {
                    let old = if op == "insert" { s.insert_component::<T1>() } else { s.remove_component::<T1>() };
                    J::N(match old {
                        None => 0,
                        Some(mut st) => {
                            use goggles::hibitset::BitSetLike;
                            let all: Vec<u32> = st.mask().iter().collect();
                            match all.as_slice() {
                                [] => 21,
                                [i] => st.remove(*i).map_or(-4, |x| led.take(x.into_val())),
                                _ => -5,
                            }
                        }
                    })
                }
            },
            _ => panic!("harness: type {t}"),
        }
    }
}

impl Sut for S {
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        let n = |k: &str| a.get(k).map_or(0, |v| v.int());
        let o = op.at("op").str();
        let s = n("s") as usize;
        match o {
            "insert" | "remove" => self.exclusive(o, n("t"), n("v")),
            "get_mut" => catch_unwind(AssertUnwindSafe(|| self.exclusive(o, n("t"), n("v")))).unwrap_or(J::s("panic")),
            "drop" | "drop_unwinding" => {
                let unwinding = o == "drop_unwinding";
                match &mut self.src {
                    Src::Set(s) => dispose(std::mem::replace(&mut **s, ResourceSet::new()), unwinding),
                    Src::World(s) => {
                        dispose(std::mem::replace(&mut **s, World::new()), unwinding);
                        s.create_entity();
                        self.e = s.create_entity();
                    }
                }
                J::N(0)
            }
            "borrow" | "borrow_mut" => match self.borrow(n("t"), o == "borrow_mut") {
                Ok(g) => {
                    self.slots[s] = Some(g);
                    J::s("ok")
                }
                Err(()) => J::s("panic"),
            },
            "fetch" | "fetch_panic" | "check" => {
                let act = match o {
                    "fetch" => Act::Fetch,
                    "check" => Act::Check,
                    _ => Act::Panic,
                };
                let id = n("n") as usize;
                let set = self.set();
                let wld = if set.is_none() { Some(self.world()) } else { None };
                struct Pass(Done);
                // guards of Sync types, and J
                unsafe impl Send for Pass {}
                let r = on(self.threads, move || {
                    Pass(match (set, wld) {
                        (Some(x), _) => shapes::set(id, act, x),
                        (_, Some(x)) => shapes::world(id, act, x),
                        _ => unreachable!(),
                    })
                });
                match r {
                    Ok(Pass(Done::Held(g))) => {
                        self.slots[s] = Some(g);
                        J::s("ok")
                    }
                    Ok(Pass(Done::Checked(j))) => j,
                    Err(()) => J::s("panic"),
                }
            }
            "release" => {
                let g = self.slots[s].take();
                if on(self.threads, move || drop(g)).is_err() {
                    panic_any("releasing a borrow panicked".to_string());
                }
                J::N(0)
            }
            "store" => {
                let (led, e, tag) = (self.led, self.e, 10 * n("t") + n("v"));
                let mut done = 0;
                if let Some(g) = &mut self.slots[s] {
                    g.store(n("t") as usize, &mut |x| {
                        done += 1;
                        x.set(led, e, tag)
                    });
                }
                if done != 1 {
                    panic_any(format!("write access to the type through {done} members"));
                }
                J::N(0)
            }
            o => panic!("harness: {o}"),
        }
    }

    fn observe(&mut self) -> J {
        let has = match &self.src {
            Src::Set(s) => [s.contains::<T1>(), s.contains::<T2>(), s.contains::<T3>()],
            Src::World(s) => [s.contains_resource::<T1>(), s.contains_component::<T1>(), s.contains_resource::<T3>()],
        };
        let mut can = vec![];
        let mut val = vec![];
        for t in 1..=3 {
            let w = self.borrow(t, true);
            let cw = w.is_ok();
            let mut v = [0; 3];
            if let Ok(g) = &w {
                g.seen(&mut v);
            }
            drop(w);
            let cr = if t == 3 {
                cw
            } else {
                let r = self.borrow(t, false);
                if let Ok(g) = &r {
                    g.seen(&mut v);
                }
                r.is_ok()
            };
            can.push(J::A(vec![J::B(cr), J::B(cw)]));
            val.push(J::N(if !has[t as usize - 1] || !cr { -1 } else { v[t as usize - 1] }));
        }
        let seen: Vec<J> = self.slots[1..]
            .iter()
            .map(|g| {
                let mut v = [0; 3];
                if let Some(g) = g {
                    g.seen(&mut v);
                }
                J::seq(v)
            })
            .collect();
        obj! {
            has: has.iter().map(|b| J::B(*b)).collect::<Vec<J>>(),
            can: can,
            val: val,
            seen: seen,
            held: self.led.held(),
            errors: self.led.errors(),
        }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let mut t = match (op.at("op").str(), field) {
        (_, "held") | (_, "errors") => vec!["C07"],
        ("check", _) => vec!["C18"],
        ("fetch", "ret") => vec!["C15", "C18"],
        ("fetch", "seen") => vec!["C14", "C18"],
        ("fetch", _) => vec!["C15", "C18"],
        ("fetch_panic", _) => vec!["C15", "C23"],
        ("borrow", "seen") | ("borrow_mut", "seen") | ("store", _) => vec!["C14"],
        ("borrow", _) | ("borrow_mut", _) | ("release", _) => vec!["C15"],
        _ => vec!["C14"],
    };
    // whatever the operation was
    match field {
        "has" | "val" => t.push("C14"),
        "can" => t.push("C15"),
        _ => {}
    }
    t
}
