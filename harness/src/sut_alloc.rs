//! The entity allocator, directly and through a World (spec/Allocator.tla).
use crate::graph::Sut;
use crate::json::J;
use goggles::entity::Allocator;
use goggles::{Entity, IntoJoinExt, World};

pub const VARIANTS: &[&str] = &["allocator", "world"];

enum A {
    Alloc(Allocator),
    World(World),
}

pub struct S {
    a: A,
    /// every entity handed out, in order
    ents: Vec<Entity>,
    used: u32,
    garbage: Vec<Entity>,
}

pub fn make(variant: &str) -> S {
    let a = if variant == "world" { A::World(World::new()) } else { A::Alloc(Allocator::new()) };
    S { a, ents: vec![], used: 0, garbage: vec![] }
}

impl S {
    fn is_alive(&self, e: Entity) -> bool {
        match &self.a {
            A::Alloc(a) => a.is_alive(e),
            A::World(w) => w.entities().is_alive(e),
        }
    }
    fn lookup(&self, i: u32) -> Option<Entity> {
        match &self.a {
            A::Alloc(a) => a.entity(i),
            A::World(w) => w.entities().entity(i),
        }
    }
    fn max(&self) -> u32 {
        match &self.a {
            A::Alloc(a) => a.max_entity_count(),
            A::World(w) => w.entities().max_entity_count(),
        }
    }
    fn kill(&mut self, e: Entity) -> J {
        let r = match &mut self.a {
            A::Alloc(a) => a.kill(e),
            A::World(w) => w.delete_entity(e),
        };
        J::s(if r.is_ok() { "ok" } else { "err" })
    }
    fn kill_atomic(&self, e: Entity) -> J {
        let r = match &self.a {
            A::Alloc(a) => a.kill_atomic(e),
            A::World(w) => w.entities().delete(e),
        };
        J::s(if r.is_ok() { "ok" } else { "err" })
    }
    fn created(&mut self, e: Entity, live_before: Vec<Entity>) -> J {
        let r = obj! {
            fresh: !self.ents.contains(&e),
            alive: self.is_alive(e),
            solo: !live_before.iter().any(|l| l.index() == e.index()),
            genpos: e.generation() > 0,
            low: e.index() < self.max(),
        };
        self.ents.push(e);
        r
    }
    fn live_entities(&self) -> Vec<Entity> {
        self.ents.iter().copied().filter(|e| self.is_alive(*e)).collect()
    }
    fn handle(&self, e: Entity) -> i64 {
        self.ents.iter().position(|x| *x == e).map_or(-1, |p| p as i64 + 1)
    }
    /// An entity this allocator never handed out.
    fn foreign(&self, w: i64) -> Entity {
        let n = self.ents.len() as u32;
        match w {
            1 => donor(0, 90),
            2 => donor(n + 70, 1),
            3 => donor(self.max(), 1),
            4 => donor(20_000_000, 1),
            _ => panic!("harness: foreign {w}"),
        }
    }
}

/// An entity with the given index and generation, made by another allocator.
pub fn donor(index: u32, generation: u32) -> Entity {
    if index >= 1 << 24 {
        // Larger than any allocator can hold, and `Entity` has no public constructor: take one
        // apart.  If it is not laid out as two words, a smaller index has to do.
        let p = donor(1, 2);
        if std::mem::size_of::<Entity>() != 8 || std::mem::needs_drop::<Entity>() {
            return donor(1000, generation);
        }
        let mut raw: [u32; 2] = unsafe { std::mem::transmute_copy(&p) };
        match raw {
            [1, 2] => raw = [index, generation],
            [2, 1] => raw = [generation, index],
            _ => return donor(1000, generation),
        }
        return unsafe { std::mem::transmute_copy(&raw) };
    }
    let mut a = Allocator::new();
    let mut e = a.allocate();
    while e.index() < index {
        e = a.allocate();
    }
    while e.generation() < generation {
        a.kill(e).unwrap();
        e = a.allocate();
        if e.index() != index {
            panic!("harness: donor");
        }
    }
    e
}

impl Sut for S {
    fn apply(&mut self, op: &J) -> J {
        let arg = op.at("arg");
        match op.at("op").str() {
            "allocate" => {
                let l = self.live_entities();
                let e = match &mut self.a {
                    A::Alloc(a) => a.allocate(),
                    A::World(w) => w.create_entity(),
                };
                self.created(e, l)
            }
            "allocate_atomic" => {
                let l = self.live_entities();
                let e = match &self.a {
                    A::Alloc(a) => a.allocate_atomic(),
                    A::World(w) => w.entities().create(),
                };
                self.created(e, l)
            }
            "kill" => {
                let e = self.ents[arg.int() as usize - 1];
                self.kill(e)
            }
            "kill_atomic" => {
                let e = self.ents[arg.int() as usize - 1];
                self.kill_atomic(e)
            }
            "kill_foreign" => {
                let e = self.foreign(arg.int());
                self.kill(e)
            }
            "kill_atomic_foreign" => {
                let e = self.foreign(arg.int());
                self.kill_atomic(e)
            }
            "merge" => {
                let before = self.live_entities();
                match &mut self.a {
                    A::Alloc(a) => {
                        // the list the caller passes may hold anything
                        let mut v = std::mem::take(&mut self.garbage);
                        v.extend(self.ents.iter().copied());
                        a.merge_atomic(&mut v);
                        let r = J::Set(v.iter().map(|e| J::N(self.handle(*e))).collect());
                        self.garbage = v;
                        r
                    }
                    A::World(w) => {
                        // a world keeps the report to itself: what disappeared stands for it
                        w.merge();
                        J::set(before.iter().filter(|e| !self.is_alive(**e)).map(|e| self.handle(*e)))
                    }
                }
            }
            o => panic!("harness: alloc op {o}"),
        }
    }

    fn observe(&mut self) -> J {
        let live: Vec<i64> = self.live_entities().iter().map(|e| self.handle(*e)).collect();
        let n = self.max();
        self.used = n;
        let mut look = vec![];
        for i in (0..n + 3).chain([63, 64, 100, 4095, 4096, 262_144, 1 << 24, (1 << 24) + 1, u32::MAX]) {
            if let Some(e) = self.lookup(i) {
                look.push(if e.index() == i { self.handle(e) } else { -2 });
            }
        }
        let by_index = |i: u32| {
            self.ents
                .iter()
                .rposition(|e| e.index() == i && self.is_alive(*e))
                .map_or(-1, |p| p as i64 + 1)
        };
        let (set, join): (Vec<i64>, Vec<i64>) = match &self.a {
            A::Alloc(a) => (
                (a.live_bitset()).join().map(by_index).collect(),
                a.join().map(|e| self.handle(e)).collect(),
            ),
            A::World(w) => {
                let es = w.entities();
                let s = es.live_bitset();
                let j = (&es).join().map(|e| self.handle(e)).collect();
                (s.join().map(by_index).collect(), j)
            }
        };
        let foreign = (1..=4).any(|w| self.is_alive(self.foreign(w)));
        obj! {
            live: J::set(live),
            look: J::set(look),
            set: J::set(set),
            join: J::set(join),
            used: n,
            n: self.ents.len(),
            foreign: foreign,
        }
    }
}

pub fn tags(op: &J, field: &str) -> Vec<&'static str> {
    let o = op.at("op").str();
    let deferred = o == "merge" || o == "kill_atomic";
    match field {
        "panic" | "hang" | "crash" => match o {
            "allocate" | "allocate_atomic" => vec!["C01"],
            "merge" | "kill_atomic" => vec!["C03"],
            _ => vec!["C02"],
        },
        "ret.solo" => vec!["C01", "C04"],
        "ret.alive" => vec!["C01", "C02"],
        "ret.low" => vec!["C04"],
        f if f.starts_with("ret.") => vec!["C01"],
        "ret" => match o {
            "merge" => vec!["C03"],
            "kill_atomic" => vec!["C02", "C03"],
            _ => vec!["C02"],
        },
        "used" => vec!["C04"],
        "live" if deferred => vec!["C02", "C03"],
        "join" if deferred => vec!["C02", "C03", "C10"],
        "join" => vec!["C02", "C10"],
        "set" | "look" if deferred => vec!["C02", "C03"],
        _ => vec!["C02"],
    }
}
