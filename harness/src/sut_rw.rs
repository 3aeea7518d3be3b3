//! Read/write resource sets (spec/RwRes.tla).
use crate::graph::Sut;
use crate::json::J;
use goggles::resources::{Resources, RwResources};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

pub const VARIANTS: &[&str] = &["number", "string", "colliding", "forty"];

pub trait Name: Eq + Hash + Clone {
    fn of(r: i64) -> Self;
    fn back(&self) -> i64;
}
impl Name for u8 {
    fn of(r: i64) -> Self {
        r as u8
    }
    fn back(&self) -> i64 {
        *self as i64
    }
}
impl Name for String {
    fn of(r: i64) -> Self {
        format!("{r}")
    }
    fn back(&self) -> i64 {
        self.parse().unwrap()
    }
}
/// All hashes are equal.
#[derive(Clone, PartialEq, Eq)]
pub struct Same(i64);
impl Hash for Same {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl Name for Same {
    fn of(r: i64) -> Self {
        Same(r)
    }
    fn back(&self) -> i64 {
        self.0
    }
}

/// Each resource of the specification stands for forty.
pub struct Many([RwResources<u32>; 2]);
const EACH: u32 = 40;
fn all(r: i64) -> impl Iterator<Item = u32> {
    (0..EACH).map(move |j| r as u32 * EACH + j)
}
/// The resources of which all forty are there; -1 if some have fewer.
fn whole<'a>(s: impl Iterator<Item = &'a u32>) -> J {
    let mut n = BTreeMap::<i64, BTreeSet<u32>>::new();
    for r in s {
        n.entry((r / EACH) as i64).or_default().insert(*r);
    }
    J::set(n.into_iter().map(|(r, s)| if s.len() == EACH as usize { r } else { -1 }))
}
impl Sut for Many {
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        let k = a.at("k").int() as usize - 1;
        let list = |n: &str| a.at(n).ints().into_iter().flat_map(all).collect::<Vec<_>>();
        let r = || all(a.at("r").int());
        let s = &mut self.0;
        match op.at("op").str() {
            "new" => s[k] = RwResources::new(),
            "add_read" => r().for_each(|r| s[k].add_read(r)),
            "add_write" => r().for_each(|r| s[k].add_write(r)),
            "read" => s[k] = r().fold(std::mem::take(&mut s[k]), |s, r| s.read(r)),
            "write" => s[k] = r().fold(std::mem::take(&mut s[k]), |s, r| s.write(r)),
            "add_reads" => s[k].add_reads(list("s")),
            "add_writes" => s[k].add_writes(list("s")),
            "from_iters" => s[k] = RwResources::from_iters(list("r"), list("w")),
            "union" => {
                let o = s[1 - k].clone();
                s[k].union(&o)
            }
            "union_self" => {
                let o = s[k].clone();
                s[k].union(&o)
            }
            "clone_from" => s[k] = s[1 - k].clone(),
            "map" => {
                let f = a.at("f").ints();
                s[k] = s[k].map(|r| f[(r / EACH) as usize - 1] as u32 * EACH + r % EACH);
            }
            o => panic!("harness: {o}"),
        }
        J::N(0)
    }
    fn observe(&mut self) -> J {
        let s = &self.0;
        obj! {
            reads: s.iter().map(|s| whole(s.reads())).collect::<Vec<_>>(),
            writes: s.iter().map(|s| whole(s.writes())).collect::<Vec<_>>(),
            conflicts: vec![
                J::B(s[0].conflicts_with(&s[1])),
                J::B(s[1].conflicts_with(&s[0])),
                J::B(s[0].conflicts_with(&s[0])),
                J::B(s[1].conflicts_with(&s[1])),
            ],
        }
    }
}

pub struct S<R: Name>([RwResources<R>; 2]);
pub fn make(v: &str) -> Box<dyn Sut> {
    match v {
        "number" => Box::new(S::<u8>([RwResources::new(), RwResources::default()])),
        "string" => Box::new(S::<String>([RwResources::new(), RwResources::default()])),
        "colliding" => Box::new(S::<Same>([RwResources::new(), RwResources::default()])),
        "forty" => Box::new(Many(Default::default())),
        _ => panic!("harness: {v}"),
    }
}
impl<R: Name> Sut for S<R> {
    fn apply(&mut self, op: &J) -> J {
        let a = op.at("arg");
        let k = a.at("k").int() as usize - 1;
        let list = |n: &str| a.at(n).ints().into_iter().map(R::of).collect::<Vec<R>>();
        let r = || R::of(a.at("r").int());
        let take = |s: &mut RwResources<R>| std::mem::replace(s, RwResources::new());
        match op.at("op").str() {
            "new" => self.0[k] = RwResources::new(),
            "add_read" => self.0[k].add_read(r()),
            "add_write" => self.0[k].add_write(r()),
            "read" => self.0[k] = take(&mut self.0[k]).read(r()),
            "write" => self.0[k] = take(&mut self.0[k]).write(r()),
            "add_reads" => self.0[k].add_reads(list("s")),
            "add_writes" => self.0[k].add_writes(list("s")),
            "from_iters" => self.0[k] = RwResources::from_iters(list("r"), list("w")),
            "union" => {
                let o = self.0[1 - k].clone();
                self.0[k].union(&o)
            }
            "union_self" => {
                let o = self.0[k].clone();
                self.0[k].union(&o)
            }
            "clone_from" => self.0[k] = self.0[1 - k].clone(),
            "map" => {
                let f = a.at("f").ints();
                // through another type and back
                let m: RwResources<(i64, i64)> = self.0[k].map(|r| (f[r.back() as usize - 1], 5));
                self.0[k] = m.map(|r| R::of(r.0));
            }
            o => panic!("harness: {o}"),
        }
        J::N(0)
    }
    fn observe(&mut self) -> J {
        let s = &self.0;
        obj! {
            reads: s.iter().map(|s| J::set(s.reads().map(|r| r.back()))).collect::<Vec<_>>(),
            writes: s.iter().map(|s| J::set(s.writes().map(|r| r.back()))).collect::<Vec<_>>(),
            conflicts: vec![
                J::B(s[0].conflicts_with(&s[1])),
                J::B(s[1].conflicts_with(&s[0])),
                J::B(s[0].conflicts_with(&s[0])),
                J::B(s[1].conflicts_with(&s[1])),
            ],
        }
    }
}
pub fn tags(_: &J, _: &str) -> Vec<&'static str> {
    vec!["C17"]
}
