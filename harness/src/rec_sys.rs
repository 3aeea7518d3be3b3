//! Records checks and runs of large compositions of systems (spec/SysTrace.tla).
use crate::graph::Sut;
use crate::json::J;
use crate::rng::Rng;
use crate::sut_sys::{make, Plan, S};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn node(k: &str, xs: Vec<J>) -> J {
    o(vec![("k", J::s(k)), ("xs", J::A(xs))])
}

/// A composition of the leaves next, next + 1, ..., n of them.
fn tree(r: &mut Rng, next: &mut i64, n: usize, depth: usize) -> J {
    if n == 1 {
        *next += 1;
        let leaf = o(vec![("k", J::s("leaf")), ("n", J::N(*next - 1))]);
        return if r.chance(1, 8) { node(*r.pick(&["seqlist", "parlist"]), vec![leaf]) } else { leaf };
    }
    let flat = depth == 0 || (n > 12 && r.chance(1, 4));
    let lists = ["seqlist", "parlist"];
    let parts = if flat { n } else if r.chance(1, 3) { 2 } else { r.range(2, n.min(9)) };
    let mut cut: Vec<usize> = vec![1; parts];
    for _ in parts..n {
        // uneven on purpose
        let k = if r.chance(1, 2) { 0 } else { r.below(parts) };
        cut[k] += 1;
    }
    let at = r.below(parts);
    cut.swap(0, at);
    let mut xs: Vec<J> = cut.into_iter().map(|m| tree(r, next, m, depth.saturating_sub(1))).collect();
    let k = match parts {
        2 => *r.pick(&["seq", "par", "seqlist", "parlist"]),
        3..=8 => *r.pick(&["seqm", "parm", "seqlist", "parlist"]),
        _ => *r.pick(&lists),
    };
    if lists.contains(&k) && r.chance(1, 6) {
        let at = r.below(xs.len() + 1);
        xs.insert(at, node(*r.pick(&lists), vec![]));
    }
    node(k, xs)
}

/// What each of n systems declares.
fn resources(r: &mut Rng, n: usize) -> Vec<J> {
    let nr = r.range(1, 12);
    let mode = r.below(6);
    let mut res: Vec<Vec<i64>> = vec![vec![0; nr]; n];
    let mut bad = vec![false; n];
    match mode {
        0 => {}
        // everybody reads some
        1 => res.iter_mut().for_each(|x| x.iter_mut().for_each(|m| *m = r.chance(1, 2) as i64)),
        // a few declare something
        2 => {
            for _ in 0..r.range(1, 4) {
                let (l, k) = (r.below(n), r.below(nr));
                res[l][k] = r.range(1, 2) as i64;
            }
        }
        // each resource is written by one system or read by several
        3 | 4 => {
            for k in 0..nr {
                if r.chance(1, 2) {
                    res[r.below(n)][k] = 2;
                } else {
                    for _ in 0..r.range(1, 5) {
                        res[r.below(n)][k] = 1;
                    }
                }
            }
            if mode == 4 {
                let (l, k) = (r.below(n), r.below(nr));
                res[l][k] = r.range(1, 2) as i64;
            }
        }
        _ => {
            for x in res.iter_mut() {
                for m in x.iter_mut() {
                    if r.chance(1, 2 * nr) {
                        *m = r.range(1, 2) as i64;
                    }
                }
            }
            if r.chance(1, 2) {
                bad[r.below(n)] = true;
            }
        }
    }
    (0..n).map(|l| o(vec![("bad", J::B(bad[l])), ("r", J::seq(res[l].iter().copied()))])).collect()
}

struct Out(std::io::BufWriter<std::fs::File>, usize);
impl Out {
    fn put(&mut self, v: Vec<(&str, J)>) {
        writeln!(self.0, "{}", o(v)).unwrap();
        self.1 += 1;
    }
}

fn check(out: &mut Out, s: &mut S) {
    let op = o(vec![("op", J::s("check")), ("arg", o(vec![]))]);
    match catch_unwind(AssertUnwindSafe(|| s.apply(&op))) {
        Ok(r) => out.put(vec![("o", J::s("check")), ("panic", J::B(false)), ("ok", r.at("ok").clone()), ("reads", J::seq(r.at("reads").ints())), ("writes", J::seq(r.at("writes").ints()))]),
        Err(_) => out.put(vec![("o", J::s("check")), ("panic", J::B(true)), ("ok", J::B(false)), ("reads", J::seq([])), ("writes", J::seq([]))]),
    }
}
fn run(out: &mut Out, s: &mut S, pool: &str, fail: Vec<i64>, who: i64) {
    let mut plan = Plan::default();
    plan.fail = fail.clone();
    plan.panic = who;
    let (r, log) = s.run(plan, pool);
    let ran = log.ran.into_inner().unwrap();
    let mut ev: Vec<(u64, i64)> = vec![];
    let mut bad = vec![];
    for (n, good, a, b, _) in &ran {
        ev.push((*a, *n));
        ev.push((*b, -n));
        if !good {
            bad.push(*n);
        }
    }
    ev.sort();
    let errs = match &r {
        Some(Err(e)) => e.0.clone(),
        _ => vec![],
    };
    out.put(vec![
        ("o", J::s("run")),
        ("pool", J::s(pool)),
        ("fail", J::seq(fail)),
        ("who", J::N(who)),
        ("log", J::seq(ev.into_iter().map(|e| e.1))),
        ("bad", J::seq(bad)),
        ("panic", J::B(r.is_none())),
        ("ok", J::B(matches!(r, Some(Ok(()))))),
        ("errors", J::seq(errs)),
    ]);
}

fn runs(out: &mut Out, r: &mut Rng, s: &mut S, n: usize) {
    check(out, s);
    let pools = |r: &mut Rng| -> &'static str {
        if n <= 24 && r.chance(1, 6) {
            "threads"
        } else {
            *r.pick(&["seq", "rev", "mixed", "mixed", "rayon", "rayon1", "rayon3"])
        }
    };
    run(out, s, "rev", vec![], 0);
    for k in 0..6 {
        let p = pools(r);
        let mut fail: Vec<i64> = vec![];
        let mut who = 0;
        match k {
            1 => fail.push(r.range(1, n) as i64),
            2 => (0..r.range(2, 4)).for_each(|_| fail.push(r.range(1, n) as i64)),
            3 => (0..n / 2).for_each(|_| fail.push(r.range(1, n) as i64)),
            4 => who = r.range(1, n) as i64,
            _ => {}
        }
        fail.sort();
        fail.dedup();
        run(out, s, p, fail, who);
    }
    check(out, s);
}

pub fn record(path: &str, seed: u64, size: usize) {
    let mut r = Rng::new(seed);
    let mut out = Out(std::io::BufWriter::new(std::fs::File::create(path).unwrap()), 0);
    for k in 0..size {
        let n = match k % 8 {
            0..=3 => r.range(4, 12),
            4 | 5 => r.range(12, 30),
            6 => r.range(30, 80),
            _ => *r.pick(&[16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 257]),
        };
        if k % 3 == 2 {
            let mut res = resources(&mut r, n);
            if r.chance(1, 2) {
                // many groups
                for (l, x) in res.iter_mut().enumerate() {
                    if r.chance(1, 3) {
                        *x = o(vec![("bad", J::B(l == 5)), ("r", J::seq((0..x.at("r").arr().len()).map(|_| r.below(3) as i64).collect::<Vec<_>>()))]);
                    }
                }
            }
            let mut s = make(*r.pick(crate::sut_sys::PLIZE));
            let op = o(vec![("op", J::s("parallelize")), ("arg", o(vec![("res", J::A(res.clone()))]))]);
            match catch_unwind(AssertUnwindSafe(|| s.apply(&op))) {
                Ok(g) => {
                    let gs = g.at("groups").arr().iter().map(|g| J::seq(g.ints())).collect();
                    out.put(vec![("o", J::s("plize")), ("res", J::A(res)), ("panic", J::B(false)), ("groups", J::A(gs))]);
                    runs(&mut out, &mut r, &mut s, n);
                }
                Err(_) => out.put(vec![("o", J::s("plize")), ("res", J::A(res)), ("panic", J::B(true)), ("groups", J::A(vec![]))]),
            }
        } else {
            let depth = *r.pick(&[0, 1, 2, 3, 5, 8]);
            let t = tree(&mut r, &mut 1, n, depth);
            let res = resources(&mut r, n);
            let mut s = make("boxed");
            let op = o(vec![("op", J::s("build")), ("arg", o(vec![("tree", t.clone()), ("res", J::A(res.clone()))]))]);
            s.apply(&op);
            out.put(vec![("o", J::s("sys")), ("tree", t), ("res", J::A(res))]);
            runs(&mut out, &mut r, &mut s, n);
        }
    }
    out.0.flush().unwrap();
    println!("{{\"events\":{}}}", out.1);
}
