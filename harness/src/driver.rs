//! What every binary of the harness has in common: `graph` and `tags` replay a state graph, `record`
//! records a workload.
use crate::graph::{drive, load, Cfg, Report, Sut, Tags};
use crate::json;
use crate::graph;
use std::collections::HashMap;

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
}

fn write(path: &str, s: &str) {
    std::fs::write(path, s).unwrap_or_else(|e| panic!("harness: {path}: {e}"));
}

/// Which properties a crash in the given edge concerns.
pub fn print_tags(a: &Args, tags: Tags) {
    let g = load(&a.get("in", ""));
    let e: i64 = a.get("edge", "-1").parse().unwrap();
    if e < 0 {
        println!("{{\"tags\":[],\"operations\":[]}}");
        return;
    }
    let e = e as u32;
    let mut ops: Vec<json::J> = g.path(g.edges[e as usize].f).iter().map(|&e| g.op(e).clone()).collect();
    ops.push(g.op(e).clone());
    let t = tags(g.op(e), &a.get("field", "crash"));
    println!("{}", json::J::O(vec![
        ("tags".into(), json::J::A(t.iter().map(|t| json::J::s(t)).collect())),
        ("class".into(), json::J::s(&graph::class(g.op(e)))),
        ("operations".into(), json::J::A(ops)),
    ]));
}

pub fn extract(a: &Args) {
    let leave: Vec<String> = a.get("leave", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let (g, out) = (load(&a.get("in", "")), a.get("out", ""));
    let paths = graph::extract(&g, a.num("seed", 1), a.num("n", 100) as usize, &leave);
    std::fs::write(&out, graph::pack(&g, &paths)).unwrap();
    let text = json::J::A(paths.iter().map(|p| json::J::A(p.iter().map(|e| g.op(*e).clone()).collect())).collect());
    write(&format!("{out}.json"), &text.to_string());
}

#[macro_export]
macro_rules! sut {
    ($cmd:expr, $a:expr, $m:ident) => {
        $crate::sut!($cmd, $a, $m, $m::VARIANTS)
    };
    ($cmd:expr, $a:expr, $m:ident, $v:expr) => {
        $crate::sut!($cmd, $a, $m, $v, tags)
    };
    ($cmd:expr, $a:expr, $m:ident, $v:expr, $t:ident) => {
        if $cmd == "extract" {
            $crate::driver::extract($a)
        } else if $cmd == "walk" {
            $crate::graph::walk(&$a.get("in", ""), &$a.get("variant", ""), $m::make)
        } else if $cmd == "graph" {
            $crate::driver::run_graph($a, $v, $m::make, $m::$t)
        } else {
            $crate::driver::print_tags($a, $m::$t)
        }
    };
}

pub fn run_graph<S: Sut>(a: &Args, variants: &[&str], mk: impl Fn(&str) -> S + Sync, tags: Tags) {
    let g = load(&a.get("in", ""));
    if g.nodes.is_empty() || g.edges.is_empty() {
        eprintln!("harness: no graph in {}", a.get("in", ""));
        std::process::exit(3);
    }
    let out = a.get("out", "");
    let only = a.0.get("variant").cloned();
    let variants: Vec<String> = variants
        .iter()
        .map(|s| s.to_string())
        .filter(|v| only.as_ref().map_or(true, |o| o.split(',').any(|o| o == v)))
        .collect();
    let cfg = Cfg {
        seed: a.num("seed", 1),
        walks: a.num("walks", 200) as usize,
        walk_len: a.num("walklen", 60) as usize,
        threads: a.num("threads", 8) as usize,
        only_edge: a.0.get("only-edge").map(|e| e.parse().unwrap()),
        max_edges: a.num("maxedges", 0) as usize,
        crash_dir: a.get("crash", ""),
        name: a.get("name", ""),
        hang: a.num("hang", 20),
        skip: a.get("skip", "").split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let write_report = |r: &Report| write(&out, &r.json().to_string());
    let r = drive(&g, &variants, mk, tags, &cfg, write_report);
    write_report(&r);
}


/// `suts` drives a state graph (and returns false if it does not know the name), `rec` records.
pub fn main(suts: impl FnOnce(&str, &str, &Args) -> bool + std::panic::UnwindSafe, rec: impl FnOnce(&str, &str, u64, usize) -> bool + std::panic::UnwindSafe) {
    let mut argv = std::env::args().skip(1);
    let cmd = argv.next().unwrap_or_default();
    let mut m = HashMap::new();
    let rest: Vec<String> = argv.collect();
    let mut i = 0;
    while i + 1 < rest.len() {
        m.insert(rest[i].trim_start_matches("--").to_string(), rest[i + 1].clone());
        i += 2;
    }
    let a = Args(m);
    // expected panics are part of many cases
    if std::env::var("GVH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let r = std::panic::catch_unwind(|| match cmd.as_str() {
        "graph" | "tags" | "extract" | "walk" => {
            let s = a.get("sut", "");
            assert!(suts(&cmd, &s, &a), "harness: no such sut {s}");
        }
        "record" => {
            let w = a.get("wl", "");
            assert!(rec(&w, &a.get("out", ""), a.num("seed", 1), a.num("size", 100) as usize), "harness: no such workload {w}");
        }
        c => panic!("harness: no such command {c}"),
    });
    if let Err(p) = r {
        eprintln!("{}", graph::panic_text(p));
        std::process::exit(3);
    }
}
