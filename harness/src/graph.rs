//! Loads a state graph emitted by TLC and drives a real object along it.
use crate::json::{parse, J};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A real object under test.  It only executes operations and reports what it sees; every expected
/// value comes from the specification.
pub trait Sut {
    fn apply(&mut self, op: &J) -> J;
    fn observe(&mut self) -> J;
}

impl Sut for Box<dyn Sut> {
    fn apply(&mut self, op: &J) -> J {
        (**self).apply(op)
    }
    fn observe(&mut self) -> J {
        (**self).observe()
    }
}

/// Which properties a mismatch in `field` after `op` concerns.
pub type Tags = fn(op: &J, field: &str) -> Vec<&'static str>;

pub struct Edge {
    pub f: u32,
    pub t: u32,
    pub o: u32,
}

pub struct Graph {
    pub nodes: Vec<J>,
    pub ops: Vec<J>,
    pub edges: Vec<Edge>,
    pub out: Vec<Vec<u32>>,
    /// BFS tree: edge into the node
    pub parent: Vec<u32>,
    pub depth: usize,
}

pub fn emitted(line: &str) -> Option<(char, J)> {
    // TLC prints strings quoted, with inner quotes escaped
    let l = line.trim();
    if !l.starts_with("\"@") {
        return None;
    }
    let s = parse(l).unwrap_or_else(|e| panic!("harness: bad line {l}: {e}"));
    let s = s.str();
    let tag = s.as_bytes()[1] as char;
    Some((tag, parse(&s[3..]).unwrap_or_else(|e| panic!("harness: bad json {s}: {e}"))))
}

pub fn load(path: &str) -> Graph {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("harness: {path}: {e}"));
    let mut ids: HashMap<String, u32> = HashMap::new();
    let mut nodes: Vec<J> = vec![];
    let mut opids: HashMap<String, u32> = HashMap::new();
    let mut ops = vec![];
    let mut raw = vec![];
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        let Some((tag, j)) = emitted(&line) else { continue };
        match tag {
            'N' => {
                let k = j.at("k").to_string();
                let id = ids.len() as u32;
                if ids.insert(k, id).is_none() {
                    nodes.push(j.at("x").clone());
                }
            }
            'E' => {
                let o = j.at("o");
                let key = o.to_string();
                let n = opids.len() as u32;
                let oid = *opids.entry(key).or_insert_with(|| {
                    ops.push(o.clone());
                    n
                });
                raw.push((j.at("f").to_string(), j.at("t").to_string(), oid));
            }
            _ => {}
        }
    }
    let mut out = vec![vec![]; nodes.len()];
    let mut edges = vec![];
    let mut seen = std::collections::HashSet::new();
    for (f, t, o) in raw {
        // an edge to a state outside the model's constraint has no node
        let (Some(&f), Some(&t)) = (ids.get(&f), ids.get(&t)) else { continue };
        if seen.insert((f, t, o)) {
            out[f as usize].push(edges.len() as u32);
            edges.push(Edge { f, t, o });
        }
    }
    for v in &mut out {
        // independent of the order in which TLC's workers printed
        v.sort_by_cached_key(|&e| ops[edges[e as usize].o as usize].to_string());
    }
    let mut parent = vec![u32::MAX; nodes.len()];
    let mut depth = vec![usize::MAX; nodes.len()];
    if !nodes.is_empty() {
        depth[0] = 0;
        let mut q = std::collections::VecDeque::from([0u32]);
        while let Some(n) = q.pop_front() {
            for &e in &out[n as usize] {
                let t = edges[e as usize].t as usize;
                if depth[t] == usize::MAX {
                    depth[t] = depth[n as usize] + 1;
                    parent[t] = e;
                    q.push_back(t as u32);
                }
            }
        }
    }
    let d = depth.iter().copied().filter(|d| *d != usize::MAX).max().unwrap_or(0);
    Graph { nodes, ops, edges, out, parent, depth: d }
}

/// Operations and paths of them in a form that an interpreter reads quickly.
pub fn pack(g: &Graph, paths: &[Vec<u32>]) -> Vec<u8> {
    fn num(o: &mut Vec<u8>, n: usize) {
        o.extend_from_slice(&(n as u32).to_le_bytes());
    }
    fn put(o: &mut Vec<u8>, j: &J) {
        match j {
            J::Null => o.push(0),
            J::B(b) => o.extend_from_slice(&[1, *b as u8]),
            J::N(n) => {
                o.push(2);
                o.extend_from_slice(&n.to_le_bytes());
            }
            J::S(s) => {
                o.push(3);
                num(o, s.len());
                o.extend_from_slice(s.as_bytes());
            }
            J::A(v) => {
                o.push(4);
                num(o, v.len());
                v.iter().for_each(|x| put(o, x));
            }
            J::O(v) => {
                o.push(5);
                num(o, v.len());
                for (k, x) in v {
                    num(o, k.len());
                    o.extend_from_slice(k.as_bytes());
                    put(o, x);
                }
            }
            _ => panic!("harness: not read from a file"),
        }
    }
    let mut o = vec![];
    let mut used: Vec<u32> = paths.iter().flatten().map(|e| g.edges[*e as usize].o).collect();
    used.sort();
    used.dedup();
    num(&mut o, used.len());
    for u in &used {
        let J::O(v) = &g.ops[*u as usize] else { panic!("harness: not an operation") };
        // a reply only where the operation looks at it, to know when to stop
        put(&mut o, &J::O(v.iter().filter(|(k, x)| k != "ret" || x.get("items").is_some()).cloned().collect()));
    }
    num(&mut o, paths.len());
    for p in paths {
        num(&mut o, p.len());
        p.iter().for_each(|e| num(&mut o, used.binary_search(&g.edges[*e as usize].o).unwrap()));
    }
    o
}

struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn num(&mut self) -> usize {
        u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize
    }
    fn text(&mut self) -> String {
        let n = self.num();
        String::from_utf8(self.take(n).to_vec()).unwrap()
    }
    fn val(&mut self) -> J {
        match self.take(1)[0] {
            0 => J::Null,
            1 => J::B(self.take(1)[0] != 0),
            2 => J::N(i64::from_le_bytes(self.take(8).try_into().unwrap())),
            3 => J::S(self.text()),
            4 => J::A((0..self.num()).map(|_| self.val()).collect()),
            5 => J::O((0..self.num()).map(|_| (self.text(), self.val())).collect()),
            t => panic!("harness: packed {t}"),
        }
    }
}

/// Walks packed paths and looks at the object at the end of each, without comparing anything: for an
/// interpreter that sees what is wrong by itself.
pub fn walk<S: Sut>(path: &str, variant: &str, mk: impl Fn(&str) -> S) {
    let b = std::fs::read(path).unwrap_or_else(|e| panic!("harness: {path}: {e}"));
    let mut r = R(&b);
    let ops: Vec<J> = (0..r.num()).map(|_| r.val()).collect();
    for k in 0..r.num() {
        println!("CASE {k}");
        let case: Vec<usize> = (0..r.num()).map(|_| r.num()).collect();
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let mut s = mk(variant);
            for o in case {
                s.apply(&ops[o]);
            }
            s.observe();
        }));
    }
    println!("END");
}

impl Graph {
    pub fn path(&self, mut n: u32) -> Vec<u32> {
        let mut p = vec![];
        while n != 0 {
            let e = self.parent[n as usize];
            p.push(e);
            n = self.edges[e as usize].f;
        }
        p.reverse();
        p
    }
    pub fn op(&self, e: u32) -> &J {
        &self.ops[self.edges[e as usize].o as usize]
    }
}

/// The paths to, and over, a seeded choice of edges, of every kind of operation and reply in turn.
pub fn extract(g: &Graph, seed: u64, n: usize, leave: &[String]) -> Vec<Vec<u32>> {
    let mut rng = Rng::new(seed);
    let mut order: Vec<u32> = (0..g.edges.len() as u32).collect();
    for i in 0..order.len() {
        let j = rng.range(i, order.len() - 1);
        order.swap(i, j);
    }
    let left = |e: u32| leave.iter().any(|l| g.op(e).at("op").str().contains(l.as_str()));
    order.retain(|&e| !left(e) && !g.path(g.edges[e as usize].f).iter().any(|&p| left(p)));
    let mut seen: HashMap<String, usize> = HashMap::new();
    // rounds: the k-th edge of each class before the (k+1)-th of any
    let mut rank: Vec<(usize, u32)> = vec![];
    for &e in &order {
        let k = seen.entry(class(g.op(e))).or_default();
        rank.push((*k, e));
        *k += 1;
    }
    rank.sort_by_key(|r| r.0);
    rank.iter()
        .take(n)
        .map(|r| {
            let mut p = g.path(g.edges[r.1 as usize].f);
            p.push(r.1);
            p
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub tags: Vec<&'static str>,
    pub field: String,
    pub want: String,
    pub got: String,
    pub ops: Vec<String>,
    pub variant: String,
    pub edge: i64,
}

impl Mismatch {
    pub fn json(&self) -> J {
        J::O(vec![
            ("tags".into(), J::A(self.tags.iter().map(|t| J::s(t)).collect())),
            ("field".into(), J::s(&self.field)),
            ("expected_by_spec".into(), J::s(&self.want)),
            ("observed_in_code".into(), J::s(&self.got)),
            ("variant".into(), J::s(&self.variant)),
            ("edge".into(), J::N(self.edge)),
            ("operations".into(), J::A(self.ops.iter().map(|o| parse(o).unwrap()).collect())),
        ])
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn fields(prefix: &str, got: &J, want: &J, bad: &mut Vec<(String, String, String)>) {
    if let (J::O(g), J::O(w)) = (got, want) {
        for (k, x) in w {
            match g.iter().find(|(n, _)| n == k) {
                Some((_, y)) if y.agrees(x) => {}
                Some((_, y)) => bad.push((format!("{prefix}{k}"), x.to_string(), y.to_string())),
                None => bad.push((format!("{prefix}{k}"), x.to_string(), "absent".into())),
            }
        }
    } else if !got.agrees(want) {
        bad.push((prefix.trim_end_matches('.').to_string(), want.to_string(), got.to_string()));
    }
}

pub enum Step {
    Ok,
    /// (field, want, got)
    Bad(Vec<(String, String, String)>),
}

/// Apply one operation and compare reply and, if asked, the observation.
pub fn step<S: Sut>(s: &mut S, op: &J, x: Option<&J>) -> Step {
    let mut bad = vec![];
    match catch_unwind(AssertUnwindSafe(|| s.apply(op))) {
        Ok(r) => {
            if x.is_some() {
                fields("ret.", &r, op.at("ret"), &mut bad)
            }
        }
        Err(p) => {
            let t = panic_text(p);
            if t.starts_with("harness:") {
                eprintln!("{t} in {op}");
                std::process::exit(3);
            }
            bad.push(("panic".into(), op.at("ret").to_string(), format!("panic: {t}")));
        }
    }
    if let Some(x) = x {
        match catch_unwind(AssertUnwindSafe(|| s.observe())) {
            Ok(o) => fields("", &o, x, &mut bad),
            Err(p) => {
                let t = panic_text(p);
                if t.starts_with("harness:") {
                    eprintln!("{t} observing after {op}");
                    std::process::exit(3);
                }
                bad.push(("observe".into(), "an answer".into(), format!("panic: {t}")));
            }
        }
    }
    if bad.is_empty() {
        Step::Ok
    } else {
        Step::Bad(bad)
    }
}

pub struct Cfg {
    pub seed: u64,
    pub walks: usize,
    pub walk_len: usize,
    pub threads: usize,
    pub only_edge: Option<u32>,
    pub max_edges: usize,
    pub crash_dir: String,
    pub name: String,
    /// classes of operations that are left out, with all that follows them
    pub skip: Vec<String>,
    /// after how many seconds an operation counts as one that never returns
    pub hang: u64,
}

/// What an operation is and how it should reply.
pub fn class(op: &J) -> String {
    let r = match op.at("ret") {
        J::S(s) => s.clone(),
        J::B(b) => b.to_string(),
        J::O(v) => v.iter().map(|(_, x)| match x {
            J::S(s) => s.clone(),
            J::B(b) => b.to_string(),
            _ => "_".into(),
        }).collect::<Vec<_>>().join("/"),
        _ => "_".into(),
    };
    format!("{}:{}", op.at("op").str(), r)
}

#[derive(Default)]
pub struct Report {
    pub nodes: usize,
    pub edges: usize,
    pub variants: Vec<String>,
    pub depth: usize,
    pub cases: u64,
    pub ops_applied: u64,
    pub walks: u64,
    pub coverage: BTreeMap<String, u64>,
    pub samples: Vec<J>,
    pub mismatches: Vec<Mismatch>,
    pub total_mismatches: u64,
    pub hang: bool,
}

impl Report {
    pub fn json(&self) -> J {
        J::O(vec![
            ("nodes".into(), J::from(self.nodes)),
            ("edges".into(), J::from(self.edges)),
            ("depth".into(), J::from(self.depth)),
            ("variants".into(), J::A(self.variants.iter().map(|v| J::s(v)).collect())),
            ("cases".into(), J::N(self.cases as i64)),
            ("ops_applied".into(), J::N(self.ops_applied as i64)),
            ("walks".into(), J::N(self.walks as i64)),
            ("total_mismatches".into(), J::N(self.total_mismatches as i64)),
            (
                "coverage".into(),
                J::O(self.coverage.iter().map(|(k, v)| (k.clone(), J::N(*v as i64))).collect()),
            ),
            ("samples".into(), J::A(self.samples.clone())),
            ("mismatches".into(), J::A(self.mismatches.iter().map(|m| m.json()).collect())),
        ])
    }
    pub fn add(&mut self, m: Mismatch) {
        self.total_mismatches += 1;
        // keep a few per property, the shortest first
        let n = self.mismatches.iter().filter(|o| o.tags == m.tags && o.field == m.field).count();
        if n < 3 {
            self.mismatches.push(m);
        } else if let Some(o) = self
            .mismatches
            .iter_mut()
            .find(|o| o.tags == m.tags && o.field == m.field && o.ops.len() > m.ops.len())
        {
            *o = m;
        }
    }
}

/// Watches for a case that never returns.
pub struct Watch {
    slots: Vec<(AtomicU64, Mutex<Option<String>>)>,
    stop: AtomicBool,
    base: Instant,
}

impl Watch {
    pub fn new(n: usize) -> Watch {
        Watch {
            slots: (0..n).map(|_| (AtomicU64::new(0), Mutex::new(None))).collect(),
            stop: AtomicBool::new(false),
            base: Instant::now(),
        }
    }
    pub fn begin(&self, t: usize, what: impl FnOnce() -> String) {
        *self.slots[t].1.lock().unwrap() = Some(what());
        self.slots[t].0.store(self.base.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    pub fn end(&self, t: usize) {
        self.slots[t].0.store(0, Ordering::SeqCst);
    }
    pub fn finish(&self) {
        self.stop.store(true, Ordering::SeqCst);
    }
    /// Returns the description of a case that has been running for `limit`, or None at the end.
    pub fn run(&self, limit: Duration) -> Option<String> {
        while !self.stop.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(50));
            let now = self.base.elapsed().as_millis() as u64;
            for s in &self.slots {
                let b = s.0.load(Ordering::SeqCst);
                if b != 0 && now > b + limit.as_millis() as u64 {
                    return s.1.lock().unwrap().clone();
                }
            }
        }
        None
    }
}

/// Reading a value that is not one, no longer one or handed out twice shows as -7, -8 or -9 in
/// every subject, and the ledger of values counts destructions of what is no value: safe code has
/// reached memory it must not reach.
fn tags_of(tags: Tags, op: &J, field: &str, got: &str) -> Vec<&'static str> {
    let mut t = tags(op, field);
    let b = got.as_bytes();
    let unsound = (0..b.len().saturating_sub(1)).any(|i| {
        b[i] == b'-' && matches!(b[i + 1], b'7'..=b'9') && !b.get(i + 2).map_or(false, |c| c.is_ascii_digit())
    });
    if field == "errors" || unsound {
        t.push("C25");
    }
    t
}

/// An edge, the variant it was tried on, and what differs: field, wanted, got.
type Raw = (u32, usize, Vec<(String, String, String)>);

/// A case whose path already diverged says nothing more: report only the first divergence.
fn first_divergences(g: &Graph, variants: &[String], tags: Tags, rp: &mut Report, mut raw: Vec<Raw>) {
    raw.sort_by_key(|r| (r.1, r.0));
    let diverged: std::collections::HashSet<(u32, usize)> = raw.iter().map(|r| (r.0, r.1)).collect();
    for (e, v, bads) in raw {
        let path = g.path(g.edges[e as usize].f);
        if path.iter().any(|&p| diverged.contains(&(p, v))) {
            continue;
        }
        let mut ops: Vec<String> = path.iter().map(|&e| g.op(e).to_string()).collect();
        ops.push(g.op(e).to_string());
        for (field, want, got) in bads {
            rp.add(Mismatch {
                tags: tags_of(tags, g.op(e), &field, &got),
                field,
                want,
                got,
                ops: ops.clone(),
                variant: variants[v].clone(),
                edge: e as i64,
            });
        }
    }
}

pub fn drive<S: Sut>(
    g: &Graph,
    variants: &[String],
    mk: impl Fn(&str) -> S + Sync,
    tags: Tags,
    cfg: &Cfg,
    on_hang: impl Fn(&Report) + Sync,
) -> Report {
    let rep = Mutex::new(Report {
        nodes: g.nodes.len(),
        edges: g.edges.len(),
        depth: g.depth,
        variants: variants.to_vec(),
        ..Default::default()
    });
    // which edges: all, or a seeded sample if there are too many
    let mut rng = Rng::new(cfg.seed);
    let mut todo: Vec<u32> = match cfg.only_edge {
        Some(e) => vec![e],
        None => (0..g.edges.len() as u32).collect(),
    };
    if cfg.max_edges > 0 && todo.len() > cfg.max_edges {
        for i in 0..cfg.max_edges {
            let j = rng.range(i, todo.len() - 1);
            todo.swap(i, j);
        }
        todo.truncate(cfg.max_edges);
        // with every edge of the paths that lead to them, so that a divergence is reported where
        // it first shows
        let mut all: std::collections::BTreeSet<u32> = todo.iter().copied().collect();
        for &e in &todo {
            let mut n = g.edges[e as usize].f;
            while n != 0 && all.insert(g.parent[n as usize]) {
                n = g.edges[g.parent[n as usize] as usize].f;
            }
        }
        todo = all.into_iter().collect();
    }
    let skip: Vec<bool> = g.ops.iter().map(|o| !cfg.skip.is_empty() && cfg.skip.contains(&class(o))).collect();
    let skips = |e: u32| skip[g.edges[e as usize].o as usize];
    if !cfg.skip.is_empty() {
        todo.retain(|&e| !skips(e) && !g.path(g.edges[e as usize].f).iter().any(|&p| skips(p)));
    }
    let raw: Mutex<Vec<Raw>> = Mutex::new(vec![]);
    let walks = if cfg.only_edge.is_some() { 0 } else { cfg.walks };
    let per = todo.len() + walks;
    let total = per * variants.len();
    let next = AtomicUsize::new(0);
    let watch = Watch::new(cfg.threads);
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for th in 0..cfg.threads {
            let (next, rep, todo, watch, mk, done, raw, skips) =
                (&next, &rep, &todo, &watch, &mk, &done, &raw, &skips);
            sc.spawn(move || {
                let mut crash = if cfg.crash_dir.is_empty() {
                    None
                } else {
                    Some(std::fs::File::create(format!("{}/{}", cfg.crash_dir, th)).unwrap())
                };
                let mut cov: HashMap<u32, u64> = HashMap::new();
                let (mut cases, mut applied, mut nwalks) = (0u64, 0u64, 0u64);
                loop {
                    // blocks of cases, to keep the counter cheap
                    let b = next.fetch_add(16, Ordering::Relaxed);
                    if b >= total {
                        break;
                    }
                    for c in b..(b + 16).min(total) {
                        let variant = &variants[c / per];
                        let k = c % per;
                        if let Some(f) = &mut crash {
                            let e = if k < todo.len() { todo[k] as i64 } else { -1 - (k as i64) };
                            let line = format!("{{\"edge\":{e},\"variant\":\"{variant}\"}}");
                            f.seek(SeekFrom::Start(0)).unwrap();
                            f.write_all(format!("{line:<120}").as_bytes()).unwrap();
                        }
                        watch.begin(th, || {
                            if k < todo.len() {
                                let mut ops: Vec<String> = g.path(g.edges[todo[k] as usize].f)
                                    .iter().map(|&e| g.op(e).to_string()).collect();
                                ops.push(g.op(todo[k]).to_string());
                                format!("{{\"edge\":{},\"variant\":\"{variant}\",\"ops\":[{}]}}", todo[k], ops.join(","))
                            } else {
                                format!("{{\"edge\":-1,\"variant\":\"{variant}\",\"ops\":[]}}")
                            }
                        });
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut s = mk(variant);
                            let mut bads: Vec<(u32, Vec<(String, String, String)>, Vec<String>)> = vec![];
                            if k < todo.len() {
                                let e = todo[k];
                                let path = g.path(g.edges[e as usize].f);
                                let mut ok = true;
                                for &p in &path {
                                    applied += 1;
                                    if let Step::Bad(_) = step(&mut s, g.op(p), None) {
                                        ok = false; // that edge's own case reports it
                                        break;
                                    }
                                }
                                if ok {
                                    applied += 1;
                                    let x = &g.nodes[g.edges[e as usize].t as usize];
                                    if let Step::Bad(b) = step(&mut s, g.op(e), Some(x)) {
                                        raw.lock().unwrap().push((e, c / per, b));
                                    }
                                    *cov.entry(g.edges[e as usize].o).or_default() += 1;
                                    cases += 1;
                                }
                            } else {
                                let mut r = Rng::new(cfg.seed ^ ((k as u64) << 20) ^ c as u64);
                                let mut n = 0u32;
                                let mut ops = vec![];
                                for _ in 0..cfg.walk_len {
                                    if g.out[n as usize].is_empty() {
                                        break;
                                    }
                                    let e = *r.pick(&g.out[n as usize]);
                                    if skips(e) {
                                        break;
                                    }
                                    applied += 1;
                                    ops.push(e);
                                    let x = &g.nodes[g.edges[e as usize].t as usize];
                                    if let Step::Bad(b) = step(&mut s, g.op(e), Some(x)) {
                                        bads.push((e, b, ops.iter().map(|&e| g.op(e).to_string()).collect()));
                                        break;
                                    }
                                    n = g.edges[e as usize].t;
                                }
                                nwalks += 1;
                            }
                            drop(s);
                            bads
                        }));
                        watch.end(th);
                        match r {
                            Ok(bads) => {
                                for (e, b, ops) in bads {
                                    let mut rp = rep.lock().unwrap();
                                    for (field, want, got) in b {
                                        rp.add(Mismatch {
                                            tags: tags_of(tags, g.op(e), &field, &got),
                                            field,
                                            want,
                                            got,
                                            ops: ops.clone(),
                                            variant: variant.clone(),
                                            edge: e as i64,
                                        });
                                    }
                                }
                            }
                            Err(p) => {
                                // building or dropping the object panicked
                                let e = if k < todo.len() { todo[k] } else { 0 };
                                let mut ops: Vec<String> = vec![];
                                if k < todo.len() {
                                    ops = g.path(g.edges[e as usize].f).iter().map(|&e| g.op(e).to_string()).collect();
                                    ops.push(g.op(e).to_string());
                                }
                                let t = panic_text(p);
                                if t.starts_with("harness:") {
                                    eprintln!("{t}");
                                    std::process::exit(3);
                                }
                                rep.lock().unwrap().add(Mismatch {
                                    tags: tags(g.op(e), "teardown"),
                                    field: "teardown".into(),
                                    want: "no panic".into(),
                                    got: format!("panic: {t}"),
                                    ops,
                                    variant: variant.clone(),
                                    edge: e as i64,
                                });
                            }
                        }
                    }
                }
                let mut rp = rep.lock().unwrap();
                rp.cases += cases;
                rp.ops_applied += applied;
                rp.walks += nwalks;
                for (o, n) in cov {
                    *rp.coverage.entry(class(&g.ops[o as usize])).or_default() += n;
                }
                drop(rp);
                if done.fetch_add(1, Ordering::SeqCst) + 1 == cfg.threads {
                    watch.finish();
                }
            });
        }
        if let Some(what) = watch.run(Duration::from_secs(cfg.hang)) {
            let j = parse(&what).unwrap();
            let ops: Vec<String> = j.at("ops").arr().iter().map(|o| o.to_string()).collect();
            let last = j.at("ops").arr().last().cloned();
            let mut rp = rep.lock().unwrap();
            rp.hang = true;
            let tg = match &last {
                Some(o) => tags(o, "hang"),
                None => vec![],
            };
            rp.add(Mismatch {
                tags: tg,
                field: "hang".into(),
                want: "the operation returns".into(),
                got: format!("no return within {} s", cfg.hang),
                ops,
                variant: j.at("variant").str().to_string(),
                edge: j.at("edge").int(),
            });
            first_divergences(g, variants, tags, &mut rp, std::mem::take(&mut *raw.lock().unwrap()));
            on_hang(&rp);
            std::process::exit(0);
        }
    });
    let mut rp = rep.into_inner().unwrap();
    first_divergences(g, variants, tags, &mut rp, raw.into_inner().unwrap());
    // a sample case, written out
    for i in [g.edges.len() / 2, g.edges.len().saturating_sub(1)] {
        if i < g.edges.len() {
            let e = i as u32;
            let mut ops: Vec<J> = g.path(g.edges[i].f).iter().map(|&e| g.op(e).clone()).collect();
            ops.push(g.op(e).clone());
            rp.samples.push(J::O(vec![
                ("spec".into(), J::s(&cfg.name)),
                ("operations".into(), J::A(ops)),
                ("final_observation".into(), g.nodes[g.edges[i].t as usize].clone()),
            ]));
        }
    }
    rp
}
