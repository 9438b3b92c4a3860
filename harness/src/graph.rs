//! Complete state graphs of the small instances (from TLC), replayed edge by edge in the real program.
use crate::replay::{self, digest};
use crate::world::*;
use litesvm::LiteSVM;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{BufRead, BufReader, Write};

// ---------------- TLC's text of a state as ITF ----------------
struct P<'a> {
    t: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.t.len() && self.t[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if self.t[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            return true;
        }
        false
    }
    fn need(&mut self, s: &str) {
        assert!(self.eat(s), "expected {s} at {:?}", String::from_utf8_lossy(&self.t[self.i..(self.i + 60).min(self.t.len())]));
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || self.t[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.t[a..self.i]).into_owned()
    }
    /// tup: a tuple and not a list is expected
    fn value(&mut self, tup: bool) -> Value {
        if self.eat("[") {
            let mut m = Map::new();
            loop {
                let k = self.word();
                self.need("|->");
                let v = self.value(false);
                m.insert(k, v);
                if self.eat("]") {
                    return Value::Object(m);
                }
                self.need(",");
            }
        }
        if self.eat("<<") {
            let mut l = vec![];
            if !self.eat(">>") {
                loop {
                    l.push(self.value(tup));
                    if self.eat(">>") {
                        break;
                    }
                    self.need(",");
                }
            }
            return if tup { json!({"#tup": l}) } else { Value::Array(l) };
        }
        if self.eat("{") {
            let mut l = vec![];
            if !self.eat("}") {
                loop {
                    l.push(self.value(true));
                    if self.eat("}") {
                        break;
                    }
                    self.need(",");
                }
            }
            return json!({"#set": l});
        }
        if self.eat("(") {
            let mut l = vec![];
            loop {
                let k = self.value(true);
                self.need(":>");
                let v = self.value(false);
                l.push(json!([k, v]));
                if self.eat(")") {
                    return json!({"#map": l});
                }
                self.need("@@");
            }
        }
        if self.eat("\"") {
            let a = self.i;
            while self.t[self.i] != b'"' {
                self.i += 1;
            }
            let s = String::from_utf8_lossy(&self.t[a..self.i]).into_owned();
            self.i += 1;
            return Value::String(s);
        }
        let neg = self.eat("-");
        match self.word().as_str() {
            "TRUE" => Value::Bool(true),
            "FALSE" => Value::Bool(false),
            n => json!({"#bigint": format!("{}{n}", if neg { "-" } else { "" })}),
        }
    }
}
const MAPS: [&str; 9] = ["presales", "baseVault", "quoteVault", "escrows", "roots", "fargs", "meta", "balB", "balQ"];
/// prices of the small model are in quarters, the program's in 2^-64
fn price(v: &mut Value) {
    let n: u128 = v["q"]["#bigint"].as_str().unwrap().parse().unwrap();
    v["q"] = json!({"#bigint": (n << 62).to_string()});
}
fn state_of(label: &str) -> (u64, Value) {
    let text = label.replace("\\\\", "\u{1}").replace("\\n", "\n").replace("\\\"", "\"").replace('\u{1}', "\\");
    let at = |k: &str| text.find(k).expect("variable") + k.len();
    let inst = P { t: text.as_bytes(), i: at("/\\ sin = ") }.value(false)["#bigint"].as_str().unwrap().parse().unwrap();
    let mut s = P { t: text.as_bytes(), i: at("/\\ sst = ") }.value(false);
    let o = s.as_object_mut().unwrap();
    for f in MAPS {
        let v = o[f].take();
        o[f] = match v {
            Value::Array(l) if l.is_empty() => json!({"#map": []}),
            Value::Object(m) if m.contains_key("#map") => Value::Object(m),
            Value::Object(m) => json!({"#map": m.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()}),
            v => panic!("{v}"),
        };
    }
    for f in ["presales", "fargs"] {
        for e in o[f]["#map"].as_array_mut().unwrap() {
            price(&mut e[1]);
        }
    }
    (inst, s)
}

/// packgraph OUT MENUS.itf.json DOT...
pub fn pack(out: &str, menus: &str, dots: &[String]) {
    let m: Value = serde_json::from_reader(BufReader::new(std::fs::File::open(menus).unwrap())).unwrap();
    let menus = &m["states"][0]["menus"];
    struct N {
        inst: u64,
        h: String,
        s0: Option<Value>,
    }
    let mut ids: HashMap<i64, usize> = HashMap::new();
    let mut nodes: Vec<Option<N>> = vec![];
    let mut edges: Vec<(usize, bool, usize, usize)> = vec![];
    fn id(nodes: &mut Vec<Option<N>>, ids: &mut HashMap<i64, usize>, k: i64) -> usize {
        *ids.entry(k).or_insert_with(|| {
            nodes.push(None);
            nodes.len() - 1
        })
    }
    for d in dots {
        for l in BufReader::new(std::fs::File::open(d).unwrap()).lines() {
            let l = l.unwrap();
            let Some(a) = l.find(" [label=\"") else { continue };
            let head = &l[..a];
            let rest = &l[a + 9..];
            if let Some((x, y)) = head.split_once(" -> ") {
                let (x, y) = (id(&mut nodes, &mut ids, x.parse().unwrap()), id(&mut nodes, &mut ids, y.parse().unwrap()));
                let lab = &rest[..rest.find('"').unwrap()];
                let (name, k) = lab.split_once('(').unwrap();
                let k: usize = k.trim_end_matches(')').parse().unwrap();
                edges.push((x, name == "accepts", k, y));
            } else if let Ok(k) = head.parse::<i64>() {
                // the label ends at the first unescaped quote
                let b = rest.as_bytes();
                let mut e = 0;
                while b[e] != b'"' {
                    e += if b[e] == b'\\' { 2 } else { 1 };
                }
                let (inst, s) = state_of(&rest[..e]);
                let i = id(&mut nodes, &mut ids, k);
                let first = rest[e..].contains("filled");
                if nodes[i].is_none() || first {
                    nodes[i] = Some(N { inst, h: digest(&s), s0: first.then_some(s) });
                }
            }
        }
    }
    let nodes: Vec<N> = nodes.into_iter().map(|n| n.expect("state of every node")).collect();
    let mut acc: Vec<BTreeMap<usize, usize>> = vec![BTreeMap::new(); nodes.len()];
    let mut rej: Vec<Vec<usize>> = vec![vec![]; nodes.len()];
    for (x, a, k, y) in edges {
        if a {
            acc[x].insert(k, y);
        } else if !rej[x].contains(&k) {
            assert_eq!(x, y);
            rej[x].push(k);
        }
    }
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (r, n) in nodes.iter().enumerate() {
        let Some(s0) = &n.s0 else { continue };
        // breadth first, renumbered
        let mut ix = HashMap::from([(r, 0usize)]);
        let mut order = vec![r];
        let mut par = vec![(0usize, 0usize)];
        let mut q = VecDeque::from([r]);
        while let Some(x) = q.pop_front() {
            for (k, y) in &acc[x] {
                if !ix.contains_key(y) {
                    ix.insert(*y, order.len());
                    order.push(*y);
                    par.push((ix[&x], *k));
                    q.push_back(*y);
                }
            }
        }
        let ns: Vec<Value> = order
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let a: Vec<(usize, usize)> = acc[*x].iter().map(|(k, y)| (*k, ix[y])).collect();
                let mut rj = rej[*x].clone();
                rj.sort();
                json!([nodes[*x].h, par[i].0, par[i].1, a, rj])
            })
            .collect();
        let menu = &menus[n.inst as usize];
        serde_json::to_writer(&mut o, &json!({"inst": n.inst, "s0": s0, "menu": menu, "nodes": ns})).unwrap();
        o.write_all(b"\n").unwrap();
    }
}

// ---------------- replay ----------------
struct Node {
    h: String,
    parent: (usize, usize),
    acc: Vec<(usize, usize)>,
    rej: Vec<usize>,
}
pub struct Graph {
    inst: u64,
    s0: Value,
    menu: Vec<Value>,
    nodes: Vec<Node>,
    size: Vec<usize>,
}
/// a divergence: what differs, and the instructions that lead to it and go on from there
pub struct Div {
    pub key: String,
    pub first: usize,
    pub trace: Value,
}
#[derive(Default)]
pub struct Out {
    pub states: usize,
    pub counts: HashMap<String, usize>,
    pub steps: usize,
    pub divs: Vec<Div>,
}
const BIG: usize = 48;
impl Graph {
    pub fn load(line: &str) -> Graph {
        let v: Value = serde_json::from_str(line).unwrap();
        let us = |x: &Value| x.as_u64().unwrap() as usize;
        let nodes: Vec<Node> = v["nodes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|n| Node {
                h: as_s(&n[0]).to_string(),
                parent: (us(&n[1]), us(&n[2])),
                acc: n[3].as_array().unwrap().iter().map(|e| (us(&e[0]), us(&e[1]))).collect(),
                rej: n[4].as_array().unwrap().iter().map(us).collect(),
            })
            .collect();
        let mut size = vec![1; nodes.len()];
        for i in (1..nodes.len()).rev() {
            size[nodes[i].parent.0] += size[i];
        }
        Graph { inst: v["inst"].as_u64().unwrap(), s0: v["s0"].clone(),
                menu: v["menu"].as_array().unwrap().clone(), nodes, size }
    }
    /// the nodes that are visited as separate tasks
    pub fn tasks(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| *i == 0 || self.size[*i] >= BIG || self.size[self.nodes[*i].parent.0] >= BIG).collect()
    }
    fn path(&self, mut n: usize) -> Vec<usize> {
        let mut p = vec![];
        while n != 0 {
            p.push(self.nodes[n].parent.1);
            n = self.nodes[n].parent.0;
        }
        p.reverse();
        p
    }
    fn diverge(&self, out: &mut Out, n: usize, k: usize, to: Option<usize>, what: &str) {
        let op = &self.menu[k];
        let mut ks = self.path(n);
        let first = ks.len();
        ks.push(k);
        // go on as the specification would
        let mut cur = to.unwrap_or(n);
        for i in 0..14 {
            let a = &self.nodes[cur].acc;
            if a.is_empty() {
                break;
            }
            let (k, t) = a[(i * 7 + n) % a.len()];
            ks.push(k);
            cur = t;
        }
        let steps: Vec<Value> = ks.iter().map(|k| json!({"op": self.menu[*k], "ev": replay::no_event()})).collect();
        out.divs.push(Div {
            key: format!("{} {what} small{}", as_s(&op["kind"]), self.inst),
            first,
            trace: json!({"id": format!("small{}:{n}:{k}", self.inst), "s0": self.s0, "steps": steps}),
        });
    }
    fn exec(&self, w: &mut World, k: usize, out: &mut Out, want: bool, h: &str) -> Option<String> {
        let op = &self.menu[k];
        let o = replay::step(w, op, &replay::no_event());
        out.steps += 1;
        *out.counts.entry(format!("{} {}", as_s(&op["kind"]), if o.ok { "accepted" } else { "rejected" })).or_insert(0) += 1;
        let st = w.digest() != h;
        if o.ok == want && !st {
            return None;
        }
        let mut what = vec![];
        if o.ok != want {
            what.push(if o.ok { "accepted" } else { "rejected" });
        }
        if st {
            what.push("state");
        }
        Some(what.join("+"))
    }
    fn rebuild(&self, template: &LiteSVM, n: usize) -> World {
        let mut w = World::new(template, "w", &self.s0);
        for k in self.path(n) {
            replay::step(&mut w, &self.menu[k], &replay::no_event());
        }
        w
    }
    pub fn visit(&self, template: &LiteSVM, task: usize, out: &mut Out) {
        let mut w = self.rebuild(template, task);
        if w.digest() != self.nodes[task].h {
            return; // reported where it first differs
        }
        self.walk(template, task, w, out, self.size[task] >= BIG);
    }
    fn walk(&self, template: &LiteSVM, n: usize, mut w: World, out: &mut Out, alone: bool) {
        out.states += 1;
        let nd = &self.nodes[n];
        for k in &nd.rej {
            if let Some(d) = self.exec(&mut w, *k, out, false, &nd.h) {
                self.diverge(out, n, *k, None, &d);
                w = self.rebuild(template, n);
            }
        }
        for (k, to) in &nd.acc {
            let mut w2 = w.clone();
            if let Some(d) = self.exec(&mut w2, *k, out, true, &self.nodes[*to].h) {
                self.diverge(out, n, *k, Some(*to), &d);
            } else if !alone && self.nodes[*to].parent == (n, *k) && *to != 0 {
                self.walk(template, *to, w2, out, false);
            }
        }
    }
}
