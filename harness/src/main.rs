mod graph;
mod ix;
mod replay;
mod svm;
mod world;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex};

/// pack OUT.jsonl PREFIX FILE...      reduce ITF traces to packed behaviours
/// replay OUT.json THREADS MAXDIV FILE.jsonl...   replay them and report
fn main() {
    work();
    replay::remove_tempfile_dir();
}
fn work() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("pack") => {
            let mut o = BufWriter::new(File::create(&a[2]).unwrap());
            for (i, f) in a[4..].iter().enumerate() {
                let v: Value = serde_json::from_reader(BufReader::new(File::open(f).unwrap())).unwrap();
                serde_json::to_writer(&mut o, &replay::pack(&v, &format!("{}:{i}", a[3]))).unwrap();
                o.write_all(b"\n").unwrap();
            }
        }
        Some("replay") => run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5..]),
        // packgraph OUT.graph MENUS.itf.json DOT...: TLC's state graphs of the small instances
        Some("packgraph") => graph::pack(&a[2], &a[3], &a[4..]),
        // record OUT.json FILE.jsonl: everything the program does on these behaviours
        Some("record") => {
            svm::install();
            let template = world::base_svm();
            let v: Vec<Value> = BufReader::new(File::open(&a[3]).unwrap())
                .lines()
                .map(|l| replay::record(&template, &serde_json::from_str(&l.unwrap()).unwrap()))
                .collect();
            serde_json::to_writer(BufWriter::new(File::create(&a[2]).unwrap()), &v).unwrap();
        }
        // demo FILE.json: repeat a recorded history and compare every result
        Some("demo") => {
            svm::install();
            let template = world::base_svm();
            let v: Value = serde_json::from_reader(BufReader::new(File::open(&a[2]).unwrap())).unwrap();
            let o = replay::record(&template, &v);
            let (e, g) = (v["steps"].as_array().unwrap(), o["steps"].as_array().unwrap());
            for (i, (e, g)) in e.iter().zip(g).enumerate() {
                for k in ["ok", "ev", "rent", "d"] {
                    if replay::text(&e[k]) != replay::text(&g[k]) {
                        println!("step {i}, {}: {k} is\n  {}\ninstead of\n  {}", e["op"]["kind"], replay::text(&g[k]), replay::text(&e[k]));
                        std::process::exit(1);
                    }
                }
            }
            println!("{} steps as expected", e.len());
        }
        _ => panic!("usage"),
    }
}

/// Observed behaviours kept for judging: a few of each kind of divergence.
const PER_CLUSTER: usize = 12;

fn run(out: &str, threads: usize, maxdiv: usize, files: &[String]) {
    svm::install();
    let mut lines: Vec<String> = vec![];
    let mut graphs: Vec<graph::Graph> = vec![];
    for f in files {
        for l in BufReader::new(File::open(f).unwrap()).lines() {
            let l = l.unwrap();
            if f.ends_with(".graph") {
                graphs.push(graph::Graph::load(&l));
            } else {
                lines.push(l);
            }
        }
    }
    let gtasks: Vec<(usize, usize)> =
        graphs.iter().enumerate().flat_map(|(i, g)| g.tasks().into_iter().map(move |t| (i, t))).collect();
    let lines = Arc::new(lines);
    let graphs = Arc::new((graphs, gtasks));
    let next = Arc::new(AtomicUsize::new(0));
    #[derive(Default)]
    struct Res {
        steps: usize,
        diverged: usize,
        counts: BTreeMap<String, usize>,
        states: HashSet<String>,
        small_states: usize,
        small_steps: usize,
        small_diverged: usize,
        clusters: BTreeMap<String, (usize, BTreeMap<usize, String>)>,
    }
    let res = Arc::new(Mutex::new(Res::default()));
    let mut hs = vec![];
    for _ in 0..threads {
        let (lines, graphs, next, res) = (lines.clone(), graphs.clone(), next.clone(), res.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let template = world::base_svm();
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() {
                    let Some((gi, task)) = graphs.1.get(i - lines.len()) else { break };
                    let mut o = graph::Out::default();
                    graphs.0[*gi].visit(&template, *task, &mut o);
                    let mut divs = vec![];
                    {
                        let mut r = res.lock().unwrap();
                        r.small_states += o.states;
                        r.small_steps += o.steps;
                        r.small_diverged += o.divs.len();
                        if maxdiv == 0 && !o.divs.is_empty() {
                            next.store(usize::MAX / 2, Ordering::SeqCst);
                        }
                        for (k, v) in o.counts {
                            *r.counts.entry(k).or_insert(0) += v;
                        }
                        for d in o.divs {
                            let c = r.clusters.entry(d.key.clone()).or_default();
                            c.0 += 1;
                            if c.1.len() < PER_CLUSTER {
                                c.1.insert(i * 4096 + c.0, String::new());
                                divs.push((i * 4096 + c.0, d));
                            }
                        }
                    }
                    for (at, d) in divs.into_iter().take(maxdiv) {
                        let mut v = replay::record(&template, &d.trace);
                        v["first"] = json!(d.first);
                        let s = serde_json::to_string(&v).unwrap();
                        res.lock().unwrap().clusters.get_mut(&d.key).unwrap().1.insert(at, s);
                    }
                    continue;
                }
                let t: Value = serde_json::from_str(&lines[i]).unwrap();
                let o = replay::replay(&template, &t);
                let wanted = {
                    let mut r = res.lock().unwrap();
                    r.steps += o.steps;
                    for (k, v) in o.counts {
                        *r.counts.entry(k).or_insert(0) += v;
                    }
                    for s in t["steps"].as_array().unwrap() {
                        r.states.insert(s["h"].as_str().unwrap().to_string());
                    }
                    match &o.first {
                        None => false,
                        Some((_, key)) => {
                            r.diverged += 1;
                            if maxdiv == 0 {
                                next.store(usize::MAX / 2, Ordering::SeqCst);
                            }
                            let c = r.clusters.entry(key.clone()).or_default();
                            c.0 += 1;
                            c.1.len() < PER_CLUSTER || c.1.keys().next_back().is_some_and(|m| i < *m)
                        }
                    }
                };
                if wanted && maxdiv > 0 {
                    let (first, key) = o.first.unwrap();
                    let mut v = replay::record(&template, &t);
                    v["first"] = json!(first);
                    let s = serde_json::to_string(&v).unwrap();
                    let mut r = res.lock().unwrap();
                    let c = r.clusters.get_mut(&key).unwrap();
                    c.1.insert(i, s);
                    if c.1.len() > PER_CLUSTER {
                        c.1.pop_last();
                    }
                }
            }
        }).unwrap());
    }
    let mut bad = false;
    for h in hs {
        bad |= h.join().is_err();
    }
    if bad {
        std::process::exit(3);
    }
    let r = res.lock().unwrap();
    let sizes: BTreeMap<&String, usize> = r.clusters.iter().map(|(k, v)| (k, v.0)).collect();
    let v = json!({"behaviours": lines.len(), "steps": r.steps, "distinct": r.states.len(), "diverged": r.diverged,
                   "small_states": r.small_states, "small_steps": r.small_steps, "small_diverged": r.small_diverged,
                   "counts": r.counts, "clusters": sizes});
    let mut o = BufWriter::new(File::create(out).unwrap());
    let s = serde_json::to_string(&v).unwrap();
    write!(o, "{},\"observed\":[", &s[..s.len() - 1]).unwrap();
    // one of each kind first
    let mut n = 0;
    for k in 0..PER_CLUSTER {
        for (_, c) in r.clusters.values() {
            if let Some(x) = c.values().nth(k) {
                if n < maxdiv {
                    write!(o, "{}{x}", if n > 0 { "," } else { "" }).unwrap();
                }
                n += 1;
            }
        }
    }
    write!(o, "]}}").unwrap();
}
