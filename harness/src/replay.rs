//! Replays behaviours of the specification into the real program and records what it does.
use crate::ix::{self, Op};
use crate::world::*;
use merkle_tree::config_merkle_tree::ConfigMerkleTree;
use merkle_tree::tree_node::TreeNode;
use litesvm::LiteSVM;
use num_bigint::BigUint;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use solana_sdk::hash::hashv;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::message::{Message, VersionedMessage};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::VersionedTransaction;
use std::collections::HashMap;

/// canonical text of an ITF value (integers in decimal, maps and sets sorted)
pub fn canon(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) if m.contains_key("#bigint") => out.push_str(m["#bigint"].as_str().unwrap()),
        Value::Object(m) if m.contains_key("#map") || m.contains_key("#set") => {
            let mut items: Vec<String> = m
                .values()
                .next()
                .unwrap()
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    let mut s = String::new();
                    canon(e, &mut s);
                    s
                })
                .collect();
            items.sort();
            out.push('{');
            out.push_str(&items.join(","));
            out.push('}');
        }
        Value::Object(m) if m.contains_key("#tup") => canon(&m["#tup"], out),
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            out.push('<');
            for k in ks {
                out.push_str(k);
                out.push('=');
                canon(&m[k], out);
                out.push(' ');
            }
            out.push('>');
        }
        Value::Array(a) => {
            out.push('[');
            for e in a {
                canon(e, out);
                out.push(',');
            }
            out.push(']');
        }
        Value::String(s) => {
            out.push('"');
            out.push_str(s);
            out.push('"');
        }
        Value::Bool(b) => out.push_str(if *b { "T" } else { "F" }),
        Value::Number(n) => out.push_str(&n.to_string()),
        Value::Null => out.push('_'),
    }
}
pub fn text(v: &Value) -> String {
    let mut s = String::new();
    canon(v, &mut s);
    s
}
pub fn digest(v: &Value) -> String {
    let h = Sha256::digest(text(v).as_bytes());
    h[..10].iter().map(|b| format!("{b:02x}")).collect()
}

fn send(w: &mut World, i: Instruction) -> Option<litesvm::types::TransactionMetadata> {
    let payer = w.key("fee");
    let m = Message::new(&[i], Some(&payer));
    let n = m.header.num_required_signatures as usize;
    w.seq += 1;
    let mut sigs = vec![Signature::default(); n];
    let mut b = [1u8; 64];
    b[..8].copy_from_slice(&w.seq.to_le_bytes());
    sigs[0] = Signature::from(b);
    let tx = VersionedTransaction { signatures: sigs, message: VersionedMessage::Legacy(m) };
    match w.svm.send_transaction(tx) {
        Ok(m) => Some(m),
        Err(e) => {
            if std::env::var("DEBUG_TX").is_ok() {
                eprintln!("  tx error {:?} {:?}", e.err, crate::svm::LAST_PANIC.with(|p| p.borrow_mut().take()));
            }
            None
        }
    }
}

// ---------------- events ----------------
/// event name -> field kinds (k key, b u8, u u64, w u128, s string, r 32-byte root, v registries)
const EVENTS: &[(&str, &str)] = &[
    ("EvtFixedPricePresaleArgsCreate", "kw"),
    ("EvtFixedPricePresaleArgsClose", "kkk"),
    ("EvtPresaleVaultCreate", "kkvuubbuuuu"),
    ("EvtEscrowCreate", "kkbu"),
    ("EvtMerkleRootConfigCreate", "kkkur"),
    ("EvtDeposit", "kkuuuku"),
    ("EvtWithdraw", "kkuuuk"),
    ("EvtClaim", "kkuuuk"),
    ("EvtWithdrawRemainingQuote", "kkkuu"),
    ("EvtPerformUnsoldBaseTokenAction", "kub"),
    ("EvtEscrowClose", "kkkk"),
    ("EvtCreatorWithdraw", "kukb"),
    ("EvtEscrowRefresh", "kkkuu"),
    ("EvtOperatorCreate", "kkk"),
    ("EvtPermissionedServerMetadataCreate", "kks"),
    ("EvtPermissionedServerMetadataClose", "kk"),
    ("EvtCreatorCollectFee", "kku"),
    ("EvtCloseMerkleRootConfig", "kkk"),
];

fn own_account(w: &mut World, op: &Op) -> Option<Pubkey> {
    let p = op.s("p");
    Some(match op.s("kind") {
        "deposit" | "withdraw" | "claim" | "refresh" | "withdrawRemaining" | "closeEscrow" => {
            w.escrow(p, op.s("own"), op.u8("reg"))
        }
        "createOperator" => w.operator(op.s("who"), op.s("own")),
        "createRoot" => w.root(p, op.u64("ver")),
        "closeRoot" => w.root(op.s("acc"), op.u64("ver")),
        "createMeta" => w.meta(p),
        "closeMeta" => w.meta(op.s("acc")),
        _ => return None,
    })
}

fn decode_event(w: &mut World, op: &Op, d: &[u8]) -> Value {
    let me = own_account(w, op);
    let (mut keys, mut nums, mut late) = (vec![], vec![], vec![]);
    for (name, fields) in EVENTS {
        let disc = hashv(&[format!("event:{name}").as_bytes()]).to_bytes();
        if d.len() < 8 || disc[..8] != d[..8] {
            continue;
        }
        let mut i = 8;
        let bad = json!({"name": format!("{name}:malformed"), "keys": [], "nums": []});
        for f in fields.chars() {
            let n = match f {
                'k' | 'r' => 32,
                'b' => 1,
                'u' => 8,
                'w' => 16,
                's' | 'v' => 4,
                _ => unreachable!(),
            };
            if i + n > d.len() {
                return bad;
            }
            let x = &d[i..i + n];
            i += n;
            match f {
                'k' => {
                    let k = Pubkey::try_from(x).unwrap();
                    keys.push(if Some(k) == me {
                        json!("self")
                    } else {
                        json!(w.names.get(&k).cloned().unwrap_or("?".into()))
                    });
                }
                'r' => {
                    let b: [u8; 32] = x.try_into().unwrap();
                    let id = w.root_ids.get(&b).cloned().unwrap_or("-1".into());
                    nums.push(bi(id));
                }
                'b' => nums.push(bi(x[0])),
                'u' => nums.push(bi(u64at(x, 0))),
                'w' => nums.push(bi(u128at(x, 0))),
                's' => {
                    let n = u32::from_le_bytes(x.try_into().unwrap()) as usize;
                    if i + n > d.len() {
                        return bad;
                    }
                    keys.push(json!(String::from_utf8_lossy(&d[i..i + n])));
                    i += n;
                }
                'v' => {
                    let n = u32::from_le_bytes(x.try_into().unwrap()) as usize;
                    for _ in 0..n {
                        if i + 58 > d.len() {
                            return bad;
                        }
                        for j in 0..3 {
                            late.push(bi(u64at(d, i + 8 * j)));
                        }
                        late.push(bi(u16::from_le_bytes([d[i + 24], d[i + 25]])));
                        i += 58;
                    }
                }
                _ => unreachable!(),
            }
        }
        if i != d.len() {
            return bad;
        }
        nums.extend(late);
        return json!({"name": name, "keys": keys, "nums": nums});
    }
    json!({"name": "unknown", "keys": [], "nums": []})
}

const EVENT_TAG: [u8; 8] = [0xe4, 0x45, 0xa5, 0x2e, 0x51, 0xcb, 0x9a, 0x1d];

fn events(w: &mut World, op: &Op, m: &litesvm::types::TransactionMetadata, ix: &Instruction) -> Value {
    // account keys of the message, in order, to resolve the inner instructions' program
    let payer = w.key("fee");
    let msg = Message::new(&[ix.clone()], Some(&payer));
    let mut evs = vec![];
    for inner in m.inner_instructions.iter().flatten() {
        let c = &inner.instruction;
        let prog = msg.account_keys.get(c.program_id_index as usize);
        if prog == Some(&presale::ID) && c.data.len() >= 8 && c.data[..8] == EVENT_TAG {
            evs.push(decode_event(w, op, &c.data[8..]));
        }
    }
    match evs.len() {
        0 => no_event(),
        1 => evs.pop().unwrap(),
        n => json!({"name": format!("{n} events"), "keys": [], "nums": []}),
    }
}
pub fn no_event() -> Value {
    json!({"name": "", "keys": [], "nums": []})
}

// ---------------- one step ----------------
pub struct Obs {
    pub ok: bool,
    pub ev: Value,
    pub rent: String,
}

fn note_refs(w: &mut World, op: &Op) {
    let p = op.s("p").to_string();
    let own = op.s("own").to_string();
    match op.s("kind") {
        "createEscrow" => {
            w.escrows.insert((p, own, 0));
        }
        "createEscrowByOperator" | "createEscrowByProof" | "deposit" | "withdraw" | "claim" | "refresh"
        | "withdrawRemaining" | "closeEscrow" => {
            let r = op.u8("reg");
            w.escrows.insert((p.clone(), own, r));
            if op.s("sub") == "wrong" {
                w.escrows.insert((p.clone(), "o1".into(), r));
                w.escrows.insert((p, "o2".into(), r));
            }
        }
        "createOperator" => {
            w.operators.insert((op.s("who").into(), own));
        }
        "revokeOperator" => {
            w.operators.insert((op.s("acc").into(), op.s("acc2").into()));
        }
        "createRoot" => {
            w.roots.insert((p, op.u64("ver")));
        }
        "closeRoot" => {
            w.roots.insert((op.s("acc").into(), op.u64("ver")));
        }
        _ => {}
    }
}

fn donate(w: &mut World, op: &Op) -> bool {
    let m = op.s("txt");
    let c = w.mint_cfg(m);
    let amt = op.u64("amt");
    let v = w.vault(op.s("p"), m);
    if c.hooked() || amt == 0 || w.token_amount(&v).is_none() {
        return false;
    }
    let (src, mk, who) = (w.ata(op.s("who"), m), w.key(m), w.key(op.s("who")));
    let mut data = vec![12u8];
    data.extend(amt.to_le_bytes());
    data.push(if m == "B" { 6 } else { 9 });
    let i = Instruction {
        program_id: c.program(),
        accounts: vec![
            AccountMeta::new(src, false),
            AccountMeta::new_readonly(mk, false),
            AccountMeta::new(v, false),
            AccountMeta::new_readonly(who, true),
        ],
        data,
    };
    send(w, i).is_some()
}

/// scratch directory of this process
fn tempfile_dir() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("presale-conformance-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn remove_tempfile_dir() {
    let _ = std::fs::remove_dir(std::env::temp_dir().join(format!("presale-conformance-{}", std::process::id())));
}

/// Builds a tree and saves, loads, searches and tampers with it; None when it is refused.
fn build_tree(nodes: Vec<TreeNode>, ver: u64) -> Option<(ConfigMerkleTree, bool)> {
    crate::svm::QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let t = ConfigMerkleTree::new(nodes, ver).ok()?;
        // what the tree says after it was saved and loaded again, and looked up by owner
        let dir = tempfile_dir();
        let path = dir.join(format!("{:?}.json", std::thread::current().id()).replace(['(', ')'], "-"));
        t.write_to_file(&path);
        let u = ConfigMerkleTree::new_from_file(&path).ok();
        let _ = std::fs::remove_file(&path);
        let u = u?;
        let map = u.convert_to_hashmap();
        let looked_up = u.verify_proof().is_ok()
            && u.tree_nodes == t.tree_nodes
            && map.len() == t.tree_nodes.len()
            && t.tree_nodes.iter().all(|n| u.get_node(&n.escrow_owner) == *n && map.get(&n.escrow_owner) == Some(n));
        // an owner who is not listed is not found, and a tree that was tampered with does not pass verification
        let holds = |f: &dyn Fn() -> bool| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
        let stranger = Pubkey::find_program_address(&[b"nobody"], &presale::ID).0;
        let k = t.tree_nodes.len() * 2 / 3;
        let refused = !holds(&|| {
            u.get_node(&stranger);
            true
        }) && !holds(&|| {
            let mut x = u.clone();
            x.merkle_root[31] ^= 1;
            x.verify_proof().is_ok()
        }) && !holds(&|| {
            let mut x = u.clone();
            x.tree_nodes[k].deposit_cap ^= 1;
            x.verify_proof().is_ok()
        }) && !holds(&|| {
            let mut x = u.clone();
            x.tree_nodes[k].registry_index ^= 1;
            x.verify_proof().is_ok()
        }) && !holds(&|| {
            let mut x = u.clone();
            x.tree_nodes[k].escrow_owner = stranger;
            x.verify_proof().is_ok()
        });
        Some((u, looked_up && refused))
    }))
    .unwrap_or(None);
    crate::svm::QUIET.with(|q| q.set(false));
    r
}

/// A list given by length and number of owners only: how many of its entries were kept, and how many are the right ones and proved.
fn long_tree(w: &mut World, op: &Op) -> Obs {
    let (n, owners, ver) = (op.u64("amt"), op.u64("cap"), op.u64("ver"));
    let entry = |i: u64| TreeNode {
        escrow_owner: Pubkey::new_from_array(hashv(&[b"listed", &(i % owners).to_le_bytes()]).to_bytes()),
        registry_index: (i * 7 % 256) as u8,
        deposit_cap: i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
        proof: None,
    };
    let kept: Vec<TreeNode> = (0..n.min(owners)).map(|j| entry(j + (n - 1 - j) / owners * owners)).collect();
    let pair = |a: &[u8; 32], b: &[u8; 32]| if a <= b { hashv(&[&[1u8], a, b]).to_bytes() } else { hashv(&[&[1u8], b, a]).to_bytes() };
    let leaves: Vec<[u8; 32]> = kept
        .iter()
        .map(|e| hashv(&[e.escrow_owner.as_ref(), &[e.registry_index], &e.deposit_cap.to_le_bytes()]).to_bytes())
        .map(|d| hashv(&[&[0u8], &d]).to_bytes())
        .collect();
    let mut level = leaves.clone();
    while level.len() > 1 {
        level = level.chunks(2).map(|c| pair(&c[0], c.last().unwrap())).collect();
    }
    let Some((t, looked_up)) = build_tree((0..n).map(entry).collect(), ver) else {
        return Obs { ok: false, ev: no_event(), rent: "".into() };
    };
    let published = t.get_merkle_root_config_pubkey(w.presale(op.s("p")), &presale::ID) == w.root(op.s("p"), ver);
    let right = t
        .tree_nodes
        .iter()
        .zip(kept.iter().zip(&leaves))
        .filter(|(x, (e, leaf))| {
            (x.escrow_owner, x.registry_index, x.deposit_cap) == (e.escrow_owner, e.registry_index, e.deposit_cap)
                && x.proof.iter().flatten().fold(**leaf, |h, s| pair(&h, s)) == level[0]
        })
        .count();
    let right = if t.merkle_root == level[0] && t.max_num_nodes == kept.len() as u64 { right } else { 0 };
    let name = if !looked_up { "tree: lookup" } else if !published { "tree: address" } else { "tree" };
    Obs { ok: true, ev: json!({"name": name, "keys": [], "nums": [bi(t.version), bi(t.tree_nodes.len()), bi(right)]}), rent: "".into() }
}

/// the off-chain builder of whitelist trees
fn tree(w: &mut World, op: &Op, expected: &Value) -> Obs {
    let mut ids: HashMap<[u8; 32], String> = HashMap::new();
    for n in list(&expected["nums"]) {
        let n: BigUint = as_big(n).parse().unwrap();
        let b = node_bytes(w, &n);
        ids.insert(b, n.to_string());
    }
    if op.u64("amt") > 0 {
        return long_tree(w, op);
    }
    let nodes: Vec<TreeNode> = list(&op.0["leaves"])
        .iter()
        .map(|l| {
            let l = list(l);
            TreeNode {
                escrow_owner: w.key(as_s(&l[0])),
                registry_index: as_u64(&l[1]) as u8,
                deposit_cap: as_u64(&l[2]),
                proof: None,
            }
        })
        .collect();
    let r = build_tree(nodes, op.u64("ver"));
    match r {
        Some((t, looked_up)) => {
            let presale = w.presale(op.s("p"));
            let published = t.get_merkle_root_config_pubkey(presale, &presale::ID) == w.root(op.s("p"), op.u64("ver"));
            let id = |b: &[u8; 32]| bi(ids.get(b).cloned().unwrap_or("-1".into()));
            let mut nums = vec![bi(t.version), bi(t.max_num_nodes), id(&t.merkle_root)];
            let mut keys = vec![];
            let names: HashMap<Pubkey, String> = list(&op.0["leaves"])
                .iter()
                .map(|l| as_s(&list(l)[0]).to_string())
                .map(|n| (w.key(&n), n))
                .collect();
            for n in &t.tree_nodes {
                keys.push(json!(names.get(&n.escrow_owner).cloned().unwrap_or("?".into())));
                nums.push(bi(n.registry_index));
                nums.push(bi(n.deposit_cap));
                for p in n.proof.clone().unwrap_or_default() {
                    nums.push(id(&p));
                }
            }
            Obs { ok: true, ev: json!({"name": if !looked_up { "tree: lookup" } else if !published { "tree: address" } else { "tree" }, "keys": keys, "nums": nums}), rent: "".into() }
        }
        _ => Obs { ok: false, ev: no_event(), rent: "".into() },
    }
}

pub fn step(w: &mut World, opv: &Value, expected_ev: &Value) -> Obs {
    let op = Op(opv);
    let plain = |ok| Obs { ok, ev: no_event(), rent: "".into() };
    match op.s("kind") {
        "tick" => {
            w.cached = None;
            w.now += op.u64("amt");
            w.sync_clock();
            return plain(true);
        }
        "epoch" => {
            w.cached = None;
            w.epoch += 1;
            w.sync_clock();
            return plain(true);
        }
        "donate" => {
            w.cached = None;
            let ok = donate(w, &op);
            return plain(ok);
        }
        "tree" => return tree(w, &op, expected_ev),
        _ => {}
    }
    // a refused transaction is rolled back by the runtime
    let known = w.tracked();
    note_refs(w, &op);
    let mut b = ix::build(w, &op);
    ix::tamper(w, &op, &mut b);
    let i = ix::instruction(b);
    let before = w.lamports();
    match send(w, i.clone()) {
        None => {
            if w.tracked() != known {
                w.cached = None;
            }
            plain(false)
        }
        Some(m) => {
            w.cached = None;
            let ev = events(w, &op, &m, &i);
            let after = w.lamports();
            let got: Vec<String> = before
                .iter()
                .zip(after.iter())
                .filter(|(a, b)| b.1 > a.1)
                .map(|(a, _)| a.0.clone())
                .collect();
            Obs { ok: true, ev, rent: got.join("+") }
        }
    }
}

// ---------------- packed behaviours ----------------
/// An ITF trace reduced to its initial state, its instructions and a digest of what must follow each.
pub fn pack(itf: &Value, id: &str) -> Value {
    let st = itf["states"].as_array().unwrap();
    let steps: Vec<Value> = st[1..]
        .iter()
        .map(|s| {
            let mut op = s["op"].clone();
            if op["kind"] != "initPresale" {
                op.as_object_mut().unwrap().remove("args");
            }
            json!({"op": op, "ok": s["ok"], "ev": s["ev"], "rent": s["rent"], "h": digest(&s["s"])})
        })
        .collect();
    json!({"id": id, "s0": st[0]["s"], "h0": digest(&st[0]["s"]), "steps": steps})
}

pub struct Outcome {
    pub steps: usize,
    /// the first transition that differs from the specification's, and the kind of difference
    pub first: Option<(usize, String)>,
    pub counts: HashMap<String, usize>,
}

/// Everything the program does on a behaviour: the initial state, then what each instruction changed.
pub fn record(template: &LiteSVM, t: &Value) -> Value {
    let mut w = World::new(template, "w", &t["s0"]);
    let s0 = w.project();
    let mut prev = s0.clone();
    let mut log = vec![];
    for s in t["steps"].as_array().unwrap() {
        let o = step(&mut w, &s["op"], &s["ev"]);
        let cur = w.project();
        let mut d = serde_json::Map::new();
        for (k, v) in cur.as_object().unwrap() {
            if prev.get(k) != Some(v) {
                d.insert(k.clone(), v.clone());
            }
        }
        log.push(json!({"op": s["op"], "ok": o.ok, "ev": o.ev, "rent": o.rent, "d": d}));
        prev = cur;
    }
    json!({"id": t["id"], "s0": s0, "first": 0, "steps": log})
}

pub fn replay(template: &LiteSVM, t: &Value) -> Outcome {
    let id = as_s(&t["id"]);
    let mut w = World::new(template, "w", &t["s0"]);
    let mut counts = HashMap::new();
    let s0 = w.project();
    let mut first = None;
    if digest(&s0) != as_s(&t["h0"]) {
        panic!("initial world of {id} is not the specification's:\n{}\n{}", text(&s0), text(&t["s0"]));
    }
    let steps = t["steps"].as_array().unwrap();
    for (i, s) in steps.iter().enumerate() {
        let o = step(&mut w, &s["op"], &s["ev"]);
        let op = &s["op"];
        let kind = as_s(&op["kind"]);
        let tam = as_s(&op["slot"]) != "";
        *counts
            .entry(format!("{kind}{} {}", if tam { "~" } else { "" }, if o.ok { "accepted" } else { "rejected" }))
            .or_insert(0) += 1;
        if first.is_none() {
            let st = w.digest() != as_s(&s["h"]);
            let ok = Value::Bool(o.ok) != s["ok"];
            let rent = o.rent != as_s(&s["rent"]);
            let ev = text(&o.ev) != text(&s["ev"]);
            if st || ok || rent || ev {
                let profile: String = id.chars().skip_while(|c| *c != 'p').take_while(|c| *c != 'c').collect();
                let what: Vec<&str> = [("accepted", ok && o.ok), ("rejected", ok && !o.ok), ("state", st), ("rent", rent), ("event", ev)]
                    .iter()
                    .filter(|x| x.1)
                    .map(|x| x.0)
                    .collect();
                first = Some((
                    i,
                    format!("{kind} {}/{}/{} {} {profile}", as_s(&op["slot"]), as_s(&op["sub"]), as_s(&op["hook"]), what.join("+")),
                ));
            }
        }
    }
    Outcome { steps: steps.len(), first, counts }
}
