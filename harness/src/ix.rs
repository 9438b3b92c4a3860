//! Specification instruction -> transaction against the program's ABI.
use crate::world::*;
use num_bigint::BigUint;
use serde_json::Value;
use solana_sdk::account::Account;
use solana_sdk::hash::hashv;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;

pub struct Slot {
    pub name: &'static str,
    pub meta: AccountMeta,
}
pub struct Built {
    pub slots: Vec<Slot>,
    pub rest: Vec<Slot>,
    pub data: Vec<u8>,
}

pub struct Op<'a>(pub &'a Value);
impl<'a> Op<'a> {
    pub fn s(&self, k: &str) -> &'a str {
        as_s(&self.0[k])
    }
    pub fn u64(&self, k: &str) -> u64 {
        as_u64(&self.0[k])
    }
    pub fn u8(&self, k: &str) -> u8 {
        as_u64(&self.0[k]) as u8
    }
}

fn disc(name: &str) -> Vec<u8> {
    hashv(&[format!("global:{name}").as_bytes()]).to_bytes()[..8].to_vec()
}
pub fn other_presale(p: &str) -> &'static str {
    if p == "P1" {
        "P2"
    } else {
        "P1"
    }
}
fn other_wallet(w: &str) -> &'static str {
    if w == "x" {
        "u1"
    } else {
        "x"
    }
}

/// transfer-hook accounts and the slices that describe them
fn hook(w: &mut World, m: &str, how: &str) -> (Vec<(u8, u8)>, Vec<Slot>) {
    let ty: u8 = if m == "B" { 0 } else { 1 };
    let c = w.mint_cfg(m);
    let dummy = w.key("dummy");
    let d = || Slot { name: "hook", meta: AccountMeta::new_readonly(dummy, false) };
    match how {
        "auto" => {
            if !c.hooked() {
                return (vec![], vec![]);
            }
            let mk = w.key(m);
            let extra = w.key(&format!("hookextra{m}"));
            let v = spl_transfer_hook_interface::get_extra_account_metas_address(&mk, &hook_id());
            let s = vec![
                Slot { name: "hook", meta: AccountMeta::new(extra, false) },
                Slot { name: "hook", meta: AccountMeta::new_readonly(hook_id(), false) },
                Slot { name: "hook", meta: AccountMeta::new_readonly(v, false) },
            ];
            (vec![(ty, 3)], s)
        }
        "cut" | "cut2" => {
            let (_, mut s) = hook(w, m, "auto");
            if s.is_empty() {
                s = vec![d(), d()];
            } else if how == "cut" {
                s.pop();
            } else {
                s.remove(0);
            }
            (vec![(ty, 2)], s)
        }
        "zerofirst" => {
            let (mut sl, s) = hook(w, m, "auto");
            sl.insert(0, (ty, 0));
            (sl, s)
        }
        "surplus" => {
            let (sl, mut s) = hook(w, m, "auto");
            s.push(d());
            s.push(d());
            (sl, s)
        }
        "both" => {
            let (mut sl, mut s) = hook(w, m, "auto");
            sl.push((1 - ty, 1));
            s.push(d());
            (sl, s)
        }
        "other" => {
            let (mut sl, s) = hook(w, m, "auto");
            sl.push((1 - ty, 0));
            (sl, s)
        }
        "none" => (vec![], vec![]),
        "zero" => (vec![(ty, 0)], vec![]),
        "extra" => (vec![(ty, 1)], vec![d()]),
        "wrong" => (vec![(1 - ty, 1)], vec![d()]),
        "short" => (vec![(ty, 3)], vec![]),
        "dup" => (vec![(ty, 1), (ty, 1)], vec![d(), d()]),
        h => panic!("hook {h}"),
    }
}
fn slices(v: &[(u8, u8)]) -> Vec<u8> {
    let mut o = (v.len() as u32).to_le_bytes().to_vec();
    for (a, b) in v {
        o.push(*a);
        o.push(*b);
    }
    o
}

pub fn build(w: &mut World, op: &Op) -> Built {
    let kind = op.s("kind");
    let p = op.s("p").to_string();
    let p = p.as_str();
    let (who, own, dest) = (op.s("who"), op.s("own"), op.s("dest"));
    let reg = op.u8("reg");
    let mut slots: Vec<Slot> = vec![];
    let mut rest: Vec<Slot> = vec![];
    let mut data;
    macro_rules! a {
        ($n:expr, $k:expr, $w:expr, $s:expr) => {{
            let k = $k;
            slots.push(Slot { name: $n, meta: AccountMeta { pubkey: k, is_signer: $s, is_writable: $w } })
        }};
    }
    let sys = solana_sdk::system_program::ID;
    let memo = anchor_spl::memo::ID;
    match kind {
        "initFixedArgs" => {
            a!("fixed_price_presale_params", w.fargs(p), true, false);
            a!("owner", w.key(own), false, false);
            a!("payer", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("initialize_fixed_price_presale_args");
            data.extend(w.presale(p).to_bytes());
            data.push(reg);
            data.extend(as_u128(&op.0["num"]).to_le_bytes());
            data.extend([0u8; 64]);
        }
        "closeFixedArgs" => {
            a!("fixed_price_presale_args", w.fargs(p), true, false);
            a!("owner", w.key(who), true, true);
            data = disc("close_fixed_price_presale_args");
        }
        "initPresale" => {
            a!("presale_mint", w.key("B"), false, false);
            a!("presale", w.presale(p), true, false);
            a!("presale_authority", w.authority(), false, false);
            a!("quote_token_mint", w.key("Q"), false, false);
            a!("presale_vault", w.vault(p, "B"), true, false);
            a!("quote_token_vault", w.vault(p, "Q"), true, false);
            a!("payer_presale_token", w.ata(who, "B"), true, false);
            a!("creator", w.key(own), false, false);
            a!("base", w.base_key(p), false, true);
            a!("payer", w.key(who), true, true);
            a!("base_token_program", w.base.program(), false, false);
            a!("quote_token_program", w.quote.program(), false, false);
            a!("system_program", sys, false, false);
            let acc = op.s("acc");
            if !acc.is_empty() {
                let k = w.fargs(acc);
                rest.push(Slot { name: "fargs", meta: AccountMeta::new_readonly(k, false) });
            }
            let (sl, h) = hook(w, "B", op.s("hook"));
            rest.extend(h);
            data = disc("initialize_presale");
            let g = &op.0["args"];
            let u = |k: &str| as_u64(&g[k]);
            for k in ["maxCap", "minCap", "start", "end"] {
                data.extend(u(k).to_le_bytes());
            }
            for k in ["wl", "mode", "unsold", "disEarly"] {
                data.push(u(k) as u8);
            }
            data.extend([0u8; 30]);
            data.extend((u("immBps") as u16).to_le_bytes());
            for k in ["lock", "vest", "immTs"] {
                data.extend(u(k).to_le_bytes());
            }
            data.extend([0u8; 24]);
            data.extend([0u8; 32]);
            let rs = list(&g["regs"]);
            data.extend((rs.len() as u32).to_le_bytes());
            for r in rs {
                for k in ["minCap", "maxCap", "supply"] {
                    data.extend(as_u64(&r[k]).to_le_bytes());
                }
                data.extend((as_u64(&r["feeBps"]) as u16).to_le_bytes());
                data.extend([0u8; 32]);
            }
            data.extend(slices(&sl));
        }
        "createRoot" => {
            let v = op.u64("ver");
            a!("presale", w.presale(p), false, false);
            a!("merkle_root_config", w.root(p, v), true, false);
            a!("creator", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_merkle_root_config");
            let n: BigUint = as_big(&op.0["num"]).parse().unwrap();
            let b = node_bytes(w, &n);
            w.root_ids.insert(b, n.to_string());
            data.extend(b);
            data.extend(v.to_le_bytes());
        }
        "closeRoot" => {
            a!("presale", w.presale(p), false, false);
            a!("merkle_root_config", w.root(op.s("acc"), op.u64("ver")), true, false);
            a!("rent_receiver", w.key(dest), true, false);
            a!("creator", w.key(who), false, true);
            data = disc("close_merkle_root_config");
        }
        "createEscrow" => {
            a!("presale", w.presale(p), true, false);
            a!("escrow", w.escrow(p, own, 0), true, false);
            a!("owner", w.key(own), false, false);
            a!("payer", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_permissionless_escrow");
        }
        "createEscrowByOperator" => {
            a!("presale", w.presale(p), true, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("owner", w.key(own), false, false);
            a!("operator", w.operator(op.s("acc"), op.s("acc2")), false, false);
            a!("operator_owner", w.key(who), false, true);
            a!("payer", w.key("fee"), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_permissioned_escrow_with_creator");
            data.push(reg);
            data.extend(op.u64("cap").to_le_bytes());
            data.extend([0u8; 32]);
        }
        "createEscrowByProof" => {
            a!("presale", w.presale(p), true, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("owner", w.key(own), false, false);
            a!("merkle_root_config", w.root(op.s("acc"), op.u64("ver")), false, false);
            a!("payer", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_permissioned_escrow_with_merkle_proof");
            let pf = list(&op.0["proof"]);
            data.extend((pf.len() as u32).to_le_bytes());
            for e in pf {
                let n: BigUint = as_big(e).parse().unwrap();
                let b = node_bytes(w, &n);
                data.extend(b);
            }
            data.push(reg);
            data.extend(op.u64("cap").to_le_bytes());
            data.extend([0u8; 32]);
        }
        "createOperator" => {
            a!("operator", w.operator(who, own), true, false);
            a!("operator_owner", w.key(own), false, false);
            a!("creator", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_operator");
        }
        "revokeOperator" => {
            a!("operator", w.operator(op.s("acc"), op.s("acc2")), true, false);
            a!("creator", w.key(who), true, true);
            data = disc("revoke_operator");
        }
        "deposit" => {
            a!("presale", w.presale(p), true, false);
            a!("quote_token_vault", w.vault(p, "Q"), true, false);
            a!("quote_mint", w.key("Q"), false, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("payer_quote_token", w.ata(who, "Q"), true, false);
            a!("payer", w.key(who), false, true);
            a!("token_program", w.quote.program(), false, false);
            data = disc("deposit");
            data.extend(op.u64("amt").to_le_bytes());
            let (sl, h) = hook(w, "Q", op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "withdraw" | "withdrawRemaining" => {
            a!("presale", w.presale(p), true, false);
            a!("quote_token_vault", w.vault(p, "Q"), true, false);
            a!("quote_mint", w.key("Q"), false, false);
            a!("presale_authority", w.authority(), false, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("owner_quote_token", w.ata(dest, "Q"), true, false);
            a!("owner", w.key(who), false, true);
            a!("token_program", w.quote.program(), false, false);
            a!("memo_program", memo, false, false);
            if kind == "withdraw" {
                data = disc("withdraw");
                data.extend(op.u64("amt").to_le_bytes());
            } else {
                data = disc("withdraw_remaining_quote");
            }
            let (sl, h) = hook(w, "Q", op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "claim" => {
            a!("presale", w.presale(p), true, false);
            a!("base_token_vault", w.vault(p, "B"), true, false);
            a!("base_mint", w.key("B"), false, false);
            a!("presale_authority", w.authority(), false, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("owner_base_token", w.ata(dest, "B"), true, false);
            a!("owner", w.key(who), false, true);
            a!("token_program", w.base.program(), false, false);
            a!("memo_program", memo, false, false);
            data = disc("claim");
            let (sl, h) = hook(w, "B", op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "refresh" => {
            a!("presale", w.presale(p), false, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            data = disc("refresh_escrow");
        }
        "closeEscrow" => {
            a!("presale", w.presale(p), true, false);
            a!("escrow", w.escrow(p, own, reg), true, false);
            a!("owner", w.key(who), false, true);
            a!("rent_receiver", w.key(dest), true, false);
            data = disc("close_escrow");
        }
        "creatorWithdraw" => {
            let m = op.s("txt").to_string();
            a!("presale", w.presale(p), true, false);
            a!("presale_authority", w.authority(), false, false);
            a!("owner_token", w.ata(dest, &m), true, false);
            a!("owner", w.key(who), false, true);
            a!("token_program", w.mint_cfg(&m).program(), false, false);
            a!("memo_program", memo, false, false);
            data = disc("creator_withdraw");
            let (v, mk) = (w.vault(p, &m), w.key(&m));
            rest.push(Slot { name: "vault", meta: AccountMeta::new(v, false) });
            rest.push(Slot { name: "mint", meta: AccountMeta::new_readonly(mk, false) });
            let (sl, h) = hook(w, &m, op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "collectFee" => {
            a!("presale", w.presale(p), true, false);
            a!("presale_authority", w.authority(), false, false);
            a!("quote_token_vault", w.vault(p, "Q"), true, false);
            a!("quote_mint", w.key("Q"), false, false);
            a!("fee_receiving_account", w.ata(dest, "Q"), true, false);
            a!("owner", w.key(who), false, true);
            a!("token_program", w.quote.program(), false, false);
            a!("memo_program", memo, false, false);
            data = disc("creator_collect_fee");
            let (sl, h) = hook(w, "Q", op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "unsold" => {
            let owner = op.s("dest").to_string();
            a!("presale", w.presale(p), true, false);
            a!("base_token_vault", w.vault(p, "B"), true, false);
            a!("base_mint", w.key("B"), true, false);
            a!("presale_authority", w.authority(), false, false);
            a!("creator_base_token", w.ata(&owner, "B"), true, false);
            a!("token_program", w.base.program(), false, false);
            a!("memo_program", memo, false, false);
            data = disc("perform_unsold_base_token_action");
            let (sl, h) = hook(w, "B", op.s("hook"));
            rest.extend(h);
            data.extend(slices(&sl));
        }
        "createMeta" => {
            a!("presale", w.presale(p), false, false);
            a!("permissioned_server_metadata", w.meta(p), true, false);
            a!("owner", w.key(who), true, true);
            a!("system_program", sys, false, false);
            data = disc("create_permissioned_server_metadata");
            let t = op.s("txt");
            data.extend((t.len() as u32).to_le_bytes());
            data.extend(t.as_bytes());
        }
        "closeMeta" => {
            a!("presale", w.presale(p), false, false);
            a!("permissioned_server_metadata", w.meta(op.s("acc")), true, false);
            a!("rent_receiver", w.key(dest), true, false);
            a!("owner", w.key(who), false, true);
            data = disc("close_permissioned_server_metadata");
        }
        k => panic!("kind {k}"),
    }
    a!("event_authority", w.event_authority(), false, false);
    a!("program", presale::ID, false, false);
    Built { slots, rest, data }
}

/// Replace one account as the specification's substitution says.
pub fn tamper(w: &mut World, op: &Op, b: &mut Built) {
    let (slot, sub) = (op.s("slot"), op.s("sub"));
    if slot.is_empty() {
        return;
    }
    let (p, own, who) = (op.s("p"), op.s("own"), op.s("who"));
    let q = other_presale(p);
    let reg = op.u8("reg");
    let s = b
        .slots
        .iter_mut()
        .chain(b.rest.iter_mut())
        .find(|s| s.name == slot)
        .unwrap_or_else(|| panic!("no slot {slot}"));
    let orig = s.meta.pubkey;
    w.seq += 1;
    let fresh = w.key(&format!("sub{}", w.seq));
    let new: Pubkey = match sub {
        "unsigned" => {
            s.meta.is_signer = false;
            orig
        }
        "wallet" => w.key("x"),
        "sibling" => match slot {
            "presale" => w.presale(q),
            "escrow" => w.escrow(q, own, reg),
            "quote_token_vault" => w.vault(q, "Q"),
            "base_token_vault" => w.vault(q, "B"),
            "vault" => w.vault(q, op.s("txt")),
            "quote_mint" => w.key("B"),
            "base_mint" => w.key("Q"),
            "mint" => w.key(if op.s("txt") == "Q" { "B" } else { "Q" }),
            "payer_quote_token" => w.ata(other_wallet(who), "Q"),
            "payer_presale_token" => w.ata(other_wallet(who), "B"),
            "creator_base_token" => w.ata(other_wallet(op.s("dest")), "B"),
            x => panic!("sibling {x}"),
        },
        "swap" => w.vault(p, if op.s("txt") == "Q" { "B" } else { "Q" }),
        "type" => w.presale(p),
        // another account of the same presale
        "cross" => match slot {
            "merkle_root_config" => w.meta(p),
            "permissioned_server_metadata" => w.root(p, op.u64("ver")),
            _ => w.escrow(p, "u1", 0),
        },
        "wrong" => {
            if slot == "escrow" {
                w.escrow(p, if own == "o2" { "o1" } else { "o2" }, reg)
            } else {
                fresh
            }
        }
        // same bytes at another address, owned by another program
        "forged" => {
            if let Some(a) = w.svm.get_account(&orig) {
                let owner = Pubkey::new_from_array(hashv(&[b"attacker program"]).to_bytes());
                w.svm.set_account(fresh, Account { owner, ..a }).unwrap();
            }
            fresh
        }
        // a genuine token account with the same mint and authority, but another address
        "fake" => {
            if let Some(a) = w.svm.get_account(&orig) {
                w.svm.set_account(fresh, a).unwrap();
            }
            fresh
        }
        x => panic!("sub {x}"),
    };
    s.meta.pubkey = new;
}

pub fn instruction(b: Built) -> Instruction {
    let mut accounts: Vec<AccountMeta> = b.slots.into_iter().map(|s| s.meta).collect();
    accounts.extend(b.rest.into_iter().map(|s| s.meta));
    Instruction { program_id: presale::ID, accounts, data: b.data }
}
