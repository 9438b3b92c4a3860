//! A LiteSVM world for one behaviour: wallets, mints, token accounts, PDAs; and the projection of
//! the on-chain accounts onto the specification's state (ITF-style JSON).
//! Accounts and instructions are read and written through their byte layout (the program's ABI), so
//! nothing here depends on how the program's sources are organised.
use crate::svm;
use anchor_spl::token_2022::spl_token_2022 as t22;
use litesvm::LiteSVM;
use num_bigint::BigUint;
use serde_json::{json, Value};
use solana_sdk::account::Account;
use solana_sdk::clock::Clock;
use solana_sdk::hash::hashv;
use solana_sdk::program_option::COption;
use solana_sdk::program_pack::Pack;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeSet, HashMap};
use t22::extension::{
    default_account_state::DefaultAccountState, immutable_owner::ImmutableOwner,
    interest_bearing_mint::InterestBearingConfig, metadata_pointer::MetadataPointer,
    group_pointer::GroupPointer, memo_transfer::MemoTransfer,
    mint_close_authority::MintCloseAuthority, non_transferable::{NonTransferable, NonTransferableAccount},
    permanent_delegate::PermanentDelegate, transfer_fee::{TransferFee, TransferFeeAmount, TransferFeeConfig},
    transfer_hook::{TransferHook, TransferHookAccount}, BaseStateWithExtensionsMut, ExtensionType,
    StateWithExtensionsMut,
};

pub const WALLETS: [&str; 8] = ["c1", "c2", "u1", "u2", "u3", "o1", "o2", "x"];
pub const PRESALES: [&str; 2] = ["P1", "P2"];

pub fn bi(v: impl ToString) -> Value {
    json!({"#bigint": v.to_string()})
}
pub fn as_big(v: &Value) -> String {
    match v {
        Value::Object(m) => m["#bigint"].as_str().unwrap().to_string(),
        Value::Number(n) => n.to_string(),
        _ => panic!("not an int: {v}"),
    }
}
pub fn as_u128(v: &Value) -> u128 {
    as_big(v).parse().unwrap_or_else(|_| panic!("not u128: {v}"))
}
pub fn as_u64(v: &Value) -> u64 {
    as_big(v).parse().unwrap_or_else(|_| panic!("not u64: {v}"))
}
pub fn as_s(v: &Value) -> &str {
    v.as_str().unwrap()
}
pub fn list(v: &Value) -> &Vec<Value> {
    match v {
        Value::Array(a) => a,
        Value::Object(m) => m.values().next().unwrap().as_array().unwrap(),
        _ => panic!("not a list {v}"),
    }
}

#[derive(Clone, Debug)]
pub struct MintCfg {
    pub t22: bool,
    pub has_fee: bool,
    pub fee0: (u16, u64),
    pub fee1: (u16, u64),
    pub switch: u64,
    pub hook: bool,
    pub ext: String,
    pub memo: bool,
}
impl MintCfg {
    pub fn parse(v: &Value) -> Self {
        let f = |k: &str| (as_u64(&v[k]["bps"]) as u16, as_u64(&v[k]["max"]));
        MintCfg {
            t22: v["t22"].as_bool().unwrap(),
            has_fee: v["hasFee"].as_bool().unwrap(),
            fee0: f("fee0"),
            fee1: f("fee1"),
            switch: as_u64(&v["switch"]),
            hook: v["hook"].as_bool().unwrap(),
            ext: as_s(&v["ext"]).to_string(),
            memo: v["memo"].as_bool().unwrap_or(false),
        }
    }
    pub fn program(&self) -> Pubkey {
        if self.t22 {
            t22::ID
        } else {
            anchor_spl::token::ID
        }
    }
    pub fn hooked(&self) -> bool {
        self.t22 && self.hook
    }
}

#[derive(Clone)]
pub struct World {
    pub svm: LiteSVM,
    salt: String,
    pub base: MintCfg,
    pub quote: MintCfg,
    pub base_v: Value,
    pub quote_v: Value,
    pub now: u64,
    pub epoch: u64,
    keys: HashMap<String, Pubkey>,
    pub names: HashMap<Pubkey, String>,
    pdas: HashMap<String, Pubkey>,
    pub escrows: BTreeSet<(String, String, u8)>,
    pub operators: BTreeSet<(String, String)>,
    pub roots: BTreeSet<(String, u64)>,
    pub root_ids: HashMap<[u8; 32], String>,
    pub seq: u64,
    /// digest of the projected state, while nothing that it is computed from has changed
    pub cached: Option<String>,
}

pub fn hook_id() -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"hook program"]).to_bytes())
}

mod hookprog {
    use solana_program_runtime::declare_process_instruction;
    // source, mint, destination, authority, validation account, the extra account
    declare_process_instruction!(Entrypoint, 1, |invoke_context| {
        let c = invoke_context.transaction_context.get_current_instruction_context()?;
        if c.get_number_of_instruction_accounts() != 6 || !c.is_instruction_account_writable(5)? {
            return Err(solana_sdk::instruction::InstructionError::MissingAccount);
        }
        let mut a = c.try_borrow_instruction_account(invoke_context.transaction_context, 5)?;
        let mut d = a.get_data().to_vec();
        d[0] = d[0].wrapping_add(1);
        a.set_data_from_slice(&d)?;
        Ok(())
    });
}

pub fn base_svm() -> LiteSVM {
    let mut cb = solana_compute_budget::compute_budget::ComputeBudget::default();
    cb.compute_unit_limit = 10_000_000;
    let mut s = LiteSVM::new()
        .with_compute_budget(cb)
        .with_sigverify(false)
        .with_blockhash_check(false)
        .with_transaction_history(0)
        .with_log_bytes_limit(Some(10));
    svm::register(&mut s);
    svm::register_native(&mut s, hook_id(), hookprog::Entrypoint::vm);
    s
}

impl World {
    pub fn new(template: &LiteSVM, salt: &str, st: &Value) -> World {
        let mut w = World {
            svm: template.clone(),
            salt: salt.to_string(),
            base: MintCfg::parse(&st["base"]),
            quote: MintCfg::parse(&st["quote"]),
            base_v: st["base"].clone(),
            quote_v: st["quote"].clone(),
            now: as_u64(&st["now"]),
            epoch: as_u64(&st["epoch"]),
            keys: HashMap::new(),
            names: HashMap::new(),
            pdas: HashMap::new(),
            escrows: BTreeSet::new(),
            operators: BTreeSet::new(),
            roots: BTreeSet::new(),
            root_ids: HashMap::new(),
            seq: 0,
            cached: None,
        };
        for (n, c) in [("B", &w.base), ("Q", &w.quote)] {
            if c.ext == "native" {
                w.keys.insert(n.to_string(), t22::native_mint::ID);
                break;
            }
        }
        for n in WALLETS.iter().chain(["fee", "B", "Q", "k1", "k2"].iter()) {
            let k = w.key(n);
            w.names.insert(k, n.to_string());
        }
        for p in PRESALES {
            let k = w.presale(p);
            w.names.insert(k, p.to_string());
        }
        for n in WALLETS.iter().chain(["fee"].iter()) {
            let k = w.key(n);
            w.set(k, 1_000_000_000_000, vec![], solana_sdk::system_program::ID);
        }
        let (b, q) = (w.base.clone(), w.quote.clone());
        let supply_b = as_u64(&st["supplyB"]);
        let mut supply_q = 0u64;
        let balb: HashMap<String, u64> = map_of(&st["balB"]);
        let balq: HashMap<String, u64> = map_of(&st["balQ"]);
        for v in balq.values() {
            supply_q += v;
        }
        w.make_mint("B", &b, supply_b);
        w.make_mint("Q", &q, supply_q);
        for n in WALLETS {
            let (ab, aq) = (w.ata(n, "B"), w.ata(n, "Q"));
            let o = w.key(n);
            w.make_token_account(ab, "B", &b, o, *balb.get(n).unwrap_or(&0));
            w.make_token_account(aq, "Q", &q, o, *balq.get(n).unwrap_or(&0));
        }
        w.sync_clock();
        w
    }
    pub fn sync_clock(&mut self) {
        let mut c: Clock = self.svm.get_sysvar();
        c.unix_timestamp = self.now as i64;
        c.epoch = self.epoch;
        self.svm.set_sysvar(&c);
    }
    pub fn set(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
        self.cached = None;
        self.svm
            .set_account(k, Account { lamports, data, owner, executable: false, rent_epoch: u64::MAX })
            .unwrap();
    }
    pub fn key(&mut self, n: &str) -> Pubkey {
        if let Some(k) = self.keys.get(n) {
            return *k;
        }
        let k = Pubkey::new_from_array(hashv(&[b"key", self.salt.as_bytes(), n.as_bytes()]).to_bytes());
        self.keys.insert(n.to_string(), k);
        k
    }
    fn pda(&mut self, id: String, seeds: &[&[u8]]) -> Pubkey {
        if let Some(k) = self.pdas.get(&id) {
            return *k;
        }
        let k = Pubkey::find_program_address(seeds, &presale::ID).0;
        self.pdas.insert(id, k);
        k
    }
    pub fn authority(&mut self) -> Pubkey {
        self.pda("auth".into(), &[b"presale_authority"])
    }
    pub fn event_authority(&mut self) -> Pubkey {
        self.pda("ev".into(), &[b"__event_authority"])
    }
    pub fn base_key(&mut self, p: &str) -> Pubkey {
        self.key(if p == "P1" { "k1" } else { "k2" })
    }
    pub fn presale(&mut self, p: &str) -> Pubkey {
        let (k, b, q) = (self.base_key(p), self.key("B"), self.key("Q"));
        self.pda(format!("p:{p}"), &[b"presale", k.as_ref(), b.as_ref(), q.as_ref()])
    }
    pub fn vault(&mut self, p: &str, m: &str) -> Pubkey {
        let k = self.presale(p);
        let pre: &[u8] = if m == "B" { b"base_vault" } else { b"quote_vault" };
        self.pda(format!("v:{p}:{m}"), &[pre, k.as_ref()])
    }
    pub fn escrow(&mut self, p: &str, o: &str, r: u8) -> Pubkey {
        let (k, o2) = (self.presale(p), self.key(o));
        self.pda(format!("e:{p}:{o}:{r}"), &[b"escrow", k.as_ref(), o2.as_ref(), &[r]])
    }
    pub fn operator(&mut self, c: &str, o: &str) -> Pubkey {
        let (a, b) = (self.key(c), self.key(o));
        self.pda(format!("o:{c}:{o}"), &[b"operator", a.as_ref(), b.as_ref()])
    }
    pub fn root(&mut self, p: &str, v: u64) -> Pubkey {
        let k = self.presale(p);
        self.pda(format!("r:{p}:{v}"), &[b"merkle_root", k.as_ref(), &v.to_le_bytes()])
    }
    pub fn fargs(&mut self, p: &str) -> Pubkey {
        let k = self.presale(p);
        self.pda(format!("f:{p}"), &[b"fixed_price_param", k.as_ref()])
    }
    pub fn meta(&mut self, p: &str) -> Pubkey {
        let k = self.presale(p);
        self.pda(format!("m:{p}"), &[b"server_metadata", k.as_ref()])
    }
    pub fn mint_cfg(&self, m: &str) -> MintCfg {
        if m == "B" {
            self.base.clone()
        } else {
            self.quote.clone()
        }
    }
    pub fn ata(&mut self, w: &str, m: &str) -> Pubkey {
        let id = format!("a:{w}:{m}");
        if let Some(k) = self.pdas.get(&id) {
            return *k;
        }
        let (o, mk) = (self.key(w), self.key(m));
        let k = Pubkey::find_program_address(
            &[o.as_ref(), self.mint_cfg(m).program().as_ref(), mk.as_ref()],
            &anchor_spl::associated_token::ID,
        )
        .0;
        self.pdas.insert(id, k);
        k
    }
    fn rent(&self, n: usize) -> u64 {
        self.svm.minimum_balance_for_rent_exemption(n)
    }
    fn make_mint(&mut self, name: &str, c: &MintCfg, supply: u64) {
        let k = self.key(name);
        let auth = self.key("fee");
        let base = t22::state::Mint {
            mint_authority: COption::Some(auth),
            supply,
            decimals: if name == "B" { 6 } else { 9 },
            is_initialized: true,
            freeze_authority: COption::None,
        };
        let data = if !c.t22 {
            let mut d = vec![0u8; t22::state::Mint::LEN];
            base.pack_into_slice(&mut d);
            d
        } else {
            let mut exts = vec![];
            if c.has_fee {
                exts.push(ExtensionType::TransferFeeConfig);
            }
            if c.hook {
                exts.push(ExtensionType::TransferHook);
            }
            match c.ext.as_str() {
                "closeAuthority" => exts.push(ExtensionType::MintCloseAuthority),
                "nonTransferable" => exts.push(ExtensionType::NonTransferable),
                "permanentDelegate" => exts.push(ExtensionType::PermanentDelegate),
                "defaultState" => exts.push(ExtensionType::DefaultAccountState),
                "interestBearing" => exts.push(ExtensionType::InterestBearingConfig),
                "groupPointer" => exts.push(ExtensionType::GroupPointer),
                "metadata" => exts.push(ExtensionType::MetadataPointer),
                "tokenMetadata" => exts.push(ExtensionType::MetadataPointer),
                _ => {}
            }
            let n = ExtensionType::try_calculate_account_len::<t22::state::Mint>(&exts).unwrap();
            let mut d = vec![0u8; n];
            let mut s = StateWithExtensionsMut::<t22::state::Mint>::unpack_uninitialized(&mut d).unwrap();
            if c.has_fee {
                let x = s.init_extension::<TransferFeeConfig>(true).unwrap();
                x.older_transfer_fee = TransferFee {
                    epoch: 0.into(),
                    maximum_fee: c.fee0.1.into(),
                    transfer_fee_basis_points: c.fee0.0.into(),
                };
                x.newer_transfer_fee = TransferFee {
                    epoch: c.switch.into(),
                    maximum_fee: c.fee1.1.into(),
                    transfer_fee_basis_points: c.fee1.0.into(),
                };
            }
            if c.hook {
                let x = s.init_extension::<TransferHook>(true).unwrap();
                x.program_id = Some(hook_id()).try_into().unwrap();
            }
            match c.ext.as_str() {
                "closeAuthority" => {
                    s.init_extension::<MintCloseAuthority>(true).unwrap();
                }
                "nonTransferable" => {
                    s.init_extension::<NonTransferable>(true).unwrap();
                }
                "permanentDelegate" => {
                    s.init_extension::<PermanentDelegate>(true).unwrap();
                }
                "defaultState" => {
                    s.init_extension::<DefaultAccountState>(true).unwrap().state = 1;
                }
                "interestBearing" => {
                    s.init_extension::<InterestBearingConfig>(true).unwrap();
                }
                "groupPointer" => {
                    s.init_extension::<GroupPointer>(true).unwrap();
                }
                "metadata" | "tokenMetadata" => {
                    s.init_extension::<MetadataPointer>(true).unwrap();
                }
                _ => {}
            }
            s.base = base;
            s.pack_base();
            s.init_account_type().unwrap();
            // further extensions, written as raw TLV entries
            let raw: Option<(u16, Vec<u8>)> = match c.ext.as_str() {
                "group" => Some((21, vec![0; 80])),
                "memberPointer" => Some((22, vec![0; 64])),
                "member" => Some((23, vec![0; 72])),
                "confidential" => Some((4, vec![0; 65])),
                "confidentialFee" => Some((16, vec![0; 129])),
                "mintBurn" => Some((24, vec![0; 196])),
                "scaledUi" => Some((25, vec![0; 56])),
                "pausable" => Some((26, vec![0; 33])),
                "tokenMetadata" => {
                    let mut v = vec![0u8; 32];
                    v.extend(k.to_bytes());
                    for t in ["Presale token", "PST", "https://token.example/meta.json"] {
                        v.extend((t.len() as u32).to_le_bytes());
                        v.extend(t.as_bytes());
                    }
                    v.extend(0u32.to_le_bytes());
                    Some((19, v))
                }
                "" | "closeAuthority" | "nonTransferable" | "permanentDelegate" | "defaultState" | "interestBearing"
                | "groupPointer" | "metadata" | "native" => None,
                e => panic!("ext {e}"),
            };
            if let Some((ty, v)) = raw {
                if d.len() < 166 {
                    d.resize(165, 0);
                    d.push(1);
                }
                d.extend(ty.to_le_bytes());
                d.extend((v.len() as u16).to_le_bytes());
                d.extend(v);
                if d.len() == 355 {
                    d.extend([0u8; 2]);
                }
            }
            d
        };
        let l = self.rent(data.len());
        self.set(k, l, data, c.program());
        if c.hooked() {
            // one extra account required by the hook
            use spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList};
            use spl_transfer_hook_interface::instruction::ExecuteInstruction;
            let extra = self.key(&format!("hookextra{name}"));
            self.set(extra, 1_000_000_000, vec![0; 8], hook_id());
            let v = spl_transfer_hook_interface::get_extra_account_metas_address(&k, &hook_id());
            let n = ExtraAccountMetaList::size_of(1).unwrap();
            let mut d = vec![0u8; n];
            ExtraAccountMetaList::init::<ExecuteInstruction>(
                &mut d,
                &[ExtraAccountMeta::new_with_pubkey(&extra, false, true).unwrap()],
            )
            .unwrap();
            let l = self.rent(n);
            self.set(v, l, d, hook_id());
        }
    }
    pub fn make_token_account(&mut self, k: Pubkey, m: &str, c: &MintCfg, owner: Pubkey, amount: u64) {
        let base = t22::state::Account {
            mint: self.key(m),
            owner,
            amount,
            delegate: COption::None,
            state: t22::state::AccountState::Initialized,
            is_native: COption::None,
            delegated_amount: 0,
            close_authority: COption::None,
        };
        let data = if !c.t22 {
            let mut d = vec![0u8; t22::state::Account::LEN];
            base.pack_into_slice(&mut d);
            d
        } else {
            let mut exts = vec![ExtensionType::ImmutableOwner];
            if c.has_fee {
                exts.push(ExtensionType::TransferFeeAmount);
            }
            if c.hook {
                exts.push(ExtensionType::TransferHookAccount);
            }
            if c.ext == "nonTransferable" {
                exts.push(ExtensionType::NonTransferableAccount);
            }
            if c.memo {
                exts.push(ExtensionType::MemoTransfer);
            }
            let n = ExtensionType::try_calculate_account_len::<t22::state::Account>(&exts).unwrap();
            let mut d = vec![0u8; n];
            let mut s = StateWithExtensionsMut::<t22::state::Account>::unpack_uninitialized(&mut d).unwrap();
            s.init_extension::<ImmutableOwner>(true).unwrap();
            if c.has_fee {
                s.init_extension::<TransferFeeAmount>(true).unwrap();
            }
            if c.hook {
                s.init_extension::<TransferHookAccount>(true).unwrap();
            }
            if c.ext == "nonTransferable" {
                s.init_extension::<NonTransferableAccount>(true).unwrap();
            }
            if c.memo {
                s.init_extension::<MemoTransfer>(true).unwrap().require_incoming_transfer_memos = true.into();
            }
            s.base = base;
            s.pack_base();
            s.init_account_type().unwrap();
            d
        };
        let l = self.rent(data.len());
        self.set(k, l, data, c.program());
    }

    // ---------------- projection ----------------
    fn data(&self, k: &Pubkey) -> Option<Vec<u8>> {
        let a = self.svm.get_account(k)?;
        if a.lamports == 0 {
            return None;
        }
        Some(a.data)
    }
    /// data of a program-owned account with the right discriminator, without the discriminator
    fn prog_data(&self, k: &Pubkey, name: &str) -> Option<Vec<u8>> {
        let a = self.svm.get_account(k)?;
        if a.lamports == 0 || a.owner != presale::ID || a.data.len() < 8 {
            return None;
        }
        let d = hashv(&[format!("account:{name}").as_bytes()]).to_bytes();
        if a.data[..8] != d[..8] {
            return None;
        }
        Some(a.data[8..].to_vec())
    }
    pub fn token_amount(&self, k: &Pubkey) -> Option<u64> {
        let d = self.data(k)?;
        if d.len() < 72 {
            return None;
        }
        Some(u64at(&d, 64))
    }
    fn name(&self, b: &[u8]) -> String {
        let k = Pubkey::try_from(b).unwrap();
        self.names.get(&k).cloned().unwrap_or_else(|| "?".into())
    }

    pub fn digest(&mut self) -> String {
        if self.cached.is_none() {
            let v = self.project();
            self.cached = Some(crate::replay::digest(&v));
        }
        self.cached.clone().unwrap()
    }
    pub fn tracked(&self) -> usize {
        self.escrows.len() + self.operators.len() + self.roots.len() + self.root_ids.len()
    }
    pub fn project(&mut self) -> Value {
        let mut presales = vec![];
        let (mut bv, mut qv, mut fargs, mut metas) = (vec![], vec![], vec![], vec![]);
        for p in PRESALES {
            let k = self.presale(p);
            if let Some(d) = self.prog_data(&k, "Presale") {
                presales.push(json!([p, self.presale_of(p, &d)]));
            }
            let (kb, kq) = (self.vault(p, "B"), self.vault(p, "Q"));
            if let Some(a) = self.token_amount(&kb) {
                bv.push(json!([p, bi(a)]));
            }
            if let Some(a) = self.token_amount(&kq) {
                qv.push(json!([p, bi(a)]));
            }
            let f = self.fargs(p);
            if let Some(d) = self.prog_data(&f, "FixedPricePresaleExtraArgs") {
                let right = d[64..96] == k.to_bytes();
                let owner = if right { self.name(&d[32..64]) } else { "?".into() };
                fargs.push(json!([p, {"owner": owner, "q": bi(u128at(&d, 16)), "dw": bi(d[15])}]));
            }
            let m = self.meta(p);
            if let Some(d) = self.prog_data(&m, "PermissionedServerMetadata") {
                let right = d[0..32] == k.to_bytes();
                let n = u32::from_le_bytes(d[160..164].try_into().unwrap()) as usize;
                let s = String::from_utf8_lossy(&d[164..(164 + n).min(d.len())]).to_string();
                metas.push(json!([p, if right { s } else { "?".into() }]));
            }
        }
        let mut escrows = vec![];
        for (p, o, r) in self.escrows.clone() {
            let k = self.escrow(&p, &o, r);
            if let Some(d) = self.prog_data(&k, "Escrow") {
                let (pk, ok) = (self.presale(&p), self.key(&o));
                let right = d[0..32] == pk.to_bytes() && d[32..64] == ok.to_bytes() && d[81] == r;
                let cap = if right { bi(u64at(&d, 96)) } else { bi(-1) };
                escrows.push(json!([{"#tup": [p, o, bi(r)]}, {
                    "dep": bi(u64at(&d, 64)), "claimed": bi(u64at(&d, 72)),
                    "refundDone": d[80] != 0, "pending": bi(u64at(&d, 88)), "cap": cap,
                    "created": bi(u64at(&d, 104)), "fee": bi(u64at(&d, 112)), "refreshed": bi(u64at(&d, 120))
                }]));
            }
        }
        let mut operators = vec![];
        for (c, o) in self.operators.clone() {
            let k = self.operator(&c, &o);
            if let Some(d) = self.prog_data(&k, "Operator") {
                let (n1, n2) = (self.name(&d[32..64]), self.name(&d[0..32]));
                let right = n1 == c && n2 == o;
                operators.push(json!({"#tup": [if right {n1} else {"?".into()}, if right {n2} else {"?".into()}]}));
            }
        }
        let mut roots = vec![];
        for (p, v) in self.roots.clone() {
            let k = self.root(&p, v);
            if let Some(d) = self.prog_data(&k, "MerkleRootConfig") {
                let pk = self.presale(&p);
                let right = d[40..72] == pk.to_bytes() && u64at(&d, 72) == v;
                let r: [u8; 32] = d[0..32].try_into().unwrap();
                let id = if right { self.root_ids.get(&r).cloned().unwrap_or("-1".into()) } else { "-1".into() };
                roots.push(json!([{"#tup": [p, bi(v)]}, bi(id)]));
            }
        }
        let (mut bb, mut bq) = (vec![], vec![]);
        for w in WALLETS {
            let (kb, kq) = (self.ata(w, "B"), self.ata(w, "Q"));
            bb.push(json!([w, bi(self.token_amount(&kb).unwrap_or(0))]));
            bq.push(json!([w, bi(self.token_amount(&kq).unwrap_or(0))]));
        }
        let mb = self.key("B");
        let supply = u64at(&self.data(&mb).unwrap(), 36);
        json!({
            "now": bi(self.now), "epoch": bi(self.epoch), "base": self.base_v, "quote": self.quote_v,
            "presales": {"#map": presales}, "baseVault": {"#map": bv}, "quoteVault": {"#map": qv},
            "escrows": {"#map": escrows}, "operators": {"#set": operators}, "roots": {"#map": roots},
            "fargs": {"#map": fargs}, "meta": {"#map": metas}, "balB": {"#map": bb}, "balQ": {"#map": bq},
            "supplyB": bi(supply)
        })
    }

    fn presale_of(&mut self, p: &str, d: &[u8]) -> Value {
        // offsets in the account after the discriminator
        let (kb, kq, b, q) = (self.vault(p, "B"), self.vault(p, "Q"), self.key("B"), self.key("Q"));
        let bk = self.base_key(p);
        let bound = d[32..64] == q.to_bytes() && d[64..96] == b.to_bytes() && d[96..128] == kb.to_bytes()
            && d[128..160] == kq.to_bytes() && d[160..192] == bk.to_bytes();
        let owner = if bound { self.name(&d[0..32]) } else { "?".into() };
        let mode = d[193];
        let o = 200;
        let u = |i: usize| bi(u64at(d, o + 8 * i));
        // 0 max,1 min,2 start,3 end,4 supply,5 dep,6 escrows,7 created,8 lock,9 vest,10 immTs,11 pad,12 vstart,13 vend,14 claimed,15 refunded,16 fee
        let f = o + 17 * 8; // deposit_fee_collected
        let g = f + 8; // has_creator_withdrawn ...
        let count = d[g + 3] as usize;
        let raw = g + 8;
        let (qp, dw, de) = match mode {
            0 => (u128at(d, raw), d[raw + 16], d[raw + 17]),
            2 => (0, 0, d[raw]),
            _ => (0, 0, 0),
        };
        let regs0 = raw + 16 * 7;
        let regs: Vec<Value> = (0..count.min(5))
            .map(|i| {
                let r = regs0 + 160 * i;
                let x = |j: usize| bi(u64at(d, r + 8 * j));
                json!({"supply": x(0), "dep": x(1), "escrows": x(2), "claimed": x(3), "refunded": x(4),
                       "minCap": x(5), "maxCap": x(6), "fee": x(7),
                       "feeBps": bi(u16::from_le_bytes([d[r + 64], d[r + 65]]))})
            })
            .collect();
        json!({
            "owner": owner, "mode": bi(mode), "wl": bi(d[194]), "unsold": bi(d[g + 4]),
            "maxCap": u(0), "minCap": u(1), "start": u(2), "end": u(3), "supply": u(4), "dep": u(5),
            "escrows": u(6), "created": u(7), "lock": u(8), "vest": u(9), "immTs": u(10),
            "vestStart": u(12), "vestEnd": u(13), "claimed": u(14), "refunded": u(15), "fee": u(16),
            "feeCollected": d[f] != 0, "creatorWithdrawn": d[g] != 0, "unsoldDone": d[g + 5] != 0,
            "immBps": bi(u16::from_le_bytes([d[g + 6], d[g + 7]])),
            "q": bi(qp), "disWithdraw": bi(dw), "disEarly": bi(de), "regs": regs
        })
    }
    pub fn lamports(&mut self) -> Vec<(String, u64)> {
        WALLETS
            .iter()
            .map(|w| {
                let k = self.key(w);
                (w.to_string(), self.svm.get_balance(&k).unwrap_or(0))
            })
            .collect()
    }
}

pub fn map_of(v: &Value) -> HashMap<String, u64> {
    list(v).iter().map(|e| (as_s(&e[0]).to_string(), as_u64(&e[1]))).collect()
}
pub fn u64at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}
pub fn u128at(d: &[u8], i: usize) -> u128 {
    u128::from_le_bytes(d[i..i + 16].try_into().unwrap())
}

// ---------------- symbolic hashes of the specification ----------------
/// 32-byte value denoted by a node of the specification's perfect-hash tree
pub fn node_bytes(w: &mut World, n: &BigUint) -> [u8; 32] {
    let four = BigUint::from(4u8);
    if *n == BigUint::from(0u8) {
        return [0; 32];
    }
    let tag = (n % &four).to_u32_digits().first().copied().unwrap_or(0);
    let rest = n / &four;
    match tag {
        0 => {
            let i = node_bytes(w, &rest);
            hashv(&[&[0u8], &i]).to_bytes()
        }
        1 => {
            let (a, b) = unpair(&rest);
            let (x, y) = (node_bytes(w, &a), node_bytes(w, &b));
            if x <= y {
                hashv(&[&[1u8], &x, &y]).to_bytes()
            } else {
                hashv(&[&[1u8], &y, &x]).to_bytes()
            }
        }
        2 => {
            let wi = (&rest % 128u32).to_u32_digits().first().copied().unwrap_or(0) as usize;
            let r = &rest / 128u32;
            let reg = (&r % 256u32).to_u32_digits().first().copied().unwrap_or(0) as u8;
            let cap = (&r / 256u32).to_u64_digits().first().copied().unwrap_or(0);
            let name = match WALLETS.get(wi) {
                Some(n) => n.to_string(),
                None if wi < 127 => format!("w{}", wi - 8),
                None => "nobody".into(),
            };
            let k = w.key(&name);
            hashv(&[k.as_ref(), &[reg], &cap.to_le_bytes()]).to_bytes()
        }
        _ => hashv(&[b"junk", rest.to_string().as_bytes()]).to_bytes(),
    }
}
fn unpair(z: &BigUint) -> (BigUint, BigUint) {
    let n = (z % 1024u32).to_u32_digits().first().copied().unwrap_or(0) as usize;
    let r: BigUint = z / 1024u32;
    let a: BigUint = &r >> (32 * n);
    let b = r - (&a << (32 * n));
    (a, b)
}
