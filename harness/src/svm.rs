//! Runs the presale program natively inside LiteSVM (no SBF toolchain is available offline).
//! The program's own entry point is called with AccountInfos built from the transaction context;
//! CPIs go through the real runtime (real SPL Token, Token-2022, ATA and system programs).
use anchor_lang::prelude::*;
use solana_program::account_info::AccountInfo as AI;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program_runtime::invoke_context::InvokeContext;
use solana_program_runtime::{declare_process_instruction};
use solana_sdk::instruction::InstructionError;
use solana_stable_layout::stable_instruction::StableInstruction;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static CTX: Cell<usize> = const { Cell::new(0) };
    static POISON: RefCell<Option<InstructionError>> = const { RefCell::new(None) };
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
    pub static LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn ctx<'a>() -> &'a mut InvokeContext<'static> {
    let p = CTX.with(|c| c.get());
    assert!(p != 0, "no invoke context");
    unsafe { &mut *(p as *mut InvokeContext<'static>) }
}

struct Buf {
    _mem: Vec<u128>,
}

const HDR: usize = 88;

fn ierr(e: InstructionError) -> InstructionError {
    e
}

fn run_program(invoke_context: &mut InvokeContext) -> std::result::Result<(), InstructionError> {
    let saved = CTX.with(|c| c.replace(invoke_context as *mut _ as *mut () as usize));
    let saved_poison = POISON.with(|p| p.borrow_mut().take());
    let r = run_inner(invoke_context);
    CTX.with(|c| c.set(saved));
    let poisoned = POISON.with(|p| std::mem::replace(&mut *p.borrow_mut(), saved_poison));
    match poisoned {
        Some(e) => Err(e),
        None => r,
    }
}

fn run_inner(invoke_context: &mut InvokeContext) -> std::result::Result<(), InstructionError> {
    let tc: &solana_sdk::transaction_context::TransactionContext =
        unsafe { &*(&*invoke_context.transaction_context as *const _) };
    let ic = tc.get_current_instruction_context()?;
    let data = ic.get_instruction_data().to_vec();
    let program_id = *ic.get_last_program_key(tc)?;
    let n = ic.get_number_of_instruction_accounts();
    let mut infos: Vec<AI<'static>> = Vec::new();
    let mut bufs: Vec<Buf> = Vec::new();
    let mut first: HashMap<Pubkey, usize> = HashMap::new();
    let mut uniq: Vec<(u16, usize)> = Vec::new();
    for i in 0..n {
        let b = ic.try_borrow_instruction_account(tc, i)?;
        let key = *b.get_key();
        if let Some(&j) = first.get(&key) {
            let ai = infos[j].clone();
            infos.push(ai);
            continue;
        }
        first.insert(key, i as usize);
        uniq.push((i, i as usize));
        let len = b.get_data().len();
        let total = HDR + len + 10240 + 32;
        let mut mem: Vec<u128> = vec![0u128; total.div_ceil(16)];
        let base = mem.as_mut_ptr() as *mut u8;
        unsafe {
            std::ptr::write_unaligned(base.add(4) as *mut u32, len as u32);
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), base.add(8), 32);
            std::ptr::copy_nonoverlapping(b.get_owner().as_ref().as_ptr(), base.add(40), 32);
            std::ptr::write_unaligned(base.add(72) as *mut u64, b.get_lamports());
            std::ptr::write_unaligned(base.add(80) as *mut u64, len as u64);
            std::ptr::copy_nonoverlapping(b.get_data().as_ptr(), base.add(HDR), len);
            let k: &'static Pubkey = &*(base.add(8) as *const Pubkey);
            let o: &'static Pubkey = &*(base.add(40) as *const Pubkey);
            let l: &'static mut u64 = &mut *(base.add(72) as *mut u64);
            let d: &'static mut [u8] = std::slice::from_raw_parts_mut(base.add(HDR), len);
            infos.push(AI {
                key: k,
                is_signer: b.is_signer(),
                is_writable: b.is_writable(),
                lamports: Rc::new(RefCell::new(l)),
                data: Rc::new(RefCell::new(d)),
                owner: o,
                executable: b.is_executable(),
                rent_epoch: b.get_rent_epoch(),
            });
        }
        bufs.push(Buf { _mem: mem });
    }
    let res = {
        let infos_ref: &'static [AI<'static>] =
            unsafe { std::slice::from_raw_parts(infos.as_ptr(), infos.len()) };
        let pid: &'static Pubkey = unsafe { &*(&program_id as *const Pubkey) };
        let dat: &'static [u8] = unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) };
        catch_unwind(AssertUnwindSafe(|| presale::entry(pid, infos_ref, dat)))
    };
    match res {
        Err(_) => return Err(InstructionError::ProgramFailedToComplete),
        Ok(Err(e)) => {
            let code: u64 = e.into();
            return Err(InstructionError::from(code));
        }
        Ok(Ok(())) => {}
    }
    if POISON.with(|p| p.borrow().is_some()) {
        return Err(InstructionError::ProgramFailedToComplete);
    }
    // the instruction trace may have been reallocated by CPIs
    let ic = tc.get_current_instruction_context()?;
    for (i, j) in uniq {
        let mut b = ic.try_borrow_instruction_account(tc, i)?;
        let ai = &infos[j];
        if b.get_lamports() != ai.lamports() {
            b.set_lamports(ai.lamports()).map_err(ierr)?;
        }
        let d = ai.try_borrow_data().map_err(|_| InstructionError::AccountBorrowFailed)?;
        match b
            .can_data_be_resized(d.len())
            .and_then(|_| b.can_data_be_changed())
        {
            Ok(()) => b.set_data_from_slice(&d)?,
            Err(err) if b.get_data() != &**d => return Err(err),
            _ => {}
        }
        if b.get_owner() != ai.owner {
            b.set_owner(ai.owner.as_ref())?;
        }
    }
    drop(infos);
    drop(bufs);
    Ok(())
}

declare_process_instruction!(Entrypoint, 1, |invoke_context| { run_program(invoke_context) });

pub const BUILTIN: solana_program_runtime::invoke_context::BuiltinFunctionWithContext = Entrypoint::vm;

struct Stubs;

fn poison(e: InstructionError) -> ProgramError {
    POISON.with(|p| *p.borrow_mut() = Some(e.clone()));
    ProgramError::try_from(e).unwrap_or(ProgramError::Custom(0xdead))
}

fn cpi(
    instruction: &Instruction,
    account_infos: &[AI],
    signers_seeds: &[&[&[u8]]],
) -> std::result::Result<(), InstructionError> {
    let ctx = ctx();
    let tc: &solana_sdk::transaction_context::TransactionContext =
        unsafe { &*(&*ctx.transaction_context as *const _) };
    let ic = tc.get_current_instruction_context()?;
    let caller = *ic.get_last_program_key(tc)?;
    let st = StableInstruction::from(instruction.clone());
    let mut signers = Vec::new();
    for s in signers_seeds {
        signers.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let (ias, pidx) = ctx.prepare_instruction(&st, &signers)?;
    let mut back = Vec::new();
    for ia in ias.iter() {
        let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
        let mut b = ic.try_borrow_instruction_account(tc, ia.index_in_caller)?;
        if b.is_executable() {
            continue;
        }
        let pos = account_infos
            .iter()
            .position(|a| a.key == key)
            .ok_or(InstructionError::MissingAccount)?;
        let ai = &account_infos[pos];
        if b.get_lamports() != ai.lamports() {
            b.set_lamports(ai.lamports())?;
        }
        {
            let d = ai.try_borrow_data().map_err(|_| InstructionError::AccountBorrowFailed)?;
            match b
                .can_data_be_resized(d.len())
                .and_then(|_| b.can_data_be_changed())
            {
                Ok(()) => b.set_data_from_slice(&d)?,
                Err(err) if b.get_data() != &**d => return Err(err),
                _ => {}
            }
        }
        if b.get_owner() != ai.owner {
            b.set_owner(ai.owner.as_ref())?;
        }
        if ia.is_writable {
            back.push((ia.index_in_caller, pos));
        }
    }
    let mut cu = 0;
    ctx.process_instruction(&st.data, &ias, &pidx, &mut cu, &mut Default::default())?;
    let ic = tc.get_current_instruction_context()?;
    for (i, pos) in back {
        let b = ic.try_borrow_instruction_account(tc, i)?;
        let ai = &account_infos[pos];
        **ai
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = b.get_lamports();
        if ai.owner != b.get_owner() {
            ai.assign(b.get_owner());
        }
        let nd = b.get_data();
        if ai.data_len() != nd.len() {
            ai.realloc(nd.len(), false)
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        ai.try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?
            .copy_from_slice(nd);
    }
    Ok(())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            let mut l = l.borrow_mut();
            if l.len() < 200 {
                l.push(m.to_string())
            }
        });
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_invoke_signed(&self, ix: &Instruction, ais: &[AI], s: &[&[&[u8]]]) -> ProgramResult {
        cpi(ix, ais, s).map_err(poison)
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = ctx().get_sysvar_cache().get_clock().unwrap();
        unsafe { *(p as *mut solana_program::clock::Clock) = (*c).clone() };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        let c = ctx().get_sysvar_cache().get_rent().unwrap();
        unsafe { *(p as *mut solana_program::rent::Rent) = (*c).clone() };
        0
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        let c = ctx().get_sysvar_cache().get_epoch_schedule().unwrap();
        unsafe { *(p as *mut solana_program::epoch_schedule::EpochSchedule) = (*c).clone() };
        0
    }
    fn sol_get_sysvar(&self, id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
        let id = unsafe { *(id as *const Pubkey) };
        let c = ctx();
        let cache = c.get_sysvar_cache();
        let bytes: Vec<u8> = if id == solana_program::sysvar::rent::ID {
            bincode_of(&*cache.get_rent().unwrap())
        } else if id == solana_program::sysvar::clock::ID {
            bincode_of(&*cache.get_clock().unwrap())
        } else {
            return 1;
        };
        let (o, l) = (off as usize, len as usize);
        if o + l > bytes.len() {
            return 1;
        }
        unsafe { std::ptr::copy_nonoverlapping(bytes[o..o + l].as_ptr(), out, l) };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().get_stack_height() as u64
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = ctx().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let c = ctx();
        let pid = {
            let ic = c.transaction_context.get_current_instruction_context().unwrap();
            *ic.get_last_program_key(&c.transaction_context).unwrap()
        };
        c.transaction_context.set_return_data(pid, data.to_vec()).unwrap();
    }
}

fn bincode_of<T: solana_program::sysvar::Sysvar>(t: &T) -> Vec<u8> {
    let mut v = vec![0u8; T::size_of()];
    let lam = &mut 0u64;
    let k = Pubkey::default();
    let mut ai = AI::new(&k, false, true, lam, &mut v, &k, false, 0);
    t.to_account_info(&mut ai).unwrap();
    drop(ai);
    v
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_prog = CTX.with(|c| c.get()) != 0;
        if in_prog || QUIET.with(|q| q.get()) {
            let s = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = Some(s));
        } else {
            default(info);
        }
    }));
}

pub fn register(svm: &mut litesvm::LiteSVM) {
    register_native(svm, presale::ID, BUILTIN);
}

pub fn register_native(
    svm: &mut litesvm::LiteSVM,
    id: Pubkey,
    f: solana_program_runtime::invoke_context::BuiltinFunctionWithContext,
) {
    QUIET.with(|q| q.set(true));
    let _ = catch_unwind(AssertUnwindSafe(|| svm.add_builtin(id, f)));
    QUIET.with(|q| q.set(false));
    svm.set_account(
        id,
        solana_sdk::account::Account {
            lamports: 1,
            data: vec![],
            owner: solana_sdk::native_loader::ID,
            executable: true,
            rent_epoch: 0,
        },
    )
    .unwrap();
}
