//! Native execution of the presale program inside LiteSVM.
//!
//! There is no SBF toolchain in the sandbox, so the program cannot be compiled to the ELF the
//! repository's integration tests load.  Instead the crate is linked natively and registered as
//! a builtin: every call still goes through the real Solana transaction processing (LiteSVM /
//! solana-program-runtime): privileges, ownership rules, lamport balance, rent state, CPI depth,
//! PDA signing and the *real* SPL Token / Token-2022 / ATA / memo programs (ELF).
//!
//! The account-info layout mirrors the one of the SBF entrypoint serializer, one 16-aligned
//! buffer per account, so that account data starts at an address = 8 (mod 16): after the 8-byte
//! discriminator the zero-copy structs (align 16 on the host) are correctly aligned.

use litesvm::LiteSVM;
use solana_program_runtime::declare_process_instruction;
use solana_program_runtime::invoke_context::InvokeContext;
use solana_program_runtime::stable_log;
use solana_sdk::account_info::AccountInfo;
use solana_sdk::clock::Clock;
use solana_sdk::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE};
use solana_sdk::instruction::{Instruction, InstructionError};
use solana_sdk::program_error::ProgramError;
use solana_sdk::pubkey::Pubkey;
use solana_timings::ExecuteTimings;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! {
    static INVOKE_CONTEXT: Cell<usize> = const { Cell::new(0) };
    /// A failed CPI aborts the whole transaction on chain: remember it even if the program swallows it.
    static CPI_FAILED: RefCell<Option<InstructionError>> = const { RefCell::new(None) };
    static IN_PROGRAM: Cell<bool> = const { Cell::new(false) };
    /// The last panic outside the program came from the input generator.
    pub static GENERATING: Cell<bool> = const { Cell::new(false) };
    /// Last panic message raised inside the program on this thread.
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn with_ctx<R>(f: impl FnOnce(&mut InvokeContext<'static>) -> R) -> R {
    let p = INVOKE_CONTEXT.with(|c| c.get());
    assert!(p != 0, "no invoke context on this thread");
    // SAFETY: set by `Native` below for the duration of the program call on this thread.
    let ctx: &mut InvokeContext<'static> = unsafe { &mut *(p as *mut InvokeContext<'static>) };
    f(ctx)
}

struct Stubs;

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        if INVOKE_CONTEXT.with(|c| c.get()) == 0 {
            return;
        }
        with_ctx(|ic| stable_log::program_log(&ic.get_log_collector(), message));
    }

    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        with_ctx(|ic| match ic.get_sysvar_cache().get_clock() {
            Ok(c) => unsafe {
                *(var_addr as *mut Clock) = (*c).clone();
                0
            },
            Err(_) => 1,
        })
    }

    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        with_ctx(|ic| match ic.get_sysvar_cache().get_rent() {
            Ok(r) => unsafe {
                *(var_addr as *mut solana_sdk::rent::Rent) = (*r).clone();
                0
            },
            Err(_) => 1,
        })
    }

    fn sol_get_stack_height(&self) -> u64 {
        with_ctx(|ic| ic.get_stack_height() as u64)
    }

    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = with_ctx(|ic| cpi(ic, instruction, account_infos, signers_seeds));
        match r {
            Ok(()) => Ok(()),
            Err(e) => {
                CPI_FAILED.with(|c| {
                    c.borrow_mut().get_or_insert(e.clone());
                });
                Err(ProgramError::try_from(e).unwrap_or(ProgramError::Custom(0xdead_beef)))
            }
        }
    }
}

fn cpi(
    ic: &mut InvokeContext<'static>,
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let caller = {
        let tc = &ic.transaction_context;
        *tc.get_current_instruction_context()?.get_last_program_key(tc)?
    };
    let mut signers = Vec::with_capacity(signers_seeds.len());
    for seeds in signers_seeds {
        signers.push(
            Pubkey::create_program_address(seeds, &caller)
                .map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let stable: solana_sdk::stable_layout::stable_instruction::StableInstruction =
        instruction.clone().into();
    let (instruction_accounts, program_indices) = ic.prepare_instruction(&stable, &signers)?;

    // caller -> transaction context
    let mut back = Vec::new();
    {
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        for ia in instruction_accounts.iter() {
            let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
            let idx = account_infos
                .iter()
                .position(|a| a.unsigned_key() == key)
                .ok_or(InstructionError::MissingAccount)?;
            let ai = &account_infos[idx];
            let mut acc = ictx.try_borrow_instruction_account(tc, ia.index_in_caller)?;
            if acc.get_lamports() != ai.lamports() {
                acc.set_lamports(ai.lamports())?;
            }
            let data = ai
                .try_borrow_data()
                .map_err(|_| InstructionError::AccountBorrowFailed)?;
            if acc.get_data() != &**data {
                acc.set_data_from_slice(&data)?;
            }
            if acc.get_owner() != ai.owner {
                acc.set_owner(ai.owner.as_ref())?;
            }
            if ia.is_writable {
                back.push((ia.index_in_caller, idx));
            }
        }
    }

    let mut cu = 0;
    ic.process_instruction(
        &instruction.data,
        &instruction_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    )?;

    // transaction context -> caller
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for (index_in_caller, idx) in back {
        let acc = ictx.try_borrow_instruction_account(tc, index_in_caller)?;
        let ai = &account_infos[idx];
        **ai
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = acc.get_lamports();
        if ai.owner != acc.get_owner() {
            ai.assign(acc.get_owner());
        }
        let new_data = acc.get_data();
        if ai.data_len() != new_data.len() {
            ai.realloc(new_data.len(), false)
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        let mut d = ai
            .try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        d.copy_from_slice(new_data);
    }
    Ok(())
}

struct Buf {
    ptr: *mut u8,
    layout: std::alloc::Layout,
}
impl Drop for Buf {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

const HDR: usize = 88; // 4 flag bytes, 4 original len, key 32, owner 32, lamports 8, data len 8

declare_process_instruction!(Native, 1, |invoke_context| {
    // SAFETY: lifetime erasure, the pointer is only used while this call is active.
    let raw = invoke_context as *mut _ as usize;
    let ic: &mut InvokeContext<'static> = unsafe { &mut *(raw as *mut InvokeContext<'static>) };
    run(ic)
});

fn run(ic: &mut InvokeContext<'static>) -> Result<(), InstructionError> {
    let raw = ic as *mut _ as usize;
    let mut bufs: Vec<Buf> = Vec::new();
    let mut infos: Vec<AccountInfo<'static>> = Vec::new();
    let program_id: Pubkey;
    let data: Vec<u8>;
    {
        let tc = &ic.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        program_id = *ictx.get_last_program_key(tc)?;
        data = ictx.get_instruction_data().to_vec();
        for i in 0..ictx.get_number_of_instruction_accounts() {
            if let Some(first) = ictx.is_instruction_account_duplicate(i)? {
                let dup = infos[first as usize].clone();
                infos.push(dup);
                continue;
            }
            let acc = ictx.try_borrow_instruction_account(tc, i)?;
            let src = acc.get_data();
            let total = HDR + src.len() + MAX_PERMITTED_DATA_INCREASE;
            let layout = std::alloc::Layout::from_size_align(total, 16).unwrap();
            // SAFETY: plain allocation, freed by Buf::drop after `infos` is no longer used.
            unsafe {
                let ptr = std::alloc::alloc(layout);
                assert!(!ptr.is_null());
                bufs.push(Buf { ptr, layout });
                *(ptr.add(4) as *mut u32) = src.len() as u32;
                let key = ptr.add(8) as *mut Pubkey;
                *key = *acc.get_key();
                let owner = ptr.add(40) as *mut Pubkey;
                *owner = *acc.get_owner();
                let lamports = ptr.add(72) as *mut u64;
                *lamports = acc.get_lamports();
                *(ptr.add(80) as *mut u64) = src.len() as u64;
                std::ptr::copy_nonoverlapping(src.as_ptr(), ptr.add(HDR), src.len());
                std::ptr::write_bytes(ptr.add(HDR + src.len()), 0, MAX_PERMITTED_DATA_INCREASE);
                infos.push(AccountInfo {
                    key: &*key,
                    lamports: Rc::new(RefCell::new(&mut *lamports)),
                    data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                        ptr.add(HDR),
                        src.len(),
                    ))),
                    owner: &*owner,
                    rent_epoch: acc.get_rent_epoch(),
                    is_signer: acc.is_signer(),
                    is_writable: acc.is_writable(),
                    executable: acc.is_executable(),
                });
            }
        }
    }

    let prev = INVOKE_CONTEXT.with(|c| c.replace(raw));
    let prev_in = IN_PROGRAM.with(|c| c.replace(true));
    let res = {
        let infos_ref: &'static [AccountInfo<'static>] =
            unsafe { std::mem::transmute::<&[AccountInfo<'static>], _>(&infos[..]) };
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            presale::entry(&program_id, infos_ref, &data)
        }))
    };
    IN_PROGRAM.with(|c| c.set(prev_in));
    INVOKE_CONTEXT.with(|c| c.set(prev));

    let res = match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => {
            let e64: u64 = e.into();
            Err(InstructionError::from(e64))
        }
        Err(_) => Err(InstructionError::ProgramFailedToComplete),
    };
    if ic.get_stack_height() == 1 {
        if let Some(e) = CPI_FAILED.with(|c| c.borrow_mut().take()) {
            return Err(e);
        }
    } else if let Some(e) = CPI_FAILED.with(|c| c.borrow().clone()) {
        return Err(e);
    }
    res?;

    // write back
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for i in 0..ictx.get_number_of_instruction_accounts() {
        if ictx.is_instruction_account_duplicate(i)?.is_some() {
            continue;
        }
        let ai = &infos[i as usize];
        let mut acc = ictx.try_borrow_instruction_account(tc, i)?;
        let lamports = **ai
            .try_borrow_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        if acc.get_lamports() != lamports {
            acc.set_lamports(lamports)?;
        }
        // the program may leak a borrow; the runtime reads raw memory
        let d = unsafe { &*ai.data.as_ptr() };
        if acc.get_data() != &**d {
            acc.set_data_from_slice(d)?;
        }
        if acc.get_owner() != ai.owner {
            acc.set_owner(ai.owner.as_ref())?;
        }
    }
    drop(infos);
    drop(bufs);
    Ok(())
}

/// Install the syscall stubs and a panic hook that stays silent for panics inside the program.
pub fn init_process() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_PROGRAM.with(|c| c.get()) {
            let s = info.to_string();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
        } else {
            let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
            let generating = file.ends_with("gen.rs");
            GENERATING.with(|c| c.set(generating));
            if !generating {
                default(info);
            }
        }
    }));
}

pub fn new_svm() -> LiteSVM {
    let mut budget = solana_compute_budget::compute_budget::ComputeBudget::default();
    budget.compute_unit_limit = 100_000_000;
    let mut svm = LiteSVM::new()
        .with_sigverify(false)
        .with_blockhash_check(false)
        .with_transaction_history(0)
        .with_log_bytes_limit(Some(20_000))
        .with_compute_budget(budget);
    // LiteSVM registers the builtin in its program cache and then insists on loading the account
    // data as an ELF; the registration is what matters, the account is replaced below.
    let prev = IN_PROGRAM.with(|c| c.replace(true));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        svm.add_builtin(presale::ID, Native::vm)
    }));
    IN_PROGRAM.with(|c| c.set(prev));
    svm.set_account(
        presale::ID,
        solana_sdk::account::Account {
            lamports: 1_000_000_000,
            data: b"presale".to_vec(),
            owner: solana_sdk::native_loader::ID,
            executable: true,
            rent_epoch: 0,
        },
    )
    .unwrap();
    svm
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static SAVED: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();

/// The program's native log output (msg!) goes to stdout; send it to /dev/null and keep the real
/// stdout for `say`.
pub fn mute_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let keep = dup(1);
        assert!(keep >= 0);
        assert!(dup2(null.as_raw_fd(), 1) >= 0);
        let _ = SAVED.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(keep)));
    }
}
pub fn say(line: &str) {
    use std::io::Write;
    match SAVED.get() {
        Some(f) => {
            let mut f = f.lock().unwrap();
            let _ = writeln!(f, "{line}");
        }
        None => println!("{line}"),
    }
}

/// Run `f` with panic messages suppressed.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let prev = IN_PROGRAM.with(|c| c.replace(true));
    let r = f();
    IN_PROGRAM.with(|c| c.set(prev));
    r
}
