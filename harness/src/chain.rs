//! A minimal Solana runtime: accounts, signatures, cross-program calls and rollback, driving the real program
//! entry point in process. The token program is the real spl-token processor; the system program is re-created here.
use crate::util::attempt;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::{system_program, sysvar};
use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Once;

#[derive(Clone, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Rc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}
#[derive(Clone)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
}

struct Slot {
    key: Pubkey,
    owner: UnsafeCell<Pubkey>,
    lamports: UnsafeCell<u64>,
    data: UnsafeCell<Vec<u8>>,
}

/// what the runtime knows of the instruction being executed
struct Cur {
    infos: Vec<AccountInfo<'static>>,
    stack: Vec<Pubkey>,
    arena: Vec<*mut [u8]>,
    events: Vec<Vec<u8>>,
    /// owner, lamports, data of every account when control last passed between programs
    sync: Vec<(Pubkey, u64, Vec<u8>)>,
    pub foreign: u32,
}
thread_local! { static CUR: RefCell<Option<Cur>> = RefCell::new(None); }

const EVIL: [u8; 32] = [0xEE; 32];
/// a program of the attacker's: does nothing and succeeds
pub fn evil() -> Pubkey {
    Pubkey::new_from_array(EVIL)
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CUR.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                for f in fields {
                    c.events.push(f.to_vec());
                }
            }
        })
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { slot: 1000, epoch: 2, unix_timestamp: 1_650_000_000, ..Default::default() };
        unsafe { std::ptr::write(p as *mut solana_program::clock::Clock, c) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), ProgramError> {
        invoke(ix, infos, seeds)
    }
}

fn snapshot(infos: &[AccountInfo<'static>]) -> Vec<(Pubkey, u64, Vec<u8>)> {
    infos.iter().map(|i| (read_owner(i), read_lamports(i), bytes(i).to_vec())).collect()
}
// the program may hold a borrow of an account that takes no part in the call
fn bytes<'b>(i: &'b AccountInfo<'static>) -> &'b [u8] {
    unsafe { &**i.data.as_ptr() }
}
fn read_lamports(i: &AccountInfo) -> u64 {
    unsafe { **i.lamports.as_ptr() }
}
fn read_owner(i: &AccountInfo) -> Pubkey {
    unsafe { std::ptr::read_volatile(i.owner as *const Pubkey) }
}

/// a program may change the data of accounts it owns, and only of writable ones
fn verify(c: &Cur, program: &Pubkey) -> Result<(), ProgramError> {
    for (i, (o, l, d)) in c.infos.iter().zip(&c.sync) {
        let changed = bytes(i) != &d[..] || read_owner(i) != *o;
        if changed && (o != program || !i.is_writable || i.executable) {
            return Err(ProgramError::Custom(0xdead01)); // external account data modified / readonly
        }
        if read_lamports(i) != *l && !i.is_writable || read_lamports(i) < *l && o != program {
            return Err(ProgramError::Custom(0xdead02));
        }
    }
    if c.infos.iter().map(|i| read_lamports(i) as u128).sum::<u128>() != c.sync.iter().map(|s| s.1 as u128).sum::<u128>() {
        return Err(ProgramError::Custom(0xdead03)); // unbalanced
    }
    Ok(())
}

fn invoke(ix: &Instruction, given: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), ProgramError> {
    let (caller, top) = CUR.with(|c| {
        let c = c.borrow();
        let c = c.as_ref().unwrap();
        (*c.stack.last().unwrap(), c.infos.clone())
    });
    CUR.with(|c| verify(c.borrow().as_ref().unwrap(), &caller))?;
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
    }
    let has = |k: &Pubkey| given.iter().any(|i| i.key == k);
    if !top.iter().any(|i| *i.key == ix.program_id && i.executable) {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    // privileges: never more than the caller has, except for its own program addresses
    let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let f = flags.entry(m.pubkey).or_insert((false, false));
        f.0 |= m.is_signer;
        f.1 |= m.is_writable;
    }
    let mut callee = vec![];
    for m in &ix.accounts {
        if !has(&m.pubkey) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let t = top.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let (s, w) = flags[&m.pubkey];
        if w && !t.is_writable || s && !t.is_signer && !pdas.contains(&m.pubkey) {
            return Err(ProgramError::Custom(0xdead04)); // privilege escalation
        }
        let mut i = t.clone();
        i.is_signer = s;
        i.is_writable = w;
        callee.push(i);
    }
    let resync = |p: Option<Pubkey>| {
        CUR.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            c.sync = snapshot(&c.infos);
            match p {
                Some(p) => c.stack.push(p),
                None => {
                    c.stack.pop();
                }
            }
        })
    };
    resync(Some(ix.program_id));
    let r = if ix.program_id == system_program::ID {
        system(&callee, &ix.data)
    } else if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(&ix.program_id, &callee, &ix.data)
    } else if ix.program_id == evil() {
        CUR.with(|c| c.borrow_mut().as_mut().unwrap().foreign += 1);
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    };
    let r = r.and_then(|_| CUR.with(|c| verify(c.borrow().as_ref().unwrap(), &ix.program_id)));
    resync(None);
    r
}

fn u64at(d: &[u8], o: usize) -> Result<u64, ProgramError> {
    let s = d.get(o..o + 8).ok_or(ProgramError::InvalidInstructionData)?;
    let mut b = [0u8; 8];
    b.copy_from_slice(s);
    Ok(u64::from_le_bytes(b))
}
fn keyat(d: &[u8], o: usize) -> Result<Pubkey, ProgramError> {
    Ok(Pubkey::new(d.get(o..o + 32).ok_or(ProgramError::InvalidInstructionData)?))
}
// the slot behind the reference is an UnsafeCell (see exec)
#[allow(invalid_reference_casting)]
fn set_owner(a: &AccountInfo, k: Pubkey) {
    unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, k) }
}
fn allocate(a: &AccountInfo<'static>, space: u64) -> Result<(), ProgramError> {
    if !a.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !a.data_is_empty() || read_owner(a) != system_program::ID {
        return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
    }
    let b: &'static mut [u8] = Box::leak(vec![0u8; space as usize].into_boxed_slice());
    CUR.with(|c| c.borrow_mut().as_mut().unwrap().arena.push(b as *mut [u8]));
    *a.data.borrow_mut() = b;
    Ok(())
}
fn assign(a: &AccountInfo, k: Pubkey) -> Result<(), ProgramError> {
    if read_owner(a) == k {
        return Ok(());
    }
    if !a.is_signer || read_owner(a) != system_program::ID {
        return Err(ProgramError::MissingRequiredSignature);
    }
    set_owner(a, k);
    Ok(())
}
fn pay(f: &AccountInfo, t: &AccountInfo, n: u64) -> Result<(), ProgramError> {
    if !f.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if read_owner(f) != system_program::ID || !f.data_is_empty() {
        return Err(ProgramError::InvalidArgument);
    }
    if f.key == t.key {
        return Ok(());
    }
    if f.lamports() < n {
        return Err(ProgramError::InsufficientFunds);
    }
    **f.lamports.borrow_mut() -= n;
    **t.lamports.borrow_mut() += n;
    Ok(())
}
fn system(a: &[AccountInfo<'static>], d: &[u8]) -> Result<(), ProgramError> {
    let tag = u64at(&[d, &[0; 8]].concat(), 0)? as u32;
    let (f, t) = (a.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?, a.get(1));
    match tag {
        0 => {
            let t = t.ok_or(ProgramError::NotEnoughAccountKeys)?;
            if t.lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            let (n, space, owner) = (u64at(d, 4)?, u64at(d, 12)?, keyat(d, 20)?);
            allocate(t, space)?;
            assign(t, owner)?;
            pay(f, t, n)
        }
        1 => assign(f, keyat(d, 4)?),
        2 => pay(f, t.ok_or(ProgramError::NotEnoughAccountKeys)?, u64at(d, 4)?),
        8 => allocate(f, u64at(d, 4)?),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    });
}

impl World {
    pub fn new() -> World {
        install();
        let mut w = World { accs: BTreeMap::new() };
        for p in [system_program::ID, spl_token::ID, evil(), hmmcl_sandbox::ID].iter() {
            w.put(*p, 1, vec![], solana_program::bpf_loader::ID, true);
        }
        let rent = Rent::default();
        let mut d = vec![];
        d.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        w.put(sysvar::rent::ID, 1, d, sysvar::ID, false);
        w
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey, executable: bool) {
        self.accs.insert(k, Acc { lamports, data: Rc::new(data), owner, executable });
    }
    pub fn put_mint(&mut self, k: Pubkey, authority: Pubkey, decimals: u8) {
        let m = spl_token::state::Mint { mint_authority: Some(authority).into(), supply: 0, decimals, is_initialized: true, freeze_authority: None.into() };
        let mut d = vec![0; spl_token::state::Mint::LEN];
        m.pack_into_slice(&mut d);
        self.put(k, 10_000_000, d, spl_token::ID, false);
    }
    pub fn put_token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let a = spl_token::state::Account { mint, owner, amount, delegate: None.into(), state: spl_token::state::AccountState::Initialized, is_native: None.into(), delegated_amount: 0, close_authority: None.into() };
        let mut d = vec![0; spl_token::state::Account::LEN];
        a.pack_into_slice(&mut d);
        self.put(k, 10_000_000, d, spl_token::ID, false);
    }
    pub fn token(&self, k: &Pubkey) -> Option<spl_token::state::Account> {
        let a = self.accs.get(k)?;
        if a.owner != spl_token::ID {
            return None;
        }
        spl_token::state::Account::unpack(&a.data).ok()
    }
    pub fn amount(&self, k: &Pubkey) -> u64 {
        self.token(k).map(|t| t.amount).unwrap_or(0)
    }
    pub fn supply(&self, k: &Pubkey) -> u64 {
        self.accs.get(k).and_then(|a| spl_token::state::Mint::unpack(&a.data).ok()).map(|m| m.supply).unwrap_or(0)
    }
    /// Run one instruction as one transaction: on success the accounts are updated and the events returned; on an
    /// error or panic nothing is.
    pub fn add(&mut self, k: &Pubkey, n: i128) {
        let mut t = self.token(k).unwrap();
        t.amount = (t.amount as i128 + n) as u64;
        t.pack_into_slice(std::rc::Rc::make_mut(&mut self.accs.get_mut(k).unwrap().data).as_mut_slice());
    }
    pub fn add_supply(&mut self, k: &Pubkey, n: i128) {
        let a = self.accs.get_mut(k).unwrap();
        let mut m = spl_token::state::Mint::unpack(&a.data).unwrap();
        m.supply = (m.supply as i128 + n) as u64;
        m.pack_into_slice(std::rc::Rc::make_mut(&mut a.data).as_mut_slice());
    }
    pub fn exec(&mut self, metas: &[AccountMeta], data: &[u8]) -> Result<Vec<Vec<u8>>, String> {
        let program = hmmcl_sandbox::ID;
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in metas {
            let f = flags.entry(m.pubkey).or_insert((false, false));
            f.0 |= m.is_signer;
            f.1 |= m.is_writable;
        }
        let mut slots: Vec<Box<Slot>> = vec![];
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        for (k, (s, w)) in &flags {
            let (lamports, data, owner, executable) = match self.accs.get(k) {
                Some(a) => (a.lamports, (*a.data).clone(), a.owner, a.executable),
                None => (0, vec![], system_program::ID, false),
            };
            let slot = Box::new(Slot { key: *k, owner: UnsafeCell::new(owner), lamports: UnsafeCell::new(lamports), data: UnsafeCell::new(data) });
            let p: *const Slot = &*slot;
            unsafe {
                infos.push(AccountInfo {
                    key: &(*p).key,
                    is_signer: *s,
                    is_writable: *w && !executable,
                    lamports: Rc::new(RefCell::new(&mut *(*p).lamports.get())),
                    data: Rc::new(RefCell::new((&mut *(*p).data.get()).as_mut_slice())),
                    owner: &*(*p).owner.get(),
                    executable,
                    rent_epoch: 0,
                });
            }
            slots.push(slot);
        }
        let list: Vec<AccountInfo<'static>> = metas.iter().map(|m| infos.iter().find(|i| *i.key == m.pubkey).unwrap().clone()).collect();
        let sync = snapshot(&infos);
        CUR.with(|c| *c.borrow_mut() = Some(Cur { infos: infos.clone(), stack: vec![program], arena: vec![], events: vec![], sync, foreign: 0 }));
        let r = attempt(|| hmmcl_sandbox::entry(&program, &list, data));
        drop(list);
        let cur = CUR.with(|c| c.borrow_mut().take().unwrap());
        let r = match r {
            Ok(Ok(())) => verify(&cur, &program).map_err(|e| format!("runtime: {:?}", e)),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(p) => Err(format!("panic: {}", p)),
        };
        if r.is_ok() {
            for i in &infos {
                let old = self.accs.get(i.key);
                let new = Acc { lamports: read_lamports(i), data: Rc::new(bytes(i).to_vec()), owner: read_owner(i), executable: i.executable };
                if old.is_none() && new.lamports == 0 && new.data.is_empty() {
                    continue;
                }
                if old != Some(&new) {
                    self.accs.insert(*i.key, new);
                }
            }
        }
        let Cur { infos: i2, arena, events, .. } = cur;
        drop(i2);
        drop(infos);
        for a in arena {
            unsafe { drop(Box::from_raw(a)) };
        }
        drop(slots);
        r.map(|_| events)
    }
}
