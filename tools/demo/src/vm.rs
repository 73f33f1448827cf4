//! A small Solana runtime: runs the real program entry point on a set of accounts, with the real
//! token program, a hand-written system program, and the runtime's own rules (privileges,
//! ownership of changes, lamport conservation, all-or-nothing).
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::deserialize, entrypoint::ProgramResult,
    instruction::Instruction, program_error::ProgramError, program_stubs, pubkey::Pubkey,
    rent::Rent,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, PartialEq, Debug)]
pub struct Acct {
    pub lam: u64,
    pub owner: Pubkey,
    pub exec: bool,
    pub data: Vec<u8>,
}
pub type World = BTreeMap<Pubkey, Arc<Acct>>;

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub key: Pubkey,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone)]
pub struct Out {
    pub ok: bool,
    pub err: String,
    pub ret: Option<Vec<u8>>,
    pub logs: Vec<Vec<u8>>,
}

struct Frame {
    program: Pubkey,
    flags: BTreeMap<Pubkey, (bool, bool)>,
    pre: BTreeMap<Pubkey, Acct>,
}
#[derive(Default)]
struct Ctx {
    slot: u64,
    ts: i64,
    ret: Option<Vec<u8>>,
    logs: Vec<Vec<u8>>,
    frames: Vec<Frame>,
    poison: Option<String>,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

const MAX_INCREASE: usize = 10 * 1024;

/// The loader's input buffer for a program.
struct Input {
    words: Vec<u64>,
    unique: Vec<usize>, // index of the first occurrence of each account
}
fn serialize(program: &Pubkey, accts: &[(Meta, Acct)], data: &[u8]) -> Input {
    let mut b: Vec<u8> = Vec::new();
    b.extend((accts.len() as u64).to_le_bytes());
    let mut unique = vec![];
    for (i, (m, a)) in accts.iter().enumerate() {
        if let Some(j) = accts[..i].iter().position(|(n, _)| n.key == m.key) {
            unique.push(j);
            b.push(j as u8);
            b.extend([0u8; 7]);
            continue;
        }
        unique.push(i);
        b.push(0xff);
        b.push(m.s as u8);
        b.push(m.w as u8);
        b.push(a.exec as u8);
        b.extend((a.data.len() as u32).to_le_bytes());
        b.extend(m.key.as_ref());
        b.extend(a.owner.as_ref());
        b.extend(a.lam.to_le_bytes());
        b.extend((a.data.len() as u64).to_le_bytes());
        b.extend(&a.data);
        b.resize(b.len() + MAX_INCREASE, 0);
        while b.len() % 8 != 0 {
            b.push(0);
        }
        b.extend(0u64.to_le_bytes());
    }
    b.extend((data.len() as u64).to_le_bytes());
    b.extend(data);
    b.extend(program.as_ref());
    let mut words = vec![0u64; b.len() / 8 + 1];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), words.as_mut_ptr() as *mut u8, b.len());
    }
    Input { words, unique }
}

fn snapshot(i: &AccountInfo) -> Result<Acct, String> {
    Ok(Acct {
        lam: **i.lamports.try_borrow().map_err(|_| "borrow")?,
        owner: *i.owner,
        exec: i.executable,
        data: i.data.try_borrow().map_err(|_| "borrow")?.to_vec(),
    })
}

/// The rules on what a program may have done to an account.
fn verify(program: &Pubkey, writable: bool, pre: &Acct, post: &Acct) -> Result<(), String> {
    let mine = pre.owner == *program;
    if pre.owner != post.owner
        && (!writable || !mine || post.data.iter().any(|b| *b != 0) || pre.exec)
    {
        return Err("owner changed".into());
    }
    if pre.lam != post.lam && !writable {
        return Err("readonly lamports".into());
    }
    if post.lam < pre.lam && !mine {
        return Err("external lamport spend".into());
    }
    if pre.data != post.data && (!mine || !writable) {
        return Err("foreign or readonly data changed".into());
    }
    if post.data.len() != pre.data.len() && (!mine || post.data.len() > pre.data.len() + MAX_INCREASE)
    {
        return Err("bad realloc".into());
    }
    Ok(())
}

fn run_program(
    program: &Pubkey,
    accts: Vec<(Meta, Acct)>,
    data: &[u8],
) -> Result<Vec<Acct>, String> {
    let system = solana_program::system_program::id();
    let depth = CTX.with(|c| c.borrow().frames.len());
    if depth >= 5 {
        return Err("call depth".into());
    }
    if *program == system {
        return system_program(accts, data);
    }
    let is_token = *program == spl_token::id();
    if !is_token && *program != phoenix::ID {
        return Err("unsupported program".into());
    }
    let mut frame = Frame { program: *program, flags: BTreeMap::new(), pre: BTreeMap::new() };
    for (m, a) in &accts {
        let f = frame.flags.entry(m.key).or_insert((false, false));
        f.0 |= m.s;
        f.1 |= m.w;
        frame.pre.entry(m.key).or_insert_with(|| a.clone());
    }
    let mut input = serialize(program, &accts, data);
    CTX.with(|c| c.borrow_mut().frames.push(frame));
    let res = catch_unwind(AssertUnwindSafe(|| unsafe {
        let (pid, infos, d) = deserialize(input.words.as_mut_ptr() as *mut u8);
        let r = if is_token {
            spl_token::processor::Processor::process(pid, &infos, d)
        } else {
            phoenix::process_instruction(pid, &infos, d)
        };
        match r {
            Ok(()) => infos.iter().map(snapshot).collect::<Result<Vec<_>, String>>(),
            Err(e) => Err(format!("{:?}", e)),
        }
    }));
    let frame = CTX.with(|c| c.borrow_mut().frames.pop()).unwrap();
    let post = match res {
        Err(_) => return Err("panic".into()),
        Ok(r) => r?,
    };
    if let Some(p) = CTX.with(|c| c.borrow_mut().poison.take()) {
        return Err(p);
    }
    for (i, (m, _)) in accts.iter().enumerate() {
        if input.unique[i] == i {
            verify(program, frame.flags[&m.key].1, &frame.pre[&m.key], &post[i])?;
        }
    }
    let sum = |v: &dyn Fn(usize) -> u64| -> u128 {
        (0..accts.len()).filter(|i| input.unique[*i] == *i).map(|i| v(i) as u128).sum()
    };
    if sum(&|i| accts[i].1.lam) != sum(&|i| post[i].lam) {
        return Err("lamports not conserved".into());
    }
    Ok(post)
}

fn system_program(accts: Vec<(Meta, Acct)>, data: &[u8]) -> Result<Vec<Acct>, String> {
    let system = solana_program::system_program::id();
    let mut out: Vec<Acct> = accts.iter().map(|a| a.1.clone()).collect();
    let u32at = |i: usize| -> Option<u32> { Some(u32::from_le_bytes(data.get(i..i + 4)?.try_into().ok()?)) };
    let u64at = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(data.get(i..i + 8)?.try_into().ok()?)) };
    let keyat = |i: usize| -> Option<Pubkey> { Some(Pubkey::new(data.get(i..i + 32)?)) };
    let need = |c: bool, e: &str| -> Result<(), String> { if c { Ok(()) } else { Err(e.to_string()) } };
    let bad = || "system: data".to_string();
    fn transfer(
        accts: &[(Meta, Acct)], out: &mut [Acct], from: usize, to: usize, n: u64,
    ) -> Result<(), String> {
        if !accts[from].0.s || !accts[from].0.w || !accts[to].0.w {
            return Err("system: privileges".into());
        }
        if !out[from].data.is_empty() || out[from].owner != solana_program::system_program::id() {
            return Err("system: from".into());
        }
        if out[from].lam < n {
            return Err("system: funds".into());
        }
        out[from].lam -= n;
        // a transfer to itself changes nothing
        if accts[from].0.key == accts[to].0.key {
            out[from].lam += n;
            return Ok(());
        }
        out[to].lam = out[to].lam.checked_add(n).ok_or("system: overflow")?;
        Ok(())
    }
    match u32at(0).ok_or_else(bad)? {
        0 => {
            need(accts.len() >= 2, "system: accounts")?;
            let (lam, space, owner) =
                (u64at(4).ok_or_else(bad)?, u64at(12).ok_or_else(bad)?, keyat(20).ok_or_else(bad)?);
            need(accts[1].0.s && accts[1].0.w, "system: privileges")?;
            need(out[1].lam == 0 && out[1].data.is_empty() && out[1].owner == system, "system: in use")?;
            need(space <= 10 * 1024 * 1024, "system: space")?;
            out[1].data = vec![0; space as usize];
            out[1].owner = owner;
            transfer(&accts, &mut out, 0, 1, lam)?;
        }
        1 => {
            need(!accts.is_empty(), "system: accounts")?;
            let owner = keyat(4).ok_or_else(bad)?;
            if out[0].owner != owner {
                need(accts[0].0.s && accts[0].0.w && out[0].owner == system, "system: assign")?;
                out[0].owner = owner;
            }
        }
        2 => {
            need(accts.len() >= 2, "system: accounts")?;
            transfer(&accts, &mut out, 0, 1, u64at(4).ok_or_else(bad)?)?;
        }
        8 => {
            need(!accts.is_empty(), "system: accounts")?;
            let space = u64at(4).ok_or_else(bad)?;
            need(accts[0].0.s && accts[0].0.w, "system: privileges")?;
            need(out[0].data.is_empty() && out[0].owner == system, "system: allocate")?;
            need(space <= 10 * 1024 * 1024, "system: space")?;
            out[0].data = vec![0; space as usize];
        }
        _ => return Err("system: unsupported".into()),
    }
    Ok(out)
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let (caller, have) = CTX.with(|c| {
        let c = c.borrow();
        let f = c.frames.last().unwrap();
        (f.program, f.flags.clone())
    });
    if !have.contains_key(&ix.program_id) {
        return Err("cpi: program account missing".into());
    }
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &caller).map_err(|_| "cpi: seeds")?);
    }
    let mut accts: Vec<(Meta, Acct)> = vec![];
    for m in &ix.accounts {
        let info = infos.iter().find(|i| *i.key == m.pubkey).ok_or("cpi: account missing")?;
        let f = have.get(&m.pubkey).ok_or("cpi: foreign account")?;
        if m.is_signer && !(f.0 || pdas.contains(&m.pubkey)) {
            return Err("cpi: signer privilege".into());
        }
        if m.is_writable && !f.1 {
            return Err("cpi: writable privilege".into());
        }
        // one account has one set of flags in the called instruction
        let s = ix.accounts.iter().any(|n| n.pubkey == m.pubkey && n.is_signer);
        let w = ix.accounts.iter().any(|n| n.pubkey == m.pubkey && n.is_writable);
        accts.push((Meta { key: m.pubkey, s, w }, snapshot(info)?));
    }
    // what the caller has done so far must be allowed
    CTX.with(|c| -> Result<(), String> {
        let c = c.borrow();
        let f = c.frames.last().unwrap();
        for (m, a) in &accts {
            verify(&caller, f.flags[&m.key].1, &f.pre[&m.key], a)?;
        }
        Ok(())
    })?;
    CTX.with(|c| c.borrow_mut().ret = None);
    if ix.program_id == phoenix::ID {
        if ix.data.len() + 34 * ix.accounts.len() > 1280 {
            return Err("cpi: too large".into());
        }
        if ix.data.first() == Some(&15) {
            let d = ix.data.clone();
            CTX.with(|c| c.borrow_mut().logs.push(d));
        }
    }
    let pre: Vec<Acct> = accts.iter().map(|a| a.1.clone()).collect();
    let metas: Vec<Meta> = accts.iter().map(|a| a.0.clone()).collect();
    let post = run_program(&ix.program_id, accts, &ix.data)?;
    for (i, m) in metas.iter().enumerate() {
        if metas[..i].iter().any(|n| n.key == m.key) {
            continue;
        }
        if ix.program_id == solana_program::system_program::id() {
            verify(&ix.program_id, m.w, &pre[i], &post[i])?;
        }
        if pre[i] != post[i] {
            let info = infos.iter().find(|j| *j.key == m.key).unwrap();
            **info.lamports.try_borrow_mut().map_err(|_| "cpi: borrow")? = post[i].lam;
            if info.owner != &post[i].owner {
                info.assign(&post[i].owner);
            }
            if info.data_len() != post[i].data.len() {
                info.realloc(post[i].data.len(), false).map_err(|_| "cpi: realloc")?;
            }
            info.data.try_borrow_mut().map_err(|_| "cpi: borrow")?.copy_from_slice(&post[i].data);
        }
        CTX.with(|c| {
            c.borrow_mut().frames.last_mut().unwrap().pre.insert(m.key, post[i].clone());
        });
    }
    Ok(())
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            // on the chain a failed inner instruction ends the outer one
            Err(e) => {
                CTX.with(|c| c.borrow_mut().poison = Some(format!("cpi failed: {}", e)));
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            unsafe {
                *(p as *mut Clock) = Clock { slot: c.slot, unix_timestamp: c.ts, ..Clock::default() };
            }
        });
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe {
            *(p as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        CTX.with(|c| c.borrow_mut().ret = if d.is_empty() { None } else { Some(d.to_vec()) });
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| {
            let c = c.borrow();
            c.ret.clone().map(|d| (c.frames.last().map(|f| f.program).unwrap_or_default(), d))
        })
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
}
thread_local! {
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// The last panic of this thread.
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

pub fn rent(len: u64) -> u64 {
    (128 + len) * 6960
}

/// An account that was never created.
pub fn absent() -> Acct {
    Acct { lam: 0, owner: solana_program::system_program::id(), exec: false, data: vec![] }
}
pub fn get(w: &World, k: &Pubkey) -> Acct {
    w.get(k).map(|a| (**a).clone()).unwrap_or_else(absent)
}

/// Flags of an account named more than once are those of all its mentions together.
pub fn merge_flags(metas: &mut [Meta]) {
    let all = metas.to_vec();
    for m in metas.iter_mut() {
        m.s = all.iter().any(|n| n.key == m.key && n.s);
        m.w = all.iter().any(|n| n.key == m.key && n.w);
    }
}

/// Runs one transaction with one instruction. Returns what it did and the changed accounts.
pub fn run(w: &World, metas: &[Meta], data: &[u8], slot: u64, ts: i64) -> (Out, Vec<(Pubkey, Acct)>) {
    CTX.with(|c| *c.borrow_mut() = Ctx { slot, ts, ..Ctx::default() });
    let accts: Vec<(Meta, Acct)> = metas.iter().map(|m| (m.clone(), get(w, &m.key))).collect();
    let r = run_program(&phoenix::ID, accts, data);
    let ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
    match r {
        Err(e) => (Out { ok: false, err: e, ret: None, logs: vec![] }, vec![]),
        Ok(post) => {
            let mut ch: Vec<(Pubkey, Acct)> = vec![];
            for (i, m) in metas.iter().enumerate() {
                if metas[..i].iter().any(|n| n.key == m.key) {
                    continue;
                }
                if get(w, &m.key) != post[i] {
                    ch.push((m.key, post[i].clone()));
                }
            }
            (Out { ok: true, err: String::new(), ret: ctx.ret, logs: ctx.logs }, ch)
        }
    }
}
