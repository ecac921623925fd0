//! Runs concrete instructions of the program natively: accounts and data in, accounts, calls and result out.
//! The solver's witnesses and counterexamples are replayed with it.
use anchor_lang::solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::{AccountMeta, Instruction},
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent,
};
use std::cell::RefCell;
use std::io::BufRead;

mod funcs;

#[derive(Default, Clone)]
struct Env {
    slot: u64,
    epoch_start: i64,
    epoch: u64,
    leader: u64,
    unix: i64,
    stack: u64,
    siblings: Vec<Instruction>,
    cpis: Vec<String>,
    fail_at: Option<usize>,
    effects: Vec<(usize, usize, String, String)>,
    keys: Vec<Pubkey>,
}

thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
thread_local! { static ENV: RefCell<Env> = RefCell::new(Env::default()); }

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".to_string();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key(s: &str) -> Pubkey {
    Pubkey::try_from(unhex(s).as_slice()).unwrap()
}

struct Stubs;

const TOKEN: [&str; 2] = ["TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA", "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"];

fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> Option<&'a AccountInfo<'b>> {
    infos.iter().find(|a| a.key == k)
}

/// the effects of the calls the program relies on: account creation and token account initialisation
fn effects(ix: &Instruction, infos: &[AccountInfo]) -> ProgramResult {
    let d = &ix.data;
    if ix.program_id == Pubkey::default() && d.len() >= 4 {
        let tag = u32::from_le_bytes(d[0..4].try_into().unwrap());
        let u = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
        match tag {
            0 => {
                let (lam, space) = (u(4), u(12));
                let owner = Pubkey::try_from(&d[20..52]).unwrap();
                let (Some(f), Some(t)) = (find(infos, &ix.accounts[0].pubkey), find(infos, &ix.accounts[1].pubkey)) else { return Ok(()) };
                let _ = f;
                **t.lamports.borrow_mut() = t.lamports().wrapping_add(lam);
                t.realloc(space as usize, true)?;
                t.assign(&owner);
            }
            1 => {
                if let Some(t) = find(infos, &ix.accounts[0].pubkey) {
                    t.assign(&Pubkey::try_from(&d[4..36]).unwrap());
                }
            }
            8 => {
                if let Some(t) = find(infos, &ix.accounts[0].pubkey) {
                    t.realloc(u(4) as usize, true)?;
                }
            }
            _ => {}
        }
    } else if TOKEN.iter().any(|t| ix.program_id.to_string() == *t) {
        match d.first() {
            Some(18) => {
                // initialize_account3
                if let Some(t) = find(infos, &ix.accounts[0].pubkey) {
                    let mut b = t.try_borrow_mut_data()?;
                    if b.len() >= 165 {
                        b[0..32].copy_from_slice(ix.accounts[1].pubkey.as_ref());
                        b[32..64].copy_from_slice(&d[1..33]);
                        b[64..108].fill(0);
                        b[108] = 1;
                    }
                }
            }
            Some(20) => {
                // initialize_mint2
                if let Some(t) = find(infos, &ix.accounts[0].pubkey) {
                    let mut b = t.try_borrow_mut_data()?;
                    if b.len() >= 82 {
                        b[0..4].copy_from_slice(&1u32.to_le_bytes());
                        b[4..36].copy_from_slice(&d[2..34]);
                        b[36..44].fill(0);
                        b[44] = d[1];
                        b[45] = 1;
                        if d[34] == 1 {
                            b[46..50].copy_from_slice(&1u32.to_le_bytes());
                            b[50..82].copy_from_slice(&d[35..67]);
                        } else {
                            b[46..82].fill(0);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// the effects the case gives for the n-th call
fn given(n: usize, infos: &[AccountInfo]) -> ProgramResult {
    let (fx, keys) = ENV.with(|e| (e.borrow().effects.clone(), e.borrow().keys.clone()));
    for (c, i, what, v) in fx.iter().filter(|f| f.0 == n) {
        let _ = c;
        let Some(t) = find(infos, &keys[*i]) else { continue };
        match what.as_str() {
            "lamports" => **t.lamports.borrow_mut() = v.parse().unwrap(),
            "datalen" => t.realloc(v.parse().unwrap(), true)?,
            "owner" => t.assign(&key(v)),
            _ => {
                let d = unhex(v);
                let mut b = t.try_borrow_mut_data()?;
                let k = d.len().min(b.len());
                b[..k].copy_from_slice(&d[..k]);
            }
        }
    }
    Ok(())
}

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let n = ENV.with(|e| e.borrow().cpis.len());
        let line = format!(
            "cpi {} {} {} {}",
            hex(ix.program_id.as_ref()),
            if ix.accounts.is_empty() { "-".into() } else {
                ix.accounts.iter().map(|m: &AccountMeta| format!("{}:{}:{}", hex(m.pubkey.as_ref()), m.is_signer as u8, m.is_writable as u8)).collect::<Vec<_>>().join(",")
            },
            hex(&ix.data),
            if seeds.is_empty() { "-".into() } else {
                seeds.iter().map(|s| s.iter().map(|x| hex(x)).collect::<Vec<_>>().join("/")).collect::<Vec<_>>().join(",")
            }
        );
        ENV.with(|e| e.borrow_mut().cpis.push(line));
        if ENV.with(|e| e.borrow().fail_at) == Some(n) {
            return Err(ProgramError::Custom(0xdead));
        }
        effects(ix, infos)?;
        given(n, infos)
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        ENV.with(|e| {
            let e = e.borrow();
            let c = Clock { slot: e.slot, epoch_start_timestamp: e.epoch_start, epoch: e.epoch, leader_schedule_epoch: e.leader, unix_timestamp: e.unix };
            unsafe { *(p as *mut Clock) = c };
        });
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        ENV.with(|e| e.borrow().stack)
    }
    fn sol_get_processed_sibling_instruction(&self, i: usize) -> Option<Instruction> {
        ENV.with(|e| e.borrow().siblings.get(i).cloned())
    }
}

struct Acct {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    signer: bool,
    writable: bool,
    executable: bool,
    data: Vec<u8>,
}

/// one account in the loader's layout, so that its contents (after the 8-byte discriminator) are 16-aligned
fn account(a: &Acct) -> AccountInfo<'static> {
    let mut b: Vec<u8> = vec![0xff, a.signer as u8, a.writable as u8, a.executable as u8];
    b.extend((a.data.len() as u32).to_le_bytes());
    b.extend(a.key.as_ref());
    b.extend(a.owner.as_ref());
    b.extend(a.lamports.to_le_bytes());
    b.extend((a.data.len() as u64).to_le_bytes());
    b.extend(&a.data);
    b.extend(vec![0u8; 10240]);
    let mut v = vec![0u128; b.len() / 16 + 2];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len());
        let p = Box::leak(v.into_boxed_slice()).as_mut_ptr() as *mut u8;
        AccountInfo {
            key: &*(p.add(8) as *const Pubkey),
            owner: &*(p.add(40) as *const Pubkey),
            lamports: std::rc::Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
            data: std::rc::Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(88), a.data.len()))),
            rent_epoch: u64::MAX,
            is_signer: a.signer,
            is_writable: a.writable,
            executable: a.executable,
        }
    }
}

fn run(accts: &[Acct], data: &[u8]) {
    ENV.with(|e| e.borrow_mut().keys = accts.iter().map(|a| a.key).collect());
    let pid: &'static Pubkey = Box::leak(Box::new(dynamic_bonding_curve::ID));
    let infos: &'static [AccountInfo<'static>] = Box::leak(accts.iter().map(account).collect::<Vec<_>>().into_boxed_slice());
    let ixdata = data;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dynamic_bonding_curve::entry(pid, infos, ixdata)));
    match r {
        Ok(Ok(())) => println!("result ok"),
        Ok(Err(e)) => println!("result err {}", u64::from(e)),
        Err(_) => println!("result panic {}", MSG.with(|m| m.borrow().clone())),
    }
    ENV.with(|e| {
        for c in &e.borrow().cpis {
            println!("{}", c);
        }
    });
    for (i, a) in infos.iter().enumerate() {
        let d = a.try_borrow_data();
        let d = match &d { Ok(d) => hex(d), Err(_) => "?".into() };
        println!("acct {} {} {} {}", i, hex(a.owner.as_ref()), a.lamports(), d);
    }
}

fn main() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| MSG.with(|m| *m.borrow_mut() = i.to_string().replace(char::is_whitespace, "_"))));
    let mut accts: Vec<Acct> = vec![];
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied() {
            Some("case") => {
                println!("case {}", w[1]);
                accts.clear();
                ENV.with(|e| *e.borrow_mut() = Env::default());
            }
            Some("acct") => accts.push(Acct {
                key: key(w[1]), owner: key(w[2]), lamports: w[3].parse().unwrap(), signer: w[4] == "1",
                writable: w[5] == "1", executable: w[6] == "1", data: unhex(w[7]),
            }),
            Some("clock") => ENV.with(|e| {
                let mut e = e.borrow_mut();
                e.slot = w[1].parse().unwrap();
                e.epoch_start = w[2].parse().unwrap();
                e.epoch = w[3].parse().unwrap();
                e.leader = w[4].parse().unwrap();
                e.unix = w[5].parse().unwrap();
            }),
            Some("stack") => ENV.with(|e| e.borrow_mut().stack = w[1].parse().unwrap()),
            Some("fail") => ENV.with(|e| e.borrow_mut().fail_at = Some(w[1].parse().unwrap())),
            Some("sibling") => ENV.with(|e| {
                let metas = if w[2] == "-" { vec![] } else { w[2].split(',').map(|k| AccountMeta::new(key(k), false)).collect() };
                e.borrow_mut().siblings.push(Instruction { program_id: key(w[1]), accounts: metas, data: unhex(w[3]) });
            }),
            Some("effect") => ENV.with(|e| e.borrow_mut().effects.push((w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].to_string(), w[4].to_string()))),
            Some("run") => run(&accts, &unhex(w[1])),
            Some("func") => {
                let args: Vec<String> = w[2..].iter().map(|s| s.to_string()).collect();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| funcs::call(w[1], &args)));
                match r {
                    Ok(v) => println!("ret {}", v),
                    Err(_) => println!("ret panic"),
                }
            }
            _ => {}
        }
        if matches!(w.first().copied(), Some("run") | Some("func")) {
            println!("end");
        }
    }
}
