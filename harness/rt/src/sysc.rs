//! The syscalls the on-chain code links against.
use crate::*;
use std::panic::resume_unwind;

fn abort_with(s: String) -> ! {
    resume_unwind(Box::new(Abort(s)))
}
unsafe fn ex<'a>() -> Option<&'a mut Exec<'static>> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(&mut *p)
    }
}
#[repr(C)]
struct Bytes {
    p: *const u8,
    len: u64,
}
unsafe fn parts<'a>(vals: *const u8, n: u64) -> Vec<&'a [u8]> {
    let v = std::slice::from_raw_parts(vals as *const Bytes, n as usize);
    v.iter().map(|b| sl(b.p, b.len)).collect()
}
unsafe fn sl<'a>(p: *const u8, n: u64) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n as usize)
    }
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(m: *const u8, n: u64) {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *ON.get_or_init(|| std::env::var_os("SWIG_LOG").is_some()) {
        eprintln!("log: {}", String::from_utf8_lossy(sl(m, n)));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_k: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(_d: *const u8, _n: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 {
    1_000_000
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(seeds: *const u8, n: u64, pid: *const u8, out: *const u8) -> u64 {
    let s = parts(seeds, n);
    if s.len() > 16 || s.iter().any(|x| x.len() > 32) {
        abort_with("BadSeeds".into());
    }
    let pid: Key = sl(pid, 32).try_into().unwrap();
    match crypto::create_pda(&s, &pid) {
        Some(k) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(seeds: *const u8, n: u64, pid: *const u8, out: *const u8, bump: *const u8) -> u64 {
    let s = parts(seeds, n);
    if s.len() > 15 || s.iter().any(|x| x.len() > 32) {
        abort_with("BadSeeds".into());
    }
    let pid: Key = sl(pid, 32).try_into().unwrap();
    match crypto::find_pda(&s, &pid) {
        Some((k, b)) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out as *mut u8, 32);
            *(bump as *mut u8) = b;
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = crypto::sha256(&parts(v, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_keccak256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = crypto::keccak(&parts(v, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_blake3(_v: *const u8, _n: u64, _out: *mut u8) -> u64 {
    abort_with("blake3 unsupported".into())
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_secp256k1_recover(h: *const u8, rid: u64, sig: *const u8, out: *mut u8) -> u64 {
    let h: [u8; 32] = sl(h, 32).try_into().unwrap();
    if rid > 3 {
        return 2;
    }
    match crypto::recover(&h, rid as u8, sl(sig, 64)) {
        Some(k) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out, 64);
            0
        }
        None => 3,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(addr: *mut u8) -> u64 {
    let (slot, ts) = match ex() {
        Some(e) => (e.chain.slot, e.chain.unix_ts),
        None => (1000, 0),
    };
    let mut b = [0u8; 40];
    b[0..8].copy_from_slice(&slot.to_le_bytes());
    b[8..16].copy_from_slice(&ts.to_le_bytes());
    b[16..24].copy_from_slice(&(slot / 432000).to_le_bytes());
    b[24..32].copy_from_slice(&(slot / 432000 + 1).to_le_bytes());
    b[32..40].copy_from_slice(&ts.to_le_bytes());
    std::ptr::copy_nonoverlapping(b.as_ptr(), addr, 40);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(addr: *mut u8) -> u64 {
    let mut b = [0u8; 24];
    b[0..8].copy_from_slice(&3480u64.to_le_bytes());
    b[8..16].copy_from_slice(&2.0f64.to_le_bytes());
    b[16] = 50;
    std::ptr::copy_nonoverlapping(b.as_ptr(), addr, 17);
    0
}
macro_rules! unsupported {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $n(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) -> u64 {
            abort_with(concat!(stringify!($n), " unsupported").into())
        }
    )* };
}
unsupported!(
    sol_get_epoch_schedule_sysvar, sol_get_fees_sysvar, sol_get_last_restart_slot, sol_get_epoch_rewards_sysvar,
    sol_invoke_signed_rust, sol_get_processed_sibling_instruction, sol_curve_group_op, sol_curve_multiscalar_mul,
    sol_curve_pairing_map, sol_alt_bn128_group_op, sol_big_mod_exp, sol_poseidon, sol_alt_bn128_compression,
    sol_get_sysvar, sol_get_epoch_stake
);
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, out: *mut i32) {
    let (x, y) = (sl(a, n), sl(b, n));
    let mut r = 0;
    for i in 0..n as usize {
        if x[i] != y[i] {
            r = x[i] as i32 - y[i] as i32;
            break;
        }
    }
    *out = r;
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(d: *const u8, n: u64) {
    if let Some(e) = ex() {
        let p = e.frames.last().unwrap().program;
        e.return_data = (p, sl(d, n).to_vec());
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(d: *mut u8, n: u64, pid: *mut u8) -> u64 {
    if let Some(e) = ex() {
        let l = e.return_data.1.len().min(n as usize);
        std::ptr::copy_nonoverlapping(e.return_data.1.as_ptr(), d, l);
        std::ptr::copy_nonoverlapping(e.return_data.0.as_ptr(), pid, 32);
        return e.return_data.1.len() as u64;
    }
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    match ex() {
        Some(e) => e.frames.len() as u64,
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_curve_validate_point(curve: u64, p: *const u8, _r: *mut u8) -> u64 {
    if curve != 0 {
        abort_with("curve".into());
    }
    let k: Key = sl(p, 32).try_into().unwrap();
    if crypto::on_curve(&k) {
        0
    } else {
        1
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_panic_(_f: *const u8, _n: u64, _l: u64, _c: u64) -> ! {
    abort_with("sol_panic".into())
}
#[repr(C)]
struct CIx {
    program: *const Key,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    key: *const Key,
    writable: u8,
    signer: u8,
}
#[repr(C)]
struct CAcct {
    key: *const Key,
    lamports: *const u64,
    data_len: u64,
    data: *const u8,
    owner: *const Key,
    rent_epoch: u64,
    signer: u8,
    writable: u8,
    executable: u8,
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(ix: *const u8, infos: *const u8, n_infos: u64, seeds: *const u8, n_seeds: u64) -> u64 {
    let e = match ex() {
        Some(e) => e,
        None => abort_with("cpi outside runtime".into()),
    };
    let ix = &*(ix as *const CIx);
    let metas: Vec<Meta> = (0..ix.accounts_len as usize)
        .map(|i| {
            let m = &*ix.accounts.add(i);
            if m.signer > 1 || m.writable > 1 {
                abort_with("InvalidArgument meta".into());
            }
            Meta { key: *m.key, signer: m.signer == 1, writable: m.writable == 1 }
        })
        .collect();
    let data = sl(ix.data, ix.data_len).to_vec();
    let program = *ix.program;
    let infos: Vec<Key> = (0..n_infos as usize).map(|i| *(*(infos as *const CAcct).add(i)).key).collect();
    let mut sd: Vec<Vec<Vec<u8>>> = vec![];
    let sigs = if n_seeds == 0 { &[][..] } else { std::slice::from_raw_parts(seeds as *const Bytes, n_seeds as usize) };
    for s in sigs {
        sd.push(parts(s.p, s.len).iter().map(|x| x.to_vec()).collect());
    }
    match e.cpi(&program, &metas, &data, &sd, Some(&infos)) {
        Ok(()) => {
            // restore the current execution pointer for this frame (nested
            // invocations restored it already)
            0
        }
        Err(s) => abort_with(s),
    }
}
