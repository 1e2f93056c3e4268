//! Models of the programs swig wallets talk to.
use crate::*;

fn u32le(d: &[u8], o: usize) -> R<u32> {
    d.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or("InvalidInstructionData".into())
}
fn u64le(d: &[u8], o: usize) -> R<u64> {
    d.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or("InvalidInstructionData".into())
}
fn m(metas: &[Meta], i: usize) -> R<Meta> {
    metas.get(i).copied().ok_or("NotEnoughAccountKeys".into())
}
fn er<T>(s: &str) -> R<T> {
    Err(s.to_string())
}

pub fn system(e: &mut Exec, metas: &[Meta], d: &[u8]) -> R<()> {
    match u32le(d, 0)? {
        0 => {
            let (lam, space) = (u64le(d, 4)?, u64le(d, 12)?);
            let owner: Key = d.get(20..52).ok_or("InvalidInstructionData")?.try_into().unwrap();
            let (from, to) = (m(metas, 0)?, m(metas, 1)?);
            if e.a(&to.key).lamports > 0 {
                return er("system: AccountAlreadyInUse");
            }
            if !to.signer {
                return er("MissingRequiredSignature");
            }
            allocate(e, &to, space)?;
            e.set_owner(&to, owner)?;
            transfer(e, &from, &to, lam)
        }
        1 => {
            let owner: Key = d.get(4..36).ok_or("InvalidInstructionData")?.try_into().unwrap();
            let a = m(metas, 0)?;
            if e.a(&a.key).owner == owner {
                return Ok(());
            }
            if !a.signer {
                return er("MissingRequiredSignature");
            }
            e.set_owner(&a, owner)
        }
        2 => {
            let lam = u64le(d, 4)?;
            transfer(e, &m(metas, 0)?, &m(metas, 1)?, lam)
        }
        8 => {
            let a = m(metas, 0)?;
            if !a.signer {
                return er("MissingRequiredSignature");
            }
            allocate(e, &a, u64le(d, 4)?)
        }
        _ => er("system: unsupported"),
    }
}
fn allocate(e: &mut Exec, a: &Meta, space: u64) -> R<()> {
    let acc = e.a(&a.key);
    if !acc.data.is_empty() || acc.owner != SYSTEM {
        return er("system: AccountAlreadyInUse");
    }
    if space > 10 * 1024 * 1024 {
        return er("system: InvalidAccountDataLength");
    }
    if space > 0 && !a.writable {
        return er("ReadonlyDataModified");
    }
    acc.data = vec![0; space as usize];
    Ok(())
}
fn transfer(e: &mut Exec, from: &Meta, to: &Meta, lam: u64) -> R<()> {
    if !from.signer {
        return er("MissingRequiredSignature");
    }
    if !e.a(&from.key).data.is_empty() {
        return er("system: from must not carry data");
    }
    if e.a(&from.key).lamports < lam {
        return er("system: ResultWithNegativeLamports");
    }
    e.debit(from, lam)?;
    e.credit(to, lam)
}

// ---- SPL token ----
pub mod tok {
    use crate::*;
    pub const ACC: usize = 165;
    pub fn mint_data(decimals: u8, supply: u64, authority: &Key) -> Vec<u8> {
        let mut d = vec![0u8; 82];
        d[0] = 1;
        d[4..36].copy_from_slice(authority);
        d[36..44].copy_from_slice(&supply.to_le_bytes());
        d[44] = decimals;
        d[45] = 1;
        d
    }
    pub fn acct_data(mint: &Key, owner: &Key, amount: u64, native_reserve: Option<u64>) -> Vec<u8> {
        let mut d = vec![0u8; ACC];
        d[..32].copy_from_slice(mint);
        d[32..64].copy_from_slice(owner);
        d[64..72].copy_from_slice(&amount.to_le_bytes());
        d[108] = 1;
        if let Some(r) = native_reserve {
            d[109] = 1;
            d[113..121].copy_from_slice(&r.to_le_bytes());
        }
        d
    }
    pub fn amount(d: &[u8]) -> u64 {
        if d.len() < 72 {
            return 0;
        }
        u64::from_le_bytes(d[64..72].try_into().unwrap())
    }
    pub fn set_amount(d: &mut [u8], v: u64) {
        d[64..72].copy_from_slice(&v.to_le_bytes());
    }
    pub fn is_native(d: &[u8]) -> bool {
        d[109] == 1
    }
    pub fn delegate(d: &[u8]) -> Option<Key> {
        if d.len() >= 165 && d[72] == 1 {
            Some(d[76..108].try_into().unwrap())
        } else {
            None
        }
    }
    pub fn delegated(d: &[u8]) -> u64 {
        d.get(121..129).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
    }
    pub fn close_auth(d: &[u8]) -> Option<Key> {
        if d.len() >= 165 && d[129] == 1 {
            Some(d[133..165].try_into().unwrap())
        } else {
            None
        }
    }
}
fn tok_acc(e: &mut Exec, a: &Meta) -> R<Vec<u8>> {
    let p = e.frames.last().unwrap().program;
    let acc = e.a(&a.key);
    if acc.owner != p {
        return er("token: IncorrectProgramId");
    }
    if acc.data.len() < 165 || acc.data[108] == 0 {
        return er("token: UninitializedAccount");
    }
    Ok(acc.data.clone())
}
fn authorize(owner: &[u8], a: &Meta) -> R<()> {
    if owner != a.key {
        return er("token: OwnerMismatch");
    }
    if !a.signer {
        return er("token: MissingRequiredSignature");
    }
    Ok(())
}
pub fn token(e: &mut Exec, metas: &[Meta], d: &[u8]) -> R<()> {
    let op = *d.first().ok_or("InvalidInstructionData")?;
    match op {
        3 | 12 => {
            let amount = u64le(d, 1)?;
            let (si, di, ai) = if op == 3 { (0, 1, 2) } else { (0, 2, 3) };
            let (s, t, au) = (m(metas, si)?, m(metas, di)?, m(metas, ai)?);
            let mut sd = tok_acc(e, &s)?;
            let td = tok_acc(e, &t)?;
            if sd[108] == 2 || td[108] == 2 {
                return er("token: AccountFrozen");
            }
            if tok::amount(&sd) < amount {
                return er("token: InsufficientFunds");
            }
            if sd[..32] != td[..32] {
                return er("token: MintMismatch");
            }
            if op == 12 {
                let mm = m(metas, 1)?;
                if sd[..32] != mm.key {
                    return er("token: MintMismatch");
                }
                let dec = *d.get(9).ok_or("InvalidInstructionData")?;
                let md = e.a(&mm.key).data.clone();
                if md.len() < 82 || md[44] != dec {
                    return er("token: MintDecimalsMismatch");
                }
            }
            if tok::delegate(&sd) == Some(au.key) {
                if !au.signer {
                    return er("token: MissingRequiredSignature");
                }
                let del = tok::delegated(&sd);
                if del < amount {
                    return er("token: InsufficientFunds");
                }
                if s.key != t.key {
                    sd[121..129].copy_from_slice(&(del - amount).to_le_bytes());
                    if del == amount {
                        sd[72..76].fill(0);
                    }
                }
            } else {
                authorize(&sd[32..64], &au)?;
            }
            if s.key == t.key {
                return Ok(());
            }
            let na = tok::amount(&sd) - amount;
            tok::set_amount(&mut sd, na);
            *e.data_mut(&s)? = sd.clone();
            let td2 = e.data_mut(&t)?;
            let x = tok::amount(td2).checked_add(amount).ok_or("token: Overflow")?;
            tok::set_amount(td2, x);
            if tok::is_native(&sd) {
                e.debit(&s, amount)?;
                e.credit(&t, amount)?;
            }
            Ok(())
        }
        4 => {
            let amount = u64le(d, 1)?;
            let (s, del, o) = (m(metas, 0)?, m(metas, 1)?, m(metas, 2)?);
            let sd = tok_acc(e, &s)?;
            authorize(&sd[32..64], &o)?;
            let x = e.data_mut(&s)?;
            x[72..76].copy_from_slice(&[1, 0, 0, 0]);
            x[76..108].copy_from_slice(&del.key);
            x[121..129].copy_from_slice(&amount.to_le_bytes());
            Ok(())
        }
        5 => {
            let (s, o) = (m(metas, 0)?, m(metas, 1)?);
            let sd = tok_acc(e, &s)?;
            authorize(&sd[32..64], &o)?;
            let x = e.data_mut(&s)?;
            x[72..76].fill(0);
            x[121..129].fill(0);
            Ok(())
        }
        6 => {
            let kind = *d.get(1).ok_or("InvalidInstructionData")?;
            let new: Option<Key> = if d.get(2) == Some(&1) {
                Some(d.get(3..35).ok_or("InvalidInstructionData")?.try_into().unwrap())
            } else {
                None
            };
            let (s, o) = (m(metas, 0)?, m(metas, 1)?);
            let sd = tok_acc(e, &s)?;
            match kind {
                2 => {
                    authorize(&sd[32..64], &o)?;
                    let nw = new.ok_or("token: InvalidInstruction")?;
                    let x = e.data_mut(&s)?;
                    x[32..64].copy_from_slice(&nw);
                    x[72..76].fill(0);
                    x[121..129].fill(0);
                    if tok::is_native(x) {
                        x[129..133].fill(0);
                    }
                }
                3 => {
                    let cur = tok::close_auth(&sd).unwrap_or(sd[32..64].try_into().unwrap());
                    authorize(&cur, &o)?;
                    let x = e.data_mut(&s)?;
                    match new {
                        Some(n) => {
                            x[129..133].copy_from_slice(&[1, 0, 0, 0]);
                            x[133..165].copy_from_slice(&n);
                        }
                        None => x[129..133].fill(0),
                    }
                }
                _ => return er("token: AuthorityTypeNotSupported"),
            }
            Ok(())
        }
        7 => {
            let amount = u64le(d, 1)?;
            let (mt, t, au) = (m(metas, 0)?, m(metas, 1)?, m(metas, 2)?);
            let td = tok_acc(e, &t)?;
            if td[..32] != mt.key {
                return er("token: MintMismatch");
            }
            let md = e.a(&mt.key).data.clone();
            if md.len() < 82 {
                return er("token: InvalidMint");
            }
            authorize(&md[4..36], &au)?;
            let x = e.data_mut(&t)?;
            let na = tok::amount(x).checked_add(amount).ok_or("token: Overflow")?;
            tok::set_amount(x, na);
            let x = e.data_mut(&mt)?;
            let s = u64::from_le_bytes(x[36..44].try_into().unwrap()).checked_add(amount).ok_or("token: Overflow")?;
            x[36..44].copy_from_slice(&s.to_le_bytes());
            Ok(())
        }
        8 | 15 => {
            let amount = u64le(d, 1)?;
            let (s, mt, au) = (m(metas, 0)?, m(metas, 1)?, m(metas, 2)?);
            let sd = tok_acc(e, &s)?;
            if sd[..32] != mt.key {
                return er("token: MintMismatch");
            }
            if tok::is_native(&sd) {
                return er("token: NativeNotSupported");
            }
            authorize(&sd[32..64], &au)?;
            let have = tok::amount(&sd);
            if have < amount {
                return er("token: InsufficientFunds");
            }
            let x = e.data_mut(&s)?;
            tok::set_amount(x, have - amount);
            let x = e.data_mut(&mt)?;
            let sup = u64::from_le_bytes(x[36..44].try_into().unwrap()).wrapping_sub(amount);
            x[36..44].copy_from_slice(&sup.to_le_bytes());
            Ok(())
        }
        9 => {
            let (s, t, au) = (m(metas, 0)?, m(metas, 1)?, m(metas, 2)?);
            if s.key == t.key {
                return er("InvalidAccountData");
            }
            let sd = tok_acc(e, &s)?;
            if !tok::is_native(&sd) && tok::amount(&sd) != 0 {
                return er("token: NonNativeHasBalance");
            }
            let ca = tok::close_auth(&sd).unwrap_or(sd[32..64].try_into().unwrap());
            authorize(&ca, &au)?;
            let lam = e.a(&s.key).lamports;
            e.debit(&s, lam)?;
            e.credit(&t, lam)?;
            e.data_mut(&s)?.clear();
            e.set_owner(&s, SYSTEM)
        }
        17 => {
            let s = m(metas, 0)?;
            let sd = tok_acc(e, &s)?;
            if !tok::is_native(&sd) {
                return er("token: NonNativeNotSupported");
            }
            let reserve = u64::from_le_bytes(sd[113..121].try_into().unwrap());
            let lam = e.a(&s.key).lamports;
            let na = lam.checked_sub(reserve).ok_or("token: Overflow")?;
            if na < tok::amount(&sd) {
                return er("token: InvalidState");
            }
            let x = e.data_mut(&s)?;
            tok::set_amount(x, na);
            Ok(())
        }
        30 => {
            // Token-2022's memo extension, as far as the account's bytes go
            let (s, o) = (m(metas, 0)?, m(metas, 1)?);
            let sd = tok_acc(e, &s)?;
            authorize(&sd[32..64], &o)?;
            if e.frames.last().unwrap().program != token22_id() || sd.len() <= 165 {
                return er("token: InvalidInstruction");
            }
            let on = *d.get(1).ok_or("InvalidInstructionData")?;
            let x = e.data_mut(&s)?;
            *x.last_mut().unwrap() = on;
            Ok(())
        }
        _ => er("token: unsupported"),
    }
}

// ---- stake (simplified) ----
pub mod stk {
    use crate::*;
    pub const LEN: usize = 200;
    pub fn data(state: u32, reserve: u64, staker: &Key, withdrawer: &Key, stake: u64) -> Vec<u8> {
        let mut d = vec![0u8; LEN];
        d[0..4].copy_from_slice(&state.to_le_bytes());
        d[4..12].copy_from_slice(&reserve.to_le_bytes());
        d[12..44].copy_from_slice(staker);
        d[44..76].copy_from_slice(withdrawer);
        if state == 2 {
            d[124..156].copy_from_slice(&[7; 32]);
            d[156..164].copy_from_slice(&stake.to_le_bytes());
            d[172..180].copy_from_slice(&u64::MAX.to_le_bytes());
        }
        d
    }
    pub fn stake(d: &[u8]) -> u64 {
        u64::from_le_bytes(d[156..164].try_into().unwrap())
    }
}
pub fn stake(e: &mut Exec, metas: &[Meta], d: &[u8]) -> R<()> {
    let p = e.frames.last().unwrap().program;
    let a = m(metas, 0)?;
    let acc = e.a(&a.key).clone();
    if acc.owner != p || acc.data.len() != 200 {
        return er("stake: InvalidAccountOwner");
    }
    let signed = |k: &[u8]| metas.iter().any(|x| x.key == *k && x.signer);
    let sd = acc.data.clone();
    let state = u32::from_le_bytes(sd[0..4].try_into().unwrap());
    let reserve = u64::from_le_bytes(sd[4..12].try_into().unwrap());
    match u32le(d, 0)? {
        // Authorize(new, kind)
        1 => {
            let new = d.get(4..36).ok_or("InvalidInstructionData")?;
            let kind = u32le(d, 36)?;
            let cur = if kind == 0 { &sd[12..44] } else { &sd[44..76] };
            if !signed(cur) && !(kind == 0 && signed(&sd[44..76])) {
                return er("MissingRequiredSignature");
            }
            let x = e.data_mut(&a)?;
            if kind == 0 {
                x[12..44].copy_from_slice(new)
            } else {
                x[44..76].copy_from_slice(new)
            }
            Ok(())
        }
        // DelegateStake
        2 => {
            if !signed(&sd[12..44]) {
                return er("MissingRequiredSignature");
            }
            let vote = m(metas, 1)?;
            let amt = acc.lamports.saturating_sub(reserve);
            let x = e.data_mut(&a)?;
            x[0..4].copy_from_slice(&2u32.to_le_bytes());
            x[124..156].copy_from_slice(&vote.key);
            x[156..164].copy_from_slice(&amt.to_le_bytes());
            x[164..172].copy_from_slice(&1u64.to_le_bytes());
            x[172..180].copy_from_slice(&u64::MAX.to_le_bytes());
            Ok(())
        }
        // Split(lamports) into metas[1]
        3 => {
            if !signed(&sd[12..44]) {
                return er("MissingRequiredSignature");
            }
            let lam = u64le(d, 4)?;
            let b = m(metas, 1)?;
            if e.a(&b.key).owner != p || e.a(&b.key).data.len() != 200 {
                return er("stake: split dest");
            }
            if acc.lamports < lam {
                return er("InsufficientFunds");
            }
            let mut nd = sd.clone();
            {
                let all = lam == acc.lamports;
                let short = reserve.saturating_sub(e.a(&b.key).lamports);
                let x = e.data_mut(&a)?;
                if state == 2 {
                    // the whole account: what is not the reserve is stake;
                    // otherwise the lamports, less the new account's reserve
                    let st = stk::stake(x);
                    let from = if all { lam.saturating_sub(reserve).min(st) } else { lam };
                    let ns = st.checked_sub(from).ok_or("InsufficientFunds")?;
                    let to = if all { from } else { lam.checked_sub(short).ok_or("InsufficientFunds")? };
                    x[156..164].copy_from_slice(&ns.to_le_bytes());
                    nd[156..164].copy_from_slice(&to.to_le_bytes());
                }
                if all {
                    x[0..4].fill(0);
                }
            }
            *e.data_mut(&b)? = nd;
            e.debit(&a, lam)?;
            e.credit(&b, lam)
        }
        // Withdraw(lamports)
        4 => {
            if !signed(&sd[44..76]) {
                return er("MissingRequiredSignature");
            }
            let lam = u64le(d, 4)?;
            let to = m(metas, 1)?;
            let locked = if state == 2 {
                let deact = u64::from_le_bytes(sd[172..180].try_into().unwrap());
                if deact == u64::MAX {
                    stk::stake(&sd)
                } else {
                    0
                }
            } else {
                0
            };
            let keep = locked + reserve;
            if lam != acc.lamports && lam.checked_add(keep).map(|x| x > acc.lamports).unwrap_or(true) {
                return er("InsufficientFunds");
            }
            if lam == acc.lamports && locked > 0 {
                return er("InsufficientFunds");
            }
            if lam == acc.lamports {
                let x = e.data_mut(&a)?;
                x[0..4].fill(0);
            }
            e.debit(&a, lam)?;
            e.credit(&to, lam)
        }
        // Deactivate
        5 => {
            if !signed(&sd[12..44]) {
                return er("MissingRequiredSignature");
            }
            let x = e.data_mut(&a)?;
            x[172..180].copy_from_slice(&2u64.to_le_bytes());
            Ok(())
        }
        _ => er("stake: unsupported"),
    }
}

// ---- secp256r1 precompile ----
pub fn r1(e: &mut Exec, d: &[u8]) -> R<()> {
    if e.frames.len() != 1 {
        return er("precompile via cpi");
    }
    if d.len() < 2 {
        return er("InvalidInstructionDataSize");
    }
    let n = d[0] as usize;
    if n == 0 || n > 8 || d.len() < 2 + 14 * n {
        return er("InvalidInstructionDataSize");
    }
    let ixs = e.tx_ixs.clone();
    let get = |ix: u16, off: usize, len: usize| -> R<Vec<u8>> {
        let src: &[u8] = if ix == 0xffff { d } else { &ixs.get(ix as usize).ok_or("InvalidDataOffsets")?.data };
        Ok(src.get(off..off + len).ok_or("InvalidDataOffsets")?.to_vec())
    };
    for i in 0..n {
        let o = 2 + 14 * i;
        let f = |k: usize| u16::from_le_bytes(d[o + 2 * k..o + 2 * k + 2].try_into().unwrap());
        let sig = get(f(1), f(0) as usize, 64)?;
        let pk = get(f(3), f(2) as usize, 33)?;
        let msg = get(f(6), f(4) as usize, f(5) as usize)?;
        if !crypto::r1_ok(&pk, &msg, &sig) {
            return er("InvalidSignature");
        }
    }
    Ok(())
}

// ---- puppet: a scriptable program standing for any third-party program ----
// data = ops*:  0 pad
//   1 idx off:u16 n:u8 bytes        write bytes into account idx
//   2 from to amount:u64            move lamports (from must be owned by the puppet)
//   3 prog_idx n (idx flags)* len:u16 data   CPI (flags bit0 signer, bit1 writable)
//   4                                 fail
//   5 idx len:u16                     resize an owned account
//   6 idx owner                       assign an owned account
#[derive(Default, Clone)]
pub struct Script(pub Vec<u8>);
impl Script {
    pub fn new() -> Self {
        Script(vec![])
    }
    pub fn write(mut self, idx: u8, off: u16, bytes: &[u8]) -> Self {
        self.0.extend_from_slice(&[1, idx]);
        self.0.extend_from_slice(&off.to_le_bytes());
        self.0.push(bytes.len() as u8);
        self.0.extend_from_slice(bytes);
        self
    }
    pub fn mv(mut self, from: u8, to: u8, amount: u64) -> Self {
        self.0.extend_from_slice(&[2, from, to]);
        self.0.extend_from_slice(&amount.to_le_bytes());
        self
    }
    pub fn cpi(mut self, prog: u8, metas: &[(u8, bool, bool)], data: &[u8]) -> Self {
        self.0.extend_from_slice(&[3, prog, metas.len() as u8]);
        for (i, s, w) in metas {
            self.0.extend_from_slice(&[*i, (*s as u8) | ((*w as u8) << 1)]);
        }
        self.0.extend_from_slice(&(data.len() as u16).to_le_bytes());
        self.0.extend_from_slice(data);
        self
    }
    pub fn fail(mut self) -> Self {
        self.0.push(4);
        self
    }
    pub fn resize(mut self, idx: u8, len: u16) -> Self {
        self.0.extend_from_slice(&[5, idx]);
        self.0.extend_from_slice(&len.to_le_bytes());
        self
    }
    pub fn assign(mut self, idx: u8, owner: &Key) -> Self {
        self.0.extend_from_slice(&[6, idx]);
        self.0.extend_from_slice(owner);
        self
    }
}
pub fn puppet(e: &mut Exec, metas: &[Meta], d: &[u8]) -> R<()> {
    let mut p = 0usize;
    let bad = || "puppet: bad script".to_string();
    while p < d.len() {
        match d[p] {
            0 => p += 1,
            1 => {
                let idx = *d.get(p + 1).ok_or_else(bad)? as usize;
                let off = u16::from_le_bytes(d.get(p + 2..p + 4).ok_or_else(bad)?.try_into().unwrap()) as usize;
                let n = *d.get(p + 4).ok_or_else(bad)? as usize;
                let b = d.get(p + 5..p + 5 + n).ok_or_else(bad)?.to_vec();
                let x = e.data_mut(&m(metas, idx)?)?;
                if off + n > x.len() {
                    return er("puppet: range");
                }
                x[off..off + n].copy_from_slice(&b);
                p += 5 + n;
            }
            2 => {
                let (f, t) = (m(metas, *d.get(p + 1).ok_or_else(bad)? as usize)?, m(metas, *d.get(p + 2).ok_or_else(bad)? as usize)?);
                let amt = u64le(d, p + 3)?;
                e.debit(&f, amt)?;
                e.credit(&t, amt)?;
                p += 11;
            }
            3 => {
                let prog = m(metas, *d.get(p + 1).ok_or_else(bad)? as usize)?.key;
                let n = *d.get(p + 2).ok_or_else(bad)? as usize;
                let mut q = p + 3;
                let mut mm = vec![];
                for _ in 0..n {
                    let i = *d.get(q).ok_or_else(bad)? as usize;
                    let fl = *d.get(q + 1).ok_or_else(bad)?;
                    mm.push(Meta { key: m(metas, i)?.key, signer: fl & 1 == 1, writable: fl & 2 == 2 });
                    q += 2;
                }
                let len = u16::from_le_bytes(d.get(q..q + 2).ok_or_else(bad)?.try_into().unwrap()) as usize;
                q += 2;
                let data = d.get(q..q + len).ok_or_else(bad)?.to_vec();
                e.cpi(&prog, &mm, &data, &[], None)?;
                p = q + len;
            }
            4 => return er("puppet: scripted failure"),
            5 => {
                let a = m(metas, *d.get(p + 1).ok_or_else(bad)? as usize)?;
                let n = u16::from_le_bytes(d.get(p + 2..p + 4).ok_or_else(bad)?.try_into().unwrap()) as usize;
                e.data_mut(&a)?.resize(n, 0);
                p += 4;
            }
            6 => {
                let a = m(metas, *d.get(p + 1).ok_or_else(bad)? as usize)?;
                let o: Key = d.get(p + 2..p + 34).ok_or_else(bad)?.try_into().unwrap();
                e.set_owner(&a, o)?;
                p += 34;
            }
            _ => return er("puppet: bad op"),
        }
    }
    Ok(())
}
