//! An independent reader of a stored wallet account.
use checks::model::*;
use checks::util::*;

#[derive(Clone, Debug, PartialEq)]
pub struct StRole {
    pub id: u32,
    pub kind: u16,
    pub auth: Vec<u8>,
    pub acts: Vec<(u16, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Stored {
    pub counter: u32,
    pub subs: u32,
    pub roles: Vec<StRole>,
}
impl StRole {
    pub fn ident(&self) -> Vec<u8> {
        match self.kind {
            K1T | K1S | R1T | R1S => self.auth[..33].to_vec(),
            _ => self.auth[..32].to_vec(),
        }
    }
    pub fn odo(&self) -> Option<u32> {
        matches!(self.kind, K1T | K1S | R1T | R1S).then(|| le32(&self.auth[36..]))
    }
    pub fn session(&self) -> bool {
        matches!(self.kind, EDS | K1S | R1S | PES)
    }
}
fn le16(d: &[u8]) -> usize {
    u16::from_le_bytes(d[..2].try_into().unwrap()) as usize
}
pub fn read(d: &[u8]) -> Option<Stored> {
    if d.len() < 48 || d[0] != 1 {
        return None;
    }
    let n = le16(&d[34..]);
    let mut s = Stored { counter: le32(&d[36..]), subs: 0, roles: vec![] };
    s.subs = le32(&d[SUBS_AT..]);
    let mut at = 48;
    for _ in 0..n {
        let p = d.get(at..at + 16)?;
        let (kind, al, na, id) = (le16(p) as u16, le16(&p[2..]), le16(&p[4..]), le32(&p[8..]));
        let auth = d.get(at + 16..at + 16 + al)?.to_vec();
        let mut a = at + 16 + al;
        let mut acts = vec![];
        for _ in 0..na {
            let h = d.get(a..a + 8)?;
            let (k, l) = (le16(h) as u16, le16(&h[2..]));
            acts.push((k, d.get(a + 8..a + 8 + l)?.to_vec()));
            a += 8 + l;
        }
        s.roles.push(StRole { id, kind, auth, acts });
        at = a;
    }
    Some(s)
}
const SUBS_AT: usize = 44;
