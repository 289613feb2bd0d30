//! What the checks compare against, written from the DLT v1 specification and the crate's documentation and
//! not from its code.
pub const MARK: [u8; 4] = [0x44, 0x4c, 0x54, 0x01];

pub fn be16(b: &[u8], o: usize) -> u16 { (b[o] as u16) * 256 + b[o + 1] as u16 }
pub fn be32(b: &[u8], o: usize) -> u32 { ((b[o] as u32) << 24) | ((b[o + 1] as u32) << 16) | ((b[o + 2] as u32) << 8) | b[o + 3] as u32 }
pub fn le32(b: &[u8], o: usize) -> u32 { ((b[o + 3] as u32) << 24) | ((b[o + 2] as u32) << 16) | ((b[o + 1] as u32) << 8) | b[o] as u32 }

/// A message format: where a marker is, and the length of a complete message at a marker.
pub trait Format {
    const MLEN: usize;
    const MAXLEN: usize;
    const FIRST: u8;
    /// the first place in `o..to` that is not known to be without a marker
    fn hop(b: &[u8], o: usize, to: usize) -> usize { if o + 64 > to { o } else { o + sxrt::skip(&b[o..to], Self::FIRST) } }
    fn marker_at(b: &[u8], o: usize) -> bool;
    /// length of the complete message starting at `o` (a marker is there), 0 if there is none
    fn msg_len(b: &[u8], o: usize) -> usize;
}
pub struct Dlt;
impl Format for Dlt {
    const MLEN: usize = 4;
    const MAXLEN: usize = 16 + 65535;
    const FIRST: u8 = 0x44;
    #[inline(always)]
    fn marker_at(b: &[u8], o: usize) -> bool { o + 4 <= b.len() && (b[o] == MARK[0]) & (b[o + 1] == MARK[1]) & (b[o + 2] == MARK[2]) & (b[o + 3] == MARK[3]) }
    fn msg_len(b: &[u8], o: usize) -> usize {
        if o + 20 > b.len() { return 0 }
        let l = be16(b, o + 18) as usize;
        if (l >= 4) & (l <= b.len() - o - 16) { l + 16 } else { 0 }
    }
}
/// one standard entry (no storage header) at `o`: its length, 0 if there is none
pub fn std_len(b: &[u8], o: usize) -> usize {
    if o + 4 > b.len() { return 0 }
    let l = be16(b, o + 2) as usize;
    if (l >= 4) & (l <= b.len() - o) { l } else { 0 }
}
/// offsets of the optional fields behind the standard header, from the header type byte
pub struct Layout { pub ecu: Option<usize>, pub tmsp: Option<usize>, pub ext: Option<usize>, pub payload: usize }
pub fn layout(htyp: u8) -> Layout {
    let mut o = 0;
    let mut l = Layout { ecu: None, tmsp: None, ext: None, payload: 0 };
    if htyp & 4 != 0 { l.ecu = Some(o); o += 4 }
    if htyp & 8 != 0 { o += 4 }
    if htyp & 16 != 0 { l.tmsp = Some(o); o += 4 }
    if htyp & 1 != 0 { l.ext = Some(o); o += 10 }
    l.payload = o;
    l
}
/// what a sequential reader sees: messages one after the other, junk skipped up to the next marker, end at a
/// marker that does not begin a complete message, or when no more than a marker's length is left
pub fn sequential<F: Format>(b: &[u8], from: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut o = from;
    loop {
        o = F::hop(b, o, b.len());
        while o + F::MLEN <= b.len() && !F::marker_at(b, o) { o = F::hop(b, o + 1, b.len()) }
        if o + F::MLEN >= b.len() { return v }
        let l = sxrt::fixed(F::msg_len(b, o));
        if l == 0 { return v }
        v.push((o, l));
        o += l;
    }
}
/// does every marker in `b` start one of the messages `v` or lie entirely inside one?
pub fn well_formed<F: Format>(b: &[u8], v: &[(usize, usize)]) -> bool {
    let mut ok = true;
    let mut p = 0;
    loop {
        p = F::hop(b, p, b.len());
        if p >= b.len() { return ok }
        let mut inside = false;
        for (o, l) in v { inside |= *o <= p && p + F::MLEN <= o + l }
        if !inside { ok &= !F::marker_at(b, p) }
        p += 1;
    }
}
