//! A small message format for the format-generic iterators of matchit: a two-byte marker, one length byte
//! (the length of the whole message, 3..=MAX), any body. Small enough that whole buffers are free bytes.
use crate::reference::Format;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;

pub const M0: u8 = 0xd1;
pub const M1: u8 = 0x7a;

#[derive(Debug, Clone, Copy)]
pub struct Mini<'b, const MAX: usize> { pub all: &'b [u8] }
impl<'b, const MAX: usize> FromBytesReadableTrait<'b> for Mini<'b, MAX> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        if b.len() < 3 || !((b[0] == M0) & (b[1] == M1)) { return None }
        Self::try_read_valid_marker(b)
    }
    fn len(&self) -> usize { self.all.len() }
    fn max_len() -> usize { MAX }
}
impl<'b, const MAX: usize> SearchableMarkerTrait<'b> for Mini<'b, MAX> {
    fn marker() -> &'static [u8] { &[M0, M1] }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        if b.len() < 3 { return None }
        let l = b[2] as usize;
        if !((l >= 3) & (l <= MAX) & (l <= b.len())) { return None }
        let l = sxrt::fixed(l);
        Some((l, Mini { all: &b[..l] }))
    }
}
pub struct MiniF<const MAX: usize>;
impl<const MAX: usize> Format for MiniF<MAX> {
    const MLEN: usize = 2;
    const MAXLEN: usize = MAX;
    const FIRST: u8 = M0;
    #[inline(always)]
    fn marker_at(b: &[u8], o: usize) -> bool { o + 2 <= b.len() && (b[o] == M0) & (b[o + 1] == M1) }
    fn msg_len(b: &[u8], o: usize) -> usize {
        if o + 3 > b.len() { return 0 }
        let l = b[o + 2] as usize;
        if (l >= 3) & (l <= MAX) & (l <= b.len() - o) { l } else { 0 }
    }
}

/// the real entry type; after a message was read, one path per length it may have
#[derive(Debug, Clone, Copy)]
pub struct Each<'b> { pub t: rapiddlt::dlt_v1::DltStorageEntry<'b>, pub l: usize }
impl<'b> FromBytesReadableTrait<'b> for Each<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let (n, t) = rapiddlt::dlt_v1::DltStorageEntry::try_read(b)?;
        let l = sxrt::fixed(t.len());
        Some((sxrt::fixed(n), Each { t, l }))
    }
    fn len(&self) -> usize { self.l }
    fn max_len() -> usize { rapiddlt::dlt_v1::DltStorageEntry::max_len() }
}
impl<'b> SearchableMarkerTrait<'b> for Each<'b> {
    fn marker() -> &'static [u8] { rapiddlt::dlt_v1::DltStorageEntry::marker() }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        let (n, t) = rapiddlt::dlt_v1::DltStorageEntry::try_read_valid_marker(b)?;
        let l = sxrt::fixed(t.len());
        Some((sxrt::fixed(n), Each { t, l }))
    }
}
