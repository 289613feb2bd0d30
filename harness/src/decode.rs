//! C01 to C04: the DLT types.
use crate::reference::*;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;
use sxrt::*;
use zerocopy::{AsBytes, FromBytes};

fn starts(a: &[u8], b: &[u8], o: usize) -> bool { a.as_ptr() as usize == b.as_ptr() as usize + o }

/// C01: what `try_read` of both entry types accepts and returns, for every length a buffer can have (the length stays
/// symbolic, so lengths of 0 to 65600 bytes are covered together) and every content of its first 24 bytes
fn c01() {
    let mut all = vec![0u8; 65600];
    bytes(&mut all[..24]);
    let n = u32() as usize;
    assume(n <= all.len());
    let b = &all[..n];
    // standard entry
    let want = std_len(b, 0);
    match DltEntry::try_read(b) {
        None => { cover(1); check(want == 0, "a complete standard entry is not read"); }
        Some((l, e)) => {
            cover(2);
            check(want != 0, "an entry is read where there is none complete");
            check(l == want, "bytes read of a standard entry");
            check(e.len() == want, "len() of a standard entry");
            check(e.header.length() == want, "header length of a standard entry");
            check(starts(e.tail, b, 4), "start of the tail of a standard entry");
            check(e.tail.len() + 4 == want, "end of the tail of a standard entry");
            check(e.header.header_type.as_bytes()[0] == b[0], "header type byte");
            check(e.header.as_bytes()[1] == b[1], "message counter byte");
            check(e.len() <= <DltEntry as FromBytesReadableTrait>::max_len(), "a standard entry longer than max_len()");
            observe(l as u64);
        }
    }
    // storage entry
    let m = Dlt::marker_at(b, 0);
    let want = if m { Dlt::msg_len(b, 0) } else { 0 };
    let storage = |r: Option<(usize, DltStorageEntry)>, want: usize, c: u32| match r {
        None => { cover(c); check(want == 0, "a complete storage entry is not read"); }
        Some((l, e)) => {
            cover(c + 1);
            check(want != 0, "a storage entry is read where there is none complete");
            check(l == want, "bytes read of a storage entry");
            check(e.len() == want, "len() of a storage entry");
            check(starts(e.dlt.tail, b, 20), "start of the tail of a storage entry");
            check(e.dlt.tail.len() + 20 == want, "end of the tail of a storage entry");
            check(e.storage_header.as_bytes() == &b[..16], "storage header bytes");
            check(e.storage_header.secs.get() == le32(b, 4), "storage header seconds");
            check(e.storage_header.msecs.get() == le32(b, 8) as i32, "storage header microseconds");
            check(e.storage_header.ecu == [b[12], b[13], b[14], b[15]], "storage header ECU id");
            check(e.storage_header.pattern == MARK, "storage header pattern");
            check(e.dlt.header.as_bytes() == &b[16..20], "standard header bytes");
            check(e.len() <= <DltStorageEntry as FromBytesReadableTrait>::max_len(), "a storage entry longer than max_len()");
            observe(l as u64);
            observe(e.storage_header.secs.get() as u64);
        }
    };
    storage(DltStorageEntry::try_read(b), want, 3);
    if m { cover(5); storage(DltStorageEntry::try_read_valid_marker(b), want, 6); }
}
/// C01: no message can be longer than max_len(), for every length a header can state
fn c01_max() {
    let h = DltStandardHeader::new(DltHTyp::new(bool(), bool(), bool(), bool(), bool(), u8() & 7), u8(), u16());
    let sh = DltStorageHeader::new(MARK, u32(), 0, array());
    let l = h.length();
    let e = DltEntry { header: &h, tail: &[] };
    check(e.len() == l, "len() of a standard entry");
    check(e.len() <= <DltEntry as FromBytesReadableTrait>::max_len(), "a standard entry longer than max_len()");
    let e = DltStorageEntry { storage_header: &sh, dlt: e };
    check(e.len() == l + 16, "len() of a storage entry");
    check(e.len() <= <DltStorageEntry as FromBytesReadableTrait>::max_len(), "a storage entry longer than max_len()");
    check(<DltStorageEntry as SearchableMarkerTrait>::marker() == &MARK[..], "the storage marker");
    cover(6);
}
/// C02: the accessors of an entry with any header type, and any length a header can state (0..=65535, symbolic)
fn c02() {
    let mut all = vec![0u8; 65600];
    bytes(&mut all[..40]);
    let b = &all[..];
    let n = be16(b, 2) as usize;
    let (_, e) = match DltEntry::try_read(b) { Some(x) => x, None => { check(n < 4, "complete entry not read"); return } };
    let t = e.tail;
    let b = &all[4..];
    let h = fix(all[0] as u64 & 0x1f) as u8;
    let lay = layout(h);
    let ht = &e.header.header_type;
    check(ht.is_extended_header() == (h & 1 != 0), "is_extended_header");
    check(ht.is_msb_first() == (h & 2 != 0), "is_msb_first");
    check(ht.is_with_ecu_id() == (h & 4 != 0), "is_with_ecu_id");
    check(ht.is_with_session_id() == (h & 8 != 0), "is_with_session_id");
    check(ht.is_with_timestamp() == (h & 16 != 0), "is_with_timestamp");
    check(ht.version() == all[0] >> 5, "version");
    let want = lay.ecu.and_then(|o| if o + 8 <= n { Some(be32(b, o)) } else { None });
    check(e.ecu_id() == want, "ecu_id()");
    if want.is_some() { cover(10) } else { cover(11) }
    let want = lay.tmsp.and_then(|o| if o + 8 <= n { Some(be32(b, o)) } else { None });
    check(e.timestamp() == want, "timestamp()");
    if want.is_some() { cover(12) } else { cover(13) }
    let fits = lay.ext.map_or(false, |o| o + 14 <= n);
    match e.extended_header() {
        None => { cover(14); check(!fits, "an extended header that is there is not returned"); }
        Some(x) => {
            cover(15);
            check(fits, "an extended header is returned that is not there");
            let o = lay.ext.unwrap_or(0);
            check(x.as_bytes().as_ptr() as usize == t.as_ptr() as usize + o, "place of the extended header");
            check(x.noar == b[o + 1], "number of arguments");
            check(x.apid == [b[o + 2], b[o + 3], b[o + 4], b[o + 5]], "application id");
            check(x.ctid == [b[o + 6], b[o + 7], b[o + 8], b[o + 9]], "context id");
            check(x.msin.as_bytes()[0] == b[o], "message info byte");
        }
    }
    let fits = lay.payload + 4 <= n;
    match e.payload() {
        None => { cover(16); check(!fits, "payload() is None though the headers fit"); }
        Some(p) => {
            cover(17);
            check(fits, "payload() of an entry whose headers do not fit");
            check(starts(p, t, lay.payload), "start of the payload");
            check(p.len() + lay.payload + 4 == n, "end of the payload");
            observe(p.len() as u64);
        }
    }
}
/// C03: headers written by the constructors have the specified bytes, and reading them back gives the values
fn c03<const P: usize>() {
    let f = [bool(), bool(), bool(), bool(), bool()];
    let ver = u8() & 7;
    let ht = DltHTyp::new(f[0], f[1], f[2], f[3], f[4], ver);
    let want = (f[0] as u8) | (f[1] as u8) << 1 | (f[2] as u8) << 2 | (f[3] as u8) << 3 | (f[4] as u8) << 4 | ver << 5;
    check(ht.as_bytes() == &[want], "header type byte");
    check(ht.is_extended_header() == f[0] && ht.is_msb_first() == f[1] && ht.is_with_ecu_id() == f[2] && ht.is_with_session_id() == f[3] && ht.is_with_timestamp() == f[4] && ht.version() == ver, "header type flags read back");
    let (cnt, len) = (u8(), u16());
    let h = DltStandardHeader::new(ht, cnt, len);
    check(h.as_bytes() == &[want, cnt, (len >> 8) as u8, len as u8], "standard header bytes");
    check(h.length() == len as usize, "standard header length read back");
    let (secs, us, ecu) = (u32(), u32() as i32, array::<4>());
    let sh = DltStorageHeader::new(MARK, secs, us, ecu);
    let s = secs.to_le_bytes();
    let u = us.to_le_bytes();
    check(sh.as_bytes() == &[MARK[0], MARK[1], MARK[2], MARK[3], s[0], s[1], s[2], s[3], u[0], u[1], u[2], u[3], ecu[0], ecu[1], ecu[2], ecu[3]], "storage header bytes");
    check(sh.secs.get() == secs && sh.msecs.get() == us && sh.ecu == ecu && sh.pattern == MARK, "storage header read back");
    let (mi, noar, apid, ctid) = (u8(), u8(), array::<4>(), array::<4>());
    let eh = DltExtendedHeader::new(MessageType::read_from(&[mi]).unwrap(), noar, apid, ctid);
    check(eh.as_bytes() == &[mi, noar, apid[0], apid[1], apid[2], apid[3], ctid[0], ctid[1], ctid[2], ctid[3]], "extended header bytes");
    // a whole message put together from them
    let (fe, fs, ft, fx) = (bool(), bool(), bool(), bool());
    let p = pick(P + 1);
    let (id, seid, ts) = (array::<4>(), array::<4>(), u32());
    let payload = array::<P>();
    let mut m: Vec<u8> = vec![];
    m.extend_from_slice(sh.as_bytes());
    let total = 4 + if fe { 4 } else { 0 } + if fs { 4 } else { 0 } + if ft { 4 } else { 0 } + if fx { 10 } else { 0 } + p;
    m.extend_from_slice(DltStandardHeader::new(DltHTyp::new(fx, f[1], fe, fs, ft, ver), cnt, total as u16).as_bytes());
    if fe { m.extend_from_slice(&id) }
    if fs { m.extend_from_slice(&seid) }
    if ft { m.extend_from_slice(&ts.to_be_bytes()) }
    if fx { m.extend_from_slice(eh.as_bytes()) }
    m.extend_from_slice(&payload[..p]);
    match DltStorageEntry::try_read(&m) {
        None => check(false, "a message just written is not read"),
        Some((l, e)) => {
            cover(20);
            check(l == m.len(), "bytes read of the message written");
            check(e.storage_header.ecu == ecu && e.storage_header.secs.get() == secs && e.storage_header.msecs.get() == us, "storage header of the message written");
            check(e.dlt.ecu_id() == if fe { Some(u32::from_be_bytes(id)) } else { None }, "ecu_id of the message written");
            check(e.dlt.timestamp() == if ft { Some(ts) } else { None }, "timestamp of the message written");
            match e.dlt.extended_header() {
                None => check(!fx, "extended header of the message written is missing"),
                Some(x) => check(fx && x.noar == noar && x.apid == apid && x.ctid == ctid && x.msin.as_bytes()[0] == mi, "extended header of the message written"),
            }
            check(e.dlt.payload() == Some(&payload[..p]), "payload of the message written");
            observe(l as u64);
        }
    }
}
fn type_code(t: DltMessageType) -> (u8, u8) {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    match t {
        DltMessageType::DltTypeLog(x) => (0, match x { DltLogFatal => 1, DltLogDltError => 2, DltLogWarn => 3, DltLogInfo => 4, DltLogDebug => 5, DltLogVerbose => 6 }),
        DltMessageType::DltTypeAppTrace(x) => (1, match x { DltTraceVariable => 1, DltTraceFunctionIn => 2, DltTraceFunctionOut => 3, DltTraceState => 4, DltTraceVfb => 5 }),
        DltMessageType::DltTypeNwTrace(x) => (2, match x { DltNwTraceIpc => 1, DltNwTraceCan => 2, DltNwTraceFlexray => 3, DltNwTraceMost => 4, DltNwTraceEthernet => 5, DltNwTraceSomeip => 6 }),
        DltMessageType::DltTypeControl(x) => (3, match x { DltControlRequest => 1, DltControlResponse => 2 }),
    }
}
fn type_of(mstp: u8, mtin: u8) -> Option<DltMessageType> {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    Some(match (mstp, mtin) {
        (0, 1) => DltMessageType::DltTypeLog(DltLogFatal), (0, 2) => DltMessageType::DltTypeLog(DltLogDltError), (0, 3) => DltMessageType::DltTypeLog(DltLogWarn),
        (0, 4) => DltMessageType::DltTypeLog(DltLogInfo), (0, 5) => DltMessageType::DltTypeLog(DltLogDebug), (0, 6) => DltMessageType::DltTypeLog(DltLogVerbose),
        (1, 1) => DltMessageType::DltTypeAppTrace(DltTraceVariable), (1, 2) => DltMessageType::DltTypeAppTrace(DltTraceFunctionIn), (1, 3) => DltMessageType::DltTypeAppTrace(DltTraceFunctionOut),
        (1, 4) => DltMessageType::DltTypeAppTrace(DltTraceState), (1, 5) => DltMessageType::DltTypeAppTrace(DltTraceVfb),
        (2, 1) => DltMessageType::DltTypeNwTrace(DltNwTraceIpc), (2, 2) => DltMessageType::DltTypeNwTrace(DltNwTraceCan), (2, 3) => DltMessageType::DltTypeNwTrace(DltNwTraceFlexray),
        (2, 4) => DltMessageType::DltTypeNwTrace(DltNwTraceMost), (2, 5) => DltMessageType::DltTypeNwTrace(DltNwTraceEthernet), (2, 6) => DltMessageType::DltTypeNwTrace(DltNwTraceSomeip),
        (3, 1) => DltMessageType::DltTypeControl(DltControlRequest), (3, 2) => DltMessageType::DltTypeControl(DltControlResponse),
        _ => return None,
    })
}
/// C04: the message info byte, decoded, for each of its 256 values, and every type encoded
fn c04() {
    let b = u8();
    let m = match MessageType::read_from(&[b]) { Some(m) => m, None => { check(false, "one byte"); return } };
    check(m.is_verbose() == (b & 1 == 1), "verbose flag");
    let want = type_of(b >> 1 & 7, b >> 4);
    check(m.message_type() == want, "message type of an info byte");
    check(m.info() == (b & 1 == 1, want), "info() of an info byte");
    match want { None => cover(30), Some(t) => { cover(31); observe(type_code(t).1 as u64) } }
    // encode
    let (s, i, v) = (u8() & 3, u8() & 15, bool());
    if let Some(t) = type_of(s, i) {
        cover(32);
        let m = MessageType::create_message_type(v, t);
        check(m.is_verbose() == v, "verbose flag of a created message type");
        check(m.message_type() == Some(t), "a created message type reads back as another");
        check(m.as_bytes() == &[(v as u8) | s << 1 | i << 4], "byte of a created message type");
        check(type_code(t) == (s, i), "type codes");
    }
}
crate::entries! {
    h_c01 => c01(), h_c01_max => c01_max(),
    h_c02 => c02(),
    h_c03_q => c03::<4>(), h_c03_t => c03::<24>(),
    h_c04 => c04(),
}
