//! C20 to C24: ripdlt, and loading files.
use crate::reference::*;
use crate::world::*;
use sxrt::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- files
/// a kind of message: header type, and how many bytes follow the standard header
type Kind = (u8, usize);
const ECUS: [[u8; 4]; 3] = [*b"ECU1", *b"AB\xffC", *b"E\0\0\0"];
/// a time of the storage header: the last byte free, the others all zeros or all ones
fn secs(b: &mut [u8]) { let hi = [0, 0xff][pick(2)]; b.copy_from_slice(&[u8(), hi, hi, hi]) }
/// a time stamp: the lower half free, the upper one a choice
fn tmsp(b: &mut [u8]) { let hi = [0u16, 0x112, 0xffff][pick(3)].to_be_bytes(); let v = array::<2>(); b.copy_from_slice(&[hi[0], hi[1], v[0], v[1]]) }
/// msin: how many of the messages have any message info, the others one of five
struct Shape { kinds: &'static [Kind], max: usize, ecus: usize, secs: bool, tmsp: bool, msin: usize, text: bool, junk: usize }
const PLAIN: Shape = Shape { kinds: &[(0x20, 3)], max: 2, ecus: 1, secs: false, tmsp: false, msin: 0, text: false, junk: 1 };
const TEXT: &[&[u8]] = &[b"Hello World\n", b"xHello World", b"Hello Worl", b"HHello WorldHello World\n", b"HelloWorld\n", b""];
fn file(s: &Shape) -> Vec<u8> {
    let mut b = vec![];
    let n = pick(s.max + 1);
    for i in 0..n {
        let mut m = b"DLT\x01\0\0\0\0\0\0\0\0".to_vec();
        if s.secs { secs(&mut m[4..8]) }
        m.extend(ECUS[pick(s.ecus)]);
        let (h, l) = s.kinds[pick(s.kinds.len())];
        let y = layout(h);
        let mut tail = std::vec![b'.'; l];
        if let (true, Some(t)) = (s.tmsp, y.tmsp) { if t + 4 <= l { tmsp(&mut tail[t..t + 4]) } }
        if let Some(e) = y.ecu { if e + 4 <= l { tail[e..e + 4].copy_from_slice(&ECUS[pick(s.ecus)]) } }
        if let (true, Some(x)) = (s.msin > 0, y.ext) { if x < l { tail[x] = if i < s.msin { u8() } else { [0, 0x41, 0x26, 0x31, 0xff][pick(5)] } } }
        if s.text { tail.extend(TEXT[pick(TEXT.len())]) }
        m.extend([h, 0]); m.extend(((tail.len() + 4) as u16).to_be_bytes()); m.extend(tail);
        b.extend(m);
        if s.junk > 1 { match pick(s.junk) { 0 => {} 1 => b.push(b'-'), 2 => b.extend(b"Hello World\n"), _ => b.extend(b"DLT\x01\0\0") } }
    }
    b
}
pub struct Msg<'a> { pub secs: u32, pub ecu: [u8; 4], pub len: usize, pub htyp: u8, pub tmsp: Option<u32>, pub hecu: Option<u32>, pub msin: Option<u8>, pub payload: Option<&'a [u8]> }
fn messages(b: &[u8]) -> Vec<Msg<'_>> {
    sequential::<Dlt>(b, 0).into_iter().map(|(o, l)| {
        let t = &b[o + 20..o + l];
        let htyp = fixed(b[o + 16] as usize) as u8;
        let y = layout(htyp);
        let word = |p: Option<usize>| match p { Some(p) if p + 4 <= t.len() => Some(be32(t, p)), _ => None };
        Msg { secs: le32(b, o + 4), ecu: [b[o + 12], b[o + 13], b[o + 14], b[o + 15]], len: l, htyp, tmsp: word(y.tmsp), hecu: word(y.ecu),
            msin: match y.ext { Some(p) if p + 10 <= t.len() => Some(t[p]), _ => None }, payload: if y.payload <= t.len() { Some(&t[y.payload..]) } else { None } }
    }).collect()
}

// ---------------------------------------------------------------- what is printed
/// what is printed, read from the front; a number that depends on free bytes is printed by the symbolic executor as a
/// byte 1 and its eight bytes
pub struct Text<'a> { b: &'a [u8], at: usize }
impl Text<'_> {
    pub fn lit(&mut self, s: &[u8], m: &'static str) {
        check(self.at + s.len() <= self.b.len(), m);
        for (i, c) in s.iter().enumerate() { check(self.b[self.at + i] == *c, m) }
        self.at += s.len();
    }
    pub fn num(&mut self, m: &'static str) -> u64 {
        check(self.at < self.b.len(), m);
        if SYM && self.b[self.at] == 1 { let mut v = 0; for i in 0..8 { v = v << 8 | self.b[self.at + 1 + i] as u64 } self.at += 9; return v }
        let (mut v, mut k) = (0u64, 0);
        while self.at < self.b.len() && (self.b[self.at] >= b'0') & (self.b[self.at] <= b'9') { v = v * 10 + (self.b[self.at] - b'0') as u64; self.at += 1; k += 1 }
        check(k > 0, m);
        v
    }
    pub fn is(&mut self, v: u64, m: &'static str) { let w = self.num(m); check(w == v, m) }
    fn end(&self, m: &'static str) { check(self.at == self.b.len(), m) }
}
fn lossy(e: &[u8; 4]) -> Vec<u8> { let mut o = vec![]; for b in e { if *b < 0x80 { o.push(*b) } else { o.extend("\u{fffd}".as_bytes()) } } o }

/// run a command on the file; what it prints behind the line that repeats the arguments is given to `f`
pub fn ripdlt(cmd: &str, w: &mut World, f: impl Fn(&mut Text)) {
    w.args = std::vec![if bool() { b"mmap".to_vec() } else { b"read".to_vec() }, cmd.as_bytes().to_vec(), file_name().into_bytes()];
    // the mapping of an empty file is refused by the system
    if w.file.is_empty() { w.args[0] = b"read".to_vec() }
    if w.cpus == 0 { w.cpus = 1 }
    // natively, commands with threads are run on the real thread pool and on its model, which follows the schedule
    w.sched = if SYM { vec![] } else { rest() };
    for t in if !SYM && std::env::var_os("VX_PREEMPT").is_some() { &["ripdlt_sched"][..] } else if SYM || !cmd.starts_with("par_") { &["ripdlt"][..] } else { &["ripdlt", "ripdlt_sched"] } {
        let r = run_tool(t, w);
        check(r.code == 0, "the command fails");
        let start = r.out.iter().position(|c| *c == b'\n').map_or(0, |p| p + 1);
        let mut t = Text { b: &r.out, at: start };
        f(&mut t);
        t.end("something is printed behind the result");
    }
}
fn histogram<K: Ord + Copy>(it: impl Iterator<Item = K>) -> BTreeMap<K, u64> { let mut m = BTreeMap::new(); for k in it { *m.entry(k).or_insert(0) += 1 } m }
fn contains(b: &[u8], s: &[u8]) -> bool { let mut r = false; for w in b.windows(s.len()) { r |= w == s } r }
fn occurrences(b: &[u8], s: &[u8]) -> u64 { let (mut n, mut p) = (0, 0); while p + s.len() <= b.len() { if &b[p..p + s.len()] == s { n += 1; p += s.len() } else { p += 1 } } n }
const HELLO: &[u8] = b"Hello World";
pub fn sum_line(t: &mut Text, n: u64, what: &str) { t.is(n, "the number printed"); t.lit(what.as_bytes(), "the line printed"); }

// ---------------------------------------------------------------- C20
/// numbers of messages and of messages with the text
fn counts(f: Vec<u8>, c: u32) { let k = pick(3); one_count(f, k, c) }
/// any bytes at all; for the text, as much of it free as the search for it allows
fn any_counts(n: usize, text: usize, c: u32) {
    match pick(3) {
        0 => one_count(vec([0, 1, 16, 20, n - 1, n][pick(6)]), 0, c),
        1 => { let mut f = b"-DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0\0".to_vec(); let l = pick(text + 1); f.push(4 + l as u8); f.extend(nearly(l)); one_count(f, 1, c) }
        _ => one_count({ let l = pick(text + 1); nearly(l) }, 2, c),
    }
}
/// n bytes of the text over and over from any of its places, two of them free
fn nearly(n: usize) -> Vec<u8> {
    let s = pick(HELLO.len());
    let mut v: Vec<u8> = (0..n).map(|i| HELLO[(s + i) % HELLO.len()]).collect();
    if n > 1 { let i = pick(n - 1); let j = i + 1 + pick(n - 1 - i); v[i] = u8(); v[j] = u8() }
    v
}
fn one_count(f: Vec<u8>, k: usize, c: u32) {
    let m = messages(&f);
    let n = m.len() as u64;
    let with = if k == 1 { m.iter().filter(|x| contains(x.payload.unwrap_or(&[]), HELLO)).count() as u64 } else { 0 };
    let raw = if k == 2 { occurrences(&f, HELLO) } else { 0 };
    cover(c + n.min(3) as u32);
    if with > 0 { cover(c + 4) }
    if raw > 0 { cover(c + 5) }
    if m.iter().any(|x| x.payload.is_none()) { cover(c + 6) }
    let mut w = World { file: f.clone(), ..Default::default() };
    match k {
        0 => ripdlt("count", &mut w, |t| sum_line(t, n, " messages\n")),
        1 => ripdlt("count_hello_world", &mut w, |t| sum_line(t, with, " hello world messages\n")),
        _ => ripdlt("count_hello_world_raw", &mut w, |t| sum_line(t, raw, " raw hello world matches\n")),
    }
    observe(n); observe(with); observe(raw);
}
/// the text over and over: none of a long file's parts is without it
fn raw_long(n: usize, c: u32) {
    let s = pick(2) * 5;
    let mut f: Vec<u8> = (0..n).map(|i| HELLO[(s + i) % HELLO.len()]).collect();
    f[n / 2] = u8();
    let raw = occurrences(&f, HELLO);
    let mut w = World { file: f, ..Default::default() };
    cover(c);
    ripdlt("count_hello_world_raw", &mut w, |t| sum_line(t, raw, " raw hello world matches\n"));
    observe(raw);
}
/// streams in which a line with the text ends within its message: the pattern's matches lie in one message
fn grep_counts(c: u32) {
    const LINES: &[&[u8]] = &[b"Hello World\n", b"xHello World.\n", b"Hello Worl\n", b"HHello WorldHello World\n", b"H World\n", b"\n"];
    let mut f = vec![];
    let n = pick(4);
    let mut with = 0;
    for _ in 0..n {
        let t = LINES[pick(LINES.len())];
        if contains(t, b" World") { with += 1 }
        f.extend(b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0\0"); f.push(4 + t.len() as u8); f.extend(t);
        if pick(2) == 1 { f.extend(b"--\n") }
    }
    cover(c + with.min(2) as u32);
    let k = pick(3);
    if k == 2 {
        let mut w = World { file: f.clone(), cpus: 1 + pick(3) as u8, ..Default::default() };
        let (cpus, parts) = (w.cpus as u64, rapidparts(&f, w.cpus as usize));
        if parts.len() > 1 { cover(c + 3) }
        return ripdlt("par_count_hello_world_grepit", &mut w, |t| { head(t, cpus, parts.len()); sum_line(t, with, " hello world messages\n") })
    }
    let mut w = World { file: f, ..Default::default() };
    match k {
        0 => ripdlt("count_hello_world_grepit", &mut w, |t| sum_line(t, with, " hello world messages\n")),
        _ => ripdlt("histogram_hello_world", &mut w, |t| {
            t.lit(b"Distribution of 'Hello World' matches:\n", "the line printed");
            if with > 0 { t.lit(b"Offset 0M-100M: ", "the line printed"); t.is(with, "the number printed"); t.lit(b"\n", "the line printed") }
        }),
    }
    observe(with);
}
/// parallel commands on well-formed streams, any number of processors: the same numbers
fn par_counts(f: Vec<u8>, c: u32) {
    let m = messages(&f);
    let n = m.len() as u64;
    let with = m.iter().filter(|x| contains(x.payload.unwrap_or(&[]), HELLO)).count() as u64;
    let mut w = World { file: f.clone(), cpus: 1 + pick(4) as u8, ..Default::default() };
    cover(c + w.cpus as u32);
    let parts = rapidparts(&f, w.cpus as usize);
    if parts.len() > 1 { cover(c + 5) }
    let raw: u64 = parts.iter().map(|p| occurrences(p, HELLO)).sum();
    let cpus = w.cpus as u64;
    match pick(3) {
        0 => ripdlt("par_count", &mut w, |t| { head(t, cpus, parts.len()); sum_line(t, n, " messages\n") }),
        1 => ripdlt("par_count_hello_world", &mut w, |t| { head(t, cpus, parts.len()); sum_line(t, with, " hello world messages\n") }),
        _ => ripdlt("par_count_hello_world_raw", &mut w, |t| { head(t, cpus, parts.len()); sum_line(t, raw, " hello world messages\n") }),
    }
    observe(n);
}
fn head(t: &mut Text, cpus: u64, parts: usize) { t.lit(b"available parallelism = ", "the line printed"); t.is(cpus, "the parallelism printed"); t.lit(b", slices = ", "the line printed"); t.is(parts as u64, "the number of slices"); t.lit(b"\n", "the line printed") }
fn rapidparts(f: &[u8], n: usize) -> Vec<&[u8]> { matchit::partition_from::<rapiddlt::dlt_v1::DltStorageEntry>(f, n) }

// ---------------------------------------------------------------- C21
// the names are the ones of the types themselves, C04 decides which type a byte is
fn info(msin: u8) -> (bool, Option<rapiddlt::dlt_v1::DltMessageType>) { <rapiddlt::dlt_v1::MessageType as zerocopy::FromBytes>::read_from(&[msin]).unwrap().info() }
pub fn type_name(msin: u8) -> Vec<u8> { format!("{:?}: ", info(msin)).into_bytes() }
fn sizes(f: Vec<u8>, c: u32) {
    let m = messages(&f);
    cover(c + (m.len() as u32).min(3));
    let mut w = World { file: f.clone(), ..Default::default() };
    let list = |h: BTreeMap<usize, u64>, head: &'static str, total: &'static str| move |t: &mut Text| {
        t.lit(head.as_bytes(), "the heading");
        let mut all = 0;
        for (k, v) in &h {
            t.is(*k as u64, "a size"); t.lit(b"b: ", "the line printed"); t.is(*v, "the number of messages of a size"); t.lit(b", overall: ", "the line printed");
            t.is(*k as u64 * *v / 1024, "a product"); t.lit(b" kB\n", "the line printed");
            all += *k as u64 * *v;
        }
        t.lit(total.as_bytes(), "the last line"); t.is(all / 1024, "the total"); t.lit(b" kB\n", "the last line");
    };
    if pick(2) == 0 { ripdlt("histogram_payload_size", &mut w, list(histogram(m.iter().map(|x| x.payload.map_or(0, |p| p.len()))), "Distribution of payload length:\n", "Payload in total: ")) }
    else { ripdlt("histogram_message_size", &mut w, list(histogram(m.iter().map(|x| x.len)), "Distribution of DLT message length:\n", "DLT messages in total: ")) }
    observe(m.len() as u64);
}
/// one or two messages whose sizes make more than a kilobyte
fn big_file() -> Vec<u8> {
    let mut f = vec![];
    for _ in 0..1 + pick(3) { let l = [1003usize, 1004, 1005, 2000, 65515, 65516, 65531][pick(7)]; f.extend(b"DLT\x01\0\0\0\0\0\0\0\0ECU1\x20\0"); f.extend((4 + l as u16).to_be_bytes()); f.extend(std::vec![b'.'; l]) }
    f
}
fn types(f: Vec<u8>, c: u32) {
    let m = messages(&f);
    let mut w = World { file: f.clone(), ..Default::default() };
    let v: Vec<u8> = m.iter().filter_map(|x| x.msin).map(|x| fixed(x as usize) as u8).collect();
    let h = histogram(v.iter().map(|x| info(*x)));
    cover(c + (h.len() as u32).min(2));
    if m.iter().any(|x| x.htyp & 1 == 1 && x.msin.is_none()) { cover(c + 3) }
    ripdlt("histogram_message_type", &mut w, |t| {
        t.lit(b"(verbose, message type): # dlt messages\n", "the heading");
        for (k, n) in &h {
            let first = v.iter().find(|x| info(**x) == *k).unwrap();
            t.lit(&type_name(*first), "the type"); t.is(*n, "the number of messages of a type"); t.lit(b"\n", "the line printed");
        }
    });
    observe(v.len() as u64);
}

// ---------------------------------------------------------------- C22
/// the maximal runs in which `f` relates every item to the one before: first and last of each
fn runs<T: Copy>(v: &[T], f: impl Fn(&T, &T) -> bool) -> Vec<(T, T)> {
    let mut out: Vec<(T, T)> = vec![];
    for (i, x) in v.iter().enumerate() { if i > 0 && f(&v[i - 1], x) { out.last_mut().unwrap().1 = *x } else { out.push((*x, *x)) } }
    out
}
fn secs_lines(h: BTreeMap<u64, u64>, head: &'static str) -> impl Fn(&mut Text) {
    move |t: &mut Text| {
        t.lit(head.as_bytes(), "the heading");
        for (k, n) in &h { t.is(*k, "a duration"); t.lit(b"-", "the line printed"); t.is(*k + 1, "a duration's end"); t.lit(b" secs: ", "the line printed"); t.is(*n, "the number of runs of a duration"); t.lit(b"\n", "the line printed") }
    }
}
type PerEcu = BTreeMap<[u8; 4], (BTreeMap<u64, u64>, u64)>;
fn ecu_lines(h: PerEcu, head: &'static str) -> impl Fn(&mut Text) {
    move |t: &mut Text| {
        t.lit(head.as_bytes(), "the heading");
        for (e, (d, n)) in &h {
            t.lit(&lossy(e), "the ECU"); t.lit(b" #lifecycles: ({", "the line printed");
            for (i, (k, v)) in d.iter().enumerate() { if i > 0 { t.lit(b", ", "the line printed") } t.is(*k, "a duration"); t.lit(b": ", "the line printed"); t.is(*v, "the number of runs of a duration") }
            t.lit(b"}, ", "the line printed"); t.is(*n, "the number of messages of an ECU"); t.lit(b")\n", "the line printed");
        }
    }
}
const LIFE: &str = "Distribution of lifecycle durations:\n";
const TIME: &str = "Durations of periods where DLT storage header timestamps are continuous:\n";
const LONG: u32 = 18000000;
fn per_ecu<'a>(m: &'a [Msg<'a>], keep: impl Fn(&Msg) -> bool) -> BTreeMap<[u8; 4], Vec<&'a Msg<'a>>> { let mut r: BTreeMap<[u8; 4], Vec<&Msg>> = BTreeMap::new(); for x in m.iter().filter(|x| keep(x)) { r.entry(x.ecu).or_default().push(x) } r }
fn spans(m: &[Msg]) -> PerEcu {
    per_ecu(m, |_| true).into_iter().map(|(e, v)| {
        let t: Vec<u32> = v.iter().map(|x| x.secs).collect();
        // a span is joined with the first one in order that it overlaps
        let mut kept: BTreeMap<(u32, u32), (u32, u32)> = BTreeMap::new();
        for n in runs(&t, |a, b| a <= b) {
            let hit = kept.values().copied().find(|p| n.0 <= p.1 && p.0 <= n.1);
            let new = match hit { Some(p) => { kept.remove(&p); (p.0.min(n.0), p.1.max(n.1)) } None => n };
            kept.insert(new, new);
        }
        (e, (histogram(kept.values().map(|p| (p.1 - p.0) as u64)), v.len() as u64))
    }).collect()
}
fn continuous(m: &[Msg]) -> BTreeMap<u64, u64> { let t: Vec<u32> = m.iter().map(|x| x.secs).collect(); histogram(runs(&t, |a, b| a <= b).into_iter().map(|p| (p.1 - p.0) as u64)) }
fn long_runs(m: &[Msg]) -> u64 { let t: Vec<u32> = m.iter().filter_map(|x| x.tmsp).collect(); runs(&t, |a, b| a <= b).into_iter().filter(|p| p.1 - p.0 >= LONG).count() as u64 }
fn per_ecu_runs(m: &[Msg]) -> PerEcu { per_ecu(m, |x| x.tmsp.is_some()).into_iter().map(|(e, v)| { let t: Vec<u32> = v.iter().map(|x| x.tmsp.unwrap()).collect(); (e, (histogram(runs(&t, |a, b| a <= b).into_iter().map(|p| ((p.1 - p.0) / 10000) as u64)), v.len() as u64)) }).collect() }
fn lifecycles(f: Vec<u8>, cmds: usize, c: u32) {
    let m = messages(&f);
    let t: Vec<u32> = m.iter().filter_map(|x| x.tmsp).collect();
    let mut w = World { file: f.clone(), ..Default::default() };
    if m.len() > t.len() { cover(c + 6) }
    let k = pick(cmds);
    cover(c + k as u32);
    match k {
        0 => { let n = long_runs(&m); if n > 0 { cover(c + 7) } ripdlt("iter", &mut w, |t| sum_line(t, n, " lifecycles >= 1800s\n")); observe(n) }
        1 => { let n = t.windows(2).filter(|p| p[0] <= p[1] && p[1] - p[0] >= LONG).count() as u64; ripdlt("itertools", &mut w, |t| sum_line(t, n, " lifecycles >= 1800s\n")); observe(n) }
        2 => {
            let v: Vec<(Option<u32>, u32)> = m.iter().filter_map(|x| x.tmsp.map(|t| (x.hecu, t))).collect();
            let h = histogram(runs(&v, |a, b| a.0 == b.0 && a.1 <= b.1).into_iter().map(|p| ((p.1.1 - p.0.1) / 10000) as u64));
            observe(h.len() as u64);
            ripdlt("histogram_lifecycles", &mut w, secs_lines(h, LIFE))
        }
        _ => {
            let h = per_ecu_runs(&m);
            observe(h.len() as u64);
            ripdlt("split_lifecycles", &mut w, ecu_lines(h, LIFE))
        }
    }
}
fn times(f: Vec<u8>, c: u32) {
    let m = messages(&f);
    let mut w = World { file: f.clone(), ..Default::default() };
    let k = pick(2);
    cover(c + k as u32);
    if k == 0 { let h = continuous(&m); observe(h.len() as u64); if h.len() > 1 { cover(c + 2) } ripdlt("histogram_timestamp", &mut w, secs_lines(h, TIME)) }
    else { let h = spans(&m); observe(h.len() as u64); if h.values().any(|x| x.0.len() > 1) { cover(c + 3) } ripdlt("split_timestamp", &mut w, ecu_lines(h, TIME)) }
}

/// two messages with any ECU ids that differ in a place or do not
fn ids(c: u32) {
    let p = pick(4);
    let mut f = vec![];
    for t in [7u8, 6] { f.extend(b"DLT\x01"); f.extend([t, 0, 0, 0, 0, 0, 0, 0]); let mut e = [[*b"EEEE", *b"E\0\0\0"], [*b"E  \0", *b"EEEE"]][(t == 6) as usize][pick(2)]; e[p] = u8(); f.extend(e); f.extend(b"\x30\0\0\x08"); f.extend([0, 0, 0, t]) }
    let m = messages(&f);
    let mut w = World { file: f.clone(), ..Default::default() };
    let k = pick(2);
    cover(c + k as u32);
    observe(m.len() as u64);
    if m[0].ecu == m[1].ecu { cover(c + 2) }
    if k == 0 { ripdlt("split_timestamp", &mut w, ecu_lines(spans(&m), TIME)) }
    else { ripdlt("split_lifecycles", &mut w, ecu_lines(per_ecu_runs(&m), LIFE)) }
}

// ---------------------------------------------------------------- C24
/// the parallel commands whose result is put together of those of the parts, for every way to put it together
fn parallel(f: Vec<u8>, max: u8, c: u32) {
    let cpus = max - pick(max as usize - 1) as u8;
    parallel_on(f, cpus, pick(4), c)
}
fn parallel_on(f: Vec<u8>, cpus: u8, k: usize, c: u32) {
    let parts = rapidparts(&f, cpus as usize);
    let each: Vec<Vec<Msg>> = parts.iter().map(|p| messages(p)).collect();
    cover(c + k as u32);
    cover(c + 4 + (parts.len() as u32).min(4));
    let mut w = World { file: f.clone(), cpus, ..Default::default() };
    match k {
        0 => {
            let mut h: BTreeMap<u64, u64> = BTreeMap::new();
            for m in &each { for (k, v) in continuous(m) { *h.entry(k).or_insert(0) += v } }
            observe(h.len() as u64);
            let l = secs_lines(h, "");
            ripdlt("par_histogram_timestamp", &mut w, |t| { t.lit(TIME.as_bytes(), "the heading"); head(t, cpus as u64, parts.len()); l(t) })
        }
        1 => {
            let mut h: PerEcu = BTreeMap::new();
            for m in &each { for (e, (d, n)) in spans(m) { let x = h.entry(e).or_default(); for (k, v) in d { *x.0.entry(k).or_insert(0) += v } x.1 += n } }
            observe(h.len() as u64);
            let l = ecu_lines(h, "");
            ripdlt("par_split_timestamp", &mut w, |t| { t.lit(TIME.as_bytes(), "the heading"); head(t, cpus as u64, parts.len()); l(t) })
        }
        2 => { let n: u64 = each.iter().map(|m| m.len() as u64).sum(); observe(n); ripdlt("par_count", &mut w, |t| { head(t, cpus as u64, parts.len()); sum_line(t, n, " messages\n") }) }
        _ => {
            // every part prints its line, in any order
            let mut want: Vec<u64> = each.iter().map(|m| long_runs(m)).collect();
            want.sort();
            observe(want.len() as u64);
            ripdlt("par_iter", &mut w, |t| {
                head(t, cpus as u64, parts.len());
                let mut got = vec![];
                for _ in &want { got.push(t.num("the number printed")); t.lit(b" lifecycles >= 1800s\n", "the line printed") }
                got.sort();
                check(got == want, "the numbers printed");
            })
        }
    }
}

/// messages of one ECU in two or three parts that hold different numbers of them, storage times below 256
fn uneven(shapes: &[&[usize]], c: u32) {
    let mut f = vec![];
    for l in shapes[pick(shapes.len())] { f.extend(b"DLT\x01"); f.extend([u8(), 0, 0, 0]); f.extend(b"\0\0\0\0ECU1\x20\0\0"); f.push(4 + *l as u8); f.resize(f.len() + l, b'.'); }
    parallel_on(f, 2 + pick(2) as u8, pick(2), c)
}

// ---------------------------------------------------------------- C23
/// loading a file under any schedule of reads
fn load(nmax: usize, calls: usize, menu: &[u8], c: u32) {
    let n = pick(nmax + 1);
    let content = vec(n);
    let s: Vec<u8> = (0..calls).map(|_| menu[pick(menu.len())]).collect();
    let r = load_file(&World { file: content.clone(), reads: s.clone(), ..Default::default() }, false);
    loaded(r, &content, &s, c)
}
fn loaded(r: Option<Vec<u8>>, content: &[u8], s: &[u8], c: u32) {
    // what the schedule gives: the reads up to the end of the file are without an error
    match r {
        None => { cover(c); check(s.contains(&255), "loading fails though no read does"); observe(0) }
        Some(v) => { cover(c + 1 + (content.len() > 0) as u32); check(v.len() == content.len(), "length of what is loaded"); for i in 0..v.len().min(content.len()) { check(v[i] == content[i], "bytes of what is loaded") } observe(1 + v.len() as u64) }
    }
}
/// files longer than the buffers in between
fn load_large(ns: &[usize], c: u32) {
    let n = ns[pick(ns.len())];
    let mut content = std::vec![b'.'; n];
    let at = [0, n / 2, n - 1][pick(3)];
    content[at] = u8();
    let s: Vec<u8> = match pick(5) { 0 => vec![], 1 => std::vec![250; 3], 2 => std::vec![0, 254, 250, 254], 3 => std::vec![0, 255], _ => std::vec![1, 255] };
    // an error behind the first read is one in front of the end of the file when there is more than a read's worth
    let r = load_file(&World { file: content.clone(), reads: s.clone(), ..Default::default() }, false);
    loaded(r, &content, &s, c)
}
fn map(nmax: usize, c: u32) {
    let n = 1 + pick(nmax);
    let content = vec(n);
    let r = load_file(&World { file: content.clone(), ..Default::default() }, true);
    check(r.is_some(), "mapping fails");
    loaded(r, &content, &[], c);
}
/// files around multiples of a page
fn map_large(ns: &[usize], c: u32) {
    let n = ns[pick(ns.len())];
    let mut content: Vec<u8> = (0..n).map(|i| i as u8 ^ (i >> 8) as u8).collect();
    let at = [0, n / 2, n - 1][pick(3)];
    content[at] = u8();
    let r = load_file(&World { file: content.clone(), ..Default::default() }, true);
    check(r.is_some(), "mapping fails");
    loaded(r, &content, &[], c);
}
fn absent() {
    let n = format!("{}.absent", file_name());
    set(World::default());
    check(rapiddlt::dltbuffer::DltBuffer::read_file(&n).is_err(), "a file that is not there is read");
    check(rapiddlt::dltbuffer::DltBuffer::mmap_file(&n).is_err(), "a file that is not there is mapped");
    cover(799);
}
fn load_file(w: &World, map: bool) -> Option<Vec<u8>> {
    set(w.clone());
    let n = file_name();
    let b = if map { rapiddlt::dltbuffer::DltBuffer::mmap_file(&n) } else { rapiddlt::dltbuffer::DltBuffer::read_file(&n) }.ok()?;
    check(b.len() == b.as_slice().len(), "len() of what is loaded");
    Some(b.as_slice().to_vec())
}

const KINDS: &[Kind] = &[(0x20, 3), (0x21, 14), (0x21, 5), (0x35, 2)];
const TIMED: &[Kind] = &[(0x30, 5), (0x34, 8), (0x20, 1), (0x30, 3)];
crate::entries! {
    h_cr_c20_q => counts(file(&Shape { kinds: &[(0x20, 0), (0x21, 10), (0x35, 2)], text: true, junk: 3, max: 2, ..PLAIN }), 640),
    h_cr_c20_t => counts(file(&Shape { kinds: &[(0x20, 0), (0x35, 2)], text: true, junk: 4, max: 3, ..PLAIN }), 640),
    h_cr_c20_any_q => any_counts(24, 13, 640), h_cr_c20_any_t => any_counts(41, 24, 640),
    h_cr_c20_raw_q => raw_long(70000, 654), h_cr_c20_raw_t => raw_long(270000, 654),
    h_cr_c20_grep_q => grep_counts(650),
    h_cr_c20_par_q => par_counts(file(&Shape { kinds: &[(0x20, 0), (0x21, 10)], text: true, max: 2, ..PLAIN }), 655),
    h_cr_c20_par_t => par_counts(file(&Shape { kinds: &[(0x20, 0), (0x21, 10), (0x20, 30)], text: true, max: 3, ..PLAIN }), 655),
    h_cr_c21_q => sizes(file(&Shape { kinds: KINDS, max: 3, junk: 2, ..PLAIN }), 665), h_cr_c21_t => sizes(file(&Shape { kinds: KINDS, max: 5, junk: 2, ..PLAIN }), 665),
    h_cr_c21_big => sizes(big_file(), 665),
    h_cr_c21_types_q => types(file(&Shape { kinds: &[(0x21, 10), (0x21, 9)], max: 2, msin: 1, ..PLAIN }), 670), h_cr_c21_types_t => types(file(&Shape { kinds: KINDS, max: 3, msin: 2, ..PLAIN }), 670),
    h_cr_c22_q => lifecycles(file(&Shape { kinds: TIMED, max: 2, tmsp: true, ecus: 2, ..PLAIN }), 4, 680), h_cr_c22_t => lifecycles(file(&Shape { kinds: TIMED, max: 3, tmsp: true, ecus: 3, ..PLAIN }), 4, 680),
    h_cr_c22_deep_q => lifecycles(file(&Shape { kinds: &[(0x30, 4)], max: 4, tmsp: true, ecus: 1, ..PLAIN }), 4, 680), h_cr_c22_deep_t => lifecycles(file(&Shape { kinds: &[(0x30, 4)], max: 6, tmsp: true, ecus: 1, ..PLAIN }), 4, 680),
    h_cr_c22_ids => ids(695),
    h_cr_c22_times_q => times(file(&Shape { max: 4, secs: true, ecus: 2, ..PLAIN }), 690), h_cr_c22_times_t => times(file(&Shape { max: 5, secs: true, ecus: 2, ..PLAIN }), 690),
    h_cr_c24_q => parallel(file(&Shape { kinds: &[(0x30, 4)], max: 4, secs: true, tmsp: false, ecus: 2, ..PLAIN }), 4, 700),
    h_cr_c24_t => parallel(file(&Shape { kinds: &[(0x30, 4)], max: 5, secs: true, tmsp: false, ecus: 1, ..PLAIN }), 5, 700),
    h_cr_c24_uneven_q => uneven(&[&[120, 0, 0, 0, 0], &[0, 0, 0, 0, 120], &[30, 30, 0, 0, 0], &[0, 0, 120, 0, 0], &[50, 120, 0, 0, 50, 0]], 710), h_cr_c24_uneven_t => uneven(&[&[200, 0, 0, 0, 0, 0], &[0, 0, 0, 0, 0, 200], &[0, 0, 0, 0, 0, 0, 0], &[50, 120, 0, 0, 50, 0], &[0, 0, 0, 150, 0, 0, 0]], 710),
    h_c23_q => load(4, 3, &[0, 1, 3, 254, 255], 720), h_c23_t => load(6, 5, &[0, 1, 2, 5, 254, 255], 720),
    h_c23_large_q => load_large(&[31, 33, 8192, 8193, 20000], 730), h_c23_large_t => load_large(&[31, 32, 33, 63, 65, 8191, 8192, 8193, 16384, 16385, 70000, 200000], 730),
    h_c23_map => map(20, 740), h_c23_map_large => map_large(&[4095, 4096, 4097, 8191, 8193, 66000], 740), h_c23_absent => absent(),
}
