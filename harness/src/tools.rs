//! C19 to C24: the command line tools.
use crate::world::*;
use sxrt::*;

/// what dd_dlt writes for the given chunks, byte by byte from the DLT specification
fn dd_expected(ecu: &[u8], app: &[u8], size: usize, input: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (k, c) in input.chunks_exact(size).enumerate() {
        let k = k as u32;
        o.extend(b"DLT\x01"); o.extend((k / 100).to_le_bytes()); o.extend((k % 100 * 10000).to_le_bytes()); o.extend(ecu);
        o.push(1 | 0x10 | 1 << 5); o.push(k as u8); o.extend(((4 + 4 + 10 + size) as u16).to_be_bytes());
        o.extend((k * 100).to_be_bytes());
        o.extend([1 | 4 << 4, 0]); o.extend(app); o.extend(app);
        o.extend(c);
    }
    o
}
fn same(a: &[u8], b: &[u8], m: &'static str) { check(a.len() == b.len(), m); for i in 0..a.len() { check(a[i] == b[i], m) } }

fn prefix(a: &[u8], b: &[u8], m: &'static str) { check(a.len() <= b.len(), m); for i in 0..a.len().min(b.len()) { check(a[i] == b[i], m) } }

/// the program is run; `fails`: the schedule has an error that must be reported
fn dd_run(size: usize, w: &mut World) -> Ran { let ids = (array(), array()); dd_with(ids, size, w) }
fn dd_with((ecu, app): ([u8; 4], [u8; 4]), size: usize, w: &mut World) -> Ran {
    for b in ecu.iter().chain(&app) { assume(*b > 0 && *b < 0x80) }
    w.cpus = 1;
    w.args = vec![ecu.to_vec(), app.to_vec(), size.to_string().into_bytes()];
    let r = run_tool("dd_dlt", w);
    let want = dd_expected(&ecu, &app, size, &w.stdin);
    if w.reads.contains(&255) || w.writes.contains(&255) { prefix(&r.out, &want, "output of dd_dlt in front of an error"); }
    else { check(r.code == 0, "dd_dlt fails"); same(&r.out, &want, "output of dd_dlt"); }
    observe(r.out.len() as u64); observe(r.code as u64);
    r
}
/// short inputs of free bytes, any chunk size up to `smax`
fn dd_small(smax: usize, nmax: usize, k: u32) {
    let size = 1 + pick(smax); let n = pick(nmax + 1);
    let mut w = World { stdin: vec(n), ..Default::default() };
    dd_run(size, &mut w);
    cover(k + (n / size).min(2) as u32);
}
/// inputs that come in pieces and output that goes in pieces, calls interrupted
fn dd_pieces(nmax: usize, calls: usize, k: u32) {
    const R: [u8; 4] = [0, 1, 254, 3];
    const W: [u8; 4] = [0, 1, 254, 17];
    let size = [1, 3, 4][pick(3)]; let n = pick(nmax + 1);
    let mut w = World { stdin: vec(n), ..Default::default() };
    if bool() { w.reads = (0..calls + 1).map(|_| R[pick(4)]).collect(); cover(k) } else { w.writes = (0..calls).map(|_| W[pick(4)]).collect(); cover(k + 1) }
    dd_with((*b"ECU1", *b"\x01\nAP"), size, &mut w);
}
/// errors of single reads and writes are reported
fn dd_errors(k: u32) {
    let n = pick(6);
    let mut w = World { stdin: vec(n), ..Default::default() };
    let at = pick(3);
    let mut s = vec![[0u8, 1, 2][pick(3)]; at]; s.push(255);
    let read = bool();
    if read { w.reads = s } else { w.writes = s }
    let r = dd_run(2, &mut w);
    // the error is met: the input is not at its end before, or something is left to write
    let calls = if read { w.reads[..at].iter().fold((0, false), |(p, _), _| { let q = if w.reads[0] == 0 { n } else { (p + w.reads[0] as usize).min(n) }; (q, q == n) }) } else { (0, false) };
    if read && (at == 0 || calls.0 < n) { cover(k); check(r.code != 0, "an error of reading is not reported") }
    if !read && n / 2 > 0 && at == 0 { cover(k + 1); check(r.code != 0, "an error of writing is not reported") }
}
/// chunks longer than the output's buffer with line ends in them
fn dd_large(sizes: &[usize], k: u32) {
    let size = sizes[pick(sizes.len())]; let chunks = 1 + pick(2);
    let mut w = World { stdin: std::vec![b'.'; size * chunks], ..Default::default() };
    let n = w.stdin.len();
    let at = [0, 1, 9, size / 2, size - 2, size - 1, n - 1][pick(7)];
    w.stdin[at] = u8();
    if bool() { let b = [255u8, 200, 39][pick(3)]; if b != 255 { w.writes = std::vec![b; 3]; cover(k + 1) } } else { w.reads = [0, 100].into(); }
    if w.stdin[at] == b'\n' { cover(k) }
    dd_run(size, &mut w);
}
/// many chunks: the counter of messages and the times
fn dd_many(n: usize, k: u32) {
    let mut w = World { stdin: std::vec![b'x'; n], ..Default::default() };
    w.stdin[n - 1] = u8();
    w.cpus = 1;
    w.args = std::vec![b"ECU1".to_vec(), b"APP1".to_vec(), b"1".to_vec()];
    let r = run_tool("dd_dlt", &w);
    check(r.code == 0, "dd_dlt fails");
    check(r.out == dd_expected(b"ECU1", b"APP1", 1, &w.stdin), "output of dd_dlt");
    observe(r.out.len() as u64);
    cover(k);
}
/// sizes for which there are no messages are refused, the greatest there is is not
fn dd_limits(k: u32) {
    let size = [0usize, 65517, 65518, 65519, 65534, 65535][pick(6)];
    let mut w = World { stdin: std::vec![b'.'; size + 1], ..Default::default() };
    w.stdin[0] = u8();
    if size == 65517 { dd_run(size, &mut w); cover(k); return }
    w.cpus = 1;
    w.args = std::vec![b"ECU1".to_vec(), b"APP1".to_vec(), size.to_string().into_bytes()];
    let r = run_tool("dd_dlt", &w);
    cover(k + 1);
    check(r.out.is_empty(), "output for a payload size that fits no message");
    check(r.code != 0, "no failure for a payload size that fits no message");
    observe(r.code as u64);
}
crate::entries! {
    h_cd_c19_small_q => dd_small(5, 8, 600), h_cd_c19_small_t => dd_small(6, 12, 600),
    h_cd_c19_pieces_q => dd_pieces(5, 3, 605), h_cd_c19_pieces_t => dd_pieces(7, 5, 605),
    h_cd_c19_errors => dd_errors(610),
    h_cd_c19_large_q => dd_large(&[1000, 1026, 1100, 20000], 615), h_cd_c19_large_t => dd_large(&[1000, 1026, 1100, 3000, 9000, 20000], 615),
    h_cd_c19_many => dd_many(66000, 620),
    h_cd_c19_limits => dd_limits(625),
}
