//! regex::bytes for the patterns the harnesses and tools use, by the crate's documented leftmost-first
//! semantics, as a small backtracking matcher. Used only in the symbolic build; the native replay runs the
//! real crate, and sampled paths are compared with it. Anything outside the subset is an `Err`.
pub mod bytes {
    use std::ops::Range;
    #[derive(Debug, Clone)]
    enum Node { Byte(u8), Any, AnyNl, AnyByte, AnyByteNl, Class(Vec<(u8, u8)>, bool), Cat(Vec<Node>), Alt(Vec<Node>), Rep(Box<Node>, usize, usize, bool), Group(Box<Node>, usize), Start, End, LineStart, LineEnd, Wb, NoWb }
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for Error {}
    #[derive(Debug, Clone)]
    pub struct Regex { n: Node, groups: usize, names: Vec<(String, usize)>, src: String }
    struct Parser<'p> { s: &'p [u8], i: usize, groups: usize, names: Vec<(String, usize)>, unicode: bool, dotall: bool, nocase: bool, multi: bool, lazy: bool }
    type R<T> = Result<T, Error>;
    fn bad<T>() -> R<T> { Err(Error("outside the modelled subset of regex syntax".into())) }
    impl<'p> Parser<'p> {
        fn peek(&self) -> Option<u8> { self.s.get(self.i).copied() }
        fn alt(&mut self) -> R<Node> {
            let f = self.get();
            let mut v = vec![self.cat()?];
            while self.peek() == Some(b'|') { self.i += 1; v.push(self.cat()?); }
            self.set(f);
            Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
        }
        fn cat(&mut self) -> R<Node> {
            let mut v = vec![];
            while let Some(c) = self.peek() {
                if c == b'|' || c == b')' { break }
                if c == b'(' && self.s[self.i..].starts_with(b"(?") { if self.flags()? { continue } }
                let a = self.atom()?;
                v.push(self.rep(a)?);
            }
            Ok(Node::Cat(v))
        }
        fn get(&self) -> [bool; 5] { [self.unicode, self.dotall, self.nocase, self.multi, self.lazy] }
        fn set(&mut self, f: [bool; 5]) { [self.unicode, self.dotall, self.nocase, self.multi, self.lazy] = f }
        /// the flags up to `)` or `:`, which is consumed; true for `)`
        fn flag_list(&mut self) -> R<bool> {
            let mut on = true;
            loop {
                let c = match self.peek() { Some(c) => c, None => return bad() };
                self.i += 1;
                match c { b'-' => on = false, b'u' => self.unicode = on, b's' => self.dotall = on, b'i' => self.nocase = on, b'm' => self.multi = on, b'U' => self.lazy = on, b')' => return Ok(true), b':' => return Ok(false), _ => return bad() }
            }
        }
        /// `(?flags)` applies to the rest of the group; other `(?` forms are left to atom()
        fn flags(&mut self) -> R<bool> {
            if matches!(self.s.get(self.i + 2), Some(b'P') | Some(b'<')) { return Ok(false) }
            let (f, i) = (self.get(), self.i);
            self.i += 2;
            if self.flag_list()? { return Ok(true) }
            self.set(f); self.i = i;
            Ok(false)
        }
        fn rep(&mut self, mut a: Node) -> R<Node> {
            while let Some(c) = self.peek() {
                let (lo, hi) = match c { b'*' => (0, usize::MAX), b'+' => (1, usize::MAX), b'?' => (0, 1), b'{' => {
                    let e = match self.s[self.i..].iter().position(|x| *x == b'}') { Some(e) => self.i + e, None => return bad() };
                    let x = std::str::from_utf8(&self.s[self.i + 1..e]).map_err(|_| Error("".into()))?.to_string();
                    self.i = e;
                    let num = |x: &str| x.parse::<usize>().map_err(|e| Error(e.to_string()));
                    match x.split_once(',') { None => { let k = num(&x)?; (k, k) } Some((a, "")) => (num(a)?, usize::MAX), Some((a, b)) => (num(a)?, num(b)?) }
                }, _ => break };
                self.i += 1;
                let greedy = if self.peek() == Some(b'?') { self.i += 1; false } else { true } != self.lazy;
                a = Node::Rep(Box::new(a), lo, hi, greedy);
            }
            Ok(a)
        }
        fn esc(&mut self) -> R<(u32, bool)> { // after the backslash: (code point, given as \xHH)
            let c = match self.peek() { Some(c) => c, None => return bad() };
            self.i += 1;
            match c {
                b'x' => { let h = std::str::from_utf8(&self.s[self.i..(self.i + 2).min(self.s.len())]).map_err(|_| Error("".into()))?; let v = u32::from_str_radix(h, 16).map_err(|e| Error(e.to_string()))?; self.i += 2; Ok((v, true)) }
                b'n' => Ok((10, false)), b't' => Ok((9, false)), b'r' => Ok((13, false)),
                c if c.is_ascii_punctuation() => Ok((c as u32, false)),
                _ => bad(),
            }
        }
        fn lit(&self, cp: u32) -> R<Node> {
            if self.nocase {
                if cp >= 0x80 { return bad() }
                let c = cp as u8;
                if c.is_ascii_alphabetic() {
                    let mut v = vec![Node::Byte(c.to_ascii_lowercase()), Node::Byte(c.to_ascii_uppercase())];
                    if self.unicode { // the Kelvin sign and the long s
                        if c & 0xdf == b'K' { v.push(Node::Cat(vec![Node::Byte(0xe2), Node::Byte(0x84), Node::Byte(0xaa)])) }
                        if c & 0xdf == b'S' { v.push(Node::Cat(vec![Node::Byte(0xc5), Node::Byte(0xbf)])) }
                    }
                    return Ok(Node::Alt(v))
                }
            }
            if !self.unicode || cp < 0x80 { if cp > 255 { return bad() } return Ok(Node::Byte(cp as u8)) }
            let mut b = [0u8; 4];
            let c = match char::from_u32(cp) { Some(c) => c, None => return bad() };
            Ok(Node::Cat(c.encode_utf8(&mut b).bytes().map(Node::Byte).collect()))
        }
        fn atom(&mut self) -> R<Node> {
            let c = self.peek().unwrap();
            self.i += 1;
            match c {
                b'(' => {
                    let mut cap = 0;
                    let f = self.get();
                    let named = [&b"?P<"[..], b"?<"].iter().find(|x| self.s[self.i..].starts_with(x)).map(|x| x.len());
                    if let Some(l) = named {
                        let e = match self.s[self.i..].iter().position(|x| *x == b'>') { Some(e) => self.i + e, None => return bad() };
                        self.groups += 1; cap = self.groups;
                        self.names.push((String::from_utf8_lossy(&self.s[self.i + l..e]).into_owned(), cap));
                        self.i = e + 1;
                    } else if self.s[self.i..].starts_with(b"?") {
                        self.i += 1;
                        if self.flag_list()? { return bad() }
                    } else { self.groups += 1; cap = self.groups; }
                    let n = self.alt()?;
                    self.set(f);
                    if self.peek() != Some(b')') { return bad() }
                    self.i += 1;
                    Ok(if cap > 0 { Node::Group(Box::new(n), cap) } else { n })
                }
                b'.' => Ok(match (self.unicode, self.dotall) { (true, false) => Node::Any, (true, true) => Node::AnyNl, (false, false) => Node::AnyByte, (false, true) => Node::AnyByteNl }),
                b'^' => Ok(if self.multi { Node::LineStart } else { Node::Start }), b'$' => Ok(if self.multi { Node::LineEnd } else { Node::End }),
                b'\\' => {
                    match self.peek() {
                        Some(b'b') if !self.unicode => { self.i += 1; return Ok(Node::Wb) }
                        Some(b'B') if !self.unicode => { self.i += 1; return Ok(Node::NoWb) }
                        Some(b'A') => { self.i += 1; return Ok(Node::Start) }
                        Some(b'z') => { self.i += 1; return Ok(Node::End) }
                        Some(b's') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(9, 13), (b' ', b' ')], false)) }
                        Some(b'S') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(9, 13), (b' ', b' ')], true)) }
                        Some(b'D') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(b'0', b'9')], true)) }
                        Some(b'W') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(b'0', b'9'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')], true)) }
                        Some(b'd') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(b'0', b'9')], false)) }
                        Some(b'w') if !self.unicode => { self.i += 1; return Ok(Node::Class(vec![(b'0', b'9'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')], false)) }
                        _ => {}
                    }
                    let (cp, _) = self.esc()?; self.lit(cp)
                }
                b'[' => {
                    let neg = self.peek() == Some(b'^'); if neg { self.i += 1; }
                    if neg && self.unicode { return bad() }
                    let mut v = vec![];
                    loop {
                        let c = match self.peek() { Some(c) => c, None => return bad() }; self.i += 1;
                        if c == b']' { break }
                        let lo = if c == b'\\' { self.esc()?.0 } else { c as u32 };
                        let mut hi = lo;
                        if self.peek() == Some(b'-') && self.s.get(self.i + 1) != Some(&b']') { self.i += 1; let c = self.peek().unwrap_or(0); self.i += 1; hi = if c == b'\\' { self.esc()?.0 } else { c as u32 }; }
                        if lo > hi || hi > 255 || (self.unicode && hi > 127) { return bad() }
                        v.push((lo as u8, hi as u8));
                    }
                    if self.nocase {
                        if self.unicode { return bad() }
                        for k in 0..v.len() { for c in v[k].0..=v[k].1 { if c.is_ascii_alphabetic() { v.push((c ^ 0x20, c ^ 0x20)) } } }
                    }
                    Ok(Node::Class(v, neg))
                }
                b'*' | b'+' | b'?' | b'{' => bad(),
                c if c < 0x80 => self.lit(c as u32),
                c => { // a character of the pattern: its bytes in order
                    if self.nocase { return bad() }
                    let mut v = vec![Node::Byte(c)];
                    while let Some(c) = self.peek() { if c & 0xc0 != 0x80 { break } v.push(Node::Byte(c)); self.i += 1 }
                    Ok(Node::Cat(v))
                }
            }
        }
    }
    type Caps = Vec<Option<(usize, usize)>>;
    fn any(h: &[u8], i: usize) -> usize { // length of the UTF-8 character at i, 0 if there is none
        if i >= h.len() { return 0 }
        let b = h[i];
        if b < 0x80 { return 1 }
        let cont = |k: usize, lo: u8, hi: u8| i + k < h.len() && (h[i + k] >= lo) & (h[i + k] <= hi);
        if b < 0xc2 { return 0 }
        if b < 0xe0 { return if cont(1, 0x80, 0xbf) { 2 } else { 0 } }
        if b < 0xf0 {
            let (lo, hi) = if b == 0xe0 { (0xa0, 0xbf) } else if b == 0xed { (0x80, 0x9f) } else { (0x80, 0xbf) };
            return if cont(1, lo, hi) && cont(2, 0x80, 0xbf) { 3 } else { 0 }
        }
        if b < 0xf5 {
            let (lo, hi) = if b == 0xf0 { (0x90, 0xbf) } else if b == 0xf4 { (0x80, 0x8f) } else { (0x80, 0xbf) };
            return if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) { 4 } else { 0 }
        }
        0
    }
    type K<'k> = &'k mut dyn FnMut(usize, &mut Caps) -> Option<usize>;
    fn go(n: &Node, h: &[u8], i: usize, c: &mut Caps, k: K<'_>) -> Option<usize> {
        match n {
            Node::Byte(b) => if i < h.len() && h[i] == *b { k(i + 1, c) } else { None },
            Node::Any => { if i < h.len() && h[i] == b'\n' { return None } let l = any(h, i); if l == 0 { None } else { k(i + l, c) } }
            Node::AnyNl => { let l = any(h, i); if l == 0 { None } else { k(i + l, c) } }
            Node::AnyByte => if i < h.len() && h[i] != b'\n' { k(i + 1, c) } else { None },
            Node::AnyByteNl => if i < h.len() { k(i + 1, c) } else { None },
            Node::Class(v, neg) => {
                if i >= h.len() { return None }
                let mut r = false;
                for (lo, hi) in v { r |= (h[i] >= *lo) & (h[i] <= *hi); }
                if r != *neg { k(i + 1, c) } else { None }
            }
            Node::Cat(v) => cat(v, h, i, c, k),
            Node::Alt(v) => { for x in v { let save = c.clone(); if let Some(e) = go(x, h, i, c, k) { return Some(e) } *c = save; } None }
            Node::Rep(x, lo, hi, greedy) => rep(x, *lo, *hi, *greedy, h, i, c, k, 0, usize::MAX),
            Node::Group(x, g) => { let old = c[*g]; let r = go(x, h, i, c, &mut |e, c: &mut Caps| { let o = c[*g]; c[*g] = Some((i, e)); let r = k(e, c); if r.is_none() { c[*g] = o } r }); if r.is_none() { c[*g] = old } r }
            Node::Start => if i == 0 { k(i, c) } else { None },
            Node::End => if i == h.len() { k(i, c) } else { None },
            Node::LineStart => if i == 0 || h[i - 1] == b'\n' { k(i, c) } else { None },
            Node::LineEnd => if i == h.len() || h[i] == b'\n' { k(i, c) } else { None },
            Node::NoWb => { let w = |j: usize| h[j].is_ascii_alphanumeric() || h[j] == b'_'; let a = i > 0 && w(i - 1); let b = i < h.len() && w(i); if a == b { k(i, c) } else { None } }
            Node::Wb => { let w = |j: usize| h[j].is_ascii_alphanumeric() || h[j] == b'_'; let a = i > 0 && w(i - 1); let b = i < h.len() && w(i); if a != b { k(i, c) } else { None } }
        }
    }
    extern "C" { fn sx_skip(p: *const u8, n: usize, c: u8) -> usize; } // see models/memchr
    /// the byte every match begins with
    fn lead(n: &Node) -> Option<u8> {
        match n { Node::Byte(b) => Some(*b), Node::Cat(v) => lead(v.first()?), Node::Group(x, _) => lead(x), Node::Rep(x, lo, _, _) if *lo > 0 => lead(x), _ => None }
    }
    fn cat(v: &[Node], h: &[u8], i: usize, c: &mut Caps, k: K<'_>) -> Option<usize> {
        match v.split_first() { None => k(i, c), Some((x, rest)) => go(x, h, i, c, &mut |e, c| cat(rest, h, e, c, k)) }
    }
    fn rep(x: &Node, lo: usize, hi: usize, greedy: bool, h: &[u8], i: usize, c: &mut Caps, k: K<'_>, n: usize, prev: usize) -> Option<usize> {
        if n >= lo && i == prev { return k(i, c) } // an empty iteration ends the repetition
        if n < lo { return go(x, h, i, c, &mut |e, c| rep(x, lo, hi, greedy, h, e, c, k, n + 1, i)) }
        if !greedy { let save = c.clone(); if let Some(e) = k(i, c) { return Some(e) } *c = save; }
        if n < hi { let save = c.clone(); if let Some(e) = go(x, h, i, c, &mut |e, c| rep(x, lo, hi, greedy, h, e, c, k, n + 1, i)) { return Some(e) } *c = save; }
        if greedy { k(i, c) } else { None }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Match<'h> { h: &'h [u8], s: usize, e: usize }
    impl<'h> Match<'h> {
        pub fn start(&self) -> usize { self.s }
        pub fn end(&self) -> usize { self.e }
        pub fn range(&self) -> Range<usize> { self.s..self.e }
        pub fn len(&self) -> usize { self.e - self.s }
        pub fn is_empty(&self) -> bool { self.s == self.e }
        pub fn as_bytes(&self) -> &'h [u8] { &self.h[self.s..self.e] }
    }
    #[derive(Debug, Clone)]
    pub struct CaptureLocations(Caps);
    impl CaptureLocations {
        pub fn get(&self, i: usize) -> Option<(usize, usize)> { self.0.get(i).copied().flatten() }
        pub fn len(&self) -> usize { self.0.len() }
    }
    #[derive(Debug)]
    pub struct Captures<'h>(&'h [u8], Caps, Vec<(String, usize)>);
    impl<'h> Captures<'h> {
        pub fn get(&self, i: usize) -> Option<Match<'h>> { let (s, e) = self.1.get(i).copied().flatten()?; Some(Match { h: self.0, s, e }) }
        pub fn get_match(&self) -> Match<'h> { self.get(0).unwrap() }
        pub fn name(&self, n: &str) -> Option<Match<'h>> { self.get(self.2.iter().find(|x| x.0 == n)?.1) }
        pub fn len(&self) -> usize { self.1.len() }
        pub fn iter(&self) -> impl Iterator<Item = Option<Match<'h>>> + '_ { (0..self.1.len()).map(|i| self.get(i)) }
    }
    impl<'h> std::ops::Index<usize> for Captures<'h> { type Output = [u8]; fn index(&self, i: usize) -> &[u8] { let (s, e) = self.1[i].unwrap(); &self.0[s..e] } }
    pub struct CaptureMatches<'r, 'h> { r: &'r Regex, h: &'h [u8], at: usize, last: Option<usize> }
    impl<'r, 'h> Iterator for CaptureMatches<'r, 'h> {
        type Item = Captures<'h>;
        fn next(&mut self) -> Option<Captures<'h>> {
            loop {
                if self.at > self.h.len() { return None }
                let c = self.r.captures_at(self.h, self.at)?;
                let m = c.get_match();
                if m.is_empty() { self.at = m.e + 1; if self.last == Some(m.e) { continue } } else { self.at = m.e; }
                self.last = Some(m.e);
                return Some(c)
            }
        }
    }
    /// options, then the pattern
    #[derive(Debug, Clone)]
    pub struct RegexBuilder { p: String, f: [bool; 5] }
    impl RegexBuilder {
        pub fn new(p: &str) -> RegexBuilder { RegexBuilder { p: p.into(), f: [true, false, false, false, false] } }
        pub fn unicode(&mut self, y: bool) -> &mut Self { self.f[0] = y; self }
        pub fn dot_matches_new_line(&mut self, y: bool) -> &mut Self { self.f[1] = y; self }
        pub fn case_insensitive(&mut self, y: bool) -> &mut Self { self.f[2] = y; self }
        pub fn multi_line(&mut self, y: bool) -> &mut Self { self.f[3] = y; self }
        pub fn swap_greed(&mut self, y: bool) -> &mut Self { self.f[4] = y; self }
        pub fn size_limit(&mut self, _: usize) -> &mut Self { self }
        pub fn dfa_size_limit(&mut self, _: usize) -> &mut Self { self }
        pub fn nest_limit(&mut self, _: u32) -> &mut Self { self }
        pub fn build(&self) -> R<Regex> { Regex::with(&self.p, self.f) }
    }
    pub struct Matches<'r, 'h> { r: &'r Regex, h: &'h [u8], at: usize, last: Option<usize> }
    impl<'r, 'h> Iterator for Matches<'r, 'h> {
        type Item = Match<'h>;
        fn next(&mut self) -> Option<Match<'h>> {
            loop {
                if self.at > self.h.len() { return None }
                let m = self.r.find_at(self.h, self.at)?;
                if m.is_empty() { self.at = m.e + 1; if self.last == Some(m.e) { continue } } else { self.at = m.e; }
                self.last = Some(m.e);
                return Some(m)
            }
        }
    }
    impl Regex {
        pub fn new(p: &str) -> R<Regex> { Regex::with(p, [true, false, false, false, false]) }
        fn with(p: &str, f: [bool; 5]) -> R<Regex> {
            let mut x = Parser { s: p.as_bytes(), i: 0, groups: 0, names: vec![], unicode: f[0], dotall: f[1], nocase: f[2], multi: f[3], lazy: f[4] };
            let n = x.alt()?;
            if x.i != x.s.len() { return bad() }
            Ok(Regex { n, groups: x.groups, names: x.names, src: p.into() })
        }
        fn run(&self, h: &[u8], at: usize) -> Option<Caps> {
            assert!(at <= h.len());
            let mut i = at;
            let lead = lead(&self.n);
            while i <= h.len() {
                if let (Some(b), true) = (lead, h.len() - i > 64) { let k = unsafe { sx_skip(h.as_ptr().add(i), h.len() - i, b) }; if k > 0 { i += k; continue } }
                let mut c: Caps = vec![None; self.groups + 1];
                if let Some(e) = go(&self.n, h, i, &mut c, &mut |e, _| Some(e)) { c[0] = Some((i, e)); return Some(c) }
                i += 1;
            }
            None
        }
        pub fn as_str(&self) -> &str { &self.src }
        pub fn captures_len(&self) -> usize { self.groups + 1 }
        pub fn is_match(&self, h: &[u8]) -> bool { self.run(h, 0).is_some() }
        pub fn is_match_at(&self, h: &[u8], at: usize) -> bool { self.run(h, at).is_some() }
        pub fn find<'h>(&self, h: &'h [u8]) -> Option<Match<'h>> { self.find_at(h, 0) }
        pub fn find_at<'h>(&self, h: &'h [u8], at: usize) -> Option<Match<'h>> { let (s, e) = self.run(h, at)?[0]?; Some(Match { h, s, e }) }
        pub fn find_iter<'r, 'h>(&'r self, h: &'h [u8]) -> Matches<'r, 'h> { Matches { r: self, h, at: 0, last: None } }
        pub fn captures<'h>(&self, h: &'h [u8]) -> Option<Captures<'h>> { self.captures_at(h, 0) }
        pub fn captures_at<'h>(&self, h: &'h [u8], at: usize) -> Option<Captures<'h>> { Some(Captures(h, self.run(h, at)?, self.names.clone())) }
        pub fn captures_iter<'r, 'h>(&'r self, h: &'h [u8]) -> CaptureMatches<'r, 'h> { CaptureMatches { r: self, h, at: 0, last: None } }
        pub fn shortest_match(&self, h: &[u8]) -> Option<usize> { self.shortest_match_at(h, 0) }
        pub fn shortest_match_at(&self, h: &[u8], at: usize) -> Option<usize> { // the least end of a match that begins at some place
            assert!(at <= h.len());
            for end in at..=h.len() {
                for i in at..=end { let mut c: Caps = vec![None; self.groups + 1]; if go(&self.n, h, i, &mut c, &mut |e, _| if e == end { Some(e) } else { None }).is_some() { return Some(end) } }
            }
            None
        }
        pub fn capture_locations(&self) -> CaptureLocations { CaptureLocations(vec![None; self.groups + 1]) }
        pub fn captures_read<'h>(&self, l: &mut CaptureLocations, h: &'h [u8]) -> Option<Match<'h>> { self.captures_read_at(l, h, 0) }
        pub fn captures_read_at<'h>(&self, l: &mut CaptureLocations, h: &'h [u8], at: usize) -> Option<Match<'h>> {
            match self.run(h, at) { Some(c) => { l.0 = c; let (s, e) = l.0[0].unwrap(); Some(Match { h, s, e }) } None => { for x in l.0.iter_mut() { *x = None } None } }
        }
    }
}
