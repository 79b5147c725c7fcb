// Support code shared by all generated harness programs.
#![allow(dead_code, unused)]
pub use peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
use std::cell::RefCell;
use std::io::Write;

pub fn cname(c: char) -> String {
    if c.is_ascii_graphic() && c != '"' && c != '\\' { c.to_string() } else { format!("U+{:X}", c as u32) }
}

/// Value of a grammar node, already in canonical form.
#[derive(Clone, Debug, PartialEq)]
pub struct V(pub String);

/// Canonical form of values, the one spec/Peg.tla computes.
pub trait Val { fn v(&self) -> String; }
impl Val for () { fn v(&self) -> String { "()".into() } }
impl Val for char { fn v(&self) -> String { format!("'{}", cname(*self)) } }
impl Val for u8 { fn v(&self) -> String { format!("'{}", cname(*self as char)) } }
impl Val for u32 { fn v(&self) -> String { format!("#{}", self) } }
impl Val for usize { fn v(&self) -> String { format!("@{}", self) } }
impl Val for V { fn v(&self) -> String { self.0.clone() } }
impl Val for str { fn v(&self) -> String { format!("{{{}}}", self.chars().map(cname).collect::<Vec<_>>().join(" ")) } }
impl Val for [u8] { fn v(&self) -> String { format!("{{{}}}", self.iter().map(|c| cname(*c as char)).collect::<Vec<_>>().join(" ")) } }
impl<T: Val> Val for Option<T> { fn v(&self) -> String { match self { None => "?".into(), Some(x) => format!("?{}", x.v()) } } }
impl<T: Val> Val for Vec<T> { fn v(&self) -> String { format!("[{}]", self.iter().map(|x| x.v()).collect::<Vec<_>>().join(",")) } }
impl<'a, T: Val + ?Sized> Val for &'a T { fn v(&self) -> String { (**self).v() } }
impl<A: Val, B: Val> Val for (A, B) { fn v(&self) -> String { format!("({},{})", self.0.v(), self.1.v()) } }

pub fn nd(t: &str, a: Vec<String>) -> V { user(); V(format!("{}({})", t, a.join(","))) }

/// Value of an operand of a precedence block.
pub fn pv(v: &V) -> String { v.v() }

/// Span wrapper of a precedence block.
pub fn wv(t: &str, l: usize, n: V, r: usize) -> V { nd(t, vec![l.v(), n.v(), r.v()]) }

/// A bound taken from a matched digit.
pub fn cnt<T: Val>(c: &T) -> usize { c.v().trim_start_matches(|c| c == '\'' || c == '#').parse().unwrap() }

// ---------------------------------------------------------------- tokens
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok { A, B, C, D, N1, N2, Plus, Comma, Other }
pub fn tok_of(c: char) -> Tok {
    match c { 'a' => Tok::A, 'b' => Tok::B, 'c' => Tok::C, 'd' => Tok::D, '1' => Tok::N1, '2' => Tok::N2, '+' => Tok::Plus, ',' => Tok::Comma, _ => Tok::Other }
}
pub fn tok_char(t: Tok) -> char {
    match t { Tok::A => 'a', Tok::B => 'b', Tok::C => 'c', Tok::D => 'd', Tok::N1 => '1', Tok::N2 => '2', Tok::Plus => '+', Tok::Comma => ',', Tok::Other => 'z' }
}
impl Val for Tok { fn v(&self) -> String { tok_char(*self).v() } }
impl Val for [Tok] { fn v(&self) -> String { format!("{{{}}}", self.iter().map(|c| cname(tok_char(*c))).collect::<Vec<_>>().join(" ")) } }

// ---------------------------------------------------------------- recording input
// An input whose positions are opaque numbers and which logs every trait call.
#[derive(Clone, Debug, PartialEq)]
pub struct Sl(pub Vec<char>);
impl Val for Sl { fn v(&self) -> String { self.0.iter().collect::<String>().v() } }

thread_local! { pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
pub fn take_log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

pub const RSTART: usize = 7;
pub const RSTEP: usize = 3;
pub struct Rec { pub chars: Vec<char> }
impl Rec {
    pub fn new(s: &str) -> Rec { Rec { chars: s.chars().collect() } }
    /// index of a position, or None if the position was never handed out
    pub fn idx(&self, p: usize) -> Option<usize> {
        if p >= RSTART && (p - RSTART) % RSTEP == 0 && (p - RSTART) / RSTEP <= self.chars.len() { Some((p - RSTART) / RSTEP) } else { None }
    }
    fn chk(&self, what: &str, p: usize) -> usize {
        user();
        match self.idx(p) { Some(i) => i, None => { log(format!("X {} {}", what, p)); self.chars.len() } }
    }
}
impl Parse for Rec {
    type PositionRepr = usize;
    fn start(&self) -> usize { RSTART }
    fn is_eof(&self, p: usize) -> bool { let i = self.chk("F", p); log(format!("F {}", i)); i >= self.chars.len() }
    fn position_repr(&self, p: usize) -> usize { let i = self.chk("R", p); log(format!("R {}", i)); i }
}
impl<'i> ParseElem<'i> for Rec {
    type Element = char;
    fn parse_elem(&'i self, p: usize) -> RuleResult<char> {
        let i = self.chk("E", p);
        log(format!("E {}", i));
        match self.chars.get(i) { Some(c) => RuleResult::Matched(p + RSTEP, *c), None => RuleResult::Failed }
    }
}
impl ParseLiteral for Rec {
    fn parse_string_literal(&self, p: usize, l: &str) -> RuleResult<()> {
        let i = self.chk("L", p);
        log(format!("L {} {}", i, l.chars().map(cname).collect::<Vec<_>>().join(" ")));
        let lc: Vec<char> = l.chars().collect();
        if i + lc.len() <= self.chars.len() && self.chars[i..i + lc.len()] == lc[..] { RuleResult::Matched(p + RSTEP * lc.len(), ()) } else { RuleResult::Failed }
    }
}
impl<'i> ParseSlice<'i> for Rec {
    type Slice = Sl;
    fn parse_slice(&'i self, p1: usize, p2: usize) -> Sl {
        let (i, j) = (self.chk("S", p1), self.chk("S", p2));
        log(format!("S {} {}", i, j));
        if i > j { log(format!("X S {} {}", i, j)); return Sl(vec![]); }
        Sl(self.chars[i..j].to_vec())
    }
}

// ---------------------------------------------------------------- custom matchers
pub trait Cust { fn len_(&self) -> usize; fn take_(&self, p: usize, n: usize) -> Option<(usize, String)>; fn skip_(&self, p: usize, n: usize) -> Option<usize> { self.take_(p, n).map(|x| x.0) } fn all_(&self) -> String; fn back_(&self, p: usize, n: usize) -> (usize, String); }
impl Cust for str {
    fn back_(&self, p: usize, n: usize) -> (usize, String) { let q = if n == 0 { p } else { self[..p].char_indices().rev().map(|x| x.0).nth(n - 1).unwrap_or(0) }; (q, self[q..p].v()) }
    fn len_(&self) -> usize { self.len() }
    fn take_(&self, p: usize, n: usize) -> Option<(usize, String)> {
        let s: String = self[p..].chars().take(n).collect();
        if s.chars().count() == n { Some((p + s.len(), s.v())) } else { None }
    }
    fn skip_(&self, p: usize, n: usize) -> Option<usize> { self[p..].char_indices().map(|x| x.0).chain(std::iter::once(self.len() - p)).nth(n).map(|k| p + k) }
    fn all_(&self) -> String { self.v() }
}
impl Cust for [u8] {
    fn back_(&self, p: usize, n: usize) -> (usize, String) { let q = p.saturating_sub(n); (q, self[q..p].v()) }
    fn len_(&self) -> usize { self.len() }
    fn take_(&self, p: usize, n: usize) -> Option<(usize, String)> { if p + n <= self.len() { Some((p + n, self[p..p + n].v())) } else { None } }
    fn all_(&self) -> String { self.v() }
}
impl Cust for [Tok] {
    fn back_(&self, p: usize, n: usize) -> (usize, String) { let q = p.saturating_sub(n); (q, self[q..p].v()) }
    fn len_(&self) -> usize { self.len() }
    fn take_(&self, p: usize, n: usize) -> Option<(usize, String)> { if p + n <= self.len() { Some((p + n, self[p..p + n].v())) } else { None } }
    fn all_(&self) -> String { self.v() }
}
impl Cust for Rec {
    fn back_(&self, p: usize, n: usize) -> (usize, String) { let i = self.chk("C", p); let j = i.saturating_sub(n); (p - (i - j) * RSTEP, Sl(self.chars[j..i].to_vec()).v()) }
    fn len_(&self) -> usize { RSTART + RSTEP * self.chars.len() }
    fn take_(&self, p: usize, n: usize) -> Option<(usize, String)> {
        let i = self.chk("C", p);
        if i + n <= self.chars.len() { Some((p + n * RSTEP, Sl(self.chars[i..i + n].to_vec()).v())) } else { None }
    }
    fn all_(&self) -> String { Sl(self.chars.clone()).v() }
}
pub fn cu_take<I: Cust + ?Sized>(i: &I, p: usize, n: usize) -> RuleResult<V> { user();
    match i.take_(p, n) { Some((q, s)) => RuleResult::Matched(q, nd("tk", vec![s])), None => RuleResult::Failed }
}
/// Goes on n elements further, whatever they are.
pub fn cu_skip<I: Cust + ?Sized>(i: &I, p: usize, n: usize) -> RuleResult<()> { match i.skip_(p, n) { Some(q) => RuleResult::Matched(q, ()), None => RuleResult::Failed } }
pub fn cu_rest<I: Cust + ?Sized>(i: &I, p: usize) -> RuleResult<V> { user(); RuleResult::Matched(i.len_(), nd("rs", vec![p.v()])) }
pub fn cu_here<I: Cust + ?Sized>(i: &I, p: usize) -> RuleResult<V> { user(); RuleResult::Matched(p, nd("hr", vec![p.v(), i.all_()])) }
pub fn cu_end<I: Cust + ?Sized>(i: &I, p: usize) -> RuleResult<V> { user(); if p == i.len_() { RuleResult::Matched(p, nd("en", vec![])) } else { RuleResult::Failed } }

/// Goes back n elements, or to the start.
pub fn cu_back<I: Cust + ?Sized>(i: &I, p: usize, n: usize) -> RuleResult<V> { user(); let (q, s) = i.back_(p, n); RuleResult::Matched(q, nd("bk", vec![s])) }

/// The same matchers as methods of the input.
pub trait Methods: Cust {
    fn m_take(&self, p: usize, n: usize) -> RuleResult<V> { cu_take(self, p, n) }
    fn m_skip(&self, p: usize, n: usize) -> RuleResult<()> { cu_skip(self, p, n) }
    fn m_back(&self, p: usize, n: usize) -> RuleResult<V> { cu_back(self, p, n) }
    fn m_rest(&self, p: usize) -> RuleResult<V> { cu_rest(self, p) }
    fn m_here(&self, p: usize) -> RuleResult<V> { cu_here(self, p) }
    fn m_end(&self, p: usize) -> RuleResult<V> { cu_end(self, p) }
    fn m_never(&self, _p: usize) -> RuleResult<V> { user(); RuleResult::Failed }
}
impl<I: Cust + ?Sized> Methods for I {}

/// Matches nothing, and records that it was reached.
pub fn cu_tick(name: &str, p: usize) -> RuleResult<()> { log(format!("T {} {}", name, p)); RuleResult::Matched(p, ()) }

// ---------------------------------------------------------------- outcomes
pub trait Loc { fn loc(&self) -> String; }
impl Loc for usize { fn loc(&self) -> String { format!("{}\t0\t0", self) } }
impl Loc for peg::str::LineCol {
    fn loc(&self) -> String {
        let d = format!("{}", self);
        let ok = d == format!("{}:{}", self.line, self.column);
        format!("{}\t{}\t{}{}", self.offset, self.line, self.column, if ok { "" } else { "!" })
    }
}
pub fn norm_tok(s: &str) -> String {
    let t: String = s.chars().filter(|c| !c.is_whitespace()).map(|c| match c { '"' => '`', '\\' => '/', c => c }).collect();
    if t.is_empty() { "<empty>".to_string() } else { t }
}
pub fn out<T: Val, L: Loc + std::fmt::Display>(r: Result<T, peg::error::ParseError<L>>) -> String {
    match r {
        Ok(v) => format!("O\t{}", v.v()),
        Err(e) => {
            let mut toks: Vec<&'static str> = e.expected.tokens().collect();
            // Display forms must list the same tokens
            let disp = format!("{}", e.expected);
            let mut sorted = toks.clone(); sorted.sort();
            let want = match sorted.len() { 0 => "<unreported>".to_string(), 1 => sorted[0].to_string(), _ => format!("one of {}", sorted.join(", ")) };
            let full = format!("{}", e);
            let dok = sorted.windows(2).all(|w| w[0] != w[1]) && disp == want && full == format!("error at {}: expected {}", e.location, want);
            let mut n: Vec<String> = toks.iter().map(|t| norm_tok(t)).collect();
            n.sort();
            format!("E\t{}\t{}\t{}", e.location.loc(), if dok { "1" } else { "0" }, n.join("\u{1f}"))
        }
    }
}

/// Runs the cases of a file: lines "group\tentry\thex of the input".  Prints one line per
/// case.  A case that panics prints "P"; one that never returns ends the process (code 97).
pub fn run_main(dispatch: fn(usize, usize, &str) -> String) {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let start: usize = a[2].parse().unwrap();
    let limit: u64 = a.get(3).map_or(5, |x| x.parse().unwrap());
    let cases: Vec<(usize, usize, usize, String)> = text.lines().enumerate().map(|(i, l)| {
        let f: Vec<&str> = l.split('\t').collect();
        let hex = f[2];
        let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        (i, f[0].parse().unwrap(), f[1].parse().unwrap(), String::from_utf8(b).unwrap())
    }).collect();
    std::panic::set_hook(Box::new(|_| {}));
    use std::sync::atomic::{AtomicU64, Ordering};
    static CUR: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(move || {
        let mut last = u64::MAX; let mut since = 0u64;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let c = CUR.load(Ordering::SeqCst);
            if c == last { since += 1 } else { last = c; since = 0 }
            if since > limit * 4 { std::process::exit(97) }
        }
    });
    let h = std::thread::Builder::new().stack_size(128 << 20).spawn(move || {
        let so = std::io::stdout();
        for (i, g, e, inp) in cases.into_iter().skip(start) {
            CUR.store(i as u64 + 1, Ordering::SeqCst);
            let r = std::panic::catch_unwind(|| dispatch(g, e, &inp)).unwrap_or_else(|p| {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("P\t{}", m.replace(|c: char| c.is_control(), " "))
            });
            let mut l = so.lock();
            writeln!(l, "\u{1e}{}\t{}", i, r).unwrap();
            l.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
    std::process::exit(0);
}

// ---------------------------------------------------------------- sessions
// Code of the user reached from inside a parse (input trait, matcher, action) calls user().
// In a session this is where the thread stops and takes commands.
use std::sync::mpsc::{channel, Receiver, Sender};
use std::cell::Cell;
thread_local! {
    static MODE: Cell<u8> = Cell::new(0);                 // 0 off, 1 count the stops, 2 take commands
    static STOPS: Cell<usize> = Cell::new(0);             // stops counted, or still to be passed
    static SERVER: RefCell<Option<std::rc::Rc<Server>>> = RefCell::new(None);
    static DEPTH: Cell<usize> = Cell::new(0);
}
pub enum Cmd { Begin(usize), Step(usize), Unwind, Abort, Quit }
pub enum Rep { Stopped, Done(String) }
struct Server { rx: Receiver<Cmd>, tx: Sender<Rep>, jobs: std::sync::Arc<Vec<Job>>, dispatch: fn(usize, usize, &str) -> String, pending: Cell<Option<usize>>, bufs: RefCell<Vec<String>> }
#[derive(Clone)]
pub struct Job { g: usize, e: usize, inp: String }

pub fn user() {
    match MODE.with(|m| m.get()) {
        0 => (),
        1 => STOPS.with(|s| s.set(s.get() + 1)),
        _ => {
            let n = STOPS.with(|s| { let n = s.get(); s.set(n.saturating_sub(1)); n });
            if n > 1 { return }
            let srv = SERVER.with(|s| s.borrow().clone()).unwrap();
            srv.tx.send(Rep::Stopped).unwrap();
            serve(&srv, true);
        }
    }
}

fn alone(dispatch: fn(usize, usize, &str) -> String, j: &Job, inp: &str) -> String {
    let r = std::panic::catch_unwind(|| dispatch(j.g, j.e, inp)).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("P\t{}", m.replace(|c: char| c.is_control(), " "))
    });
    r.split('\u{1d}').next().unwrap().to_string()
}

// Takes commands until the call this is nested in may go on (or, outside any call, until Quit).
fn serve(srv: &std::rc::Rc<Server>, inner: bool) {
    loop {
        match srv.rx.recv().unwrap() {
            Cmd::Begin(j) => srv.pending.set(Some(j)),
            Cmd::Step(n) => {
                if let Some(j) = srv.pending.take() {
                    let d = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
                    // inputs of the same depth lie in the same place, as far as they fit
                    let mut buf = { let mut b = srv.bufs.borrow_mut(); while b.len() <= d { b.push(String::with_capacity(4096)) } std::mem::take(&mut b[d]) };
                    buf.clear(); buf.push_str(&srv.jobs[j].inp);
                    STOPS.with(|s| s.set(n));
                    let r = alone(srv.dispatch, &srv.jobs[j], &buf);
                    srv.bufs.borrow_mut()[d] = buf;
                    DEPTH.with(|x| x.set(d - 1));
                    srv.tx.send(Rep::Done(r)).unwrap();
                } else { STOPS.with(|s| s.set(n)); return }
            }
            Cmd::Unwind => { let _u = Unwinding(srv.clone()); panic!("scheduled") }
            Cmd::Abort => return,
            Cmd::Quit => return,
        }
    }
}

// Runs in the course of a panic, and takes commands meanwhile.
struct Unwinding(std::rc::Rc<Server>);
impl Drop for Unwinding {
    fn drop(&mut self) { self.0.tx.send(Rep::Stopped).unwrap(); serve(&self.0, true); }
}

fn unhex(hex: &str) -> String { String::from_utf8((0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap() }

/// c FILE alone N       : job N, in a fresh process: number of stops and outcome
/// c FILE sessions      : the sessions of the file, one after the other, in one process
/// c FILE free SEED     : all jobs on several threads at once, and once more in order
pub fn session_main(dispatch: fn(usize, usize, &str) -> String) {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut jobs = vec![]; let mut sessions: Vec<Vec<(usize, char, usize, usize)>> = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "J" => jobs.push(Job { g: f[1].parse().unwrap(), e: f[2].parse().unwrap(), inp: unhex(f[3]) }),
            // thread, command, call, job or number of stops to pass
            "S" => sessions.push(f[1..].iter().map(|x| { let y: Vec<&str> = x.split(' ').collect(); (y[0].parse().unwrap(), y[1].chars().next().unwrap(), y[2].parse().unwrap(), y[3].parse().unwrap()) }).collect()),
            _ => panic!(),
        }
    }
    let jobs = std::sync::Arc::new(jobs);
    std::panic::set_hook(Box::new(|_| {}));
    let big = || std::thread::Builder::new().stack_size(64 << 20);
    match &a[2][..] {
        "alone" => {
            let j = jobs[a[3].parse::<usize>().unwrap()].clone();
            big().spawn(move || { MODE.with(|m| m.set(1)); let r = alone(dispatch, &j, &j.inp); println!("{}\t{}", STOPS.with(|s| s.get()), r) }).unwrap().join().unwrap();
        }
        "free" => {
            let mut seed: u64 = a[3].parse().unwrap();
            let mut hs = vec![];
            for t in 0..4u64 {
                let jobs = jobs.clone();
                let s0 = seed.wrapping_mul(6364136223846793005).wrapping_add(t * 2 + 1);
                hs.push(big().spawn(move || {
                    let mut s = s0; let mut out = vec![];
                    for _ in 0..jobs.len() * 2 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let j = (s >> 33) as usize % jobs.len(); out.push((j, alone(dispatch, &jobs[j], &jobs[j].inp))); }
                    for j in 0..jobs.len() { out.push((j, alone(dispatch, &jobs[j], &jobs[j].inp))) }
                    out
                }).unwrap());
            }
            let so = std::io::stdout(); let mut l = so.lock();
            for h in hs { for (j, r) in h.join().unwrap() { writeln!(l, "{}\t{}", j, r).unwrap() } }
        }
        _ => {
            let mut ths: Vec<(Sender<Cmd>, Receiver<Rep>)> = vec![];
            for _ in 0..4 {
                let (ctx, crx) = channel(); let (rtx, rrx) = channel();
                let jobs = jobs.clone();
                big().spawn(move || {
                    let srv = std::rc::Rc::new(Server { rx: crx, tx: rtx, jobs, dispatch, pending: Cell::new(None), bufs: RefCell::new(vec![]) });
                    SERVER.with(|s| *s.borrow_mut() = Some(srv.clone()));
                    MODE.with(|m| m.set(2));
                    serve(&srv, false);
                }).unwrap();
                ths.push((ctx, rrx));
            }
            let so = std::io::stdout(); let mut l = so.lock();
            for (n, ses) in sessions.iter().enumerate() {
                let mut over = std::collections::HashSet::new();
                for &(t, k, c, arg) in ses {
                    if over.contains(&c) { continue }
                    let (tx, rx) = &ths[t];
                    match k {
                        'B' => { tx.send(Cmd::Begin(arg)).unwrap(); writeln!(l, "{}\t{} B {}", n, t, c).unwrap(); continue }
                        'S' => tx.send(Cmd::Step(arg)).unwrap(),
                        'U' => tx.send(Cmd::Unwind).unwrap(),
                        _ => tx.send(Cmd::Abort).unwrap(),
                    }
                    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
                        Ok(Rep::Stopped) => writeln!(l, "{}\t{} {} {}", n, t, k, c).unwrap(),
                        Ok(Rep::Done(r)) => { over.insert(c); writeln!(l, "{}\t{} {} {}\t{}", n, t, k, c, r).unwrap() }
                        Err(_) => { writeln!(l, "{}\t{} H {}", n, t, c).unwrap(); l.flush().unwrap(); std::process::exit(97) }
                    }
                }
            }
        }
    }
    std::process::exit(0);
}
