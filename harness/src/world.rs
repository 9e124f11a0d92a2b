//! Token, location and error types ("worlds") the library is instantiated with, and the
//! encoding of tokens, locations and errors as strings ("atoms") shared with the TLA+ modules.
use crate::builder::Dyn;
use parse_proof_of_concept::container::Container;
use parse_proof_of_concept::error;
use parse_proof_of_concept::error::{At, Error};
use parse_proof_of_concept::location::{self, Tracker};
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub const ALPHA: &str = "abc,()[]|nuwervkzyABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

/// Counts the bytes each thread has allocated and not freed (freed by another thread: counted there).
pub struct Counting;
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n));
}
pub fn bytes() -> i64 {
    BYTES.with(|b| b.get())
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

thread_local! {
    /// Work budget of the running case; used up = "does not terminate".
    pub static FUEL: Cell<i64> = const { Cell::new(0) };
    /// Number of `Tok` values alive in this thread.
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    /// User code to run inside the library: called at the n-th tick from now.
    #[allow(clippy::type_complexity)]
    pub static HOOK: std::cell::RefCell<Option<(usize, Box<dyn FnOnce()>)>> = Default::default();
    static INTERN: std::cell::RefCell<HashMap<(char, i64), &'static Tok>> = Default::default();
}

pub fn tick() {
    FUEL.with(|f| {
        let n = f.get() - 1;
        f.set(n);
        if n < 0 {
            f.set(i64::MAX / 2);
            panic!("FUEL: no termination within the work budget");
        }
    });
    let due = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        match &mut *h {
            Some((0, _)) => h.take().map(|x| x.1),
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(f) = due {
        f()
    }
}

/// Token with identity: equality and hash look at the character only, so the id tells which
/// token of the source (or of the grammar: id -1) a value is.
#[derive(Debug)]
pub struct Tok {
    pub c: char,
    pub id: i64,
}

impl Tok {
    pub fn new(c: char, id: i64) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tok { c, id }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick();
        Tok::new(self.c, self.id)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        tick();
        self.c == o.c
    }
}
impl Eq for Tok {}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.c.hash(h)
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "'{}'", self.c)
    }
}

/// A line of 70000 characters; 70000 newlines.
fn long(k: usize) -> &'static str {
    static LONG: std::sync::OnceLock<[String; 2]> = std::sync::OnceLock::new();
    &LONG.get_or_init(|| ["l".repeat(70000), "\n".repeat(70000)])[k]
}

/// Text of a token (for the row/column tracker).
pub fn text(c: char) -> &'static str {
    match c {
        'n' => "\n",
        'u' => "é𝄞",
        'w' => "x\n\r\ny",
        'e' => "",
        'r' => "\r",
        'v' => "\n\r",
        'k' => "e\u{301}\u{200b}\u{2028}\t\u{4e2d}\u{b}\u{c}\u{85}",
        'z' => long(0),
        'y' => long(1),
        'a' => "a",
        'b' => "b",
        'c' => "c",
        ',' => ",",
        '(' => "(",
        ')' => ")",
        '[' => "[",
        ']' => "]",
        '|' => "|",
        c => {
            let k = ALPHA.find(c).expect("token of the alphabet");
            &ALPHA[k..k + 1]
        }
    }
}

pub fn intern(c: char, id: i64) -> &'static Tok {
    INTERN.with(|m| {
        *m.borrow_mut()
            .entry((c, id))
            .or_insert_with(|| Box::leak(Box::new(Tok::new(c, id))))
    })
}

/// Called with a container holding the given tokens.
pub trait SetVisitor<W: World> {
    fn visit<K: Container<W::I> + Clone + 'static>(self, k: K) -> Dyn<W>;
}

pub trait World: 'static + Sized {
    type I: Clone + PartialEq + 'static;
    type Lo: PartialEq + Clone + 'static;
    type Sp: PartialEq + Clone + 'static;
    type L: Tracker<Self::I, Location = Self::Lo, Span = Self::Sp> + 'static;
    type E: Error<'static, Self::I, LocationTracker = Self::L> + Clone + 'static;
    const NAME: &'static str;
    /// A token as written in a grammar.
    fn pat(c: char) -> Self::I;
    /// A token of the source.
    fn src(c: char, id: usize) -> Self::I;
    fn ch(t: &Self::I) -> char;
    fn show(t: &Self::I) -> String;
    fn loc(l: &Self::Lo) -> String;
    fn span(s: &Self::Sp) -> String;
    fn err(e: &Self::E) -> Vec<String>;
    /// Tracker placed after the given tokens.
    fn start(pre: &[char]) -> Self::L;
    /// Tracker placed at `base` tokens into `toks` (used by the streaming comparison).
    fn start_at(_toks: &[char], _base: usize) -> Self::L {
        Self::start(&[])
    }
    fn default_start() -> Option<Self::L>;
    fn with_set<V: SetVisitor<Self>>(form: &str, set: &[char], v: V) -> Dyn<Self> {
        common_set(form, set, v)
    }
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn common_set<W: World, V: SetVisitor<W>>(form: &str, set: &[char], v: V) -> Dyn<W> {
    let vec: Vec<W::I> = set.iter().map(|c| W::pat(*c)).collect();
    match (form, vec.len()) {
        ("one", 1) => v.visit(vec.into_iter().next().unwrap()),
        ("arr", 0) => v.visit::<[W::I; 0]>([]),
        ("arr", 1) => v.visit([vec[0].clone()]),
        ("arr", 2) => v.visit([vec[0].clone(), vec[1].clone()]),
        ("arr", 3) => v.visit([vec[0].clone(), vec[1].clone(), vec[2].clone()]),
        ("aref", 1) => v.visit::<&'static [W::I; 1]>(leak([vec[0].clone()])),
        ("aref", 2) => v.visit::<&'static [W::I; 2]>(leak([vec[0].clone(), vec[1].clone()])),
        ("aref", 3) => v.visit::<&'static [W::I; 3]>(leak([vec[0].clone(), vec[1].clone(), vec[2].clone()])),
        ("slice", _) => v.visit::<&'static [W::I]>(leak(vec).as_slice()),
        ("rvec", _) => v.visit::<&'static Vec<W::I>>(leak(vec)),
        _ => v.visit(vec),
    }
}

pub fn order(v: &mut [String]) {
    v.sort_by_key(|s| ALPHA.find(s.as_str()).unwrap_or(1000));
}

fn at<L, S>(a: &At<L, S>, l: impl Fn(&L) -> String, s: impl Fn(&S) -> String) -> String {
    match a {
        At::None => "-".to_string(),
        At::Location(x) => format!("L{}", l(x)),
        At::Span(x) => format!("S{}", s(x)),
    }
}

pub fn enc_simple<I, L>(
    e: &error::Simple<I, L>,
    ch: impl Fn(&I) -> char,
    show: impl Fn(&I) -> String,
    l: impl Fn(&L::Location) -> String,
    s: impl Fn(&L::Span) -> String,
) -> Vec<String>
where
    I: Eq + Hash,
    L: Tracker<I>,
{
    use error::Simple::*;
    match e {
        ExpectedFound(ex, fd, a) => {
            let mut v: Vec<String> = ex
                .iter()
                .map(|x| {
                    x.as_ref()
                        .map(|t| ch(t).to_string())
                        .unwrap_or("EOF".into())
                })
                .collect();
            order(&mut v);
            v.insert(0, "EF".into());
            v.push("|".into());
            v.push(fd.as_ref().map(&show).unwrap_or("EOF".into()));
            v.push(at(a, &l, &s));
            v
        }
        UnmatchedLeftDelimiter(t, sp, a) => vec!["ULD".into(), show(t), s(sp), at(a, &l, &s)],
        UnmatchedRightDelimiter(t, sp, a) => vec!["URD".into(), show(t), s(sp), at(a, &l, &s)],
        UnmatchedDelimiterType(t, sp, u, sq) => {
            vec!["UDT".into(), show(t), s(sp), show(u), s(sq)]
        }
        Custom(m, a) => {
            let mut v = vec!["CUS".to_string()];
            v.extend(m.split(' ').map(|x| x.to_string()));
            v.push(at(a, &l, &s));
            v
        }
    }
}

fn show_tok(t: &Tok) -> String {
    if t.id < 0 {
        t.c.to_string()
    } else {
        format!("{}@{}", t.c, t.id)
    }
}
fn n2s(n: &usize) -> String {
    n.to_string()
}
fn r2s(r: &std::ops::Range<usize>) -> String {
    format!("{}..{}", r.start, r.end)
}

/// Owned tokens, plain locations, full errors.
pub struct S;
impl World for S {
    type I = Tok;
    type Lo = usize;
    type Sp = std::ops::Range<usize>;
    type L = location::Simple;
    type E = error::Simple<Tok>;
    const NAME: &'static str = "S";
    fn pat(c: char) -> Tok {
        Tok::new(c, -1)
    }
    fn src(c: char, id: usize) -> Tok {
        Tok::new(c, id as i64)
    }
    fn ch(t: &Tok) -> char {
        t.c
    }
    fn show(t: &Tok) -> String {
        show_tok(t)
    }
    fn loc(l: &usize) -> String {
        n2s(l)
    }
    fn span(s: &Self::Sp) -> String {
        r2s(s)
    }
    fn err(e: &Self::E) -> Vec<String> {
        enc_simple(e, Self::ch, Self::show, n2s, r2s)
    }
    fn start(_: &[char]) -> Self::L {
        location::Simple()
    }
    fn default_start() -> Option<Self::L> {
        Some(location::Simple())
    }
}

/// Owned tokens, errors without content.
pub struct V;
impl World for V {
    type I = Tok;
    type Lo = usize;
    type Sp = std::ops::Range<usize>;
    type L = location::Simple;
    type E = error::Void<Tok>;
    const NAME: &'static str = "V";
    fn pat(c: char) -> Tok {
        Tok::new(c, -1)
    }
    fn src(c: char, id: usize) -> Tok {
        Tok::new(c, id as i64)
    }
    fn ch(t: &Tok) -> char {
        t.c
    }
    fn show(t: &Tok) -> String {
        show_tok(t)
    }
    fn loc(l: &usize) -> String {
        n2s(l)
    }
    fn span(s: &Self::Sp) -> String {
        r2s(s)
    }
    fn err(_: &Self::E) -> Vec<String> {
        vec!["V".into()]
    }
    fn start(_: &[char]) -> Self::L {
        location::Simple()
    }
    fn default_start() -> Option<Self::L> {
        Some(location::Simple())
    }
}

fn tok_text(t: &Tok) -> &str {
    text(t.c)
}
pub type RichL = location::Rich<Tok, fn(&Tok) -> &str>;

pub fn rich_off(o: &location::RichOffset) -> String {
    format!("{}:{}:{}:{}", o.row, o.column, o.offset, o.index)
}

/// Owned tokens, row/column locations.
pub struct R;
impl World for R {
    type I = Tok;
    type Lo = location::RichLocation;
    type Sp = location::RichSpan;
    type L = RichL;
    type E = error::Simple<Tok, RichL>;
    const NAME: &'static str = "R";
    fn pat(c: char) -> Tok {
        Tok::new(c, -1)
    }
    fn src(c: char, id: usize) -> Tok {
        Tok::new(c, id as i64)
    }
    fn ch(t: &Tok) -> char {
        t.c
    }
    fn show(t: &Tok) -> String {
        show_tok(t)
    }
    fn loc(l: &Self::Lo) -> String {
        format!("{}:{}", l.filename, rich_off(&l.offset))
    }
    fn span(s: &Self::Sp) -> String {
        format!("{}:{}..{}", s.filename, rich_off(&s.from), rich_off(&s.to))
    }
    fn err(e: &Self::E) -> Vec<String> {
        enc_simple(e, Self::ch, Self::show, Self::loc, Self::span)
    }
    fn start(pre: &[char]) -> Self::L {
        let mut l = RichL::new("F", tok_text as fn(&Tok) -> &str);
        for c in pre {
            l.advance(&Tok::new(*c, -1));
        }
        l
    }
    fn default_start() -> Option<Self::L> {
        None
    }
}

/// Characters; string containers. Some characters take several bytes.
pub struct C;
const WIDE: [(char, char); 4] = [
    ('b', '\u{e9}'),
    ('c', '\u{4e16}'),
    (')', '\u{1f642}'),
    ('w', '\u{161}'),
];
fn wide(c: char) -> char {
    WIDE.iter().find(|x| x.0 == c).map_or(c, |x| x.1)
}
fn narrow(c: char) -> char {
    WIDE.iter().find(|x| x.1 == c).map_or(c, |x| x.0)
}
impl World for C {
    type I = char;
    type Lo = usize;
    type Sp = std::ops::Range<usize>;
    type L = location::Simple;
    type E = error::Simple<char>;
    const NAME: &'static str = "C";
    fn pat(c: char) -> char {
        wide(c)
    }
    fn src(c: char, _: usize) -> char {
        wide(c)
    }
    fn ch(t: &char) -> char {
        narrow(*t)
    }
    fn show(t: &char) -> String {
        narrow(*t).to_string()
    }
    fn loc(l: &usize) -> String {
        n2s(l)
    }
    fn span(s: &Self::Sp) -> String {
        r2s(s)
    }
    fn err(e: &Self::E) -> Vec<String> {
        enc_simple(e, Self::ch, Self::show, n2s, r2s)
    }
    fn start(_: &[char]) -> Self::L {
        location::Simple()
    }
    fn default_start() -> Option<Self::L> {
        Some(location::Simple())
    }
    fn with_set<V: SetVisitor<Self>>(form: &str, set: &[char], v: V) -> Dyn<Self> {
        match form {
            "str" => v.visit::<&'static str>(
                leak(set.iter().map(|c| wide(*c)).collect::<String>()).as_str(),
            ),
            "string" => v.visit::<String>(set.iter().map(|c| wide(*c)).collect()),
            _ => common_set(form, set, v),
        }
    }
}

/// Borrowed tokens; containers that yield references.
pub struct F;
impl World for F {
    type I = &'static Tok;
    type Lo = usize;
    type Sp = std::ops::Range<usize>;
    type L = location::Simple;
    type E = error::Simple<&'static Tok>;
    const NAME: &'static str = "F";
    fn pat(c: char) -> &'static Tok {
        intern(c, -1)
    }
    fn src(c: char, id: usize) -> &'static Tok {
        intern(c, id as i64)
    }
    fn ch(t: &&'static Tok) -> char {
        t.c
    }
    fn show(t: &&'static Tok) -> String {
        show_tok(t)
    }
    fn loc(l: &usize) -> String {
        n2s(l)
    }
    fn span(s: &Self::Sp) -> String {
        r2s(s)
    }
    fn err(e: &Self::E) -> Vec<String> {
        enc_simple(e, Self::ch, Self::show, n2s, r2s)
    }
    fn start(_: &[char]) -> Self::L {
        location::Simple()
    }
    fn default_start() -> Option<Self::L> {
        Some(location::Simple())
    }
    fn with_set<V: SetVisitor<Self>>(form: &str, set: &[char], v: V) -> Dyn<Self> {
        let vec: Vec<Tok> = set.iter().map(|c| Tok::new(*c, -1)).collect();
        match (form, set.len()) {
            ("slice", _) => v.visit::<&'static [Tok]>(leak(vec).as_slice()),
            ("rvec", _) => v.visit::<&'static Vec<Tok>>(leak(vec)),
            ("aref", 1) => v.visit::<&'static [Tok; 1]>(leak([vec[0].clone()])),
            ("aref", 2) => v.visit::<&'static [Tok; 2]>(leak([vec[0].clone(), vec[1].clone()])),
            ("aref", 3) => v.visit::<&'static [Tok; 3]>(leak([vec[0].clone(), vec[1].clone(), vec[2].clone()])),
            _ => common_set(form, set, v),
        }
    }
}

/// Location tracker that ignores the token index and sums weights of the tokens passed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct AbsLoc {
    pub n: usize,
}
pub fn weight(c: char) -> usize {
    1 + (c as usize % 3)
}
impl Tracker<Tok> for AbsLoc {
    type Location = usize;
    type Span = (usize, usize);
    fn advance(&mut self, t: &Tok) {
        self.n += weight(t.c);
    }
    fn location(&self, _: usize) -> usize {
        self.n
    }
    fn spanning_to(&self, _: usize, to: &Self, _: usize) -> (usize, usize) {
        (self.n, to.n)
    }
}

/// Owned tokens, index-free locations.
pub struct A;
impl World for A {
    type I = Tok;
    type Lo = usize;
    type Sp = (usize, usize);
    type L = AbsLoc;
    type E = error::Simple<Tok, AbsLoc>;
    const NAME: &'static str = "A";
    fn pat(c: char) -> Tok {
        Tok::new(c, -1)
    }
    fn src(c: char, id: usize) -> Tok {
        Tok::new(c, id as i64)
    }
    fn ch(t: &Tok) -> char {
        t.c
    }
    fn show(t: &Tok) -> String {
        show_tok(t)
    }
    fn loc(l: &usize) -> String {
        format!("A{l}")
    }
    fn span(s: &Self::Sp) -> String {
        format!("A{}..A{}", s.0, s.1)
    }
    fn err(e: &Self::E) -> Vec<String> {
        enc_simple(e, Self::ch, Self::show, Self::loc, Self::span)
    }
    fn start(pre: &[char]) -> Self::L {
        AbsLoc {
            n: pre.iter().map(|c| weight(*c)).sum(),
        }
    }
    fn start_at(toks: &[char], base: usize) -> Self::L {
        Self::start(&toks[..base])
    }
    fn default_start() -> Option<Self::L> {
        Some(AbsLoc::default())
    }
}
