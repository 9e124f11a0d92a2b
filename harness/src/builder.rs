//! Builds the library's own parsers from a grammar description. Every node is wrapped in a probe
//! (`Dyn`) that records each call of `parse_internal` and its result: a user-level parser, so
//! no instrumentation inside the library is needed.
use crate::gram::{Gram, Node, Step, HUGE};
use crate::world::{tick, SetVisitor, World};
use parse_proof_of_concept::combinator::TryMapResult;
use parse_proof_of_concept::container::Container;
use parse_proof_of_concept::error::{At, Error};
use parse_proof_of_concept::parser::{Parser, Result as PR};
use parse_proof_of_concept::recovery::{self, IncompleteStrategy, Recover, Strategy};
use parse_proof_of_concept::recursive::{recursive, Recursive};
use parse_proof_of_concept::scanner::{nested_delimiters, Scanner};
use parse_proof_of_concept::stream::{SavedState, Stream};
use parse_proof_of_concept::{location::Tracker, primitive as prim};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type O = Vec<String>;

/// One observed call of a parser.
#[derive(Clone, Debug)]
pub struct Ev {
    pub nid: usize,
    pub i: usize,
    pub r: bool,
    pub depth: usize,
    pub pull: usize,
    pub k: &'static str,
    pub o: O,
    pub p: usize,
    pub x: usize,
    pub e: Vec<Vec<String>>,
    pub parent: usize, // index of the enclosing call + 1, 0: none
}

#[derive(Default)]
pub struct Ctx {
    pub trace: Cell<bool>,
    pub evs: RefCell<Vec<Ev>>,
    pub depth: Cell<usize>,
    pub cur: Cell<usize>,
    pub pulled: Rc<Cell<usize>>,
}

pub struct Dyn<W: World> {
    p: Rc<dyn Parser<'static, W::I, Output = O, Error = W::E>>,
    nid: usize,
    ctx: Rc<Ctx>,
}

impl<W: World> Clone for Dyn<W> {
    fn clone(&self) -> Self {
        Dyn {
            p: self.p.clone(),
            nid: self.nid,
            ctx: self.ctx.clone(),
        }
    }
}

impl<W: World> Parser<'static, W::I> for Dyn<W> {
    type Output = O;
    type Error = W::E;
    fn parse_internal(&self, s: &mut Stream<'static, W::I, W::L>, r: bool) -> PR<O, W::E> {
        tick();
        if !self.ctx.trace.get() {
            return self.p.parse_internal(s, r);
        }
        let i = s.index();
        let d = self.ctx.depth.get();
        let parent = self.ctx.cur.get();
        let slot = {
            let mut evs = self.ctx.evs.borrow_mut();
            evs.push(Ev {
                nid: self.nid,
                i,
                r,
                depth: d,
                pull: self.ctx.pulled.get(),
                k: "?",
                o: vec![],
                p: 0,
                x: 0,
                e: vec![],
                parent,
            });
            evs.len() - 1
        };
        self.ctx.depth.set(d + 1);
        self.ctx.cur.set(slot + 1);
        let res = self.p.parse_internal(s, r);
        self.ctx.depth.set(d);
        self.ctx.cur.set(parent);
        let mut evs = self.ctx.evs.borrow_mut();
        let ev = &mut evs[slot];
        ev.p = s.index();
        ev.pull = self.ctx.pulled.get();
        let (k, o, x, e) = parts::<W>(&res);
        ev.k = k;
        ev.o = o;
        ev.x = x;
        ev.e = e;
        res
    }
}

#[allow(clippy::type_complexity)]
pub fn parts<W: World>(r: &PR<O, W::E>) -> (&'static str, O, usize, Vec<Vec<String>>) {
    match r {
        PR::Success(o) => ("S", o.clone(), 0, vec![]),
        PR::Recovered(o, es) => ("R", o.clone(), 0, es.iter().map(W::err).collect()),
        PR::Failed(x, es) => ("F", vec![], *x, es.iter().map(W::err).collect()),
    }
}

/// Converts a parser's natural output type to the common one (our code, not the library's map).
struct Conv<P, F> {
    p: P,
    f: F,
}
impl<I: Clone + 'static, P, F> Parser<'static, I> for Conv<P, F>
where
    P: Parser<'static, I>,
    F: Fn(P::Output) -> O,
{
    type Output = O;
    type Error = P::Error;
    fn parse_internal(
        &self,
        s: &mut Stream<'static, I, <P::Error as Error<'static, I>>::LocationTracker>,
        r: bool,
    ) -> PR<O, P::Error> {
        match self.p.parse_internal(s, r) {
            PR::Success(o) => PR::Success((self.f)(o)),
            PR::Recovered(o, e) => PR::Recovered((self.f)(o), e),
            PR::Failed(i, e) => PR::Failed(i, e),
        }
    }
}

fn s(x: impl ToString) -> String {
    x.to_string()
}
pub fn wrap(head: impl ToString, mut inner: O) -> O {
    inner.insert(0, head.to_string());
    inner.push(")".into());
    inner
}
fn pair(a: O, b: O) -> O {
    let mut a = a;
    a.extend(b);
    wrap("(", a)
}
fn list(v: Vec<O>) -> O {
    let mut r = vec![s("[")];
    for x in v {
        r.extend(x);
    }
    r.push(s("]"));
    r
}
fn opt(o: Option<O>) -> O {
    match o {
        Some(o) => wrap("Some(", o),
        None => vec![s("None")],
    }
}
fn unit(_: ()) -> O {
    vec![s("()")]
}
type Sp<W> = <W as World>::Sp;
fn sp_at<W: World>(sp: W::Sp) -> At<W::Lo, W::Sp> {
    At::Span(sp)
}
fn cus<W: World>(m: impl ToString, at: At<W::Lo, W::Sp>) -> W::E {
    <W::E as Error<'static, W::I>>::custom(m.to_string(), at)
}

/// An expected-found error made by a user.
fn lab<W: World>(set: &[char], at: At<W::Lo, W::Sp>) -> W::E {
    <W::E as Error<'static, W::I>>::expected_found(set.iter().map(|c| Some(W::pat(*c))), None, at)
}

/// A user-written token matcher that reports failure at index 0 if asked to.
#[derive(Clone)]
struct Cust<W: World> {
    set: Vec<char>,
    x0: bool,
    n: usize,
    ph: std::marker::PhantomData<W>,
}
impl<W: World> Parser<'static, W::I> for Cust<W> {
    type Output = O;
    type Error = W::E;
    fn parse_internal(&self, st: &mut Stream<'static, W::I, W::L>, _r: bool) -> PR<O, W::E> {
        tick();
        if let Some(t) = st.token() {
            if self.set.contains(&W::ch(t)) {
                let o = vec![format!("c:{}", W::show(t))];
                st.advance();
                return PR::Success(o);
            }
        }
        let at = st.location();
        let es = (0..self.n)
            .map(|k| cus::<W>(format!("c{k}"), At::Location(at.clone())))
            .collect();
        PR::Failed(if self.x0 { 0 } else { st.index() }, es)
    }
}

/// A user-written parser that looks `n` tokens ahead of where it starts; the token there decides.
/// It then takes one token, or (`x0`) everything up to and including the token it looked at.
struct Look<W: World> {
    set: Vec<char>,
    x0: bool,
    n: usize,
    ph: std::marker::PhantomData<W>,
}
impl<W: World> Parser<'static, W::I> for Look<W> {
    type Output = O;
    type Error = W::E;
    fn parse_internal(&self, st: &mut Stream<'static, W::I, W::L>, _r: bool) -> PR<O, W::E> {
        tick();
        let here = st.save();
        let i = st.index();
        let there = st.save_at(i + self.n);
        st.restore(&there);
        let t = st.token().cloned();
        let x = st.index();
        let at = st.location();
        let sp = st.spanning_back_to(&here);
        // the same, seen from where the parser started
        st.restore(&here);
        let same = st.token_at(&there).map(W::show) == t.as_ref().map(W::show)
            && st.index_at(&there) == x
            && st.location_at(&there) == at;
        let what = if same { "k" } else { "views differ" };
        match t {
            Some(t) if self.set.contains(&W::ch(&t)) => {
                if self.x0 {
                    st.restore(&there);
                }
                st.advance();
                PR::Success(vec![s(what), W::show(&t), W::span(&sp)])
            }
            t => PR::Failed(
                x,
                vec![cus::<W>(
                    format!("{what} {}", t.as_ref().map(W::show).unwrap_or("EOF".into())),
                    At::Location(at),
                )],
            ),
        }
    }
}

/// User-written: runs a parser and goes back to where it started, whatever the result.
struct Peek<P>(P);
impl<I: Clone + 'static, P: Parser<'static, I>> Parser<'static, I> for Peek<P> {
    type Output = P::Output;
    type Error = P::Error;
    fn parse_internal(
        &self,
        s: &mut Stream<'static, I, <P::Error as Error<'static, I>>::LocationTracker>,
        r: bool,
    ) -> PR<P::Output, P::Error> {
        let here = s.save();
        let q = self.0.parse_internal(s, r);
        s.restore(&here);
        q
    }
}

/// User-written: succeeds without taking anything where another parser fails.
struct Not<W: World>(Dyn<W>);
impl<W: World> Parser<'static, W::I> for Not<W> {
    type Output = O;
    type Error = W::E;
    fn parse_internal(&self, st: &mut Stream<'static, W::I, W::L>, _r: bool) -> PR<O, W::E> {
        let q = st.attempt(|st| {
            let q = self.0.parse_internal(st, false);
            // always back to the start
            Err::<PR<O, W::E>, _>(q)
        });
        match q {
            PR::Failed(..) => PR::Success(vec![s("!")]),
            _ => {
                let at = st.location();
                PR::Failed(st.index(), vec![cus::<W>("not", At::Location(at))])
            }
        }
    }
}

/// Clones the library's scanner before every token and goes on with a clone.
struct ClScan<T>(T);
impl<I: Clone + 'static, E: Error<'static, I>, T: Scanner<'static, I, E> + Clone> Scanner<'static, I, E>
    for ClScan<T>
{
    fn scan(
        &mut self,
        token: I,
        span: <E::LocationTracker as Tracker<I>>::Span,
        errors: &mut Vec<E>,
    ) -> bool {
        let mut c = self.0.clone();
        let r = c.scan(token, span, errors);
        self.0 = c.clone();
        r
    }
    fn eof(&mut self, l: <E::LocationTracker as Tracker<I>>::Location, errors: &mut Vec<E>) {
        self.0.clone().eof(l, errors)
    }
}

struct CScan<W: World> {
    left: usize,
    t: String,
    ph: std::marker::PhantomData<W>,
}
impl<W: World> Scanner<'static, W::I, W::E> for CScan<W> {
    fn scan(&mut self, token: W::I, span: W::Sp, errors: &mut Vec<W::E>) -> bool {
        tick();
        errors.push(cus::<W>(
            format!("sc:{} {}", self.t, W::show(&token)),
            At::Span(span),
        ));
        if self.left > 0 {
            self.left -= 1;
        }
        self.left == 0
    }
    fn eof(&mut self, l: W::Lo, errors: &mut Vec<W::E>) {
        errors.push(cus::<W>(format!("se:{}", self.t), At::Location(l)));
    }
}

/// Strategy under construction behind one type (ours; the library's box is a separate step).
struct DynS<W: World> {
    r: Rc<dyn Recover<'static, W::I, Dyn<W>>>,
}
impl<W: World> Clone for DynS<W> {
    fn clone(&self) -> Self {
        DynS { r: self.r.clone() }
    }
}
impl<W: World> Recover<'static, W::I, Dyn<W>> for DynS<W> {
    fn recover(
        &self,
        parser: &Dyn<W>,
        stream: &mut Stream<'static, W::I, W::L>,
        started_at: &SavedState,
        failed_at: &mut SavedState,
        errors: &mut Vec<W::E>,
    ) -> Option<O> {
        self.r
            .recover(parser, stream, started_at, failed_at, errors)
    }
}
impl<W: World> IncompleteStrategy<'static, W::I, Dyn<W>> for DynS<W> {}
impl<W: World> Strategy<'static, W::I, Dyn<W>> for DynS<W> {}

fn ds<W: World, T: Recover<'static, W::I, Dyn<W>> + 'static>(t: T) -> DynS<W> {
    DynS { r: Rc::new(t) }
}

/// The same, with the library's strategy cloned first if the grammar says so.
fn dsc<W: World, T: Recover<'static, W::I, Dyn<W>> + Clone + 'static>(cl: bool, t: T) -> DynS<W> {
    if cl {
        let u = t.clone();
        drop(t);
        ds(u)
    } else {
        ds(t)
    }
}

fn inset<W: World>(set: &[char]) -> impl Fn(&W::I) -> bool + Clone + 'static {
    let set = set.to_vec();
    move |t: &W::I| {
        tick();
        set.contains(&W::ch(t))
    }
}

pub struct Builder<'g, W: World> {
    g: &'g Gram,
    ctx: Rc<Ctx>,
    defs: RefCell<HashMap<usize, Recursive<'static, W::I, O, W::E>>>,
    /// no probes (used when a parser's own types matter more than the trace)
    shared: bool,
    cache: RefCell<HashMap<usize, Dyn<W>>>,
}

struct SetV<'b, 'g, W: World> {
    b: &'b Builder<'g, W>,
    n: &'b Node,
    nid: usize,
}
impl<'b, 'g, W: World> SetVisitor<W> for SetV<'b, 'g, W> {
    fn visit<K: Container<W::I> + Clone + 'static>(self, k: K) -> Dyn<W> {
        let show = |t: W::I| vec![W::show(&t)];
        match self.n.op.as_str() {
            "seq" => {
                let f = |k: K| {
                    let mut v: O = k.get_iter().map(|t| W::show(&t)).collect();
                    v.insert(0, s("q("));
                    v.push(s(")"));
                    v
                };
                let p = prim::seq::<W::I, K, W::E>(k);
                if self.n.cl {
                    self.b.fin(self.nid, Conv { p: p.clone(), f })
                } else {
                    self.b.fin(self.nid, Conv { p, f })
                }
            }
            "oneof" => {
                let p = prim::one_of::<W::I, K, W::E>(k);
                if self.n.cl {
                    self.b.fin(
                        self.nid,
                        Conv {
                            p: p.clone(),
                            f: show,
                        },
                    )
                } else {
                    self.b.fin(self.nid, Conv { p, f: show })
                }
            }
            _ => {
                let p = prim::none_of::<W::I, K, W::E>(k);
                if self.n.cl {
                    self.b.fin(
                        self.nid,
                        Conv {
                            p: p.clone(),
                            f: show,
                        },
                    )
                } else {
                    self.b.fin(self.nid, Conv { p, f: show })
                }
            }
        }
    }
}

impl<'g, W: World> Builder<'g, W> {
    pub fn new(g: &'g Gram, ctx: Rc<Ctx>) -> Self {
        Builder {
            g,
            ctx,
            defs: Default::default(),
            shared: false,
            cache: Default::default(),
        }
    }

    /// References to node `d` become references to this declaration.
    pub fn stand_for(&self, d: usize, r: Recursive<'static, W::I, O, W::E>) {
        self.defs.borrow_mut().insert(d, r);
    }

    fn fin<P>(&self, nid: usize, p: P) -> Dyn<W>
    where
        P: Parser<'static, W::I, Output = O, Error = W::E> + 'static,
    {
        Dyn {
            p: Rc::new(p),
            nid,
            ctx: self.ctx.clone(),
        }
    }

    pub fn build(&self, nid: usize) -> Dyn<W> {
        if self.shared {
            if let Some(d) = self.cache.borrow().get(&nid) {
                return d.clone();
            }
        }
        let d = self.build1(nid);
        if self.shared {
            self.cache.borrow_mut().insert(nid, d.clone());
        }
        d
    }

    fn build1(&self, nid: usize) -> Dyn<W> {
        let n = self.g.n(nid);
        let c = |k: usize| self.build(n.ch[k]);
        let t = n.t.clone();
        // `x`: library parser; clone it first if the grammar says so.
        macro_rules! fin {
            ($x:expr, $f:expr) => {{
                let x = $x;
                if n.cl {
                    let y = x.clone();
                    drop(x);
                    self.fin(nid, Conv { p: y, f: $f })
                } else {
                    self.fin(nid, Conv { p: x, f: $f })
                }
            }};
        }
        let id = |o: O| o;
        match n.op.as_str() {
            "empty" => fin!(prim::empty::<W::I, W::E>(), unit),
            "none" => fin!(prim::none::<W::I, O, W::E>(), opt),
            "end" => fin!(prim::end::<W::I, W::E>(), unit),
            "just" => fin!(
                prim::just::<W::I, W::E>(W::pat(t.chars().next().unwrap())),
                |t: W::I| vec![W::show(&t)]
            ),
            "filter" => fin!(
                prim::filter::<W::I, _, W::E>(inset::<W>(&n.set)),
                |t: W::I| vec![W::show(&t)]
            ),
            "fmap" => {
                let set = n.set.clone();
                fin!(
                    prim::filter_map::<W::I, _, O, W::E>(move |t: &W::I| {
                        tick();
                        if set.contains(&W::ch(t)) {
                            Some(vec![format!("f:{}", W::show(t))])
                        } else {
                            None
                        }
                    }),
                    id
                )
            }
            "seq" | "oneof" | "noneof" => W::with_set(&n.form, &n.set, SetV { b: self, n, nid }),
            "cust" => self.fin(
                nid,
                Cust::<W> {
                    set: n.set.clone(),
                    x0: n.x0,
                    n: n.n,
                    ph: Default::default(),
                },
            ),
            "look" => self.fin(
                nid,
                Look::<W> {
                    set: n.set.clone(),
                    x0: n.x0,
                    n: n.n,
                    ph: Default::default(),
                },
            ),
            "peek" => self.fin(nid, Peek(c(0))),
            "not" => self.fin(nid, Not(c(0))),
            "to" => fin!(c(0).to(vec![format!("t:{t}")]), id),
            "ign" => fin!(c(0).ignored::<()>(), unit),
            "some" => fin!(c(0).some(), opt),
            "map" => fin!(
                c(0).map(move |o: O| {
                    tick();
                    wrap(format!("m:{t}("), o)
                }),
                id
            ),
            "mapspan" => fin!(
                c(0).map_with_span(move |o: O, sp: Sp<W>| {
                    tick();
                    let mut o = o;
                    o.push(W::span(&sp));
                    wrap(format!("ms:{t}("), o)
                }),
                id
            ),
            "maperr" => fin!(
                c(0).map_err(move |e: W::E| {
                    tick();
                    cus::<W>(format!("me:{t} {}", W::err(&e).join(" ")), At::None)
                }),
                id
            ),
            "maperrspan" => fin!(
                c(0).map_err_with_span(move |e: W::E, sp: Sp<W>| {
                    tick();
                    cus::<W>(format!("mes:{t} {}", W::err(&e).join(" ")), sp_at::<W>(sp))
                }),
                id
            ),
            "label" => {
                let set = n.set.clone();
                fin!(
                    c(0).map_err(move |_: W::E| {
                        tick();
                        lab::<W>(&set, At::None)
                    }),
                    id
                )
            }
            "labelspan" => {
                let set = n.set.clone();
                fin!(
                    c(0).map_err_with_span(move |_: W::E, sp: Sp<W>| {
                        tick();
                        lab::<W>(&set, sp_at::<W>(sp))
                    }),
                    id
                )
            }
            "trymap" => {
                let acts = n.acts.clone();
                let p = c(0).try_map(move |o: O, sp: Sp<W>| {
                    tick();
                    let act = acts[o.len() % acts.len()].as_str();
                    let mut o = o;
                    o.push(W::span(&sp));
                    let e1 = cus::<W>(format!("te:{t}"), At::Span(sp.clone()));
                    let e2 = cus::<W>(format!("tf:{t}"), At::None);
                    match act {
                        "ok" => TryMapResult::Ok(wrap(format!("y:{t}("), o)),
                        "err" => TryMapResult::Err(vec![e1]),
                        "err2" => TryMapResult::Err(vec![e1, e2]),
                        "lab" => TryMapResult::Err(vec![lab::<W>(&['c'], At::Span(sp))]),
                        "lab0" => TryMapResult::Err(vec![lab::<W>(&['a', 'c'], At::None)]),
                        "lab2" => TryMapResult::Err(vec![
                            lab::<W>(&['b'], At::None),
                            e1,
                            lab::<W>(&['c'], At::Span(sp)),
                        ]),
                        "rec" => TryMapResult::Recovered(wrap(format!("yr:{t}("), o), vec![e1]),
                        _ => TryMapResult::Recovered(wrap(format!("yr:{t}("), o), vec![e1, e2]),
                    }
                });
                self.fin(nid, p)
            }
            "boxed" => fin!(Parser::boxed(c(0)), id),
            "witherr" => fin!(c(0).with_error::<W::E>(), id),
            "then" => fin!(c(0).then(c(1)), |(a, b): (O, O)| pair(a, b)),
            "thenig" => fin!(c(0).then_ignore(c(1)), id),
            "igthen" => fin!(c(0).ignore_then(c(1)), id),
            "delim" => fin!(c(1).delimited_by(c(0), c(2)), id),
            "pad" => fin!(c(1).padded_by(c(0)), id),
            "chain" => {
                let mut p = c(0).chain(c(1));
                for k in 2..n.ch.len() {
                    if n.n == k {
                        // goes on with a clone; the original grows differently
                        let q = p.clone();
                        let other = p.and(c(0)).and(c(1));
                        p = q;
                        drop(other);
                    }
                    p = p.and(c(k));
                }
                if n.n == n.ch.len() {
                    let q = p.clone();
                    let _other = p.and(c(0));
                    p = q;
                }
                fin!(p, list)
            }
            "or" => fin!(Parser::or(c(0), c(1)), id),
            "ornot" => fin!(c(0).or_not(), opt),
            "alters" => {
                let mut p = c(0).alters(c(1));
                for k in 2..n.ch.len() {
                    if n.n == k {
                        // goes on with a clone; the original grows differently
                        let q = p.clone();
                        let other = p.and(c(0)).and(c(1));
                        p = q;
                        drop(other);
                    }
                    p = p.and(c(k));
                }
                if n.n == n.ch.len() {
                    let q = p.clone();
                    let _other = p.and(c(0));
                    p = q;
                }
                fin!(p, id)
            }
            "rep" => {
                // Several ways to write the same limits.
                let sep = n.ch.len() > 1;
                let mut p = if sep && !matches!(n.form.as_str(), "ws" | "sl") {
                    if n.form == "ov" {
                        // another separator first
                        c(0).separated_by(c(0)).with_separator(c(1))
                    } else {
                        c(0).separated_by(c(1))
                    }
                } else {
                    c(0).repeated()
                };
                let lim = |k: i64| if k == HUGE { usize::MAX } else { k as usize };
                if n.form == "ws" && sep {
                    p = p.with_separator(c(1));
                }
                if n.form == "ov" {
                    // options first; limits replaced by later ones
                    if n.trail {
                        p = p.allow_trailing();
                    }
                    if n.lead {
                        p = p.allow_leading();
                    }
                    if n.max >= 0 && n.max % 2 == 0 {
                        p = p.exactly(5).at_least(lim(n.min as i64)).at_most(0).at_most(lim(n.max));
                    } else if n.max >= 0 {
                        p = p.exactly(5).at_most(lim(n.max)).at_least(lim(n.min as i64));
                    } else {
                        p = p.at_least(9).at_least(lim(n.min as i64));
                    }
                } else if n.max == n.min as i64 && n.form != "mm" {
                    p = p.exactly(lim(n.max));
                } else {
                    if n.form == "sl" && n.max >= 0 {
                        p = p.at_most(lim(n.max));
                    }
                    if n.min > 0 {
                        p = p.at_least(lim(n.min as i64));
                    }
                    if n.form != "sl" && n.max >= 0 {
                        p = p.at_most(lim(n.max));
                    }
                }
                if n.form != "ov" {
                    if n.trail {
                        p = p.allow_trailing();
                    }
                    if n.lead {
                        p = p.allow_leading();
                    }
                }
                if n.form == "sl" && sep {
                    p = p.with_separator(c(0)).clone().with_separator(c(1)).clone();
                }
                fin!(p, list)
            }
            "rec" => {
                let last = n.st.len() - 1;
                let st = self.steps(&n.st[..last]);
                let f = &n.st[last];
                let t = f.t.clone();
                // A strategy without steps goes through the shorthand functions.
                let fin: DynS<W> = match (f.s.as_str(), st) {
                    ("ret", None) => dsc(f.cl, recovery::just_return(vec![format!("r:{t}")])),
                    ("ret", Some(st)) => dsc(f.cl, st.and_return(vec![format!("r:{t}")])),
                    ("retwith", None) => {
                        dsc(f.cl, recovery::just_return_with(move || vec![format!("rw:{t}")]))
                    }
                    ("retwith", Some(st)) => {
                        dsc(f.cl, st.and_return_with(move || vec![format!("rw:{t}")]))
                    }
                    ("retspan", None) => dsc(f.cl, recovery::just_return_with_span(move |sp: Sp<W>| {
                        vec![format!("rs:{t}"), W::span(&sp)]
                    })),
                    ("retspan", Some(st)) => dsc(f.cl, st.and_return_with_span(move |sp: Sp<W>| {
                        vec![format!("rs:{t}"), W::span(&sp)]
                    })),
                    (_, None) => dsc(f.cl, recovery::attempt_to::<W::I, Dyn<W>>().or_fail()),
                    (_, Some(st)) => dsc(f.cl, st.or_fail()),
                };
                fin!(c(0).to_recover(fin), id)
            }
            "def" => {
                if n.form == "fn" {
                    let r = recursive::<W::I, _, Dyn<W>>(|r| {
                        self.defs.borrow_mut().insert(nid, r.clone());
                        c(0)
                    });
                    self.fin(nid, r)
                } else {
                    let mut r = Recursive::<'static, W::I, O, W::E>::declare();
                    self.defs.borrow_mut().insert(nid, r.clone());
                    let early = r.clone();
                    let body = c(0);
                    r.define(body);
                    if n.form == "early" {
                        self.fin(nid, early)
                    } else {
                        self.fin(nid, r)
                    }
                }
            }
            "ref" => {
                let r = self
                    .defs
                    .borrow()
                    .get(&n.d)
                    .expect("ref outside def")
                    .clone();
                self.fin(nid, r)
            }
            op => panic!("harness: unknown op {op}"),
        }
    }

    /// None: no steps. The first step uses the library's shorthand function.
    fn steps(&self, st: &[Step]) -> Option<DynS<W>> {
        let mut cur: Option<DynS<W>> = None;
        for x in st {
            cur = Some(self.step(cur, x));
        }
        cur
    }
    fn steps_or_nothing(&self, st: &[Step]) -> DynS<W> {
        self.steps(st)
            .unwrap_or_else(|| ds(recovery::attempt_to::<W::I, Dyn<W>>()))
    }

    fn step(&self, cur: Option<DynS<W>>, x: &Step) -> DynS<W> {
        type At0<W> = recovery::AttemptTo<<W as World>::I, Dyn<W>>;
        let at = recovery::attempt_to::<W::I, Dyn<W>>;
        let t = x.t.clone();
        macro_rules! two {
            ($free:expr, $m:ident ( $($a:expr),* )) => {
                match cur {
                    None => dsc(x.cl, $free($($a),*)),
                    Some(st) => dsc(x.cl, st.$m($($a),*)),
                }
            };
        }
        macro_rules! upd {
            () => {{
                let t = t.clone();
                move |es: &mut Vec<W::E>| {
                    tick();
                    match t.as_str() {
                        "rev" => es.reverse(),
                        "dup" => {
                            if let Some(e) = es.first().cloned() {
                                es.push(e)
                            }
                        }
                        "trunc" => es.truncate(1),
                        "clear" => es.clear(),
                        "lab" => *es = vec![lab::<W>(&['c'], At::None)],
                        _ => {
                            for e in es.iter_mut() {
                                *e = cus::<W>(format!("ut {}", W::err(e).join(" ")), At::None);
                            }
                        }
                    }
                }
            }};
        }
        macro_rules! run {
            ($p:expr) => {{
                let p = $p;
                // two ways to say both
                match (x.ex, x.sil, x.n) {
                    (false, false, _) => dsc(x.cl, p),
                    (true, false, _) => dsc(x.cl, p.exactly()),
                    (false, true, _) => dsc(x.cl, p.silently()),
                    (true, true, 1) => dsc(x.cl, p.exactly().silently()),
                    (true, true, 2) => dsc(x.cl, p.silently().exactly()),
                    (true, true, _) => dsc(x.cl, p.exactly_and_silently()),
                }
            }};
        }
        match x.s.as_str() {
            "restart" => dsc(x.cl, IncompleteStrategy::restart(cur.unwrap_or_else(|| dsc(x.cl, at())))),
            "seekf" => two!(recovery::seek_to_failed, seek_to_failed()),
            "skip" => two!(recovery::skip, skip()),
            "skipif" => two!(recovery::skip_if, skip_if(inset::<W>(&x.set))),
            "find" => two!(recovery::find, find(inset::<W>(&x.set))),
            "scan" => {
                let types: Vec<(W::I, W::I)> = x
                    .types
                    .iter()
                    .map(|(l, r)| (W::pat(*l), W::pat(*r)))
                    .collect();
                let types: &'static [(W::I, W::I)] = Box::leak(types.into_boxed_slice());
                if x.cl {
                    let f = nested_delimiters::<W::I, W::Sp>(types).clone();
                    two!(recovery::scan, scan(move || ClScan(f())))
                } else {
                    two!(
                        recovery::scan,
                        scan(nested_delimiters::<W::I, W::Sp>(types))
                    )
                }
            }
            "scanc" => {
                let n = x.n;
                two!(
                    recovery::scan,
                    scan(move || CScan::<W> {
                        left: n,
                        t: t.clone(),
                        ph: Default::default()
                    })
                )
            }
            "maybe" => {
                let inner = self.steps_or_nothing(&x.inn);
                two!(recovery::maybe, maybe(inner))
            }
            "whilenot" => {
                let inner = self.steps_or_nothing(&x.inn);
                two!(recovery::while_not, while_not(inset::<W>(&x.set), inner))
            }
            "retry" => match cur {
                None => run!(recovery::retry::<W::I, Dyn<W>>()),
                Some(st) => run!(st.retry()),
            },
            "ttp" => {
                let p = self.build(x.p);
                match cur {
                    None => run!(recovery::try_to_parse::<W::I, Dyn<W>, Dyn<W>>(p)),
                    Some(st) => run!(st.try_to_parse(p)),
                }
            }
            "push" => two!(
                recovery::push_error,
                push_error(move || cus::<W>(format!("p:{t}"), At::None))
            ),
            "pushhere" => two!(
                recovery::push_error_here,
                push_error_here(move |l: W::Lo| cus::<W>(format!("ph:{t}"), At::Location(l)))
            ),
            "pushup" => two!(
                recovery::push_error_up_to_here,
                push_error_up_to_here(move |sp: Sp<W>| cus::<W>(format!("pu:{t}"), At::Span(sp)))
            ),
            "pushtok" => two!(
                recovery::push_error_for_token,
                push_error_for_token(move |k: Option<&W::I>, sp: Sp<W>| cus::<W>(
                    format!("pt:{t} {}", k.map(W::show).unwrap_or("EOF".into())),
                    At::Span(sp)
                ))
            ),
            "upd" => two!(recovery::update_errors, update_errors(upd!())),
            "updhere" => two!(
                recovery::update_errors_here,
                update_errors_here(|es: &mut Vec<W::E>, l: W::Lo| {
                    let e = cus::<W>(format!("uh {}", es.len()), At::Location(l));
                    es.push(e)
                })
            ),
            "updup" => two!(
                recovery::update_errors_up_to_here,
                update_errors_up_to_here(|es: &mut Vec<W::E>, sp: Sp<W>| {
                    let e = cus::<W>(format!("uu {}", es.len()), At::Span(sp));
                    es.push(e)
                })
            ),
            "updtok" => two!(
                recovery::update_errors_for_token,
                update_errors_for_token(|es: &mut Vec<W::E>, k: Option<&W::I>, sp: Sp<W>| {
                    let e = cus::<W>(
                        format!("uk {} {}", es.len(), k.map(W::show).unwrap_or("EOF".into())),
                        At::Span(sp),
                    );
                    es.push(e)
                })
            ),
            "boxed" => match cur {
                None => {
                    let a: At0<W> = at();
                    dsc(x.cl, IncompleteStrategy::boxed(a).clone())
                }
                Some(st) => dsc(x.cl, IncompleteStrategy::boxed(st)),
            },
            "nothing" => match cur {
                None => dsc(x.cl, IncompleteStrategy::do_nothing(at())),
                Some(st) => dsc(x.cl, IncompleteStrategy::do_nothing(st)),
            },
            k => panic!("harness: unknown step {k}"),
        }
    }
}

/// Marker so that the tracker trait is in scope for generic code.
#[allow(dead_code)]
fn _unused<L: Tracker<char>>(_: L) {}
