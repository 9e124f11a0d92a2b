//! Result values (C14) and error values (C16): builds what a case describes with the real library,
//! applies the operations, and records what can be seen.
use crate::json::{js, J};
use crate::obj;
use parse_proof_of_concept::error::{At, Error, Fallback, Simple};
use parse_proof_of_concept::location::{Rich, RichLocation, RichOffset, RichSpan, Tracker};
use parse_proof_of_concept::parser::Result as PR;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Msg(String);
impl Fallback for Msg {
    fn simple<M: ToString>(m: M) -> Self {
        Msg(format!("simple:{}", m.to_string()))
    }
}

type V = PR<Vec<String>, Msg>;

fn msgs(j: &J) -> Vec<Msg> {
    j.strs().into_iter().map(Msg).collect()
}
fn strs(v: &[Msg]) -> J {
    J::A(v.iter().map(|m| js(&m.0)).collect())
}
fn wrap(t: &str, mut o: Vec<String>) -> Vec<String> {
    o.insert(0, format!("{t}("));
    o.push(")".into());
    o
}

fn value(q: &J) -> V {
    let o = q.get("o").strs();
    match q.get("k").s() {
        "S" => PR::Success(o),
        "R" => PR::Recovered(o, msgs(q.get("e"))),
        _ => PR::Failed(q.get("x").u(), msgs(q.get("e"))),
    }
}

fn see(v: &V) -> J {
    let (k, o, x, e) = match v {
        PR::Success(o) => ("S", o.clone(), 0, vec![]),
        PR::Recovered(o, e) => ("R", o.clone(), 0, e.clone()),
        PR::Failed(x, e) => ("F", vec![], *x, e.clone()),
    };
    let mut tree = vec![js(if v.tree().is_some() { "some" } else { "none" })];
    tree.extend(v.tree().into_iter().flatten().map(js));
    let mut it = v.errors();
    let mut errs = vec![];
    for m in it.by_ref() {
        errs.push(js(&m.0));
    }
    // An iterator that has ended stays at its end; what is seen does not depend on how it is read.
    if it.next().is_some() {
        errs.push(js("more"));
    }
    let n = errs.len();
    let (low, high) = v.errors().size_hint();
    let shown = |x: Option<&Msg>| x.map(|m| js(&m.0));
    if low > n || high.is_some_and(|h| h < n) || v.errors().count() != n || shown(v.errors().last()) != errs.last().cloned() {
        errs.push(js("count"));
    }
    for (k, e) in errs.clone().into_iter().enumerate() {
        let mut it = v.errors();
        let mut then = v.errors();
        let first = shown(then.next());
        if shown(it.nth(k)) != Some(e.clone()) || shown(it.next()) != errs.get(k + 1).cloned() || first != errs.first().cloned() || (k > 0 && shown(then.nth(k - 1)) != Some(e)) {
            errs.push(js("nth"));
        }
    }
    let std: Result<Vec<String>, Msg> = v.clone().into();
    let std = match std {
        Ok(o) => std::iter::once(js("ok")).chain(o.iter().map(js)).collect(),
        Err(e) => vec![js("err"), js(e.0)],
    };
    obj! {"k" => js(k), "o" => J::from_strs(&o), "x" => J::N(x as i64), "e" => strs(&e),
    "ok" => J::B(v.is_ok()), "tree" => J::A(tree), "errs" => J::A(errs), "std" => J::A(std)}
}

fn results(c: &J) -> J {
    let mut v = value(c.get("q"));
    let mut obs = vec![see(&v)];
    for u in c.get("ops").a() {
        let t = u.get("t").s().to_string();
        v = match u.get("op").s() {
            "map" => v.map(|o| wrap(&t, o)),
            "maperr" => {
                let mut n = 0;
                v.map_err(|e| {
                    n += 1;
                    Msg(format!("{t}{n}:{}", e.0))
                })
            }
            _ => v.try_map(|o| match u.get("k").s() {
                "S" => PR::Success(wrap(&t, o)),
                "R" => PR::Recovered(wrap(&t, o), msgs(u.get("e"))),
                _ => PR::Failed(u.get("x").u(), msgs(u.get("e"))),
            }),
        };
        obs.push(see(&v));
    }
    J::A(obs)
}

/// A tracker whose locations and spans are shown as single words.
#[derive(Clone)]
struct Words;
#[derive(Clone, PartialEq, Debug)]
struct Word(String);
impl std::fmt::Display for Word {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Tracker<String> for Words {
    type Location = Word;
    type Span = Word;
    fn advance(&mut self, _: &String) {}
    fn location(&self, _: usize) -> Word {
        unreachable!()
    }
    fn spanning_to(&self, _: usize, _: &Self, _: usize) -> Word {
        unreachable!()
    }
}

fn pair(j: &J) -> (usize, usize) {
    (j.a()[0].u(), j.a()[1].u())
}
fn rich_offset(j: &J) -> RichOffset {
    // Offset and index are not shown; let them differ from everything that is.
    let (row, column) = pair(j);
    RichOffset { row, column, offset: 900_000 + row, index: 800_000 + column }
}
type RL = Rich<String, fn(&String) -> &str>;
fn rich_loc(p: &J) -> RichLocation {
    RichLocation { filename: Rc::new("FILE".into()), offset: rich_offset(p.get("f")) }
}
fn rich_span(p: &J) -> RichSpan {
    RichSpan { filename: Rc::new("FILE".into()), from: rich_offset(p.get("f")), to: rich_offset(p.get("t")) }
}
fn word_loc(p: &J) -> Word {
    let (a, b) = pair(p.get("f"));
    Word(format!("U{a}x{b}"))
}
fn word_span(p: &J) -> Word {
    let ((a, b), (c, d)) = (pair(p.get("f")), pair(p.get("t")));
    Word(format!("V{a}x{b}x{c}x{d}"))
}

/// The significant words of a text, in order.
fn words(text: &str) -> J {
    J::A(
        text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_'))
            .filter(|w| {
                let mut c = w.chars();
                let (a, b) = (c.next().unwrap_or(' '), c.next().unwrap_or(' '));
                *w == "EOF"
                    || *w == "FILE"
                    || w.starts_with("t_")
                    || w.starts_with("w_")
                    || a.is_ascii_digit()
                    || ((a == 'U' || a == 'V') && b.is_ascii_digit())
            })
            .map(js)
            .collect(),
    )
}

fn error<L>(c: &J, loc: impl Fn(&J) -> L::Location, span: impl Fn(&J) -> L::Span) -> J
where
    L: Tracker<String>,
    L::Location: std::fmt::Display + Clone,
    L::Span: std::fmt::Display + Clone,
{
    let tok = |s: String| if s == "EOF" { None } else { Some(s) };
    let places = c.get("places").a();
    let at = |p: &J| match p.get("k").s() {
        "N" => At::None,
        "L" => At::Location(loc(p)),
        _ => At::Span(span(p)),
    };
    let toks = c.get("toks").strs();
    type Er<L> = Simple<String, L>;
    let exp = |j: &J| j.strs().into_iter().map(tok).collect::<Vec<_>>();
    let e: Er<L> = match c.get("v").s() {
        "EF" => {
            let exps = c.get("exps").a();
            let mut e: Er<L> = Error::expected_found(exp(&exps[0]), tok(toks[0].clone()), at(&places[0]));
            for x in &exps[1..] {
                let other: Er<L> = Error::expected_found(exp(x), tok("t_other".into()), at(&places[0]));
                e.merge_expected_found(&other);
            }
            e
        }
        "UL" => Error::unmatched_left_delimiter(toks[0].clone(), span(&places[0]), at(&places[1])),
        "UR" => Error::unmatched_right_delimiter(toks[0].clone(), span(&places[0]), at(&places[1])),
        "UT" => Error::unmatched_delimiter_type(toks[0].clone(), span(&places[0]), toks[1].clone(), span(&places[1])),
        _ => {
            let msg = c.get("msg").strs().join(" and ");
            if places[0].get("k").s() == "N" && msg.len() > 4 {
                Fallback::simple(msg)
            } else {
                Error::custom(msg, at(&places[0]))
            }
        }
    };
    let l = Error::<String>::location(&e);
    obj! {"text" => words(&e.to_string()), "raw" => js(&e), "at" => words(&l.to_string()), "alt" => words(&format!("{l:#}")),
    "ef" => J::B(e.is_expected_found())}
}

pub fn run(c: &J) -> J {
    let mut out = c.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if c.get("kind").s() == "res" {
            results(c)
        } else if c.get("w").s() == "R" {
            error::<RL>(c, rich_loc, rich_span)
        } else {
            error::<Words>(c, word_loc, word_span)
        }
    }));
    match r {
        Ok(o) => out.set("obs", o),
        Err(_) => out.set("panic", js("panic")),
    }
    out
}
