//! Histories of uses of one parser value: streams opened on several inputs and read in any order,
//! whole parses in between, parses started from inside the parser (from user code it calls), and
//! parses abandoned by a panic of user code. Next to each result: that of a parser built anew.
use crate::builder::{parts, Builder, Ctx, Dyn};
use crate::gram::{Gram, Node};
use crate::json::{js, J};
use crate::obj;
use crate::rng::Rng;
use crate::run::{res_json, Src, Stat, FUEL_MAX};
use crate::world::{World, FUEL, HOOK};
use parse_proof_of_concept::parser::{Parser, Stream as ResStream};
use parse_proof_of_concept::stream::Stream;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

struct Abort;

fn base(k: usize) -> usize {
    1000 * k
}
fn ctx() -> Rc<Ctx> {
    Rc::new(Ctx::default())
}
fn none(k: &str) -> J {
    res_json(k, &vec![], 0, &[], 0)
}
fn refuel() {
    FUEL.with(|f| f.set(FUEL_MAX));
}

/// One parse with `p` of what is left of input `k` from token `i`.
fn once<W: World>(p: &Dyn<W>, toks: &[char], k: usize, pre: &[char], i: usize, r: bool) -> J {
    let src = Src::<W>::new(toks, base(k), false, Rc::new(Stat::default()));
    let mut st: Stream<'static, W::I, W::L> = Stream::new_with_location(src, W::start(pre));
    for _ in 0..i {
        st.token();
        st.advance();
    }
    let res = p.parse_internal(&mut st, r);
    let (kind, o, x, e) = parts::<W>(&res);
    res_json(kind, &o, x, &e, st.index())
}
fn fresh<W: World>(g: &Gram, toks: &[char], k: usize, pre: &[char], i: usize, r: bool) -> J {
    refuel();
    match catch_unwind(AssertUnwindSafe(|| {
        let b: Builder<W> = Builder::new(g, ctx());
        once(&b.build(g.root), toks, k, pre, i, r)
    })) {
        Ok(j) => j,
        Err(_) => none("P"),
    }
}

fn run<W: World>(j: &J) -> J {
    let un = |j: &J| -> Vec<char> {
        j.a()
            .iter()
            .map(|x| x.s().chars().next().unwrap())
            .collect()
    };
    let g = Gram {
        nodes: j.get("nodes").a().iter().map(Node::from_json).collect(),
        root: j.get("root").u(),
    };
    let pre = un(j.get("pre"));
    let ins: Vec<Vec<char>> = j.get("inputs").a().iter().map(un).collect();
    let ops = j.get("ops").a();
    refuel();
    let c = ctx();
    let b: Builder<W> = Builder::new(&g, c.clone());
    let p: Dyn<W> = b.build(g.root);
    let mut slots: Vec<Option<(usize, ResStream<'static, '_, W::I, Dyn<W>>)>> =
        (0..4).map(|_| None).collect();
    let mut obs = vec![];
    let mut table: Vec<(usize, usize, bool)> = vec![];
    let mut want = |k: usize, i: usize, r: bool| {
        if !table.contains(&(k, i, r)) {
            table.push((k, i, r));
        }
    };
    for op in ops {
        let (o, s) = (op.get("o").s(), op.get("s").u());
        let (k, r) = (op.get("i").u(), op.get("r").b());
        let h = op.get("h").s();
        let nres: Rc<RefCell<Option<J>>> = Default::default();
        let fired = Rc::new(Cell::new(false));
        let mut start = 0;
        let mut tail = vec![];
        let mut res = J::Null;
        // The same thing n times over; results that were not like the last are kept.
        let mut other: Vec<J> = vec![];
        for _ in 0..op.get("n").u().max(1) {
            c.evs.borrow_mut().clear();
            c.depth.set(0);
            c.cur.set(0);
            c.trace.set(o == "next");
            refuel();
            *nres.borrow_mut() = None;
            fired.set(false);
            if h != "none" {
                let (f2, n2, p2, c2, pre2) = (
                    fired.clone(),
                    nres.clone(),
                    p.clone(),
                    c.clone(),
                    pre.clone(),
                );
                let (nk, nr, abort) = (op.get("ni").u(), op.get("nr").b(), h == "abort");
                let toks = ins[nk - 1].clone();
                let f: Box<dyn FnOnce()> = Box::new(move || {
                    f2.set(true);
                    if abort {
                        std::panic::panic_any(Abort);
                    }
                    let (t, d, u) = (c2.trace.replace(false), c2.depth.get(), c2.cur.get());
                    let q =
                        match catch_unwind(AssertUnwindSafe(|| once(&p2, &toks, nk, &pre2, 0, nr)))
                        {
                            Ok(j) => j,
                            Err(_) => none("P"),
                        };
                    *n2.borrow_mut() = Some(q);
                    c2.trace.set(t);
                    c2.depth.set(d);
                    c2.cur.set(u);
                });
                HOOK.with(|x| *x.borrow_mut() = Some((op.get("at").u(), f)));
            }
            let q = match o {
                "open" => {
                    let src = Src::<W>::new(&ins[k - 1], base(k), false, Rc::new(Stat::default()));
                    slots[s] = Some((k, p.stream_with_location(src, W::start(&pre))));
                    none("-")
                }
                "close" => {
                    if let Some((_, st)) = slots[s].take() {
                        tail = st.tail().map(|t| W::show(&t)).collect();
                    }
                    none("-")
                }
                _ => {
                    let q = catch_unwind(AssertUnwindSafe(|| match o {
                        "next" => match &mut slots[s] {
                            None => none("-"),
                            Some((_, st)) => match st.next() {
                                None => none("N"),
                                Some(q) => {
                                    let (kind, out, x, e) = parts::<W>(&q);
                                    let (i, p) = c
                                        .evs
                                        .borrow()
                                        .iter()
                                        .find(|e| e.depth == 0)
                                        .map(|e| (e.i, e.p))
                                        .unwrap();
                                    start = i;
                                    res_json(kind, &out, x, &e, p)
                                }
                            },
                        },
                        _ => once(&p, &ins[k - 1], k, &pre, 0, r),
                    }));
                    match q {
                        Ok(j) => j,
                        Err(e) => {
                            if o == "next" {
                                slots[s] = None;
                            }
                            none(if e.is::<Abort>() { "A" } else { "P" })
                        }
                    }
                }
            };
            other.retain(|x| x.to_string() != q.to_string());
            if !matches!(res, J::Null) && res.to_string() != q.to_string() {
                other.push(res);
            }
            res = q;
        }
        HOOK.with(|x| *x.borrow_mut() = None);
        if o == "next" {
            if let Some((k, _)) = &slots[s] {
                want(*k, start, true);
            }
        }
        if o == "parse" {
            want(k, 0, r);
        }
        let mut out = op.clone();
        if fired.get() && h == "nest" {
            want(op.get("ni").u(), 0, op.get("nr").b());
            out.set("nres", nres.borrow().clone().unwrap_or_else(|| none("P")));
        }
        out.set("start", J::N(start as i64));
        out.set("res", res);
        out.set("other", J::A(other));
        out.set("fired", J::B(fired.get()));
        out.set("tail", J::from_strs(&tail));
        obs.push(out);
    }
    drop(slots);
    let table = table
        .into_iter()
        .map(|(k, i, r)| {
            obj! {"i" => J::N(k as i64), "p" => J::N(i as i64), "r" => J::B(r), "res" => fresh::<W>(&g, &ins[k - 1], k, &pre, i, r)}
        })
        .collect();
    let shown = ins
        .iter()
        .enumerate()
        .map(|(k, t)| {
            J::from_strs(
                &t.iter()
                    .enumerate()
                    .map(|(n, ch)| W::show(&W::src(*ch, base(k + 1) + n)))
                    .collect::<Vec<_>>(),
            )
        })
        .collect();
    let mut out = j.clone();
    out.set("obs", J::A(obs));
    out.set("fresh", J::A(table));
    out.set("shown", J::A(shown));
    out
}

pub fn run_any(j: &J) -> J {
    use crate::world::*;
    match j.get("w").s() {
        "S" => run::<S>(j),
        "V" => run::<V>(j),
        "C" => run::<C>(j),
        "F" => run::<F>(j),
        "A" => run::<A>(j),
        "R" => run::<R>(j),
        w => panic!("harness: unknown world {w}"),
    }
}

/// A case: history `hist` (from TLC), with the grammar of `case` or one generated.
pub fn case(hist: &J, case: Option<&J>, seed: u64, k: usize) -> J {
    let mut rng = Rng::new(seed.wrapping_mul(99_991).wrapping_add(k as u64));
    let mut c = match case {
        Some(c) => c.clone(),
        None => crate::profiles::make("C20", &mut rng, k, 3).spec_json(),
    };
    let mut ins = c.get("inputs").a().to_vec();
    while ins.len() > 3 {
        let n = rng.range(0, ins.len() - 1);
        ins.remove(n);
    }
    while ins.len() < 3 {
        ins.push(J::A(
            ins.last()
                .map(|x| x.a().to_vec())
                .unwrap_or_default()
                .into_iter()
                .chain([js("a")])
                .collect(),
        ));
    }
    c.set("inputs", J::A(ins));
    c.set("kind", js("reuse"));
    c.set("runs", J::A(vec![]));
    c.set("ops", hist.get("ops").clone());
    let id = format!("{}/{}", hist.get("id").s(), c.get("id").s());
    c.set("id", js(id));
    c
}
