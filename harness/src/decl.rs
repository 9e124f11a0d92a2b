//! Histories of recursive declarations: handles are declared, cloned, defined, used in other
//! definitions and in parsers, and dropped, in any order; in between and at the end, everything
//! still held is asked to parse.
use crate::builder::{parts, Builder, Ctx, Dyn, O};
use crate::gen::{Gen, Opt};
use crate::gram::{Gram, Node};
use crate::json::{js, J};
use crate::obj;
use crate::rng::Rng;
use crate::run::{res_json, Src, Stat};
use crate::world::{World, FUEL, HOOK};
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::recursive::{recursive, Recursive};
use parse_proof_of_concept::stream::Stream;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Work one parse may do; those that need more are not judged.
const BUDGET: i64 = 6_000;

type Handle<W> = Recursive<'static, <W as World>::I, O, <W as World>::E>;

/// Result of `f`; kind "P" if it panicked, "X" if it needed too much work.
fn guarded(f: impl FnOnce() -> J) -> J {
    FUEL.with(|f| f.set(BUDGET));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(e) => {
            let fuel = e.downcast_ref::<&str>().is_some_and(|m| m.starts_with("FUEL"));
            res_json(if fuel { "X" } else { "P" }, &vec![], 0, &[], 0)
        }
    }
}

fn parse<W: World>(
    p: &impl Parser<'static, W::I, Output = O, Error = W::E>,
    toks: &[char],
    pre: &[char],
    r: bool,
) -> J {
    guarded(|| {
        let src = Src::<W>::new(toks, 0, false, Rc::new(Stat::default()));
        let mut st: Stream<'static, W::I, W::L> = Stream::new_with_location(src, W::start(pre));
        let res = p.parse_internal(&mut st, r);
        let (k, o, x, e) = parts::<W>(&res);
        res_json(k, &o, x, &e, st.index())
    })
}

fn run<W: World>(j: &J) -> J {
    let un = |j: &J| -> Vec<char> { j.a().iter().map(|x| x.s().chars().next().unwrap()).collect() };
    let g = Gram { nodes: j.get("n").a().iter().map(Node::from_json).collect(), root: 1 };
    let tpl: Vec<usize> = j.get("tpl").a().iter().map(|x| x.u()).collect();
    let pre = un(j.get("pre"));
    let ins: Vec<Vec<char>> = j.get("ins").a().iter().map(un).collect();
    // Nodes 1 and 2 of every template stand for the handles put into it.
    let make = |t: usize, a: Handle<W>, b: Handle<W>| -> Dyn<W> {
        let bd: Builder<W> = Builder::new(&g, Rc::new(Ctx::default()));
        bd.stand_for(1, a);
        bd.stand_for(2, b);
        bd.build(tpl[t - 1])
    };
    let hs: Rc<RefCell<Vec<Option<Handle<W>>>>> = Rc::new(RefCell::new((0..9).map(|_| None).collect()));
    let mut qs: Vec<Option<Dyn<W>>> = (0..9).map(|_| None).collect();
    let h = |s: usize| -> Option<Handle<W>> { hs.borrow()[s].clone() };
    let mut obs = vec![];
    for op in j.get("ops").a() {
        let (s, q, t) = (op.get("h").u(), op.get("q").u(), op.get("t").u());
        let (a, b) = (op.get("a").u(), op.get("b").u());
        let done = |k: &str| res_json(k, &vec![], 0, &[], 0);
        let res = match op.get("o").s() {
            "declare" => {
                let x = Handle::<W>::declare();
                hs.borrow_mut()[s] = Some(x);
                done("-")
            }
            "clone" => {
                let x = h(s);
                hs.borrow_mut()[op.get("g").u()] = x;
                done("-")
            }
            "drop" => {
                let x = hs.borrow_mut()[s].take();
                drop(x);
                done("-")
            }
            "define" => guarded(|| {
                let body = make(t, h(a).unwrap(), h(b).unwrap());
                // the handle itself, not a clone of it
                let mut x = hs.borrow_mut()[s].take().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| x.define(body)));
                hs.borrow_mut()[s] = Some(x);
                match r {
                    Ok(()) => done("-"),
                    Err(_) => done("P"),
                }
            }),
            "rec" => guarded(|| {
                let other = if b == s { None } else { Some(h(b).unwrap()) };
                let mut kept = None;
                let x = recursive::<W::I, _, Dyn<W>>(|x| {
                    kept = Some(x.clone());
                    make(t, x.clone(), other.unwrap_or_else(|| x.clone()))
                });
                let g = op.get("g").u();
                if g != s {
                    hs.borrow_mut()[g] = kept;
                }
                hs.borrow_mut()[s] = Some(x);
                done("-")
            }),
            "build" => guarded(|| {
                let x = make(t, h(a).unwrap(), h(b).unwrap());
                qs[q] = Some(x);
                done("-")
            }),
            "dropp" => {
                qs[q] = None;
                done("-")
            }
            _ => {
                let hd = op.get("hd").u();
                if hd > 0 {
                    let hs2 = hs.clone();
                    let f: Box<dyn FnOnce()> = Box::new(move || {
                        let x = hs2.borrow_mut()[hd].take();
                        drop(x);
                    });
                    HOOK.with(|x| *x.borrow_mut() = Some((op.get("at").u(), f)));
                }
                let (toks, r) = (&ins[op.get("i").u() - 1], op.get("r").b());
                let res = if q > 0 {
                    parse::<W>(qs[q].as_ref().unwrap(), toks, &pre, r)
                } else {
                    // through the handle where it is
                    let hs = hs.borrow();
                    parse::<W>(hs[s].as_ref().unwrap(), toks, &pre, r)
                };
                HOOK.with(|x| *x.borrow_mut() = None);
                if hd > 0 {
                    let x = hs.borrow_mut()[hd].take();
                    drop(x);
                }
                res
            }
        };
        let mut out = op.clone();
        out.set("res", res);
        obs.push(out);
    }
    // Whatever is still held parses everything.
    let mut last = vec![];
    for (k, toks) in ins.iter().enumerate() {
        for r in [false, true] {
            let mut add = |s: usize, q: usize, res: J| {
                last.push(obj! {"o" => js("parse"), "h" => J::N(s as i64), "q" => J::N(q as i64),
                "i" => J::N(k as i64 + 1), "r" => J::B(r), "res" => res});
            };
            for s in 0..9 {
                if let Some(x) = &hs.borrow()[s] {
                    add(s, 0, parse::<W>(x, toks, &pre, r));
                }
                if let Some(x) = &qs[s] {
                    add(1, s, parse::<W>(x, toks, &pre, r));
                }
            }
        }
    }
    let mut out = j.clone();
    out.set("obs", J::A(obs));
    out.set("last", J::A(last));
    out
}

pub fn run_any(j: &J) -> J {
    use crate::world::*;
    match j.get("w").s() {
        "S" => run::<S>(j),
        "V" => run::<V>(j),
        "C" => run::<C>(j),
        "F" => run::<F>(j),
        "A" => run::<A>(j),
        "R" => run::<R>(j),
        w => panic!("harness: unknown world {w}"),
    }
}

/// A case: history `hist` (from TLC) with templates and inputs. Templates 1 to 3 take a token
/// before they refer to anything. Every third case has small templates written out by hand.
pub fn case(hist: &J, seed: u64, k: usize) -> J {
    let mut rng = Rng::new(seed.wrapping_mul(77_773).wrapping_add(k as u64));
    let rng = &mut rng;
    let w = *rng.pick(&["S", "S", "S", "C", "F", "A", "R", "V"]);
    let mut o = Opt::default();
    if w == "C" {
        o.forms = vec!["str", "string", "vec", "one", "arr", "slice"];
    }
    o.depth = rng.range(1, 3);
    o.wide = 2;
    o.ops.push((rng.range(0, 25), "rec"));
    let plain = k % 3 == 0;
    let mut gen = Gen::new(rng, o);
    for _ in 0..2 {
        gen.g.add(Node::new("undef", &[]));
    }
    let mut tpl = vec![];
    let just = |gen: &mut Gen, c: char| {
        let mut n = Node::new("just", &[]);
        n.t = c.to_string();
        gen.g.add(n)
    };
    let refer = |gen: &mut Gen, d: usize| {
        let mut n = Node::new("ref", &[]);
        n.d = d;
        gen.g.add(n)
    };
    let op = |gen: &mut Gen, op: &str, ch: &[usize]| gen.g.add(Node::new(op, ch));
    for t in 1..=6 {
        let root = if plain {
            let g = &mut gen;
            match t {
                // a x | b
                1 => {
                    let (a, x) = (just(g, 'a'), refer(g, 1));
                    let (l, b) = (op(g, "then", &[a, x]), just(g, 'b'));
                    op(g, "or", &[l, b])
                }
                // ( x ) | c
                2 => {
                    let (l, x, r) = (just(g, '('), refer(g, 2), just(g, ')'));
                    let (d, c) = (op(g, "delim", &[l, x, r]), just(g, 'c'));
                    op(g, "or", &[d, c])
                }
                // b y x? | a
                3 => {
                    let (b, y, x) = (just(g, 'b'), refer(g, 2), refer(g, 1));
                    let x = op(g, "ornot", &[x]);
                    let (y, a) = (op(g, "thenig", &[y, x]), just(g, 'a'));
                    let l = op(g, "then", &[b, y]);
                    op(g, "or", &[l, a])
                }
                4 => refer(g, 1),
                // x | y
                5 => {
                    let (x, y) = (refer(g, 2), refer(g, 1));
                    op(g, "or", &[x, y])
                }
                // x y end
                _ => {
                    let (x, y, e) = (refer(g, 1), refer(g, 2), op(g, "end", &[]));
                    let y = op(g, "thenig", &[y, e]);
                    op(g, "then", &[x, y])
                }
            }
        } else {
            gen.refer_to(&[1, 2]);
            let from = gen.g.nodes.len();
            let d = gen.o.depth;
            let mut e = if t == 4 { refer(&mut gen, 1) } else { gen.node(d) };
            if !gen.g.nodes[from..].iter().any(|n| n.op == "ref") {
                let x = refer(&mut gen, 1 + t % 2);
                e = op(&mut gen, "then", &[x, e]);
            }
            if t > 3 {
                e
            } else {
                let p = gen.plain();
                let l = op(&mut gen, "then", &[p, e]);
                match gen.rng.below(3) {
                    0 => l,
                    1 => {
                        let q = gen.plain();
                        op(&mut gen, "or", &[l, q])
                    }
                    _ => {
                        let q = gen.plain();
                        op(&mut gen, "or", &[q, l])
                    }
                }
            }
        };
        tpl.push(root);
    }
    // Inputs: as if every reference were to any of the templates.
    for n in 0..2 {
        gen.g.nodes[n] = Node::new("alters", &[tpl[0], tpl[1], tpl[2]]);
    }
    let ins: Vec<J> = (0..4)
        .map(|n| {
            let t = if n < 3 { tpl[n] } else { tpl[gen.rng.range(3, 5)] };
            let max = *gen.rng.pick(&[3, 6, 9]);
            J::A(gen.input(t, max).iter().map(js).collect())
        })
        .collect();
    for n in 0..2 {
        gen.g.nodes[n] = Node::new("undef", &[]);
    }
    let nodes = gen.g.nodes_json();
    let pre: Vec<char> = if w == "R" { vec!['n', 'a', 'u'] } else { vec![] };
    let id = format!("{}/{w}{k}", hist.get("id").s());
    obj! {"id" => js(id), "kind" => js("decl"), "w" => js(w), "n" => nodes,
    "tpl" => J::A(tpl.iter().map(|x| J::N(*x as i64)).collect()), "ins" => J::A(ins),
    "pre" => J::A(pre.iter().map(js).collect()), "ops" => hist.get("ops").clone()}
}
