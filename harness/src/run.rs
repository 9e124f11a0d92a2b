//! Runs built parsers on instrumented sources through every entry point and records what happened.
use crate::builder::{parts, Builder, Ctx, Dyn, Ev, O};
use crate::gram::Gram;
use crate::json::{js, J};
use crate::obj;
use crate::world::{bytes, tick, World, FUEL};
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::stream::Stream;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const FUEL_MAX: i64 = 3_000_000;

/// Source of tokens that counts requests. With `resume`, it yields more tokens after its end.
pub struct Src<W: World> {
    toks: Vec<char>,
    base: usize,
    pos: usize,
    ended: bool,
    resume: bool,
    stat: Rc<Stat>,
    ph: std::marker::PhantomData<W>,
}
#[derive(Default)]
pub struct Stat {
    pub pulled: Rc<Cell<usize>>,
    pub after: Cell<usize>,
}
impl<W: World> Src<W> {
    pub fn new(toks: &[char], base: usize, resume: bool, stat: Rc<Stat>) -> Self {
        Src {
            toks: toks.to_vec(),
            base,
            pos: 0,
            ended: false,
            resume,
            stat,
            ph: Default::default(),
        }
    }
}
impl<W: World> Iterator for Src<W> {
    type Item = W::I;
    fn next(&mut self) -> Option<W::I> {
        tick();
        self.stat.pulled.set(self.stat.pulled.get() + 1);
        if self.ended {
            self.stat.after.set(self.stat.after.get() + 1);
            if self.resume {
                return Some(W::src('a', 9000 + self.stat.after.get()));
            }
            return None;
        }
        if self.pos < self.toks.len() {
            self.pos += 1;
            Some(W::src(self.toks[self.pos - 1], self.base + self.pos - 1))
        } else {
            self.ended = true;
            None
        }
    }

    /// Nothing, exactly what is left, or as little as can be known about it: true, and not to be relied on for
    /// more than that.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.toks.len() - self.pos;
        if self.resume {
            return (left, None);
        }
        match (self.toks.len() + self.base + self.toks.first().map_or(0, |c| *c as usize)) % 4 {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (0, Some(usize::MAX)),
            _ => (left.min(1), Some(left)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct RunSpec {
    pub en: &'static str,
    pub w: &'static str,
    pub root: usize,
    pub r: bool,
    pub ev: bool,
    pub calls: usize,
    pub resume: bool,
    pub alone: bool,
}
impl RunSpec {
    pub fn raw(root: usize, r: bool) -> Self {
        RunSpec {
            en: "raw",
            w: "",
            root,
            r,
            ev: false,
            calls: 0,
            resume: false,
            alone: false,
        }
    }
    pub fn ev(mut self) -> Self {
        self.ev = true;
        self
    }
    pub fn en(mut self, en: &'static str) -> Self {
        self.en = en;
        self
    }
    pub fn w(mut self, w: &'static str) -> Self {
        self.w = w;
        self
    }
    pub fn calls(mut self, n: usize) -> Self {
        self.calls = n;
        self
    }
    pub fn resume(mut self) -> Self {
        self.resume = true;
        self
    }
    pub fn alone(mut self) -> Self {
        self.alone = true;
        self
    }
    pub fn to_json(&self) -> J {
        obj! {"en" => js(self.en), "w" => js(self.w), "root" => J::N(self.root as i64), "r" => J::B(self.r),
        "evs" => J::B(self.ev), "calls" => J::N(self.calls as i64), "resume" => J::B(self.resume), "alone" => J::B(self.alone)}
    }
    pub fn from_json(j: &J) -> Self {
        let lk = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
        RunSpec {
            en: lk(j.get("en").s()),
            w: lk(j.get("w").s()),
            root: j.get("root").u(),
            r: j.get("r").b(),
            ev: j.get("evs").b(),
            calls: j.get("calls").u(),
            resume: j.get("resume").b(),
            alone: j.get("alone").b(),
        }
    }
}

fn errs(e: &[Vec<String>]) -> J {
    J::A(e.iter().map(|x| J::from_strs(x)).collect())
}
fn num(n: usize) -> J {
    J::N(n as i64)
}

pub fn res_json(k: &str, o: &O, x: usize, e: &[Vec<String>], p: usize) -> J {
    obj! {"k" => js(k), "o" => J::from_strs(o), "x" => num(x), "e" => errs(e), "p" => num(p)}
}
pub fn ev_json(e: &Ev) -> J {
    obj! {"n" => num(e.nid), "i" => num(e.i), "r" => J::B(e.r), "k" => js(e.k), "o" => J::from_strs(&e.o),
    "p" => num(e.p), "x" => num(e.x), "e" => errs(&e.e), "u" => num(e.parent)}
}

/// Result of one run, as JSON. A panic becomes kind "P".
pub fn run<W: World>(g: &Gram, spec: &RunSpec, toks: &[char], pre: &[char]) -> J {
    FUEL.with(|f| f.set(FUEL_MAX));
    let stat = Rc::new(Stat::default());
    let ctx = Rc::new(Ctx {
        pulled: stat.pulled.clone(),
        ..Default::default()
    });
    let mut out = spec.to_json();
    let (ctx2, stat2) = (ctx.clone(), stat.clone());
    let body = AssertUnwindSafe(|| -> Vec<(&'static str, J)> {
        let b: Builder<W> = Builder::new(g, ctx2.clone());
        let p: Dyn<W> = b.build(spec.root);
        let src = Src::<W>::new(toks, 0, spec.resume, stat2.clone());
        ctx2.trace.set(spec.ev || spec.en == "stream");
        let start = W::start(pre);
        let one = |r: &parse_proof_of_concept::parser::Result<O, W::E>, p: usize| {
            let (k, o, x, e) = parts::<W>(r);
            res_json(k, &o, x, &e, p)
        };
        let std = |r: Result<O, W::E>| match r {
            Ok(o) => res_json("S", &o, 0, &[], 0),
            Err(e) => res_json("E", &vec![], 0, &[W::err(&e)], 0),
        };
        match spec.en {
            "raw" => {
                let mut st: Stream<'static, W::I, W::L> = Stream::new_with_location(src, start);
                let r = p.parse_internal(&mut st, spec.r);
                let pos = st.index();
                let pull = stat2.pulled.get();
                ctx2.trace.set(false);
                let mut tail = vec![];
                while let Some(t) = st.token() {
                    tick();
                    tail.push(W::show(t));
                    st.advance();
                }
                vec![
                    ("res", one(&r, pos)),
                    ("pull", num(pull)),
                    ("tail", J::from_strs(&tail)),
                ]
            }
            "pwrl" => {
                let r = p.parse_with_recovery_and_location(src, start);
                vec![("res", one(&r, 0)), ("pull", num(stat2.pulled.get()))]
            }
            "pl" => vec![
                ("res", std(p.parse_with_location(src, start))),
                ("pull", num(stat2.pulled.get())),
            ],
            _ => entry_default::<W>(&p, spec, src, toks, start, &ctx2, &stat2),
        }
    });
    let r = catch_unwind(body);
    let f = FUEL.with(|f| f.get());
    match r {
        Ok(v) => {
            for (k, x) in v {
                out.set(k, x);
            }
        }
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or("?".into());
            out.set("res", res_json("P", &vec![m], 0, &[], 0));
            out.set("pull", num(0));
            out.set("tail", J::A(vec![]));
            out.set("items", J::A(vec![]));
            out.set("others", J::A(vec![]));
            out.set("tpull", J::A(vec![]));
            out.set("tlive", J::A(vec![]));
            out.set("theap", J::A(vec![]));
            out.set("ended", J::B(false));
            out.set("kept", J::B(true));
        }
    }
    out.set("after", num(stat.after.get()));
    out.set("cost", J::N((FUEL_MAX - f).max(0)));
    if spec.ev {
        let evs: Vec<J> = ctx
            .evs
            .borrow()
            .iter()
            .filter(|e| e.k != "?")
            .map(ev_json)
            .collect();
        // parent indices refer to the unfiltered list, which equals this one unless a panic cut it
        out.set("ev", J::A(evs));
    }
    out
}

/// Whether what an iterator said about its length before each of its items came true.
fn hinted(hints: &[(usize, Option<usize>)], items: usize, ended: bool) -> bool {
    hints.iter().enumerate().all(|(j, (low, high))| {
        let left = items.saturating_sub(j);
        high.is_none_or(|h| h >= left) && (!ended || *low <= left)
    })
}

/// Entry points that need a default start location, and streaming.
fn entry_default<W: World>(
    p: &Dyn<W>,
    spec: &RunSpec,
    src: Src<W>,
    toks: &[char],
    start: W::L,
    ctx: &Rc<Ctx>,
    stat: &Rc<Stat>,
) -> Vec<(&'static str, J)> {
    assert_eq!(spec.en, "stream");
    let root_of = |ctx: &Ctx| {
        ctx.evs
            .borrow()
            .iter()
            .rev()
            .find(|e| e.depth == 0)
            .map(|e| (e.i, e.p))
    };
    let live0 = crate::world::LIVE.with(|l| l.get());
    let mut s = p.stream_with_location(src, start);
    let mut items = vec![];
    let mut starts = vec![];
    let mut ended = false;
    // bytes allocated and not freed by what happened inside the library
    let mut held = 0;
    // what each iterator said about how many there are left
    let mut hints = vec![];
    // Iterators are read through other methods as well.
    let way = toks.iter().fold(spec.calls, |n, c| (n * 31 + *c as usize) % 997) % 3;
    for j in 0..spec.calls {
        tick();
        hints.push(s.size_hint());
        let b = bytes();
        let next = if way == 1 && j % 2 == 1 { s.nth(0) } else { s.next() };
        let root = root_of(ctx);
        if !spec.ev {
            ctx.evs.borrow_mut().clear();
        }
        held += bytes() - b;
        match next {
            None => {
                ended = true;
                break;
            }
            Some(r) => {
                let (k, o, x, e) = parts::<W>(&r);
                let (i, pos) = root.unwrap();
                let mut j = res_json(k, &o, x, &e, pos);
                j.set("i", num(i));
                j.set("pull", num(stat.pulled.get()));
                let b = bytes();
                drop(r);
                held += bytes() - b;
                j.set("live", J::N(crate::world::LIVE.with(|l| l.get()) - live0));
                j.set("heap", J::N(held));
                items.push(j);
                starts.push(i);
            }
        }
    }
    let mut kept = hinted(&hints, items.len(), ended) && (!ended || s.next().is_none());
    let pull = stat.pulled.get();
    let mut tail = vec![];
    // what had been asked of the source, and what was held, before and after each remaining token
    let mut tpull = vec![];
    let mut tlive = vec![];
    let mut theap = vec![];
    let left = toks.len().saturating_sub(items.last().map_or(0, |x| x.get("p").u()));
    let mut t = s.tail();
    let mut hints = vec![];
    loop {
        tick();
        hints.push(t.size_hint());
        if way == 2 && tail.len() % 3 == 1 && tail.len() + 1 < left {
            // "?" stands for a token that was skipped
            for _ in 0..2 {
                tpull.push(num(stat.pulled.get()));
                tlive.push(J::N(crate::world::LIVE.with(|l| l.get()) - live0));
                theap.push(J::N(held));
            }
            let b = bytes();
            let next = t.nth(1);
            held += bytes() - b;
            hints.push((0, None));
            tail.push("?".to_string());
            if let Some(t) = next {
                tail.push(W::show(&t));
                let b = bytes();
                drop(t);
                held += bytes() - b;
            }
            continue;
        }
        tpull.push(num(stat.pulled.get()));
        tlive.push(J::N(crate::world::LIVE.with(|l| l.get()) - live0));
        theap.push(J::N(held));
        let b = bytes();
        let next = t.next();
        held += bytes() - b;
        match next {
            None => break,
            Some(t) => {
                tail.push(W::show(&t));
                let b = bytes();
                drop(t);
                held += bytes() - b;
            }
        }
    }
    kept &= hinted(&hints, tail.len(), true) && t.next().is_none();
    let mut out = vec![
        ("items", J::A(items)),
        ("ended", J::B(ended)),
        ("kept", J::B(kept)),
        ("pull", num(pull)),
        ("tail", J::from_strs(&tail)),
        ("tpull", J::A(tpull)),
        ("tlive", J::A(tlive)),
        ("theap", J::A(theap)),
    ];
    if spec.alone {
        // The same parser on what was left over each time.
        let mut others = vec![];
        for i in starts {
            let i = i.min(toks.len());
            let st2 = Rc::new(Stat::default());
            let src = Src::<W>::new(&toks[i..], i, spec.resume, st2);
            ctx.evs.borrow_mut().clear();
            let r = p.parse_with_recovery_and_location(src, W::start_at(toks, i));
            let (k, o, x, e) = parts::<W>(&r);
            let n = root_of(ctx).unwrap().1;
            others.push(res_json(k, &o, x, &e, n));
        }
        out.push(("others", J::A(others)));
    }
    out
}

/// `parse` and `parse_with_recovery` need `Default` for the tracker, so they are per world.
macro_rules! default_entries {
    ($name:ident, $w:ty) => {
        pub fn $name(g: &Gram, spec: &RunSpec, toks: &[char], pre: &[char]) -> J {
            type W = $w;
            if spec.en != "parse" && spec.en != "pwr" && spec.en != "streamd" {
                return run::<W>(g, spec, toks, pre);
            }
            FUEL.with(|f| f.set(FUEL_MAX));
            let stat = Rc::new(Stat::default());
            let ctx = Rc::new(Ctx {
                pulled: stat.pulled.clone(),
                ..Default::default()
            });
            let mut out = spec.to_json();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let b: Builder<W> = Builder::new(g, ctx.clone());
                let p: Dyn<W> = b.build(spec.root);
                let src = Src::<W>::new(toks, 0, spec.resume, stat.clone());
                match spec.en {
                    "parse" => match p.parse(src) {
                        Ok(o) => res_json("S", &o, 0, &[], 0),
                        Err(e) => res_json("E", &vec![], 0, &[W::err(&e)], 0),
                    },
                    "pwr" => {
                        let r = p.parse_with_recovery(src);
                        let (k, o, x, e) = parts::<W>(&r);
                        res_json(k, &o, x, &e, 0)
                    }
                    _ => match p.stream(src).next() {
                        None => res_json("N", &vec![], 0, &[], 0),
                        Some(r) => {
                            let (k, o, x, e) = parts::<W>(&r);
                            res_json(k, &o, x, &e, 0)
                        }
                    },
                }
            }));
            match r {
                Ok(j) => out.set("res", j),
                Err(_) => out.set("res", res_json("P", &vec![], 0, &[], 0)),
            }
            let f = FUEL.with(|f| f.get());
            out.set("pull", num(stat.pulled.get()));
            out.set("after", num(stat.after.get()));
            out.set("cost", J::N((FUEL_MAX - f).max(0)));
            out
        }
    };
}
default_entries!(run_s, crate::world::S);
default_entries!(run_v, crate::world::V);
default_entries!(run_c, crate::world::C);
default_entries!(run_f, crate::world::F);
default_entries!(run_a, crate::world::A);

pub fn run_any(w: &str, g: &Gram, spec: &RunSpec, toks: &[char], pre: &[char]) -> J {
    match w {
        "S" => run_s(g, spec, toks, pre),
        "V" => run_v(g, spec, toks, pre),
        "C" => run_c(g, spec, toks, pre),
        "F" => run_f(g, spec, toks, pre),
        "A" => run_a(g, spec, toks, pre),
        "R" => run::<crate::world::R>(g, spec, toks, pre),
        _ => panic!("harness: unknown world {w}"),
    }
}

/// Full case: grammar, inputs, runs.
#[derive(Clone)]
pub struct Case {
    pub id: String,
    pub prop: String,
    pub w: String,
    pub g: Gram,
    pub pre: Vec<char>,
    pub inputs: Vec<Vec<char>>,
    pub runs: Vec<RunSpec>,
}

fn chars(v: &[char]) -> J {
    J::A(v.iter().map(js).collect())
}

impl Case {
    pub fn spec_json(&self) -> J {
        obj! {"id" => js(&self.id), "prop" => js(&self.prop), "w" => js(&self.w), "nodes" => self.g.nodes_json(),
        "root" => num(self.g.root),
        "pre" => chars(&self.pre),
        "inputs" => J::A(self.inputs.iter().map(|t| chars(t)).collect()),
        "runs" => J::A(self.runs.iter().map(|r| r.to_json()).collect())}
    }
    pub fn from_json(j: &J) -> Case {
        let un = |j: &J| -> Vec<char> {
            j.a()
                .iter()
                .map(|x| x.s().chars().next().unwrap())
                .collect()
        };
        Case {
            id: j.get("id").s().into(),
            prop: j.get("prop").s().into(),
            w: j.get("w").s().into(),
            g: Gram {
                nodes: j
                    .get("nodes")
                    .a()
                    .iter()
                    .map(crate::gram::Node::from_json)
                    .collect(),
                root: j.get("root").u(),
            },
            pre: un(j.get("pre")),
            inputs: j.get("inputs").a().iter().map(un).collect(),
            runs: match j.get("runs") {
                J::A(v) => v.iter().map(RunSpec::from_json).collect(),
                _ => vec![],
            },
        }
    }
    /// Executes the case. Inputs whose evaluation was too expensive for the checker are left out
    /// (unless they exhausted the work budget, which is reported). Returns JSON and number skipped.
    pub fn exec(&self, max_cost: i64, max_ev: usize) -> (J, usize) {
        let mut ins = vec![];
        let mut skipped = 0;
        for t in &self.inputs {
            let mut runs = vec![];
            let mut cost = 0;
            let mut evs = 0;
            for r in &self.runs {
                let w = if r.w.is_empty() { self.w.as_str() } else { r.w };
                let j = run_any(w, &self.g, r, t, &self.pre);
                cost = cost.max(j.get("cost").n());
                if let J::A(a) = j.get("ev") {
                    evs += a.len();
                }
                runs.push(j);
            }
            if (cost > max_cost || evs > max_ev) && cost < FUEL_MAX {
                skipped += 1;
                continue;
            }
            ins.push(obj! {"t" => chars(t), "runs" => J::A(runs)});
        }
        (
            obj! {"id" => js(&self.id), "w" => js(&self.w), "n" => self.g.nodes_json(), "root" => num(self.g.root),
            "pre" => chars(&self.pre), "ins" => J::A(ins)},
            skipped,
        )
    }
}
