//! Histories of stream operations: generated, or read from a file (as TLC writes them), run on the
//! real stream, recorded with what was observed.
use crate::json::{js, J};
use crate::obj;
use crate::rng::Rng;
use crate::run::{Src, Stat, FUEL_MAX};
use crate::world::{tick, Tok, World, FUEL, LIVE};
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Op {
    pub o: String,
    pub s: usize,
    pub d: usize,
}
fn op(o: &str, s: usize, d: usize) -> Op {
    Op { o: o.into(), s, d }
}

#[derive(Clone)]
pub struct Hist {
    pub id: String,
    pub w: String,
    pub t: Vec<char>,
    pub pre: Vec<char>,
    pub resume: bool,
    pub ops: Vec<Op>,
    /// the source is `t` over and over up to this many tokens (0: just `t`)
    pub big: usize,
}

fn chars(j: &J) -> Vec<char> {
    j.a().iter().map(|x| x.s().chars().next().unwrap()).collect()
}

impl Hist {
    fn source(&self) -> Vec<char> {
        if self.big == 0 {
            self.t.clone()
        } else {
            self.t.iter().cycle().take(self.big).cloned().collect()
        }
    }
    pub fn spec_json(&self) -> J {
        obj! {"id" => js(&self.id), "w" => js(&self.w),
        "t" => J::A(self.t.iter().map(js).collect()),
        "pre" => J::A(self.pre.iter().map(js).collect()), "resume" => J::B(self.resume),
        "big" => n(self.big as i64),
        "ops" => J::A(self.ops.iter().map(|o| obj!{"o" => js(&o.o), "s" => J::N(o.s as i64), "d" => J::N(o.d as i64)}).collect())}
    }
    pub fn from_json(j: &J) -> Hist {
        Hist {
            id: j.get("id").s().into(),
            w: j.get("w").s().into(),
            t: chars(j.get("t")),
            pre: chars(j.get("pre")),
            resume: j.get("resume").b(),
            big: if j.has("big") { j.get("big").u() } else { 0 },
            ops: j
                .get("ops")
                .a()
                .iter()
                .map(|x| op(x.get("o").s(), x.get("s").u(), x.get("d").u()))
                .collect(),
        }
    }
}

struct Run<'a, W: World<I = Tok>> {
    h: &'a Hist,
    t: Vec<char>,
    k: usize,
    slots: Vec<Option<SavedState>>,
    stat: Rc<Stat>,
    live0: i64,
    ev: Vec<J>,
    ph: std::marker::PhantomData<W>,
}

fn n(x: i64) -> J {
    J::N(x)
}

impl<'a, W: World<I = Tok>> Run<'a, W> {
    fn tok(&self, t: Option<&Tok>) -> J {
        n(match t {
            None => -1,
            Some(t) => {
                let ok = t.id >= 0 && self.t.get(t.id as usize) == Some(&t.c);
                if ok {
                    t.id
                } else {
                    -99
                }
            }
        })
    }
    fn push(&mut self, o: &Op, v: J, idx: usize) {
        self.ev.push(obj! {"o" => js(&o.o), "s" => n(o.s as i64), "d" => n(o.d as i64),
        "v" => match v { J::N(x) => js(x), v => v },
        "idx" => n(idx as i64), "pull" => n(self.stat.pulled.get() as i64), "after" => n(self.stat.after.get() as i64),
        "live" => n(LIVE.with(|l| l.get()) - self.live0)});
    }
    fn slot(&mut self, s: usize) -> &mut Option<SavedState> {
        while self.slots.len() <= s {
            self.slots.push(None);
        }
        &mut self.slots[s]
    }
    /// Runs operations until the block ends; returns whether it ended with "ok".
    fn block(&mut self, st: &mut Stream<'static, Tok, W::L>, depth: usize) -> bool {
        while self.k < self.h.ops.len() {
            let o = self.h.ops[self.k].clone();
            self.k += 1;
            tick();
            let has = self.slot(o.s).is_some();
            let v = match o.o.as_str() {
                "tok" => {
                    let t = st.token();
                    self.tok(t)
                }
                "eof" => n(st.eof() as i64),
                "adv" => n(st.advance() as i64),
                "advto" => n(st.advance_to(st.index() + o.d) as i64),
                "walk" => {
                    let mut k = 0;
                    for _ in 0..o.d {
                        if st.advance() {
                            k += 1;
                        } else {
                            break;
                        }
                    }
                    n(k)
                }
                "idx" => n(st.index() as i64),
                "save" => {
                    let x = st.save();
                    *self.slot(o.s) = Some(x);
                    n(0)
                }
                "saveat" => {
                    let x = st.save_at(st.index() + o.d);
                    *self.slot(o.s) = Some(x);
                    n(0)
                }
                "loc" => js(W::loc(&st.location())),
                "span" => js(W::span(&st.span())),
                "try" => {
                    self.push(&o, n(0), st.index());
                    let mut how = true;
                    st.attempt(|st| {
                        how = self.block(st, depth + 1);
                        if how {
                            Ok(())
                        } else {
                            Err(())
                        }
                    });
                    let name = if how { "ok" } else { "err" };
                    self.push(&op(name, 0, 0), n(0), st.index());
                    continue;
                }
                "ok" if depth > 0 => return true,
                "err" if depth > 0 => return false,
                // the rest needs a saved position
                _ if !has => continue,
                "restore" => {
                    let x = self.slots[o.s].take().unwrap();
                    st.restore(&x);
                    self.slots[o.s] = Some(x);
                    n(0)
                }
                "drop" => {
                    *self.slot(o.s) = None;
                    n(0)
                }
                _ => {
                    let x = self.slots[o.s].take().unwrap();
                    let i = st.index_at(&x);
                    let v = match o.o.as_str() {
                        "idxat" => Some(n(i as i64)),
                        "tokat" if i == st.index() || i < self.stat.pulled.get() => {
                            let t = st.token_at(&x);
                            Some(self.tok(t))
                        }
                        "locat" => Some(js(W::loc(&st.location_at(&x)))),
                        "spanback" if i <= st.index() => {
                            Some(js(W::span(&st.spanning_back_to(&x))))
                        }
                        _ => None,
                    };
                    self.slots[o.s] = Some(x);
                    match v {
                        Some(v) => v,
                        None => continue,
                    }
                }
            };
            self.push(&o, v, st.index());
        }
        true
    }
}

pub fn exec<W: World<I = Tok>>(h: &Hist) -> J {
    FUEL.with(|f| f.set(FUEL_MAX));
    let stat = Rc::new(Stat::default());
    let mut run = Run::<W> {
        h,
        t: h.source(),
        k: 0,
        slots: vec![],
        stat: stat.clone(),
        live0: 0,
        ev: vec![],
        ph: Default::default(),
    };
    let r = {
        let run = &mut run;
        catch_unwind(AssertUnwindSafe(move || {
            let start: W::L = W::start(&h.pre);
            run.live0 = LIVE.with(|l| l.get());
            let src = Src::<W>::new(&h.source(), 0, h.resume, stat.clone());
            let mut st: Stream<'static, Tok, W::L> = Stream::new_with_location(src, start);
            run.block(&mut st, 0);
            run.slots.clear();
        }))
    };
    if r.is_err() {
        let o = h.ops.get(run.k.saturating_sub(1)).cloned().unwrap_or(op("?", 0, 0));
        let bad = op("panic", o.s, o.d);
        let v = js(format!("in {}", o.o));
        run.push(&bad, v, 0);
    }
    let mut j = h.spec_json();
    j.set("n", n(h.source().len() as i64));
    j.set("ev", J::A(run.ev));
    j
}

pub fn run_any(h: &Hist) -> J {
    match h.w.as_str() {
        "R" => exec::<crate::world::R>(h),
        _ => exec::<crate::world::S>(h),
    }
}

/// A random history.
pub fn make(rng: &mut Rng, idx: usize, long: bool) -> Hist {
    let kind = if long { idx % 4 } else { 4 + idx % 3 };
    let w = if kind >= 4 && rng.pct(50) { "R" } else { "S" };
    let len = match kind {
        0 => rng.range(200, 900),
        1 => rng.range(800, 2500),
        2 => rng.range(1500, 4000),
        3 => rng.range(100, 600),
        4 => rng.range(0, 4),
        5 => rng.range(3, 12),
        _ => rng.range(8, 40),
    };
    let alpha: &[char] = if w == "R" { &['a', 'n', 'u', 'w', 'e', 'b', 'r', 'v', 'k'] } else { &['a', 'b', 'c'] };
    let t: Vec<char> = (0..len).map(|_| *rng.pick(alpha)).collect();
    let slots = *rng.pick(&[1, 2, 3, 6, 10]);
    let mut ops = vec![];
    let mut depth = 0;
    match kind {
        1 | 2 => {
            // a window moving over the whole input: oldest positions are dropped as new ones come
            let win = rng.range(1, 6);
            let stride = rng.range(1, 9);
            let dropping = rng.pct(70);
            let mut at = 0;
            let mut k = 0;
            while at <= len && ops.len() < 1200 {
                let s = k % win;
                if rng.pct(10) {
                    ops.push(op("drop", rng.range(0, win - 1), 0));
                }
                match rng.range(0, 9) {
                    0 => ops.push(op("saveat", s, rng.range(0, stride))),
                    1 => {
                        ops.push(op("try", 0, 0));
                        ops.push(op("walk", 0, stride));
                        ops.push(op("tok", 0, 0));
                        ops.push(op("err", 0, 0));
                    }
                    _ => ops.push(op("save", s, 0)),
                }
                let d = rng.range(1, stride);
                match rng.range(0, 3) {
                    0 => ops.push(op("advto", 0, d)),
                    1 => {
                        for _ in 0..d.min(3) {
                            ops.push(op("adv", 0, 0));
                        }
                        ops.push(op("walk", 0, d));
                    }
                    _ => ops.push(op("walk", 0, d)),
                }
                if rng.pct(30) {
                    ops.push(op("tok", 0, 0));
                }
                if rng.pct(15) {
                    let b = rng.range(0, win - 1);
                    ops.push(op("restore", b, 0));
                    ops.push(op("tok", 0, 0));
                    ops.push(op("walk", 0, d + stride));
                }
                if dropping && win > 1 && rng.pct(40) {
                    ops.push(op("drop", (k + 1) % win, 0));
                }
                at += d;
                k += 1;
            }
            for s in 0..win {
                ops.push(op("drop", s, 0));
            }
            ops.push(op("walk", 0, len));
            ops.push(op("tok", 0, 0));
        }
        _ => {
            let steps = if long { rng.range(100, 500) } else { rng.range(5, 60) };
            let jump = if long { rng.range(3, 60) } else { 4 };
            let wt: Vec<(usize, &str)> = vec![
                (5, "tok"),
                (2, "eof"),
                (6, "adv"),
                (4, "advto"),
                (3, "walk"),
                (1, "idx"),
                (6, "save"),
                (4, "saveat"),
                (6, "restore"),
                (4, "drop"),
                (1, "idxat"),
                (3, "tokat"),
                (2, "loc"),
                (3, "locat"),
                (2, "span"),
                (2, "spanback"),
                (2, "try"),
                (2, "ok"),
                (2, "err"),
            ];
            for _ in 0..steps {
                let total: usize = wt.iter().map(|x| x.0).sum();
                let mut k = rng.range(0, total - 1);
                let o = wt
                    .iter()
                    .find(|x| {
                        if k < x.0 {
                            true
                        } else {
                            k -= x.0;
                            false
                        }
                    })
                    .unwrap()
                    .1;
                let (s, d) = (rng.range(0, slots - 1), rng.range(0, jump));
                match o {
                    "try" => {
                        if depth > 2 {
                            continue;
                        }
                        depth += 1;
                    }
                    "ok" | "err" => {
                        if depth == 0 {
                            continue;
                        }
                        depth -= 1;
                    }
                    _ => {}
                }
                ops.push(op(o, s, d));
            }
        }
    }
    for _ in 0..depth {
        ops.push(op("ok", 0, 0));
    }
    let pre = if w == "R" && rng.pct(4) {
        let c = *rng.pick(alpha);
        vec![c; rng.range(255, 300)]
    } else if w == "R" && rng.pct(4) {
        (0..rng.range(1, 3)).map(|_| *rng.pick(&['z', 'y', 'k'])).collect()
    } else if w == "R" && rng.pct(50) {
        (0..rng.range(0, 4)).map(|_| *rng.pick(alpha)).collect()
    } else {
        vec![]
    };
    Hist {
        id: format!("h{}{idx}", if long { "l" } else { "s" }),
        w: w.into(),
        t,
        pre,
        resume: rng.pct(50),
        ops,
        big: 0,
    }
}

/// A short history with long distances: positions beyond what 8 or 16 bits can tell apart.
pub fn make_far(rng: &mut Rng, idx: usize) -> Hist {
    let big = *rng.pick(&[70_000, 66_000, 131_500, 65_536, 40_000]);
    let slots = rng.range(1, 4);
    let mut ops = vec![];
    let mut depth = 0;
    for _ in 0..rng.range(8, 40) {
        let s = rng.range(0, slots - 1);
        let d = match rng.range(0, 5) {
            0 => rng.range(0, 3),
            1 => rng.range(250, 260),
            2 => rng.range(32_760, 32_770),
            3 => rng.range(65_530, 65_540),
            4 => rng.range(1, 20_000),
            _ => rng.range(60_000, 70_000),
        };
        let small = rng.range(0, 4);
        match rng.range(0, 13) {
            0 | 1 => ops.push(op("advto", 0, d)),
            2 => ops.push(op("walk", 0, d)),
            3 => ops.push(op("save", s, 0)),
            4 => ops.push(op("saveat", s, d)),
            5 | 6 => {
                ops.push(op("restore", s, 0));
                ops.push(op("loc", 0, 0));
            }
            7 => ops.push(op("drop", s, 0)),
            8 => ops.push(op("tokat", s, 0)),
            9 => {
                ops.push(op("spanback", s, 0));
                ops.push(op("locat", s, 0));
                ops.push(op("idxat", s, 0));
            }
            10 if depth < 3 => {
                depth += 1;
                ops.push(op("try", 0, 0));
            }
            11 if depth > 0 => {
                depth -= 1;
                ops.push(op(if rng.pct(50) { "ok" } else { "err" }, 0, 0));
            }
            12 => ops.push(op("span", 0, 0)),
            _ => ops.push(op("advto", 0, small)),
        }
        if rng.pct(40) {
            ops.push(op(if rng.pct(70) { "tok" } else { "eof" }, 0, 0));
        }
    }
    for _ in 0..depth {
        ops.push(op("ok", 0, 0));
    }
    let rich = rng.pct(50);
    let t = match (rich, rng.range(0, 3)) {
        (false, _) => vec!['a', 'b', 'c', 'a', 'b', 'b', 'c'],
        (_, 0) => vec!['a', 'u', 'b'],
        (_, 1) => vec!['a', 'n', 'u', 'w', 'b'],
        _ => (0..rng.range(1, 7)).map(|_| *rng.pick(&['a', 'n', 'u', 'w', 'e', 'b', 'r', 'v', 'k'])).collect(),
    };
    Hist {
        id: format!("hf{idx}"),
        w: if rich { "R" } else { "S" }.into(),
        t,
        pre: if rich && rng.pct(30) { vec!['a', 'n', 'u'] } else { vec![] },
        resume: rng.pct(50),
        ops,
        big,
    }
}
