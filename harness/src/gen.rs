//! Seeded generator of grammars and inputs, one profile per property.
use crate::gram::{Gram, Node, Step};
use crate::rng::Rng;

#[derive(Clone)]
pub struct Opt {
    pub depth: usize,
    pub leaf: Vec<(usize, &'static str)>,
    pub ops: Vec<(usize, &'static str)>,
    pub alpha: Vec<char>,
    pub forms: Vec<&'static str>,
    pub steps: Vec<(usize, &'static str)>,
    pub fins: Vec<(usize, &'static str)>,
    pub max_steps: usize,
    pub clone_pct: usize,
    pub wide: usize, // extra arity of chains and alternatives
    pub x0_pct: usize,
    pub delim_types: Vec<Vec<(char, char)>>,
    /// Strategies may take all errors away.
    pub clears: bool,
    pub max_nodes: usize,
}

pub fn leaf_default() -> Vec<(usize, &'static str)> {
    vec![
        (10, "just"),
        (3, "oneof"),
        (2, "noneof"),
        (2, "filter"),
        (2, "fmap"),
        (3, "seq"),
        (1, "end"),
        (1, "empty"),
        (1, "none"),
        (2, "cust"),
        (1, "look"),
    ]
}
pub fn steps_default() -> Vec<(usize, &'static str)> {
    vec![
        (2, "restart"),
        (2, "seekf"),
        (5, "skip"),
        (3, "skipif"),
        (4, "find"),
        (2, "scan"),
        (2, "scanc"),
        (4, "maybe"),
        (4, "whilenot"),
        (5, "retry"),
        (4, "ttp"),
        (1, "push"),
        (1, "pushhere"),
        (1, "pushup"),
        (1, "pushtok"),
        (2, "upd"),
        (1, "updhere"),
        (1, "updup"),
        (1, "updtok"),
        (1, "boxed"),
        (1, "nothing"),
    ]
}
pub fn fins_default() -> Vec<(usize, &'static str)> {
    vec![(3, "ret"), (2, "retwith"), (2, "retspan"), (4, "orfail")]
}

impl Default for Opt {
    fn default() -> Self {
        Opt {
            depth: 4,
            leaf: leaf_default(),
            ops: ops_default(),
            alpha: vec!['a', 'b', 'c'],
            forms: vec!["vec", "arr", "one", "slice", "rvec", "aref"],
            steps: steps_default(),
            fins: fins_default(),
            max_steps: 3,
            clone_pct: 10,
            wide: 3,
            x0_pct: 30,
            clears: false,
            delim_types: vec![
                vec![('(', ')')],
                vec![('(', ')'), ('[', ']')],
                vec![('|', '|')],
                vec![('(', ')'), ('|', '|')],
                vec![('(', ')'), ('[', ']'), ('|', '|')],
            ],
            max_nodes: 40,
        }
    }
}

pub fn ops_default() -> Vec<(usize, &'static str)> {
    vec![
        (4, "then"),
        (3, "thenig"),
        (3, "igthen"),
        (2, "delim"),
        (2, "pad"),
        (3, "chain"),
        (4, "or"),
        (3, "ornot"),
        (4, "alters"),
        (6, "rep"),
        (1, "to"),
        (1, "ign"),
        (1, "some"),
        (1, "map"),
        (1, "mapspan"),
        (2, "maperr"),
        (1, "maperrspan"),
        (1, "label"),
        (1, "labelspan"),
        (3, "trymap"),
        (1, "boxed"),
        (1, "witherr"),
        (6, "rec"),
        (2, "def"),
        (1, "peek"),
        (1, "not"),
    ]
}

pub fn without(v: &[(usize, &'static str)], drop: &[&str]) -> Vec<(usize, &'static str)> {
    v.iter().filter(|x| !drop.contains(&x.1)).cloned().collect()
}

pub struct Gen<'r> {
    pub g: Gram,
    pub rng: &'r mut Rng,
    pub o: Opt,
    tag: usize,
    refs: Vec<(usize, bool)>, // enclosing definitions, and whether input was consumed since
}

pub fn nullable(g: &Gram, id: usize) -> bool {
    let n = g.n(id);
    match n.op.as_str() {
        "empty" | "none" | "end" | "ornot" | "ref" | "peek" | "not" | "undef" => true,
        "seq" => n.set.is_empty(),
        "just" | "oneof" | "noneof" | "filter" | "fmap" | "cust" | "look" => false,
        "then" | "thenig" | "igthen" | "delim" | "pad" | "chain" => {
            n.ch.iter().all(|c| nullable(g, *c))
        }
        "or" | "alters" => n.ch.iter().any(|c| nullable(g, *c)),
        "rep" => n.min == 0 || nullable(g, n.ch[0]),
        _ => nullable(g, n.ch[0]),
    }
}

/// Consumes a token whenever it succeeds, in every mode (plain matcher).
fn plain_leaf(op: &str) -> bool {
    matches!(op, "just" | "oneof" | "noneof" | "filter" | "fmap" | "cust" | "look")
}

impl<'r> Gen<'r> {
    pub fn new(rng: &'r mut Rng, o: Opt) -> Self {
        Gen {
            g: Gram::default(),
            rng,
            o,
            tag: 0,
            refs: vec![],
        }
    }

    /// From now on, leaves may be references to these nodes.
    pub fn refer_to(&mut self, ds: &[usize]) {
        self.refs = ds.iter().map(|d| (*d, true)).collect();
    }

    fn tagname(&mut self) -> String {
        self.tag += 1;
        format!("{}", self.tag)
    }
    fn ch(&mut self) -> char {
        *self.rng.pick(&self.o.alpha.clone())
    }
    fn set(&mut self, lo: usize, hi: usize) -> Vec<char> {
        let n = self.rng.range(lo, hi);
        (0..n).map(|_| self.ch()).collect()
    }

    pub fn leaf_op(&mut self, op: &str) -> usize {
        let mut n = Node::new(op, &[]);
        match op {
            "just" => n.t = self.ch().to_string(),
            "filter" | "fmap" => n.set = self.set(1, 2),
            "look" => {
                n.set = self.set(1, 3);
                n.x0 = self.rng.pct(50);
                n.n = self.rng.range(0, 3);
            }
            "cust" => {
                n.set = self.set(1, 2);
                n.x0 = self.rng.pct(self.o.x0_pct);
                n.n = self.rng.range(1, 2);
            }
            "seq" => {
                n.set = self.set(0, 3);
                if n.set.is_empty() && self.rng.pct(70) {
                    n.set = self.set(1, 3);
                }
                n.form = self.rng.pick(&self.o.forms.clone()).to_string();
            }
            "oneof" | "noneof" => {
                n.set = self.set(0, 3);
                if n.set.is_empty() && self.rng.pct(70) {
                    n.set = self.set(1, 3);
                }
                n.form = self.rng.pick(&self.o.forms.clone()).to_string();
            }
            _ => {}
        }
        n.cl = self.rng.pct(self.o.clone_pct);
        self.g.add(n)
    }
    pub fn leaf(&mut self) -> usize {
        // A reference to an enclosing definition, if input was consumed since.
        let ok: Vec<usize> = self.refs.iter().filter(|x| x.1).map(|x| x.0).collect();
        if !ok.is_empty() && self.rng.pct(45) {
            let d = *self.rng.pick(&ok);
            let mut n = Node::new("ref", &[]);
            n.d = d;
            return self.g.add(n);
        }
        let op = self.rng.weighted(&self.o.leaf.clone());
        self.leaf_op(op)
    }
    pub fn plain(&mut self) -> usize {
        let v: Vec<(usize, &'static str)> = self
            .o
            .leaf
            .iter()
            .filter(|x| plain_leaf(x.1))
            .cloned()
            .collect();
        let op = if v.is_empty() { "just" } else { self.rng.weighted(&v) };
        self.leaf_op(op)
    }

    fn guarded<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = self.refs.clone();
        for r in self.refs.iter_mut() {
            r.1 = true;
        }
        let x = f(self);
        self.refs = save;
        x
    }

    /// A parser that consumes input whenever it succeeds without recovery.
    pub fn consuming(&mut self, d: usize) -> usize {
        let a = self.node(d);
        if nullable(&self.g, a) {
            let l = self.plain();
            let op = if self.rng.pct(50) { "then" } else { "thenig" };
            let n = Node::new(op, &[l, a]);
            self.g.add(n)
        } else {
            a
        }
    }

    /// Children of a concatenation: everything after a plain matcher is guarded.
    fn cat(&mut self, n: usize, d: usize) -> Vec<usize> {
        let mut v = vec![];
        let guard = !self.refs.is_empty() && self.rng.pct(80);
        for k in 0..n {
            if k == 0 && guard {
                v.push(self.plain());
            } else if k > 0 && guard {
                v.push(self.guarded(|s| s.node(d)));
            } else {
                v.push(self.node(d));
            }
        }
        v
    }

    pub fn node(&mut self, d: usize) -> usize {
        if d == 0 || self.g.nodes.len() > self.o.max_nodes || self.rng.pct(12) {
            return self.leaf();
        }
        let op = self.rng.weighted(&self.o.ops.clone());
        self.op(op, d)
    }

    pub fn op(&mut self, op: &str, d: usize) -> usize {
        let cl = self.rng.pct(self.o.clone_pct);
        let mut n = Node::new(op, &[]);
        n.cl = cl;
        match op {
            "then" | "thenig" | "igthen" => n.ch = self.cat(2, d - 1),
            "delim" => n.ch = self.cat(3, d - 1),
            "pad" => {
                let p = self.node(d.saturating_sub(2));
                let guard = plain_leaf(&self.g.n(p).op.clone());
                let m = if guard {
                    self.guarded(|s| s.node(d - 1))
                } else {
                    self.node(d - 1)
                };
                n.ch = vec![p, m];
            }
            "chain" => {
                let k = self.rng.range(2, 2 + self.o.wide);
                n.ch = self.cat(k, d - 1);
                if n.cl {
                    n.n = self.rng.range(2, k);
                }
            }
            "or" => n.ch = vec![self.node(d - 1), self.node(d - 1)],
            "ornot" => n.ch = vec![self.node(d - 1)],
            "alters" => {
                let k = self.rng.range(2, 2 + self.o.wide);
                n.ch = (0..k).map(|_| self.node(d - 1)).collect();
                if n.cl {
                    n.n = self.rng.range(2, k);
                }
            }
            "rep" => {
                n.min = *self.rng.pick(&[0, 0, 0, 1, 1, 2, 3]);
                n.max = if self.rng.pct(50) {
                    -1
                } else {
                    self.rng.range(n.min, n.min + 2).max(1) as i64
                };
                if self.rng.pct(3) {
                    n.max = 0;
                    n.min = 0;
                }
                n.lead = self.rng.pct(35);
                n.trail = self.rng.pct(35);
                n.form = self.rng.pick(&["", "mm", "ws", "sl", "ov"]).to_string();
                let item = if n.max >= 0 && self.rng.pct(25) {
                    self.node(d - 1)
                } else {
                    self.consuming(d - 1)
                };
                n.ch = vec![item];
                if self.rng.pct(65) {
                    let sep = if self.rng.pct(60) {
                        self.leaf_op("just")
                    } else {
                        self.node(d - 1)
                    };
                    n.ch.push(sep);
                } else {
                    if matches!(n.form.as_str(), "ws" | "sl") {
                        n.form = String::new();
                    }
                    n.lead = n.lead && self.rng.pct(30);
                    n.trail = n.trail && self.rng.pct(30);
                }
                if n.max == 0 && n.lead {
                    // "as if there was an item" is undefined without items
                    n.lead = false;
                }
            }
            "label" | "labelspan" => {
                for _ in 0..self.rng.range(0, 2) {
                    let x = self.ch();
                    n.set.push(x);
                }
                n.ch = vec![self.node(d - 1)];
            }
            "trymap" => {
                n.t = self.tagname();
                n.ch = vec![self.node(d - 1)];
                let all = ["ok", "ok", "err", "err", "err2", "rec", "rec2", "lab", "lab0", "lab2"];
                let k = self.rng.range(1, 3);
                n.acts = (0..k).map(|_| self.rng.pick(&all).to_string()).collect();
                n.cl = false;
            }
            "rec" => {
                n.ch = vec![self.node(d - 1)];
                n.st = self.strategy(d - 1);
            }
            "def" => {
                n.form = self.rng.pick(&["fn", "decl", "early"]).to_string();
                n.cl = false;
                // The node id must be known to the references inside.
                let id = self.g.add(n.clone());
                self.refs.push((id, false));
                let b = self.node(d);
                self.refs.pop();
                self.g.nodes[id - 1].ch = vec![b];
                return id;
            }
            _ => {
                n.t = self.tagname();
                n.ch = vec![self.node(d - 1)];
            }
        }
        self.g.add(n)
    }

    pub fn strategy(&mut self, d: usize) -> Vec<Step> {
        let k = self.rng.range(0, self.o.max_steps);
        let mut v: Vec<Step> = vec![];
        for _ in 0..k {
            let st = self.step(d, false, 2);
            let runs = matches!(st.s.as_str(), "retry" | "ttp" | "maybe" | "whilenot");
            v.push(st);
            if runs && self.rng.pct(40) && self.o.steps.iter().any(|x| x.1 == "seekf") {
                if self.rng.pct(20) {
                    v.push(Step { s: "boxed".into(), ..Default::default() });
                }
                v.push(Step { s: "seekf".into(), ..Default::default() });
            }
        }
        let f = self.rng.weighted(&self.o.fins.clone());
        let mut s = Step {
            s: f.to_string(),
            ..Default::default()
        };
        s.t = self.tagname();
        s.cl = self.rng.pct(self.o.clone_pct);
        v.push(s);
        v
    }

    fn inner(&mut self, d: usize, in_loop: bool, nest: usize) -> Vec<Step> {
        let k = self.rng.range(0, 2);
        let mut v = vec![];
        for _ in 0..k {
            let st = self.step(d, in_loop, nest - 1);
            let runs = st.s == "retry" || st.s == "ttp";
            v.push(st);
            if runs && self.rng.pct(30) {
                // seeking to the failure just reported never moves backwards
                v.push(Step {
                    s: "seekf".into(),
                    ..Default::default()
                });
            }
        }
        v
    }

    pub fn step(&mut self, d: usize, in_loop: bool, nest: usize) -> Step {
        loop {
            let s = self.rng.weighted(&self.o.steps.clone());
            if in_loop && (s == "restart" || s == "seekf") {
                if self.o.steps.iter().all(|x| x.1 == "restart" || x.1 == "seekf") {
                    return Step { s: "nothing".into(), ..Default::default() };
                }
                continue;
            }
            if nest == 0 && (s == "maybe" || s == "whilenot") {
                continue;
            }
            let mut st = Step {
                s: s.to_string(),
                ..Default::default()
            };
            match s {
                "skipif" | "find" => st.set = self.set(1, 2),
                "scan" => st.types = self.rng.pick(&self.o.delim_types.clone()).clone(),
                "scanc" => {
                    st.n = self.rng.range(1, 4);
                    st.t = self.tagname();
                }
                "maybe" => st.inn = self.inner(d, in_loop, nest),
                "whilenot" => {
                    st.set = self.set(1, 2);
                    st.inn = self.inner(d, true, nest);
                }
                "retry" | "ttp" => {
                    st.ex = self.rng.pct(40);
                    st.sil = self.rng.pct(40);
                    if st.ex && st.sil {
                        st.n = self.rng.below(3);
                    }
                    if s == "ttp" {
                        st.p = self.node(d.min(2));
                    }
                }
                "upd" => {
                    st.t = self.rng.pick(&["rev", "dup", "trunc", "tag", "lab"]).to_string();
                    if self.o.clears && self.rng.pct(15) {
                        st.t = "clear".into();
                    }
                }
                _ => st.t = self.tagname(),
            }
            st.cl = self.rng.pct(self.o.clone_pct);
            return st;
        }
    }

    /// A random text the grammar could match (roughly).
    pub fn sample(&mut self, id: usize, budget: &mut i32, out: &mut Vec<char>) {
        *budget -= 1;
        if *budget < 0 || out.len() > 14 {
            return;
        }
        let n = self.g.n(id).clone();
        match n.op.as_str() {
            "just" => out.push(n.t.chars().next().unwrap()),
            "oneof" | "filter" | "fmap" | "cust" => {
                if !n.set.is_empty() {
                    let c = *self.rng.pick(&n.set);
                    out.push(c)
                }
            }
            "noneof" => {
                for _ in 0..6 {
                    let c = self.ch();
                    if !n.set.contains(&c) {
                        out.push(c);
                        return;
                    }
                }
            }
            "look" => {
                for _ in 0..n.n {
                    let c = self.ch();
                    out.push(c);
                }
                let c = *self.rng.pick(&n.set);
                out.push(c)
            }
            "peek" => {}
            "not" => {}
            "seq" => out.extend(n.set.iter()),
            "then" | "thenig" | "igthen" | "delim" | "chain" => {
                for c in n.ch {
                    self.sample(c, budget, out)
                }
            }
            "pad" => {
                self.sample(n.ch[0], budget, out);
                self.sample(n.ch[1], budget, out);
                self.sample(n.ch[0], budget, out);
            }
            "or" | "alters" => {
                let c = *self.rng.pick(&n.ch);
                self.sample(c, budget, out)
            }
            "ornot" => {
                if self.rng.pct(60) {
                    self.sample(n.ch[0], budget, out)
                }
            }
            "rep" => {
                let hi = if n.max >= 0 { n.max as usize } else { n.min + 3 };
                let k = self.rng.range(n.min.min(hi), hi);
                let sep = n.ch.get(1).cloned();
                if let Some(s) = sep {
                    if self.rng.pct(if n.lead { 50 } else { 8 }) {
                        self.sample(s, budget, out)
                    }
                }
                for j in 0..k {
                    if j > 0 {
                        if let Some(s) = sep {
                            self.sample(s, budget, out)
                        }
                    }
                    self.sample(n.ch[0], budget, out);
                }
                if let Some(s) = sep {
                    if self.rng.pct(if n.trail { 50 } else { 15 }) {
                        self.sample(s, budget, out)
                    }
                }
            }
            "rec" => {
                if self.rng.pct(35) {
                    // something the parser rejects, then maybe something the strategy wants
                    for _ in 0..self.rng.range(1, 3) {
                        let c = self.ch();
                        out.push(c);
                    }
                    for s in &n.st {
                        if !s.set.is_empty() && self.rng.pct(70) {
                            let c = *self.rng.pick(&s.set);
                            out.push(c);
                        }
                        if s.p > 0 && self.rng.pct(50) {
                            self.sample(s.p, budget, out);
                        }
                        if !s.types.is_empty() {
                            for _ in 0..self.rng.range(1, 5) {
                                let (l, r) = *self.rng.pick(&s.types);
                                out.push(if self.rng.pct(50) { l } else { r });
                            }
                        }
                    }
                    if self.rng.pct(60) {
                        self.sample(n.ch[0], budget, out)
                    }
                } else {
                    self.sample(n.ch[0], budget, out)
                }
            }
            "ref" => {
                let d = n.d;
                self.sample(d, budget, out)
            }
            "empty" | "none" | "end" => {}
            _ => self.sample(n.ch[0], budget, out),
        }
    }

    pub fn input(&mut self, root: usize, max: usize) -> Vec<char> {
        let mut v = vec![];
        let mut b = 40;
        if !self.rng.pct(10) {
            self.sample(root, &mut b, &mut v);
        }
        let muts = *self.rng.pick(&[0, 0, 1, 1, 1, 2, 3]);
        for _ in 0..muts {
            let c = self.ch();
            match self.rng.below(5) {
                0 if !v.is_empty() => {
                    let k = self.rng.below(v.len());
                    v.remove(k);
                }
                1 if !v.is_empty() => {
                    let k = self.rng.below(v.len());
                    v[k] = c;
                }
                2 if !v.is_empty() => {
                    let k = self.rng.below(v.len());
                    v.truncate(k);
                }
                3 if v.len() > 1 => {
                    let k = self.rng.below(v.len() - 1);
                    v.swap(k, k + 1);
                }
                _ => {
                    let k = self.rng.below(v.len() + 1);
                    v.insert(k, c);
                }
            }
        }
        for _ in 0..self.rng.below(3) {
            let c = self.ch();
            v.push(c);
        }
        v.truncate(max);
        v
    }
}
