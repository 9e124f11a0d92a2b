//! What is generated for each property.
use crate::gen::*;
use crate::gram::{Gram, Node, Step, HUGE};
use crate::rng::Rng;
use crate::run::{Case, RunSpec};

fn all_chars() -> Vec<char> {
    vec!['a', 'b', 'c', ',', '(', ')']
}

fn opts(prop: &str, rng: &mut Rng) -> Opt {
    let mut o = Opt::default();
    let no_rec = ["rec", "trymap", "maperr", "maperrspan", "mapspan", "label", "labelspan"];
    match prop {
        "C05" => {
            o.ops = without(&ops_default(), &no_rec);
            o.wide = *rng.pick(&[1, 3, 7]);
            o.depth = rng.range(2, 5);
        }
        "C06" => {
            o.ops = vec![
                (10, "rep"),
                (2, "then"),
                (1, "ornot"),
                (1, "alters"),
                (1, "chain"),
                (2, "thenig"),
                (1, "boxed"),
                (1, "peek"),
                (1, "not"),
            ];
            if rng.pct(30) {
                o.ops.push((3, "rec"));
            }
            o.leaf = without(&leaf_default(), &["end", "empty", "none", "noneof"]);
            o.depth = rng.range(1, 3);
        }
        "C07" => {
            o.ops.push((10, "rec"));
            o.ops.push((4, "rep"));
            o.ops.push((3, "trymap"));
            o.max_steps = 2;
            o.depth = rng.range(2, 4);
        }
        "C08" => {
            o.ops = vec![
                (8, "or"),
                (8, "alters"),
                (2, "ornot"),
                (4, "then"),
                (3, "chain"),
                (2, "igthen"),
                (2, "rep"),
                (1, "delim"),
                (2, "rec"),
                (2, "trymap"),
                (1, "maperr"),
                (3, "label"),
                (1, "labelspan"),
                (1, "def"),
                (1, "peek"),
                (1, "not"),
            ];
            o.leaf.push((8, "seq"));
            o.wide = *rng.pick(&[1, 2, 5]);
            o.depth = rng.range(2, 4);
            o.max_steps = 1;
        }
        "C09" => {
            o.ops = vec![
                (20, "rec"),
                (3, "then"),
                (2, "rep"),
                (2, "alters"),
                (2, "delim"),
                (1, "chain"),
                (1, "or"),
                (1, "peek"),
                (1, "not"),
            ];
            o.max_steps = *rng.pick(&[1, 3, 5]);
            o.clears = true;
            o.depth = rng.range(1, 3);
        }
        "C10" => {
            o.alpha = vec!['(', ')', '[', ']', '|', 'a'];
            o.ops = vec![(10, "rec")];
            o.leaf = vec![(5, "just"), (1, "seq")];
            o.steps = vec![(10, "scan"), (2, "skip"), (2, "find"), (1, "retry")];
            o.delim_types.push(vec![('(', ')'), ('[', ')')]);
            o.delim_types.push(vec![('(', ')'), ('(', ']')]);
            o.delim_types.push(vec![('|', '|'), ('(', ')'), ('[', ']')]);
            o.delim_types.push(vec![('[', ']'), ('(', ')')]);
            o.delim_types.push(vec![('(', '|'), ('|', ')')]);
            o.delim_types.push(vec![('(', ')'), ('[', ']'), ('|', '|'), ('a', 'a')]);
            o.delim_types.push(vec![]);
            o.depth = 1;
            o.max_steps = 3;
        }
        "C11" => {
            o.ops = vec![
                (6, "mapspan"),
                (4, "maperrspan"),
                (2, "labelspan"),
                (3, "then"),
                (2, "igthen"),
                (3, "chain"),
                (3, "rep"),
                (3, "alters"),
                (2, "ornot"),
                (6, "rec"),
                (3, "trymap"),
                (1, "delim"),
                (1, "def"),
                (1, "peek"),
            ];
            o.leaf.push((1, "look"));
            o.steps.extend([
                (4, "pushhere"),
                (4, "pushup"),
                (4, "pushtok"),
                (2, "updhere"),
                (2, "updup"),
                (2, "updtok"),
                (3, "skip"),
            ]);
            o.fins = vec![(1, "ret"), (4, "retspan"), (2, "orfail")];
            o.alpha = vec!['a', 'b', 'n', 'u', 'w', 'e', 'r', 'v', 'k'];
        }
        "C13" => {
            o.ops = vec![(3, "then"), (2, "chain"), (1, "thenig"), (2, "alters")];
            o.leaf = vec![
                (4, "just"),
                (4, "oneof"),
                (4, "noneof"),
                (2, "filter"),
                (2, "fmap"),
                (4, "seq"),
                (2, "end"),
            ];
            o.clone_pct = 30;
            o.depth = rng.range(0, 2);
            o.alpha = vec!['a', 'b', 'c', ','];
        }
        "C14" => {
            o.ops = without(&ops_default(), &["mapspan", "maperrspan", "labelspan"]);
            o.fins = vec![(3, "ret"), (2, "retwith"), (2, "orfail")];
            o.leaf = without(&o.leaf, &["look"]); // its output names locations
        }
        "C15" => {
            o.ops.push((6, "def"));
            o.clone_pct = 0;
        }
        "C18" => {
            o.ops.push((16, "trymap"));
            o.ops.push((4, "rec"));
            o.depth = rng.range(2, 4);
        }
        "C19" => {
            o.ops = vec![
                (6, "to"),
                (3, "ign"),
                (5, "some"),
                (8, "map"),
                (8, "mapspan"),
                (8, "maperr"),
                (8, "maperrspan"),
                (4, "label"),
                (4, "labelspan"),
                (8, "rec"),
                (3, "then"),
                (2, "chain"),
                (2, "alters"),
                (3, "rep"),
                (2, "ornot"),
                (2, "trymap"),
            ];
        }
        "C12" => o.x0_pct = 0,
        "C03" => {
            o.depth = rng.range(1, 2);
            o.ops.push((10, "rec"));
            o.ops.push((5, "alters"));
            o.leaf = without(&leaf_default(), &["end", "empty", "none"]);
        }
        "C17" => {
            o.depth = rng.range(2, 5);
            o.ops.push((4, "rec"));
            o.x0_pct = 60;
            o.leaf.push((3, "cust"));
            o.leaf.push((1, "end"));
        }
        _ => {
            o.depth = rng.range(2, 5);
        }
    }
    if !matches!(prop, "C10" | "C11" | "C13") && rng.pct(30) {
        o.alpha = all_chars();
    }
    if matches!(prop, "C09" | "C07" | "C17" | "C04") && rng.pct(30) {
        o.alpha = vec!['(', ')', '[', ']', 'a', 'b'];
    }
    o
}

pub fn world_for(prop: &str, rng: &mut Rng) -> &'static str {
    match prop {
        "C11" => *rng.pick(&["R", "R", "S"]),
        "C12" => *rng.pick(&["A", "A", "S"]),
        "C13" => *rng.pick(&["S", "C", "F", "R", "S", "V"]),
        "C14" => *rng.pick(&["S", "S", "C", "V"]),
        "C02" | "C03" => "S",
        _ => *rng.pick(&["S", "S", "S", "S", "R", "F", "C", "V"]),
    }
}

/// Copies the subgrammar of `id`, inserting wrappers that must not change anything.
struct Rewrap<'a, 'r> {
    src: &'a Gram,
    dst: &'a mut Gram,
    rng: &'r mut Rng,
    pct: usize,
    unroll: usize,
    defs: Vec<(usize, usize)>, // source def -> copied def
}
impl<'a, 'r> Rewrap<'a, 'r> {
    fn copy(&mut self, id: usize, depth: usize) -> usize {
        let n = self.src.n(id).clone();
        let mut m = n.clone();
        let new = match n.op.as_str() {
            "ref" => {
                if depth < self.unroll {
                    // the definition's body in place of the reference
                    let body = self.src.n(n.d).ch[0];
                    return self.copy(body, depth + 1);
                }
                match self.defs.iter().rev().find(|x| x.0 == n.d) {
                    Some((_, d)) => {
                        m.d = *d;
                        self.dst.add(m)
                    }
                    None => return self.copy(n.d, depth),
                }
            }
            "def" => {
                if depth < self.unroll {
                    return self.copy(n.ch[0], depth);
                }
                m.form = self.rng.pick(&["fn", "decl", "early"]).to_string();
                let nid = self.dst.add(m);
                self.defs.push((id, nid));
                let b = self.copy(n.ch[0], depth);
                self.defs.pop();
                self.dst.nodes[nid - 1].ch = vec![b];
                nid
            }
            _ => {
                m.ch = n.ch.iter().map(|c| self.copy(*c, depth)).collect();
                m.st = self.steps(&n.st, depth, true);
                m.cl = !matches!(n.op.as_str(), "cust" | "trymap" | "look" | "peek" | "not")
                    && self.rng.pct(self.pct / 2);
                if matches!(n.op.as_str(), "chain" | "alters") && m.ch.len() >= 2 {
                    m.n = if m.cl { self.rng.range(2, m.ch.len()) } else { 0 };
                }
                self.dst.add(m)
            }
        };
        let mut cur = new;
        while self.rng.pct(self.pct) {
            let mut w = Node::new(self.rng.pick(&["boxed", "witherr", "def"]), &[cur]);
            w.cl = w.op != "def" && self.rng.pct(30);
            if w.op == "def" {
                // A definition no reference mentions.
                w.form = self.rng.pick(&["fn", "decl", "early"]).to_string();
            }
            cur = self.dst.add(w);
        }
        cur
    }
    fn steps(&mut self, st: &[Step], depth: usize, top: bool) -> Vec<Step> {
        let mut v = vec![];
        let wrap = |s: &mut Self, v: &mut Vec<Step>| {
            if s.rng.pct(s.pct) {
                v.push(Step {
                    s: s.rng.pick(&["boxed", "nothing"]).to_string(),
                    ..Default::default()
                });
            }
        };
        for (k, x) in st.iter().enumerate() {
            let last = top && k + 1 == st.len();
            wrap(self, &mut v);
            let mut y = x.clone();
            if x.p > 0 {
                y.p = self.copy(x.p, depth);
            }
            y.inn = self.steps(&x.inn, depth, false);
            y.cl = self.rng.pct(self.pct / 2);
            v.push(y);
            if !last {
                wrap(self, &mut v);
            }
        }
        v
    }
}

pub fn rewrap(g: &mut Gram, root: usize, rng: &mut Rng, pct: usize, unroll: usize) -> usize {
    let src = g.clone();
    let mut r = Rewrap {
        src: &src,
        dst: g,
        rng,
        pct,
        unroll,
        defs: vec![],
    };
    r.copy(root, 0)
}

/// How the grammar is run for a property.
pub fn runs_for(prop: &str, w: &str, root: usize, g: &mut Gram, rng: &mut Rng) -> Vec<RunSpec> {
    let raw = RunSpec::raw;
    match prop {
        "C02" => vec![
            raw(root, false),
            raw(root, true).resume(),
            raw(root, true).en("stream").calls(3).resume(),
        ],
        "C01" => vec![raw(root, false), raw(root, true), raw(root, true).resume()],
        "C03" => vec![
            raw(root, true).en("stream").calls(400),
            raw(root, true).en("stream").calls(rng.range(0, 3)),
        ],
        "C04" | "C06" | "C07" | "C08" | "C18" | "C19" => {
            vec![raw(root, false).ev(), raw(root, true).ev()]
        }
        "C05" => vec![raw(root, false).ev(), raw(root, true)],
        "C22" => vec![raw(root, false).ev(), raw(root, true).ev(), raw(root, true).en("stream").calls(3).ev()],
        "C09" => vec![raw(root, true).ev()],
        "C10" => vec![raw(root, true).ev()],
        "C11" => vec![
            raw(root, true).ev(),
            raw(root, false),
            raw(root, true).en("stream").calls(3),
        ],
        "C12" => {
            let c = rng.range(0, 4);
            vec![raw(root, true).en("stream").calls(c).alone()]
        }
        "C13" => vec![raw(root, false).ev()],
        "C14" => {
            let mut v = vec![
                raw(root, true),
                raw(root, true).en("pwr"),
                raw(root, true).en("pwrl"),
                raw(root, true).en("parse"),
                raw(root, true).en("pl"),
                raw(root, true).en("streamd"),
                raw(root, true).w("V"),
                raw(root, true).w("R"),
                raw(root, true).en("pl").w("R"),
                raw(root, true).en("pwrl").w("R"),
                raw(root, true).en("pwr").w("V"),
                raw(root, true).en("parse").w("V"),
                raw(root, false),
                raw(root, false).w("V"),
                raw(root, false).w("R"),
            ];
            if w == "C" {
                // token identity is invisible in this world; compare within it only
                v.retain(|r| r.w.is_empty());
            }
            v
        }
        "C15" => {
            let mut v = vec![raw(root, false), raw(root, true)];
            for k in 0..3 {
                let unroll = if k == 2 { rng.range(1, 3) } else { 0 };
                if g.nodes.len() > 150 {
                    break;
                }
                let r2 = rewrap(g, root, rng, [25, 50, 10][k], unroll);
                if g.nodes.len() > 600 {
                    break;
                }
                v.push(raw(r2, false));
                v.push(raw(r2, true));
            }
            v
        }
        "C17" => vec![
            raw(root, false),
            raw(root, true),
            raw(root, true).en("stream").calls(3),
        ],
        _ => vec![raw(root, false), raw(root, true)],
    }
}

pub fn make(prop: &str, rng: &mut Rng, idx: usize, n_inputs: usize) -> Case {
    let o = opts(prop, rng);
    let w = world_for(prop, rng);
    let mut o = o;
    if w == "C" {
        o.forms = vec!["str", "string", "vec", "one", "arr", "slice"];
    }
    let alpha = o.alpha.clone();
    let mut gen = Gen::new(rng, o);
    let d = gen.o.depth;
    let root = match prop {
        "C06" => {
            if gen.rng.pct(70) {
                gen.op("rep", d)
            } else {
                gen.node(d)
            }
        }
        "C09" | "C10" => {
            if gen.rng.pct(80) {
                gen.op("rec", d)
            } else {
                gen.node(d)
            }
        }
        "C18" => gen.op("trymap", d),
        "C15" => {
            let k = gen.rng.range(0, 9);
            if k < 4 {
                gen.op("def", d)
            } else if k < 6 {
                gen.op("rec", d)
            } else {
                gen.node(d)
            }
        }
        "C13" => {
            if d == 0 {
                gen.leaf()
            } else {
                gen.node(d)
            }
        }
        _ => {
            let mut r = gen.node(d);
            for _ in 0..3 {
                if gen.g.n(r).ch.is_empty() {
                    r = gen.node(d);
                }
            }
            r
        }
    };
    let mut inputs: Vec<Vec<char>> = (0..n_inputs)
        .map(|_| {
            let max = *gen.rng.pick(&[4, 8, 10]);
            gen.input(root, max)
        })
        .collect();
    if gen.rng.pct(30) {
        inputs.push(vec![]);
    }
    if prop == "C10" {
        for _ in 0..n_inputs {
            let k = gen.rng.range(1, 10);
            let v = (0..k).map(|_| *gen.rng.pick(&alpha)).collect();
            inputs.push(v);
        }
    }
    if prop == "C03" {
        // long inputs: what the grammar matches, over and over, with something else now and then
        inputs = (0..2)
            .map(|_| {
                let mut v = vec![];
                let noise = *gen.rng.pick(&[0, 5, 30]);
                while v.len() < 700 {
                    let mut x = gen.input(root, 8);
                    if x.is_empty() || gen.rng.pct(noise) {
                        x.push(*gen.rng.pick(&alpha));
                    }
                    v.extend(x);
                }
                v
            })
            .collect();
    }
    inputs.sort();
    inputs.dedup();
    let mut g = std::mem::take(&mut gen.g);
    g.root = root;
    let runs = runs_for(prop, w, root, &mut g, rng);
    let pre: Vec<char> = if matches!(prop, "C11" | "C14") && rng.pct(4) {
        // far down, or far right: rows and columns beyond what 8 bits can tell apart
        let k = rng.range(255, 400);
        let most = *rng.pick(&['n', 'a', 'w', 'u']);
        (0..k).map(|_| if rng.pct(97) { most } else { *rng.pick(&['a', 'n', 'u', 'w', 'e', 'r']) }).collect()
    } else if matches!(prop, "C11" | "C14") && rng.pct(5) {
        // beyond what 16 bits can tell apart
        (0..rng.range(1, 4)).map(|_| *rng.pick(&['z', 'y', 'z', 'y', 'n', 'a', 'k'])).collect()
    } else if (w == "R" || prop == "C14") && rng.pct(50) {
        (0..rng.range(0, 4)).map(|_| *rng.pick(&['a', 'n', 'u', 'w', 'e', 'r', 'v', 'k'])).collect()
    } else {
        vec![]
    };
    let c = Case {
        id: format!("{prop}-{idx}"),
        prop: prop.to_string(),
        w: w.to_string(),
        g,
        pre,
        inputs,
        runs,
    };
    if idx % 4 > 0 || prop == "C03" {
        return c;
    }
    let k = if rng.pct(10) { rng.range(240, 270) } else { idx / 4 % 70 + 1 };
    shifted(&c, k, rng)
}

/// The same further on in the source: tokens to be ignored before it.
pub fn shifted(c: &Case, k: usize, rng: &mut Rng) -> Case {
    let mut c = c.clone();
    if c.prop == "C12" {
        return c;
    }
    let al: &[char] = if c.w == "R" { &['a', 'b', 'n', 'u'] } else { &['a', 'b', 'c'] };
    let before: Vec<char> = (0..k).map(|_| *rng.pick(al)).collect();
    let mut n = Node::new("seq", &[]);
    n.set = before.clone();
    n.form = "vec".into();
    let s = c.g.add(n);
    let mut seen: Vec<(usize, usize)> = vec![];
    for r in c.runs.iter_mut() {
        let to = match seen.iter().find(|x| x.0 == r.root) {
            Some(x) => x.1,
            None => {
                let to = c.g.add(Node::new("igthen", &[s, r.root]));
                seen.push((r.root, to));
                to
            }
        };
        r.root = to;
    }
    c.g.root = seen.iter().find(|x| x.0 == c.g.root).map(|x| x.1).unwrap_or(c.g.root);
    for v in c.inputs.iter_mut() {
        v.splice(0..0, before.iter().cloned());
    }
    c.id = format!("{}-s{k}", c.id);
    c
}

fn words(alpha: &[char], max: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut cur = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &cur {
            for c in alpha {
                let mut v: Vec<char> = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

fn just(g: &mut Gram, c: char) -> usize {
    let mut n = Node::new("just", &[]);
    n.t = c.to_string();
    g.add(n)
}

/// Families enumerated completely within small bounds.
pub fn exhaustive(prop: &str, thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let mut push = |g: Gram, inputs: Vec<Vec<char>>, runs: Vec<RunSpec>, w: &str| {
        let id = format!("{prop}-x{}", out.len());
        out.push(Case {
            id,
            prop: prop.into(),
            w: w.into(),
            g,
            pre: vec![],
            inputs,
            runs,
        });
    };
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C17" | "C19" | "C22") {
        crate::scale::very_long(prop, &mut push);
    }
    if prop == "C06" || prop == "C17" {
        // limits as large as they can be
        for (min, max) in [(0, HUGE), (2, HUGE), (HUGE, -1), (HUGE, HUGE)] {
            for opt in 0..8 {
                let mut g = Gram::default();
                let a = just(&mut g, 'a');
                let s = just(&mut g, ',');
                let mut n = Node::new("rep", &[a, s]);
                if opt & 4 > 0 {
                    n.ch.pop();
                }
                n.min = min as usize;
                n.max = max;
                n.lead = opt & 1 > 0;
                n.trail = opt & 2 > 0;
                let r = g.add(n);
                g.root = r;
                push(g, words(&['a', ','], 4), vec![RunSpec::raw(r, false), RunSpec::raw(r, true)], "S");
            }
        }
    }
    match prop {
        "C06" => {
            // every limit and option, items and separators of one token
            let len = if thorough { 8 } else { 6 };
            for min in 0..=3usize {
                for max in -1..=4i64 {
                    if max >= 0 && (max as usize) < min {
                        continue;
                    }
                    for opt in 0..8 {
                        let (lead, trail, sep) = (opt & 1 > 0, opt & 2 > 0, opt & 4 > 0);
                        if max == 0 && lead {
                            continue;
                        }
                        let mut g = Gram::default();
                        let a = just(&mut g, 'a');
                        let mut n = Node::new("rep", &[a]);
                        if sep {
                            let s = just(&mut g, ',');
                            n.ch.push(s);
                        }
                        n.min = min;
                        n.max = max;
                        n.lead = lead;
                        n.trail = trail;
                        n.form = if opt % 3 == 0 { "mm" } else if opt % 3 == 1 { "" } else { "ws" }.into();
                        let r = g.add(n);
                        g.root = r;
                        let inputs = words(&['a', ','], len);
                        push(g, inputs, vec![RunSpec::raw(r, false), RunSpec::raw(r, true)], "S");
                    }
                }
            }
            // the same further on
            let mut shifts = Rng::new(5);
            for k in 1..=33 {
                for opt in 0..4 {
                    for (min, max) in [(0, -1), (1, -1), (0, 2), (2, 3)] {
                        let mut g = Gram::default();
                        let a = just(&mut g, 'a');
                        let s = just(&mut g, ',');
                        let mut n = Node::new("rep", &[a, s]);
                        n.min = min;
                        n.max = max;
                        n.lead = opt & 1 > 0;
                        n.trail = opt & 2 > 0;
                        let r = g.add(n);
                        g.root = r;
                        let c = Case {
                            id: String::new(),
                            prop: prop.into(),
                            w: "S".into(),
                            g,
                            pre: vec![],
                            inputs: [",", "a", ",a", "a,", "aa", ",a,", "a,a", "a,a,", "a,a,a", "a,a,a,", ",a,a,,", "a,,a", "a,a,a,a"]
                                .iter().map(|x| x.chars().collect()).collect(),
                            runs: vec![RunSpec::raw(r, false)],
                        };
                        let c = shifted(&c, k, &mut shifts);
                        push(c.g, c.inputs, c.runs, "S");
                    }
                }
            }
            // two-token items and separators: partial matches are given back whole
            for opt in 0..4 {
                for (min, max) in [(0, -1), (1, -1), (2, 2), (0, 2), (2, 3)] {
                    let mut g = Gram::default();
                    let mk = |g: &mut Gram, s: &str| {
                        let mut n = Node::new("seq", &[]);
                        n.set = s.chars().collect();
                        n.form = "vec".into();
                        g.add(n)
                    };
                    let a = mk(&mut g, "ab");
                    let s = mk(&mut g, ",,");
                    let mut n = Node::new("rep", &[a, s]);
                    n.min = min;
                    n.max = max;
                    n.lead = opt & 1 > 0;
                    n.trail = opt & 2 > 0;
                    let r = g.add(n);
                    g.root = r;
                    let inputs = words(&['a', 'b', ','], if thorough { 8 } else { 6 });
                    push(g, inputs, vec![RunSpec::raw(r, false)], "S");
                }
            }
            // long repetitions
            for (min, max) in [(0, -1), (40, -1), (0, 30), (50, 50), (60, -1)] {
                for opt in 0..4 {
                    let mut g = Gram::default();
                    let a = just(&mut g, 'a');
                    let s = just(&mut g, ',');
                    let mut n = Node::new("rep", &[a, s]);
                    n.min = min;
                    n.max = max;
                    n.lead = opt & 1 > 0;
                    n.trail = opt & 2 > 0;
                    let r = g.add(n);
                    g.root = r;
                    let mut inputs = vec![];
                    for k in [29usize, 30, 31, 39, 40, 41, 49, 50, 51, 70] {
                        let mut v: Vec<char> = "a,".repeat(k).chars().collect();
                        inputs.push(v.clone());
                        v.pop();
                        inputs.push(v);
                    }
                    push(g, inputs, vec![RunSpec::raw(r, false)], "S");
                }
            }
            // every limit up to some size, and around powers of two
            for m in (4..=24usize).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
                for (min, max) in [(0, m as i64), (m, -1), (m, m as i64)] {
                    for opt in [0, 2, 4, 5, 6, 7] {
                        let mut g = Gram::default();
                        let a = just(&mut g, 'a');
                        let mut n = Node::new("rep", &[a]);
                        let sep = opt & 4 > 0;
                        if sep {
                            let s = just(&mut g, ',');
                            n.ch.push(s);
                        } else if opt > 0 {
                            continue;
                        }
                        n.min = min;
                        n.max = max;
                        n.lead = opt & 1 > 0;
                        n.trail = opt & 2 > 0;
                        let r = g.add(n);
                        g.root = r;
                        let mut inputs = vec![];
                        for k in [m - 1, m, m + 1, m + 2] {
                            let mut v: Vec<char> = if sep { "a," } else { "a" }.repeat(k).chars().collect();
                            if sep {
                                inputs.push(v.clone());
                                v.pop();
                            }
                            inputs.push(v);
                        }
                        push(g, inputs, vec![RunSpec::raw(r, false)], "S");
                    }
                }
            }
        }
        "C07" => {
            // the errors children recovered from, whichever children those are
            let item = |g: &mut Gram, c: char, t: &str, multi: bool| {
                let x = just(g, c);
                let mut n = Node::new("rec", &[x]);
                n.st = vec![
                    Step { s: "pushtok".into(), t: format!("{t}k"), ..Default::default() },
                    Step { s: "skip".into(), ..Default::default() },
                    Step { s: "retwith".into(), t: t.into(), ..Default::default() },
                ];
                if multi {
                    n.st.insert(0, Step { s: "pushup".into(), t: format!("{t}u"), ..Default::default() });
                }
                g.add(n)
            };
            for v in 0..8 {
                for size in [6usize, 14] {
                    let mut g = Gram::default();
                    let mut sep = false;
                    let root = match v {
                        0..=3 => {
                            // a repetition; items, separators or both recover
                            let a = if v == 1 { just(&mut g, 'a') } else { item(&mut g, 'a', "i", v == 3) };
                            let mut n = Node::new("rep", &[a]);
                            if v > 0 {
                                sep = true;
                                let s = if v == 2 { just(&mut g, ',') } else { item(&mut g, ',', "s", false) };
                                n.ch.push(s);
                                n.trail = v == 3;
                            }
                            n.min = size;
                            g.add(n)
                        }
                        4 | 5 => {
                            // a sequence that leans to one side
                            let mut r = item(&mut g, 'a', "0", false);
                            for j in 1..size {
                                let x = item(&mut g, 'a', &j.to_string(), v == 5);
                                let ch = if v == 4 { [r, x] } else { [x, r] };
                                r = g.add(Node::new("then", &ch));
                            }
                            r
                        }
                        6 => {
                            // alternatives, each with a part that recovers
                            let mut ch = vec![];
                            for j in 0..size {
                                let l = just(&mut g, (b'A' + j as u8) as char);
                                let x = item(&mut g, 'a', &j.to_string(), j % 2 > 0);
                                ch.push(g.add(Node::new("then", &[l, x])));
                            }
                            g.add(Node::new("alters", &ch))
                        }
                        _ => {
                            // delimited and padded, inside each other
                            let mut r = item(&mut g, 'a', "m", true);
                            for j in 0..size / 2 {
                                let l = item(&mut g, 'a', &format!("{j}l"), false);
                                let x = item(&mut g, 'a', &format!("{j}r"), false);
                                r = g.add(Node::new("delim", &[l, r, x]));
                            }
                            r
                        }
                    };
                    g.root = root;
                    let mut inputs: Vec<Vec<char>> = vec![];
                    if v == 6 {
                        for j in 0..size {
                            for t in ["", "a", "b"] {
                                inputs.push(format!("{}{t}", (b'A' + j as u8) as char).chars().collect());
                            }
                        }
                    } else {
                        let mut good: Vec<char> = if sep { "a," } else { "a" }.repeat(size + 1).chars().collect();
                        if sep {
                            good.pop();
                        }
                        inputs.push(good.clone());
                        for k in 0..good.len() {
                            let mut u = good.clone();
                            u[k] = 'b';
                            inputs.push(u.clone());
                            for d in [1, 2, 5] {
                                if k + d < good.len() && (thorough || k % 2 == 0) {
                                    let mut u = u.clone();
                                    u[k + d] = 'c';
                                    inputs.push(u);
                                }
                            }
                            inputs.push(good[..k].to_vec());
                        }
                    }
                    push(g, inputs, vec![RunSpec::raw(root, true).ev(), RunSpec::raw(root, false)], "S");
                }
            }
        }
        "C13" => {
            // every container that lists tokens, alone and inside
            for w in ["S", "C", "F", "R", "V"] {
                for form in ["vec", "arr", "one", "slice", "rvec", "aref", "str", "string"] {
                    for set in ["", "a", "u", "ab", "bu", "ba", "aa", "abc", "cab", "uba", "aab", "abcu"] {
                        for op in ["seq", "oneof", "noneof"] {
                            if matches!(form, "str" | "string") && w != "C" {
                                continue;
                            }
                            let mut g = Gram::default();
                            let mut n = Node::new(op, &[]);
                            n.set = set.chars().collect();
                            n.form = form.into();
                            let r = g.add(n);
                            g.root = r;
                            let mut inputs = words(&['a', 'b', 'u'], 2);
                            inputs.push(set.chars().collect());
                            inputs.push(set.chars().rev().collect());
                            inputs.push(set.chars().chain(['b']).collect());
                            inputs.push(set.chars().take(2).chain(['b', 'b']).collect());
                            inputs.push(set.chars().take(2).collect());
                            inputs.sort();
                            inputs.dedup();
                            push(g, inputs, vec![RunSpec::raw(r, false)], w);
                        }
                    }
                }
            }
        }
        "C10" => {
            let tys: Vec<Vec<(char, char)>> = vec![
                vec![('(', ')')],
                vec![('(', ')'), ('[', ']')],
                vec![('[', ']'), ('(', ')')],
                vec![('|', '|')],
                vec![('(', ')'), ('|', '|')],
                vec![('|', '|'), ('[', ']'), ('(', ')')],
                // delimiters that belong to more than one pair
                vec![('(', ')'), ('[', ')'), ('|', '|')],
                vec![('[', ')'), ('(', ')'), ('(', ']')],
                vec![('(', '|'), ('|', ')')],
                vec![('(', ')'), (')', '(')],
            ];
            for ty in tys {
                let mut al: Vec<char> = ty.iter().flat_map(|x| [x.0, x.1]).collect();
                al.push('a');
                al.sort();
                al.dedup();
                let mut g = Gram::default();
                let b = just(&mut g, 'b');
                let mut n = Node::new("rec", &[b]);
                n.st = vec![
                    Step { s: "scan".into(), types: ty.clone(), ..Default::default() },
                    Step { s: "retspan".into(), t: "s".into(), ..Default::default() },
                ];
                let r = g.add(n);
                g.root = r;
                let len = match al.len() {
                    2 => 10,
                    3 => 7,
                    4 => 6,
                    5 => 5,
                    _ => 4,
                } + usize::from(thorough);
                for ch in words(&al, len).chunks(400) {
                    push(g.clone(), ch.to_vec(), vec![RunSpec::raw(r, true)], "S");
                }
            }
            // deep nesting
            let mut g = Gram::default();
            let b = just(&mut g, 'b');
            let mut n = Node::new("rec", &[b]);
            n.st = vec![
                Step { s: "scan".into(), types: vec![('(', ')'), ('[', ']')], ..Default::default() },
                Step { s: "skip".into(), ..Default::default() },
                Step { s: "retspan".into(), t: "s".into(), ..Default::default() },
            ];
            let r = g.add(n);
            g.root = r;
            let mut inputs = vec![];
            for k in [5usize, 17, 40] {
                let open: String = "([".repeat(k);
                let close: String = "])".repeat(k);
                inputs.push(format!("{open}a{close}aa").chars().collect());
                inputs.push(format!("{open}a").chars().collect());
                inputs.push(format!("{open}{}{close}", "(".repeat(k)).chars().collect());
                inputs.push(format!("({}){close}", "[".repeat(k)).chars().collect());
            }
            // deeper than 8 bits can count
            let open = "([".repeat(135);
            inputs.push(format!("{open}({open}a{}", "])".repeat(134)).chars().collect());
            inputs.push(format!("{open}a{}aa", "])".repeat(135)).chars().collect());
            inputs.push(format!("({}){}", "[".repeat(270), "])".repeat(3)).chars().collect());
            push(g, inputs, vec![RunSpec::raw(r, true)], "S");
        }
        "C03" => {
            // items of one, some and many tokens, with lookahead and recovery, streamed for long
            let mk = |g: &mut Gram, s: &str| {
                let mut n = Node::new("seq", &[]);
                n.set = s.chars().collect();
                n.form = "vec".into();
                g.add(n)
            };
            for v in 0..7 {
                let mut g = Gram::default();
                let a = just(&mut g, 'a');
                let b = just(&mut g, 'b');
                let root = match v {
                    0 => a,
                    1 => {
                        let x = g.add(Node::new("then", &[a, b]));
                        g.add(Node::new("ornot", &[x]))
                    }
                    2 => {
                        let l = mk(&mut g, "aaaaaaaab");
                        let x = mk(&mut g, "aab");
                        g.add(Node::new("alters", &[l, x, a, b]))
                    }
                    3 => {
                        let mut n = Node::new("rep", &[a]);
                        n.min = 1;
                        n.max = 3;
                        let r = g.add(n);
                        g.add(Node::new("or", &[r, b]))
                    }
                    4 | 5 => {
                        let mut n = Node::new("rec", &[b]);
                        n.st = vec![
                            Step { s: "pushtok".into(), t: "s".into(), ..Default::default() },
                            if v == 4 {
                                Step { s: "skip".into(), ..Default::default() }
                            } else {
                                Step { s: "find".into(), set: vec!['b'], ..Default::default() }
                            },
                            Step { s: "skip".into(), ..Default::default() },
                            Step { s: "retspan".into(), t: "s".into(), ..Default::default() },
                        ];
                        g.add(n)
                    }
                    _ => {
                        let mut n = Node::new("rep", &[a]);
                        n.min = 1;
                        let r = g.add(n);
                        g.add(Node::new("thenig", &[r, b]))
                    }
                };
                g.root = root;
                let len = if thorough { 4000 } else { 1500 };
                let inputs = vec![
                    "a".repeat(len).chars().collect(),
                    "ab".repeat(len / 2).chars().collect(),
                    "aaaaaaaab".repeat(len / 9).chars().collect(),
                    "aab".repeat(len / 3).chars().collect(),
                ];
                let st = RunSpec::raw(root, true).en("stream");
                // all of it, and little of it with a long rest
                let runs = vec![st.clone().calls(len), st.calls(v)];
                if v == 6 || v == 5 {
                    push(g, inputs[1..].to_vec(), runs, "S");
                } else {
                    push(g, inputs, runs, "S");
                }
            }
        }
        "C15" | "C17" | "C05" => {
            // recursion deep into the input: e = '(' e ')' | a
            for form in ["fn", "decl", "early"] {
                let mut g = Gram::default();
                let mut d = Node::new("def", &[]);
                d.form = form.into();
                let did = g.add(d);
                let l = just(&mut g, '(');
                let mut rf = Node::new("ref", &[]);
                rf.d = did;
                let rf = g.add(rf);
                let rr = just(&mut g, ')');
                let de = g.add(Node::new("delim", &[l, rf, rr]));
                let a = just(&mut g, 'a');
                let al = g.add(Node::new("or", &[a, de]));
                g.nodes[did - 1].ch = vec![al];
                g.root = did;
                let mut inputs = vec![];
                for k in [1usize, 7, 40] {
                    inputs.push(format!("{}a{}b", "(".repeat(k), ")".repeat(k)).chars().collect());
                    inputs.push(format!("{}a{}b", "(".repeat(k), ")".repeat(k - 1)).chars().collect());
                }
                let mut runs = vec![RunSpec::raw(did, false)];
                if prop == "C15" {
                    let mut rng = Rng::new(7);
                    let r2 = rewrap(&mut g, did, &mut rng, 10, 60);
                    runs.push(RunSpec::raw(r2, false));
                }
                push(g, inputs, runs, "S");
            }
        }
        _ => {}
    }
    out
}
