//! Grammars and inputs that are large in one dimension: many alternatives, long repetitions, deep
//! nesting, many errors, long strategies, long texts.
use crate::gen::{steps_default, without, Gen, Opt};
use crate::gram::{Gram, Node, Step};
use crate::profiles::{runs_for, shifted, world_for};
use crate::rng::Rng;
use crate::run::Case;

const MANY: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

fn just(g: &mut Gram, c: char) -> usize {
    let mut n = Node::new("just", &[]);
    n.t = c.to_string();
    g.add(n)
}
fn set(g: &mut Gram, op: &str, s: &[char], form: &str) -> usize {
    let mut n = Node::new(op, &[]);
    n.set = s.to_vec();
    n.form = form.into();
    g.add(n)
}
fn tagged(g: &mut Gram, op: &str, ch: usize, t: &str) -> usize {
    let mut n = Node::new(op, &[ch]);
    n.t = t.into();
    g.add(n)
}
/// A clone made while the children are being added, and one at the end.
fn cloned(g: &mut Gram, n: usize, rng: &mut Rng) {
    let k = g.nodes[n - 1].ch.len();
    g.nodes[n - 1].cl = rng.pct(30);
    g.nodes[n - 1].n = if rng.pct(30) { rng.range(2, k) } else { 0 };
}
fn step(s: &str) -> Step {
    Step { s: s.into(), ..Default::default() }
}
fn rec(g: &mut Gram, ch: usize, st: Vec<Step>) -> usize {
    let mut n = Node::new("rec", &[ch]);
    n.st = st;
    g.add(n)
}
fn fin(rng: &mut Rng, t: &str) -> Step {
    Step { t: t.into(), ..step(rng.pick(&["ret", "retwith", "retspan"])) }
}
fn word(rng: &mut Rng, al: &[char], lo: usize, hi: usize) -> Vec<char> {
    let n = rng.range(lo, hi);
    (0..n).map(|_| *rng.pick(al)).collect()
}
fn spoil(rng: &mut Rng, v: &[char], al: &[char]) -> Vec<char> {
    let mut v = v.to_vec();
    for _ in 0..rng.range(1, 2) {
        let k = rng.below(v.len() + 1);
        match rng.below(4) {
            0 if k < v.len() => v[k] = *rng.pick(al),
            1 if k < v.len() => {
                v.remove(k);
            }
            2 => v.truncate(k),
            _ => v.insert(k, *rng.pick(al)),
        }
    }
    v
}

fn forms(w: &str) -> &'static [&'static str] {
    if w == "C" {
        &["str", "string", "vec", "slice"]
    } else {
        &["vec", "slice", "rvec"]
    }
}

/// Grammar (root), inputs, number of items of a stream.
fn template(prop: &str, w: &str, rng: &mut Rng) -> (Gram, Vec<Vec<char>>) {
    let mut g = Gram::default();
    let al = ['a', 'b', 'c'];
    let mut ins: Vec<Vec<char>> = vec![];
    let kinds: &[usize] = match prop {
        "C04" => &[0, 1, 2, 3, 6, 7, 8],
        "C05" => &[0, 1, 2, 3, 5, 6],
        "C06" => &[2, 2, 4],
        "C07" => &[0, 1, 2, 4, 7, 8, 12],
        "C08" => &[0, 0, 0, 5, 6],
        "C09" => &[4, 7, 8, 8, 12, 12],
        "C10" => &[9, 12],
        "C11" => &[2, 4, 7, 8, 10, 10],
        "C12" => &[11],
        "C13" => &[5],
        "C15" => &[0, 1, 3, 6],
        "C18" | "C19" => &[6, 6, 4, 2],
        "C14" => &[0, 1, 2, 4, 5, 10],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12],
    };
    let kind = *rng.pick(kinds);
    match kind {
        0 => {
            // many alternatives, most of them failing at the same few places
            let k = if rng.pct(12) { rng.range(257, 300) } else { rng.range(12, 42) };
            let mut ch = vec![];
            let mut words = vec![];
            for j in 0..k {
                let v = if rng.pct(15) {
                    vec![MANY.chars().nth(j % 36).unwrap()]
                } else {
                    let mut v = word(rng, &al[..2], 1, 3);
                    if rng.pct(60) {
                        v.push(MANY.chars().nth(j % 36).unwrap());
                    }
                    v
                };
                let mut n = if v.len() == 1 && rng.pct(50) {
                    just(&mut g, v[0])
                } else {
                    set(&mut g, "seq", &v, forms(w)[rng.below(2)])
                };
                words.push(v);
                match rng.below(12) {
                    0 => n = tagged(&mut g, "maperr", n, &j.to_string()),
                    1 => {
                        let f = fin(rng, &j.to_string());
                        n = rec(&mut g, n, vec![step("skip"), f])
                    }
                    2 => n = g.add(Node::new("boxed", &[n])),
                    3 => {
                        let z = just(&mut g, 'c');
                        n = g.add(Node::new("then", &[n, z]));
                    }
                    4 => {
                        n = tagged(&mut g, "trymap", n, &j.to_string());
                        g.nodes[n - 1].acts = vec![rng.pick(&["err", "err2", "rec", "ok"]).to_string()];
                    }
                    _ => {}
                }
                ch.push(n);
            }
            if k > 256 {
                // only the last one accepts this
                let v = vec!['c', MANY.chars().nth(k % 36).unwrap()];
                ch.push(set(&mut g, "seq", &v, forms(w)[0]));
                ins.push(v);
            }
            g.root = if rng.pct(75) || k > 256 {
                let n = g.add(Node::new("alters", &ch));
                cloned(&mut g, n, rng);
                n
            } else {
                // right- or left-nested choices of two
                let right = rng.pct(50);
                if right {
                    ch.reverse();
                }
                let mut r = ch[0];
                for x in &ch[1..ch.len().min(16)] {
                    let p = if right { [*x, r] } else { [r, *x] };
                    r = g.add(Node::new("or", &p));
                }
                r
            };
            for _ in 0..6 {
                let v = rng.pick(&words).clone();
                ins.push(v.clone());
                ins.push(spoil(rng, &v, &al));
                ins.push(word(rng, &al, 0, 4));
            }
        }
        1 => {
            // long concatenations
            let k = if rng.pct(12) { rng.range(257, 300) } else { rng.range(10, 40) };
            let mut ch = vec![];
            let mut text = vec![];
            for j in 0..k {
                let c = *rng.pick(&al);
                let a = just(&mut g, c);
                let n = match rng.below(7) {
                    0 => {
                        text.push(c);
                        g.add(Node::new("ornot", &[a]))
                    }
                    1 => {
                        text.extend([c, c]);
                        let mut n = Node::new("rep", &[a]);
                        n.max = rng.range(1, 3) as i64;
                        g.add(n)
                    }
                    2 => {
                        text.push(c);
                        let f = fin(rng, &j.to_string());
                        rec(&mut g, a, vec![step("skip"), f])
                    }
                    3 => g.add(Node::new("empty", &[])),
                    _ => {
                        text.push(c);
                        a
                    }
                };
                ch.push(n);
            }
            g.root = if rng.pct(70) {
                let n = g.add(Node::new("chain", &ch));
                cloned(&mut g, n, rng);
                n
            } else {
                let mut r = ch[0];
                for x in &ch[1..] {
                    r = g.add(Node::new(rng.pick(&["then", "thenig", "igthen"]), &[r, *x]));
                }
                r
            };
            ins.push(text.clone());
            for _ in 0..5 {
                ins.push(spoil(rng, &text, &al));
            }
        }
        2 => {
            // long repetitions with limits anywhere along the input
            let n_items = *rng.pick(&[9usize, 17, 33, 64, 100, 130, 257]);
            let item = match rng.below(3) {
                0 => just(&mut g, 'a'),
                1 => set(&mut g, "oneof", &['a', 'b'], "vec"),
                _ => {
                    let a = just(&mut g, 'a');
                    tagged(&mut g, "map", a, "m")
                }
            };
            let mut n = Node::new("rep", &[item]);
            let sep = rng.pct(65);
            if sep {
                let s = just(&mut g, ',');
                n.ch.push(s);
            }
            let near = |rng: &mut Rng, k: usize| (k + rng.below(3)).saturating_sub(1);
            n.min = if rng.pct(50) { 0 } else { near(rng, n_items) };
            if rng.pct(50) {
                n.max = near(rng, n_items).max(n.min).max(1) as i64;
            }
            n.lead = sep && rng.pct(30);
            n.trail = sep && rng.pct(40);
            n.form = rng.pick(&["", "mm", "ws"]).to_string();
            if !sep {
                n.form = String::new();
            }
            let r = g.add(n);
            g.root = match rng.below(4) {
                0 => {
                    let f = vec![Step { set: vec!['b', 'c'], ..step("find") }, fin(rng, "s")];
                    rec(&mut g, r, f)
                }
                1 => {
                    let b = just(&mut g, 'b');
                    g.add(Node::new("then", &[r, b]))
                }
                _ => r,
            };
            for k in [n_items - 2, n_items - 1, n_items, n_items + 1, n_items + 3] {
                let mut v = vec![];
                for j in 0..k {
                    if j > 0 && sep {
                        v.push(',');
                    }
                    v.push('a');
                }
                if sep && rng.pct(50) {
                    v.push(',');
                }
                if rng.pct(30) {
                    v.push('b');
                }
                if rng.pct(20) {
                    v = spoil(rng, &v, &['a', ',', 'b']);
                }
                ins.push(v);
            }
        }
        3 => {
            // nesting of the input: delimited expressions through references
            let mut d = Node::new("def", &[]);
            d.form = rng.pick(&["fn", "decl", "early"]).to_string();
            let did = g.add(d);
            let l = just(&mut g, '(');
            let rf = {
                let mut n = Node::new("ref", &[]);
                n.d = did;
                g.add(n)
            };
            let close = just(&mut g, ')');
            let mut inner = rf;
            if rng.pct(40) {
                let c = just(&mut g, ',');
                let mut n = Node::new("rep", &[rf, c]);
                n.min = rng.below(2);
                n.trail = rng.pct(30);
                inner = g.add(n);
            }
            let mut de = g.add(Node::new("delim", &[l, inner, close]));
            if rng.pct(40) {
                let f = fin(rng, "d");
                de = rec(&mut g, de, vec![Step { types: vec![('(', ')')], ..step("scan") }, step("skip"), f]);
            }
            let a = just(&mut g, 'a');
            let b = just(&mut g, 'b');
            let alts = if rng.pct(50) { vec![a, de] } else { vec![a, b, de] };
            let body = g.add(Node::new("alters", &alts));
            g.nodes[did - 1].ch = vec![body];
            g.root = did;
            let has = |op: &str| g.nodes.iter().any(|n| n.op == op);
            let most = if has("rec") {
                9
            } else if prop == "C15" {
                70
            } else if has("rep") {
                20
            } else {
                40
            };
            for _ in 0..5 {
                let k = rng.range(most / 3, most);
                let mut v: Vec<char> = "(".repeat(k).chars().collect();
                v.push('a');
                v.extend(")".repeat(k).chars());
                ins.push(v.clone());
                ins.push(spoil(rng, &v, &['a', '(', ')', ',']));
            }
        }
        4 => {
            // many recovered items, hence many errors
            let k = *rng.pick(&[8usize, 12, 20, 40, 80, 280]);
            let a = just(&mut g, 'a');
            let mut item = a;
            if rng.pct(40) {
                item = tagged(&mut g, "mapspan", item, "i");
            }
            let mut st = vec![];
            if rng.pct(50) {
                st.push(Step { t: "p".into(), ..step(rng.pick(&["push", "pushhere", "pushup", "pushtok"])) });
            }
            if rng.pct(30) {
                st.push(Step { t: rng.pick(&["rev", "dup", "tag"]).to_string(), ..step("upd") });
            }
            st.push(Step { set: vec![',', 'a'], ..step("find") });
            st.push(fin(rng, "s"));
            let mut r1 = rec(&mut g, item, st);
            if rng.pct(30) {
                r1 = tagged(&mut g, rng.pick(&["maperr", "maperrspan", "some", "map", "mapspan"]), r1, "w");
            }
            let s = just(&mut g, ',');
            let mut n = Node::new("rep", &[r1, s]);
            n.min = rng.range(k / 2, k);
            n.max = if rng.pct(50) { -1 } else { (k + rng.below(3)) as i64 };
            n.trail = rng.pct(30);
            let r = g.add(n);
            g.root = if rng.pct(30) {
                let mut t = Node::new("trymap", &[r]);
                t.t = "y".into();
                t.acts = vec![rng.pick(&["ok", "rec", "rec2", "err"]).to_string()];
                g.add(t)
            } else {
                r
            };
            for _ in 0..3 {
                let mut v = vec![];
                for j in 0..k + rng.below(3) {
                    if j > 0 {
                        v.push(',');
                    }
                    match rng.below(5) {
                        0 => v.push('a'),
                        1 => v.extend(['b', 'b', 'n']),
                        2 => {}
                        _ => v.push('b'),
                    }
                }
                ins.push(v);
            }
        }
        5 => {
            // long token sequences, large sets
            let many: Vec<char> = MANY.chars().collect();
            let op = *rng.pick(&["seq", "seq", "oneof", "noneof"]);
            let len = *rng.pick(&[7usize, 9, 17, 33, 36]);
            let v = if op == "seq" {
                word(rng, &many[..3], len, 2 * len)
            } else {
                let mut v = many.clone();
                for i in 0..v.len() {
                    let j = rng.below(v.len());
                    v.swap(i, j);
                }
                v.truncate(len);
                v
            };
            let f = *rng.pick(forms(w));
            let mut n = set(&mut g, op, &v, f);
            g.nodes[n - 1].cl = rng.pct(30);
            if rng.pct(40) {
                let v2 = word(rng, &many[..3], 1, 4);
                let m = set(&mut g, "seq", &v2, f);
                n = g.add(Node::new("or", &if rng.pct(50) { [n, m] } else { [m, n] }));
                ins.push(v2);
            }
            g.root = n;
            if op == "seq" {
                ins.push(v.clone());
                for _ in 0..5 {
                    ins.push(spoil(rng, &v, &many[..3]));
                }
            } else {
                for c in many.iter().chain(['a', 'b'].iter()) {
                    ins.push(vec![*c, 'a']);
                }
                ins.push(vec![]);
            }
        }
        6 => {
            // towers of wrappers
            let mut o = Opt { depth: 1, ..Default::default() };
            o.max_steps = 1;
            let mut gen = Gen::new(rng, o);
            let mut r = gen.node(1);
            let base = r;
            let tower = gen.rng.range(8, 30);
            let ops: &[&str] = if prop == "C15" {
                &["boxed", "def", "witherr", "map", "ornot"]
            } else {
                &["boxed", "def", "witherr", "map", "mapspan", "maperr", "maperrspan", "some", "trymap", "to", "ign"]
            };
            for _ in 0..tower {
                let op = gen.rng.pick(ops).to_string();
                let mut n = Node::new(&op, &[r]);
                n.t = gen.rng.pick(&["1", "2"]).to_string();
                if op == "def" {
                    n.form = gen.rng.pick(&["fn", "decl", "early"]).to_string();
                }
                if op == "trymap" {
                    n.acts = vec![gen.rng.pick(&["ok", "ok", "rec", "err", "rec2"]).to_string()];
                }
                n.cl = !matches!(op.as_str(), "def" | "trymap") && gen.rng.pct(20);
                r = gen.g.add(n);
            }
            for _ in 0..5 {
                let v = gen.input(base, 6);
                ins.push(v);
            }
            g = std::mem::take(&mut gen.g);
            g.root = r;
        }
        7 => {
            // recovery within recovery
            let k = rng.range(3, 9);
            let mut n = just(&mut g, 'a');
            for j in 0..k {
                let b = just(&mut g, *rng.pick(&al));
                let ch = if rng.pct(50) { [n, b] } else { [b, n] };
                n = g.add(Node::new("then", &ch));
                let mut st = vec![];
                match rng.below(5) {
                    0 => st.push(step("skip")),
                    1 => st.push(Step { set: vec!['a'], ..step("find") }),
                    2 => st.push(Step { ex: rng.pct(50), sil: rng.pct(50), p: b, ..step("ttp") }),
                    3 => {
                        st.push(step("skip"));
                        st.push(Step { ex: rng.pct(50), sil: rng.pct(30), ..step("retry") });
                    }
                    _ => st.push(Step { t: j.to_string(), ..step("pushhere") }),
                }
                let f = if rng.pct(65) { step("orfail") } else { fin(rng, &j.to_string()) };
                st.push(f);
                n = rec(&mut g, n, st);
            }
            g.root = n;
            for _ in 0..6 {
                ins.push(word(rng, &al, 0, k + 2));
            }
        }
        8 => {
            // long searches, long strategies
            let b = set(&mut g, "seq", &['b', 'c'], "vec");
            let c = just(&mut g, 'c');
            let k = *rng.pick(&[5usize, 20, 60, 120]);
            let inn = match rng.below(4) {
                0 => vec![Step { ex: rng.pct(50), sil: rng.pct(60), ..step("retry") }],
                1 => vec![Step { ex: true, sil: true, p: c, ..step("ttp") }],
                2 => vec![],
                _ => vec![Step { inn: vec![step("skip"), Step { ex: true, sil: true, ..step("retry") }], ..step("maybe") }],
            };
            let mut st = vec![];
            for j in 0..rng.range(0, 14) {
                st.push(match rng.below(8) {
                    0 => step("skip"),
                    1 => Step { set: vec!['a'], ..step("skipif") },
                    2 => Step { t: j.to_string(), ..step("push") },
                    3 => Step { t: j.to_string(), ..step("pushup") },
                    4 => step("boxed"),
                    5 => step("nothing"),
                    6 => Step { ex: true, sil: rng.pct(50), ..step("retry") },
                    _ => step("seekf"),
                });
            }
            st.push(Step { set: vec!['|'], inn, ..step("whilenot") });
            st.push(Step { t: "e".into(), ..step("pushtok") });
            st.push(if rng.pct(30) { step("orfail") } else { fin(rng, "s") });
            g.root = rec(&mut g, b, st);
            for _ in 0..4 {
                let mut v = word(rng, &['a', 'b', 'b', '['], k, k + 3);
                match rng.below(3) {
                    0 => v.extend(['b', 'c', 'a']),
                    1 => v.push('|'),
                    _ => {}
                }
                ins.push(v);
            }
        }
        9 => {
            // many and deep delimiters
            let all = [('(', ')'), ('[', ']'), ('|', '|'), ('A', 'B'), ('C', 'D'), ('E', 'F'), ('G', 'H')];
            let k = rng.range(1, 7);
            let mut ty: Vec<(char, char)> = all.to_vec();
            for i in 0..ty.len() {
                let j = rng.below(ty.len());
                ty.swap(i, j);
            }
            ty.truncate(k);
            let b = just(&mut g, 'b');
            let f = fin(rng, "s");
            g.root = rec(&mut g, b, vec![Step { types: ty.clone(), ..step("scan") }, step("skip"), f]);
            for _ in 0..8 {
                let depth = *rng.pick(&[3usize, 8, 20, 45]);
                let mut open = vec![];
                let mut v = vec![];
                let mut down = false;
                for _ in 0..3 * depth {
                    let up = !down && rng.pct(85);
                    if up && open.len() < depth {
                        let t = *rng.pick(&ty);
                        v.push(t.0);
                        open.push(t);
                    } else {
                        down = down || open.len() >= depth || rng.pct(5);
                        match open.pop() {
                            None => break,
                            Some(t) if rng.pct(93) => v.push(t.1),
                            Some(_) => v.push(rng.pick(&ty).1),
                        }
                    }
                    if rng.pct(10) {
                        v.push('a');
                    }
                }
                ins.push(v);
            }
        }
        10 => {
            // long texts: rows, columns and offsets of several digits
            let any = set(&mut g, "noneof", &['|'], "vec");
            let sp = tagged(&mut g, "mapspan", any, "t");
            let mut n = Node::new("rep", &[sp]);
            n.min = rng.below(2);
            let r = g.add(n);
            let end = g.add(Node::new(rng.pick(&["end", "empty"]), &[]));
            let body = g.add(Node::new("thenig", &[r, end]));
            let f = fin(rng, "s");
            g.root = rec(&mut g, body, vec![Step { t: "u".into(), ..step("pushup") }, step("skip"),
                Step { t: "k".into(), ..step("pushtok") }, f]);
            for _ in 0..2 {
                let k = rng.range(40, 120);
                let al: &[char] = *rng.pick(&[&['n', 'n', 'a'][..], &['a', 'u', 'b'], &['a', 'n', 'u', 'w', 'e', 'r', 'k'], &['w'], &['v', 'r']]);
                let mut v = word(rng, al, k, k + 10);
                if rng.pct(60) {
                    v.push('|');
                    v.push('a');
                }
                ins.push(v);
            }
        }
        12 => {
            // any program, far away from where the parser started
            let mut o = Opt { max_steps: 6, depth: 2, ..Opt::default() };
            o.steps = without(&steps_default(), &["upd", "updhere", "updup", "updtok"]);
            if prop == "C10" {
                o.steps.push((30, "scan"));
            }
            o.ops = vec![(3, "then"), (2, "or"), (1, "rep"), (1, "ornot"), (4, "rec")];
            o.leaf = vec![(6, "just"), (2, "oneof"), (2, "seq")];
            let mut gn = Gen::new(rng, o);
            let any = gn.node(0);
            gn.g.nodes[any - 1] = Node { set: vec!['|', 'c'], form: "vec".into(), ..Node::new("noneof", &[]) };
            let bar = just(&mut gn.g, '|');
            let child = if gn.rng.pct(50) {
                let r = gn.g.add(Node::new("rep", &[any]));
                gn.g.add(Node::new("then", &[r, bar]))
            } else {
                bar
            };
            let mut st = vec![];
            match gn.rng.below(5) {
                0 => st.push(Step { set: vec!['|'], ..step("find") }),
                1 => st.push(Step { set: vec!['c', '|'], ..step("find") }),
                2 => st.push(Step { set: vec!['c'], ..step("whilenot") }),
                3 => st.push(Step { types: vec![('(', ')')], ..step("scan") }),
                _ => st.push(step("seekf")),
            }
            if gn.rng.pct(30) {
                for j in 0..gn.rng.range(3, 18) {
                    st.push(Step { t: j.to_string(), ..step("pushhere") });
                }
            }
            if gn.rng.pct(40) {
                let p = gn.op("rec", 2);
                let (ex, sil) = (gn.rng.pct(20), gn.rng.pct(30));
                st.push(Step { p, ex, sil, ..step("ttp") });
            }
            st.extend(gn.strategy(2));
            gn.g.root = rec(&mut gn.g, child, st);
            g = gn.g;
            for _ in 0..6 {
                let k = *rng.pick(&[6usize, 12, 20, 40, 80]);
                let mut v = word(rng, &['a', 'b', 'a', '(', 'b', ')'], k / 2, k);
                v.push(*rng.pick(&['c', '|', ')']));
                v.extend(word(rng, &['a', 'b', 'c', '|', '(', ')'], 0, 12));
                ins.push(v);
            }
        }
        _ => {
            // long streams
            let a = just(&mut g, 'a');
            let b = just(&mut g, 'b');
            let ab = set(&mut g, "seq", &['a', 'b', 'a'], "vec");
            let mut root = match rng.below(4) {
                0 => a,
                1 => {
                    let mut n = Node::new("rep", &[a]);
                    n.min = 1;
                    n.max = rng.range(1, 4) as i64;
                    g.add(n)
                }
                2 => g.add(Node::new("alters", &[ab, b])),
                _ => {
                    let s = just(&mut g, ',');
                    let x = g.add(Node::new("ornot", &[s]));
                    g.add(Node::new("thenig", &[a, x]))
                }
            };
            if rng.pct(85) {
                let f = fin(rng, "s");
                let st = match rng.below(3) {
                    0 => vec![step("skip"), f],
                    1 => vec![Step { t: "k".into(), ..step("pushtok") }, step("skip"), f],
                    _ => vec![step("skip"), Step { set: vec!['a', 'b'], ..step("find") }, f],
                };
                root = rec(&mut g, root, st);
            }
            g.root = root;
            for _ in 0..3 {
                let v = word(rng, &['a', 'a', 'b', 'c', ','], 30, 90);
                ins.push(v);
            }
        }
    }
    (g, ins)
}

/// Sources with more tokens than sixteen bits can count.
pub fn very_long(prop: &str, push: &mut dyn FnMut(Gram, Vec<Vec<char>>, Vec<crate::run::RunSpec>, &str)) {
    let text = |k: usize, tail: &str| -> Vec<char> { std::iter::repeat('a').take(k).chain(tail.chars()).collect() };
    for (w, k) in [("S", 66_000), ("R", 20_000)] {
        let mut g = Gram::default();
        let b = just(&mut g, 'b');
        let s = tagged(&mut g, "mapspan", b, "m");
        let c = just(&mut g, 'c');
        let r = rec(&mut g, s, vec![
            Step { set: vec!['|'], ..step("find") },
            Step { t: "h".into(), ..step("pushhere") },
            step("skip"),
            Step { ex: true, ..step("retry") },
            Step { t: "k".into(), ..step("pushtok") },
            Step { set: vec!['b', 'c'], ..step("skipif") },
            Step { t: "s".into(), ..step("retspan") },
        ]);
        g.root = g.add(Node::new("then", &[r, c]));
        let raw = |r: bool| crate::run::RunSpec::raw(g.root, r);
        let runs = match prop {
            "C12" => vec![raw(true).en("stream").calls(2).alone()],
            "C01" | "C02" => vec![raw(false), raw(true).resume(), raw(true).en("stream").calls(1).resume()],
            "C03" => vec![raw(true).en("stream").calls(2)],
            "C17" => vec![raw(false), raw(true), raw(true).en("stream").calls(2)],
            "C09" | "C10" => vec![raw(true).ev()],
            "C05" => vec![raw(false).ev()],
            _ => vec![raw(false).ev(), raw(true).ev()],
        };
        push(g, vec![text(k, "|bc"), text(k, "|ccabc"), text(k - 466, "|bab")], runs, w);
    }
    for opt in 0..2 {
        // loops and scans over many tokens
        if !matches!(prop, "C01" | "C02" | "C04" | "C05" | "C07" | "C09" | "C10" | "C11" | "C17") {
            break;
        }
        let mut g = Gram::default();
        let b = just(&mut g, 'b');
        let bc = set(&mut g, "seq", &['b', 'c'], "vec");
        let st = if opt == 0 {
            vec![Step { set: vec!['|'], inn: vec![Step { p: bc, ex: true, sil: true, ..step("ttp") }], ..step("whilenot") },
                Step { t: "h".into(), ..step("pushhere") }, step("orfail")]
        } else {
            vec![Step { types: vec![('(', ')'), ('a', '|')], ..step("scan") }, step("skip"),
                Step { t: "h".into(), ..step("retspan") }]
        };
        let mut n = Node::new("map", &[bc]);
        n.t = "m".into();
        let _ = b;
        let m = g.add(n);
        g.root = rec(&mut g, m, st);
        let runs = vec![crate::run::RunSpec::raw(g.root, false), crate::run::RunSpec::raw(g.root, true).ev()];
        let v = if opt == 0 {
            vec![text(3_000, "bc|"), text(3_000, "|b"), text(2_999, "")]
        } else {
            let mut v: Vec<char> = "a(b)a|".repeat(700).chars().collect();
            v.insert(0, '(');
            let mut u = v.clone();
            v.extend(")b".chars());
            u.extend("|))".chars());
            vec![v, u]
        };
        push(g, v, runs, "S");
    }
    for form in ["fn", "decl"] {
        // deep nesting
        if !matches!(prop, "C01" | "C02" | "C04" | "C05" | "C08" | "C11" | "C17" | "C22") {
            break;
        }
        let mut g = Gram::default();
        let mut d = Node::new("def", &[]);
        d.form = form.into();
        let did = g.add(d);
        let l = just(&mut g, '(');
        let mut n = Node::new("ref", &[]);
        n.d = did;
        let rf = g.add(n);
        let close = just(&mut g, ')');
        let de = g.add(Node::new("delim", &[l, rf, close]));
        let a = just(&mut g, 'a');
        let body = g.add(Node::new("alters", &[a, de]));
        g.nodes[did - 1].ch = vec![body];
        g.root = did;
        let mut runs = vec![crate::run::RunSpec::raw(did, false)];
        if matches!(prop, "C04" | "C22") {
            runs[0].ev = true;
        }
        let nest = |k: usize| -> Vec<char> {
            let mut v: Vec<char> = "(".repeat(k).chars().collect();
            v.push('a');
            v.extend(")".repeat(k).chars());
            v
        };
        let mut v = nest(130);
        v[200] = 'b';
        push(g, vec![nest(130), nest(if prop == "C22" { 260 } else { 400 }), v], runs, "S");
    }
    for opt in 0..3 {
        // many items; and what follows
        if !matches!(prop, "C01" | "C02" | "C04" | "C05" | "C06" | "C11" | "C17") {
            break;
        }
        let mut g = Gram::default();
        let a = set(&mut g, "oneof", &['a', 'b'], "vec");
        let mut n = Node::new("rep", &[a]);
        match opt {
            0 => {}
            1 => n.min = 5_000,
            _ => n.max = 5_000,
        }
        let r = g.add(n);
        let b = just(&mut g, 'c');
        g.root = g.add(Node::new("then", &[r, b]));
        let runs = vec![crate::run::RunSpec::raw(g.root, true)];
        push(g, vec![text(5_000, "c"), text(4_999, "bcb"), text(5_001, "c")], runs, "S");
    }
}

pub fn make(prop: &str, rng: &mut Rng, idx: usize) -> Case {
    let mut w = world_for(prop, rng);
    if prop == "C11" {
        w = "R";
    }
    let (mut g, mut inputs) = template(prop, w, rng);
    inputs.sort();
    inputs.dedup();
    let root = g.root;
    let mut runs = runs_for(prop, w, root, &mut g, rng);
    for r in runs.iter_mut() {
        if r.en == "stream" && prop == "C12" {
            r.calls = *rng.pick(&[20, 100]);
        }
    }
    let c = Case {
        id: format!("{prop}-L{idx}"),
        prop: prop.to_string(),
        w: w.to_string(),
        g,
        pre: if prop == "C11" && rng.pct(50) { word(rng, &['n', 'a', 'u', 'w'], 0, 30) } else { vec![] },
        inputs,
        runs,
    };
    if idx % 4 > 0 || prop == "C03" {
        return c;
    }
    shifted(&c, idx / 4 % 34 + 1, rng)
}
