//! Grammars as flat node lists (shared with the TLA+ modules through JSON).
use crate::json::{js, J};
use crate::obj;

/// A limit of a repetition that stands for usize::MAX (numbers of TLC have 32 bits).
pub const HUGE: i64 = i32::MAX as i64;

#[derive(Clone, Default, Debug)]
pub struct Step {
    pub s: String,
    pub t: String,
    pub set: Vec<char>,
    pub inn: Vec<Step>,
    pub ex: bool,
    pub sil: bool,
    pub p: usize,
    pub n: usize,
    pub types: Vec<(char, char)>,
    pub cl: bool, // clone the library's strategy before using it
}

#[derive(Clone, Default, Debug)]
pub struct Node {
    pub op: String,
    pub ch: Vec<usize>, // 1-based node ids
    pub t: String,
    pub set: Vec<char>,
    pub form: String,
    pub min: usize,
    pub max: i64, // -1: none
    pub lead: bool,
    pub trail: bool,
    pub st: Vec<Step>,
    pub acts: Vec<String>,
    pub d: usize,
    pub n: usize,
    pub x0: bool,
    pub cl: bool, // clone the library parser before using it
}

#[derive(Clone, Default, Debug)]
pub struct Gram {
    pub nodes: Vec<Node>,
    pub root: usize,
}

fn chars(v: &[char]) -> J {
    J::A(v.iter().map(js).collect())
}
fn unchars(j: &J) -> Vec<char> {
    match j {
        J::A(a) => a.iter().map(|x| x.s().chars().next().unwrap()).collect(),
        _ => vec![],
    }
}

impl Step {
    pub fn to_json(&self) -> J {
        let mut o = obj! {"s" => js(&self.s)};
        match self.s.as_str() {
            "skipif" | "find" => o.set("set", chars(&self.set)),
            "scan" => o.set(
                "ty",
                J::A(self
                    .types
                    .iter()
                    .map(|(l, r)| J::A(vec![js(l), js(r)]))
                    .collect()),
            ),
            "scanc" => {
                o.set("n", J::N(self.n as i64));
                o.set("t", js(&self.t));
            }
            "maybe" => o.set("in", J::A(self.inn.iter().map(|s| s.to_json()).collect())),
            "whilenot" => {
                o.set("set", chars(&self.set));
                o.set("in", J::A(self.inn.iter().map(|s| s.to_json()).collect()));
            }
            "retry" | "ttp" => {
                o.set("ex", J::B(self.ex));
                o.set("sil", J::B(self.sil));
                o.set("p", J::N(self.p as i64));
                if self.n > 0 {
                    o.set("n", J::N(self.n as i64));
                }
            }
            "restart" | "seekf" | "skip" | "boxed" | "nothing" | "orfail" | "updhere" | "updup"
            | "updtok" => {}
            _ => o.set("t", js(&self.t)),
        }
        if self.cl {
            o.set("cl", J::B(true));
        }
        o
    }
    pub fn from_json(j: &J) -> Step {
        Step {
            s: j.get("s").s().to_string(),
            t: if j.has("t") { j.get("t").s().to_string() } else { String::new() },
            set: unchars(j.get("set")),
            inn: match j.get("in") {
                J::A(a) => a.iter().map(Step::from_json).collect(),
                _ => vec![],
            },
            ex: j.get("ex").b(),
            sil: j.get("sil").b(),
            p: if j.has("p") { j.get("p").u() } else { 0 },
            n: if j.has("n") { j.get("n").u() } else { 0 },
            cl: j.get("cl").b(),
            types: match j.get("ty") {
                J::A(a) => a
                    .iter()
                    .map(|x| {
                        let v = unchars(x);
                        (v[0], v[1])
                    })
                    .collect(),
                _ => vec![],
            },
        }
    }
}

impl Node {
    pub fn new(op: &str, ch: &[usize]) -> Node {
        Node {
            op: op.to_string(),
            ch: ch.to_vec(),
            max: -1,
            ..Default::default()
        }
    }
    pub fn to_json(&self) -> J {
        let mut o = obj! {"op" => js(&self.op)};
        if !self.ch.is_empty() {
            o.set("ch", J::A(self.ch.iter().map(|x| J::N(*x as i64)).collect()));
        }
        if self.cl {
            o.set("cl", J::B(true));
        }
        match self.op.as_str() {
            "filter" | "fmap" => o.set("set", chars(&self.set)),
            "seq" | "oneof" | "noneof" => {
                o.set("set", chars(&self.set));
                o.set("form", js(&self.form));
            }
            "look" => {
                o.set("set", chars(&self.set));
                o.set("x0", J::B(self.x0));
                o.set("n", J::N(self.n as i64));
            }
            "chain" | "alters" if self.n > 0 => o.set("n", J::N(self.n as i64)),
            "label" | "labelspan" => o.set("set", chars(&self.set)),
            "cust" => {
                o.set("set", chars(&self.set));
                o.set("x0", J::B(self.x0));
                o.set("n", J::N(self.n as i64));
            }
            "just" | "to" | "map" | "mapspan" | "maperr" | "maperrspan" => o.set("t", js(&self.t)),
            "trymap" => {
                o.set("t", js(&self.t));
                o.set("acts", J::from_strs(&self.acts));
            }
            "rep" => {
                o.set("min", J::N(self.min as i64));
                o.set("max", J::N(self.max));
                o.set("lead", J::B(self.lead));
                o.set("trail", J::B(self.trail));
                o.set("form", js(&self.form));
            }
            "rec" => o.set("st", J::A(self.st.iter().map(|s| s.to_json()).collect())),
            "def" => o.set("form", js(&self.form)),
            "ref" => o.set("d", J::N(self.d as i64)),
            _ => {}
        }
        o
    }
    pub fn from_json(j: &J) -> Node {
        let st = |k: &str| {
            if j.has(k) {
                j.get(k).s().to_string()
            } else {
                String::new()
            }
        };
        let nu = |k: &str| if j.has(k) { j.get(k).u() } else { 0 };
        Node {
            op: st("op"),
            ch: match j.get("ch") {
                J::A(a) => a.iter().map(|x| x.u()).collect(),
                _ => vec![],
            },
            t: st("t"),
            set: unchars(j.get("set")),
            form: st("form"),
            min: nu("min"),
            max: if j.has("max") { j.get("max").n() } else { -1 },
            lead: j.get("lead").b(),
            trail: j.get("trail").b(),
            st: match j.get("st") {
                J::A(a) => a.iter().map(Step::from_json).collect(),
                _ => vec![],
            },
            acts: match j.get("acts") {
                J::A(_) => j.get("acts").strs(),
                _ => vec![],
            },
            d: nu("d"),
            n: nu("n"),
            x0: j.get("x0").b(),
            cl: j.get("cl").b(),
        }
    }
}

impl Gram {
    pub fn add(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len()
    }
    pub fn n(&self, id: usize) -> &Node {
        &self.nodes[id - 1]
    }
    pub fn nodes_json(&self) -> J {
        J::A(self.nodes.iter().map(|n| n.to_json()).collect())
    }
}
