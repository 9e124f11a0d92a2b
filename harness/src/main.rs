mod builder;
mod decl;
mod gen;
mod gram;
mod json;
mod profiles;
mod reuse;
mod rng;
mod run;
mod scale;
mod streams;
mod values;
mod world;

use json::J;
use run::Case;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: world::Counting = world::Counting;

fn args() -> (String, HashMap<String, String>) {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut m = HashMap::new();
    let mut k = 1;
    while k + 1 < v.len() {
        m.insert(v[k].trim_start_matches("--").to_string(), v[k + 1].clone());
        k += 2;
    }
    (v.first().cloned().unwrap_or_default(), m)
}

/// Runs `job(k)` for all k < n on some threads. The description of what a thread is working on is
/// kept in a file, so a crash or hang can be attributed to a case.
fn parallel(
    n: usize,
    threads: usize,
    cur: &str,
    limit: Duration,
    describe: impl Fn(usize) -> String + Send + Sync + 'static,
    job: impl Fn(usize) + Send + Sync + 'static,
) {
    let next = Arc::new(AtomicUsize::new(0));
    let job = Arc::new(job);
    let describe = Arc::new(describe);
    let started: Arc<Vec<Mutex<Option<(Instant, usize)>>>> =
        Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (next, job, describe, started, cur) = (
            next.clone(),
            job.clone(),
            describe.clone(),
            started.clone(),
            format!("{cur}.{t}"),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= n {
                            break;
                        }
                        let _ = std::fs::write(&cur, describe(k));
                        *started[t].lock().unwrap() = Some((Instant::now(), k));
                        job(k);
                        *started[t].lock().unwrap() = None;
                    }
                    let _ = std::fs::remove_file(&cur);
                })
                .unwrap(),
        );
    }
    let (st2, cur2) = (started.clone(), cur.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        for (t, s) in st2.iter().enumerate() {
            if let Some((when, _)) = *s.lock().unwrap() {
                if when.elapsed() > limit {
                    let _ = std::fs::write(format!("{cur2}.hang"), t.to_string());
                    std::process::exit(3);
                }
            }
        }
    });
    for h in hs {
        h.join().expect("harness thread");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("PPC_PANICS").is_ok() {
            eprintln!("{i}")
        }
    }));
    let (cmd, a) = args();
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let threads: usize = get("threads", "8").parse().unwrap();
    let max_cost: i64 = get("max-cost", "20000").parse().unwrap();
    let max_ev: usize = get("max-ev", "400").parse().unwrap();
    match cmd.as_str() {
        // Generate cases for a property, run them, record what happened.
        "gen" => {
            let prop = get("prop", "C05");
            let seed: u64 = get("seed", "1").parse().unwrap();
            let n: usize = get("cases", "100").parse().unwrap();
            let n_in: usize = get("inputs", "6").parse().unwrap();
            let thorough = get("tier", "quick") == "thorough";
            let out = get("out", "/tmp/out.ndjson");
            let ex = if a.contains_key("no-exhaustive") {
                vec![]
            } else {
                profiles::exhaustive(&prop, thorough)
            };
            let nx = ex.len();
            let ns: usize = get("scale", "0").parse().unwrap();
            let case = move |k: usize| -> Case {
                if k < nx {
                    return ex[k].clone();
                }
                let mut r = rng::Rng::new(
                    seed.wrapping_mul(1_000_003)
                        .wrapping_add(k as u64)
                        .wrapping_mul(31)
                        .wrapping_add(prop.bytes().map(|b| b as u64).sum()),
                );
                if k < nx + ns {
                    return scale::make(&prop, &mut r, k - nx);
                }
                profiles::make(&prop, &mut r, k, n_in)
            };
            let case = Arc::new(case);
            let c2 = case.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            let skipped = Arc::new(AtomicUsize::new(0));
            let execd = Arc::new(AtomicUsize::new(0));
            let (s2, e2) = (skipped.clone(), execd.clone());
            parallel(
                n + nx + ns,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| c2(k).spec_json().to_string(),
                move |k| {
                    let c = case(k);
                    let big = k < nx;
                    let (j, sk) = c.exec(
                        if big { i64::MAX } else { max_cost },
                        if k < nx + ns { 4000 } else { max_ev },
                    );
                    s2.fetch_add(sk, Ordering::SeqCst);
                    let ni = j.get("ins").a().len();
                    e2.fetch_add(ni * c.runs.len(), Ordering::SeqCst);
                    if ni > 0 {
                        writeln!(f2.lock().unwrap(), "{j}").unwrap();
                    }
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!(
                "{{\"cases\":{},\"runs\":{},\"skipped\":{}}}",
                n + nx + ns,
                execd.load(Ordering::SeqCst),
                skipped.load(Ordering::SeqCst)
            );
        }
        // Histories of stream operations: random ones, or those of a file.
        "streams" => {
            let seed: u64 = get("seed", "1").parse().unwrap();
            let short: usize = get("short", "0").parse().unwrap();
            let long: usize = get("long", "0").parse().unwrap();
            let far: usize = get("far", "0").parse().unwrap();
            let out = get("out", "/tmp/out.ndjson");
            let mut hs: Vec<streams::Hist> = vec![];
            if a.contains_key("hist") {
                let text = std::fs::read_to_string(get("hist", "")).unwrap();
                hs.extend(
                    text.lines()
                        .filter(|l| !l.trim().is_empty())
                        .map(|l| streams::Hist::from_json(&J::parse(l))),
                );
            }
            for k in 0..short + long {
                let mut r = rng::Rng::new(seed.wrapping_mul(7_368_787).wrapping_add(k as u64));
                hs.push(streams::make(&mut r, k, k >= short));
            }
            for k in 0..far {
                let mut r = rng::Rng::new(seed.wrapping_mul(5_368_787).wrapping_add(k as u64));
                hs.push(streams::make_far(&mut r, k));
            }
            let n = hs.len();
            let hs = Arc::new(hs);
            let h2 = hs.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            parallel(
                n,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| {
                    let mut j = h2[k].spec_json();
                    j.set("hist", J::B(true));
                    j.to_string()
                },
                move |k| {
                    let j = streams::run_any(&hs[k]);
                    writeln!(f2.lock().unwrap(), "{j}").unwrap();
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!("{{\"cases\":{n},\"runs\":{n},\"skipped\":0}}");
        }
        // Execute the cases of a file (written by TLC), run as befits the property.
        "exec" => {
            let prop = get("prop", "C05");
            let out = get("out", "/tmp/out.ndjson");
            let text = std::fs::read_to_string(get("cases", "")).unwrap();
            let shift: Option<usize> = a.get("shift").map(|s| s.parse().unwrap());
            let mut cases: Vec<Case> = text
                .lines()
                .filter(|l| !l.trim().is_empty())
                .enumerate()
                .map(|(k, l)| {
                    let mut c = Case::from_json(&J::parse(l));
                    c.prop = prop.clone();
                    if c.runs.is_empty() {
                        let mut r = rng::Rng::new(k as u64 + 1);
                        c.runs = profiles::runs_for(&prop, &c.w, c.g.root, &mut c.g, &mut r);
                    }
                    c
                })
                .collect();
            if let Some(s) = shift {
                // some of them once more, further on in the source
                let mut r = rng::Rng::new(s as u64 + 1);
                let more: Vec<Case> =
                    cases.iter().skip(s % 4).step_by(4).enumerate().map(|(j, c)| profiles::shifted(c, j % 34 + 1, &mut r)).collect();
                cases.extend(more);
            }
            let n = cases.len();
            let cases = Arc::new(cases);
            let c2 = cases.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            let execd = Arc::new(AtomicUsize::new(0));
            let e2 = execd.clone();
            parallel(
                n,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| c2[k].spec_json().to_string(),
                move |k| {
                    let (j, _) = cases[k].exec(i64::MAX, usize::MAX);
                    e2.fetch_add(
                        j.get("ins").a().len() * cases[k].runs.len(),
                        Ordering::SeqCst,
                    );
                    writeln!(f2.lock().unwrap(), "{j}").unwrap();
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!(
                "{{\"cases\":{n},\"runs\":{},\"skipped\":0}}",
                execd.load(Ordering::SeqCst)
            );
        }
        // Result and error values (written by TLC).
        "values" => {
            let out = get("out", "/tmp/out.ndjson");
            let text = std::fs::read_to_string(get("cases", "")).unwrap();
            let cases: Vec<String> = text
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(String::from)
                .collect();
            let n = cases.len();
            let cases = Arc::new(cases);
            let c2 = cases.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            parallel(
                n,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| c2[k].clone(),
                move |k| {
                    let j = values::run(&J::parse(&cases[k]));
                    writeln!(f2.lock().unwrap(), "{j}").unwrap();
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!("{{\"cases\":{n},\"runs\":{n},\"skipped\":0}}");
        }
        // Histories of uses of one parser value (written by TLC), on grammars of a file or random ones.
        "reuse" => {
            let seed: u64 = get("seed", "1").parse().unwrap();
            let out = get("out", "/tmp/out.ndjson");
            let read = |f: &str| -> Vec<J> {
                std::fs::read_to_string(f)
                    .unwrap()
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(J::parse)
                    .collect()
            };
            let hists = read(&get("hist", ""));
            let cases = if a.contains_key("cases") {
                read(&get("cases", ""))
            } else {
                vec![]
            };
            let n = hists.len();
            let all: Vec<String> = (0..n)
                .map(|k| {
                    let c = if cases.is_empty() {
                        None
                    } else {
                        Some(&cases[(k + seed as usize) % cases.len()])
                    };
                    reuse::case(&hists[k], c, seed, k).to_string()
                })
                .collect();
            let all = Arc::new(all);
            let a2 = all.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            parallel(
                n,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| a2[k].clone(),
                move |k| {
                    let j = reuse::run_any(&J::parse(&all[k]));
                    writeln!(f2.lock().unwrap(), "{j}").unwrap();
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!("{{\"cases\":{n},\"runs\":{n},\"skipped\":0}}");
        }
        // Histories of recursive declarations (written by TLC), with random templates.
        "decl" => {
            let seed: u64 = get("seed", "1").parse().unwrap();
            let out = get("out", "/tmp/out.ndjson");
            let read = |f: &str| -> Vec<J> {
                std::fs::read_to_string(f)
                    .unwrap()
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(J::parse)
                    .collect()
            };
            let hists = read(&get("hist", ""));
            let n = hists.len();
            let all: Vec<String> = (0..n)
                .map(|k| decl::case(&hists[k], seed, k).to_string())
                .collect();
            let all = Arc::new(all);
            let a2 = all.clone();
            let file = Arc::new(Mutex::new(std::io::BufWriter::new(
                std::fs::File::create(&out).unwrap(),
            )));
            let f2 = file.clone();
            parallel(
                n,
                threads,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |k| a2[k].clone(),
                move |k| {
                    let j = decl::run_any(&J::parse(&all[k]));
                    writeln!(f2.lock().unwrap(), "{j}").unwrap();
                },
            );
            file.lock().unwrap().flush().unwrap();
            println!("{{\"cases\":{n},\"runs\":{n},\"skipped\":0}}");
        }
        // Execute one case description (as written for crashes and by replays).
        "one" => {
            let s = std::fs::read_to_string(get("case", "")).unwrap();
            let j = J::parse(&s);
            let value = j.has("kind").then(|| j.clone());
            let hist = (value.is_none() && j.has("ops")).then(|| streams::Hist::from_json(&j));
            let c = if hist.is_some() || value.is_some() {
                None
            } else {
                Some(Case::from_json(&j))
            };
            let s2 = s.clone();
            let out = get("out", "/tmp/out.ndjson");
            parallel(
                1,
                1,
                &format!("{out}.cur"),
                Duration::from_secs(30),
                move |_| s2.clone(),
                move |_| {
                    let j = match (&value, &hist, &c) {
                        (Some(v), _, _) if v.get("kind").s() == "reuse" => reuse::run_any(v),
                        (Some(v), _, _) if v.get("kind").s() == "decl" => decl::run_any(v),
                        (Some(v), _, _) => values::run(v),
                        (_, Some(h), _) => streams::run_any(h),
                        (_, _, Some(c)) => c.exec(i64::MAX, usize::MAX).0,
                        _ => unreachable!(),
                    };
                    std::fs::write(&out, format!("{j}\n")).unwrap();
                },
            );
        }
        _ => {
            eprintln!("usage: ppc-harness gen|one ...");
            std::process::exit(2);
        }
    }
}
