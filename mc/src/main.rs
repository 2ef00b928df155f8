mod alloc;
mod core;
mod geom;
mod maps;
mod wf;
mod topo;
mod simp;
mod clip;
mod e2e;
mod forms;
mod files;
mod read;
mod hist;
mod rings;
mod cost;
mod own;
mod stream;
mod conc;
mod texts;

use crate::core::*;
use std::io::Write;
use std::process::{exit, Command};

#[global_allocator]
static GLOBAL: alloc::Adversary = alloc::Adversary;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub spaces: fn(bool) -> Vec<Space>,
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(topo::props());
    v.extend(simp::props());
    v.extend(clip::props());
    v.extend(e2e::props());
    v.extend(forms::props());
    v.extend(read::props());
    v.extend(hist::props());
    v.extend(rings::props());
    v.extend(cost::props());
    v.extend(own::props());
    v.extend(stream::props());
    v.extend(conc::props());
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c {
        '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
        c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
        c => o.push(c),
    } }
    o.push('"'); o
}

fn verif() -> String { std::env::var("MC_VERIF").unwrap_or("/verif".into()) }

/// Known findings: lines "finding: property=<id> space=<name> idx=<n> <text>" in /verif/known_findings.txt.
fn known(id: &str) -> Vec<(String, u64, String)> {
    let txt = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    txt.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let mut it = l.splitn(4, ' ');
        if it.next()? != id { return None; }
        let sp = it.next()?.strip_prefix("space=")?.to_string();
        let ix = it.next()?.strip_prefix("idx=")?.parse().ok()?;
        Some((sp, ix, it.next().unwrap_or("").to_string()))
    }).collect()
}

fn report_violation(id: &str, space: &str, idx: u64, msg: &str, desc: &str) {
    let dir = format!("{}/evidence/replay", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let body = format!("property: {}\nspace: {}\nindex: {}\nfailure: {}\ncase: {}\nreplay: /verif/check.sh replay {} '{}' {}\n", id, space, idx, msg, desc, id, space, idx);
    let _ = std::fs::write(&path, body);
    println!("case: {}[{}] {}", space, idx, desc.chars().take(1500).collect::<String>());
    println!("failure: {}", msg.chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", id, path);
    let _ = std::io::stdout().flush();
}

fn evidence(p: &Prop, thorough: bool, rep: &Report, wall: f64, viol: u64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let spaces: Vec<String> = rep.spaces.iter().map(|(n, s, st, t)| format!("{{\"space\": {}, \"cases\": {}, \"new_states\": {}, \"seconds\": {:.2}}}", js(n), s, st, t)).collect();
    let notes: Vec<String> = rep.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let samples: Vec<String> = rep.samples.iter().map(|s| js(&s.chars().take(900).collect::<String>())).collect();
    let assume: Vec<String> = texts::assumptions(p.id).iter().map(|s| js(s)).collect();
    // one measured count per name: fault enumeration reports cases and distinct outcomes, model checking states and transitions
    let counts = if p.level == "fault_enumeration" { format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"calls_into_the_library\": {}, \"compared_with_reference\": {}", rep.cases, rep.states, rep.transitions, rep.validated) }
        else { format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases\": {}", rep.states, rep.transitions, rep.validated, rep.cases) };
    let s = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"outcomes\": {{{}}},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(p.id), js(if thorough { "thorough" } else { "quick" }), seed, js(p.level), counts, js(&texts::rule(p.id)), viol == 0 && !rep.notes.contains_key("skipped: CPU budget of this space used up"),
        notes.join(", "), spaces.join(",\n   "), samples.join(",\n   "), assume.join(", "), wall, viol);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), p.id), s).expect("evidence");
}

/// The property's spaces, with unique names.
fn spaces_of(p: &Prop, thorough: bool) -> Vec<Space> {
    let mut v = (p.spaces)(thorough);
    for i in 0..v.len() { while v[..i].iter().any(|s| s.name == v[i].name) { v[i].name.push('+'); } }
    v
}
fn threads() -> usize { std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, MAXW) }

fn worker(p: &Prop, thorough: bool, slots: &Slots) -> i32 {
    let t0 = std::time::Instant::now();
    let only = std::env::var("MC_ONLY").ok();
    let mut spaces: Vec<Space> = spaces_of(p, thorough).into_iter().filter(|s| only.as_ref().map_or(true, |o| s.name.contains(o.as_str()))).collect();
    let kn = known(p.id);
    for (sp, ix, text) in &kn {
        println!("KNOWN-FINDING: property={} {}[{}] {}", p.id, sp, ix, text);
    }
    // a listed case is skipped; every other case of its space is still checked
    for s in spaces.iter_mut() {
        let skip: Vec<u64> = kn.iter().filter(|k| k.0 == s.name).map(|k| k.1).collect();
        if skip.is_empty() { continue; }
        let run = std::mem::replace(&mut s.run, Box::new(|_, _| Ok(())));
        s.run = Box::new(move |i, cx| if skip.contains(&i) { Ok(()) } else { run(i, cx) });
    }
    let spaces: Vec<Space> = spaces.into_iter().map(|s| if ["190x181", "300x120", "101x90", "61x57"].iter().any(|n| s.name.contains(n)) { budget(s, if thorough { 6000. } else { 400. }) } else { s }).collect();
    let id = p.id;
    let rep = explore(&spaces, slots, threads(), &|sp, idx| {
        report_violation(id, &sp.name, idx, &format!("did not finish within {} s of CPU time", HANG_CPU_S), &(sp.describe)(idx));
        exit(1);
    });
    let viol = rep.violation.is_some() as u64;
    evidence(p, thorough, &rep, t0.elapsed().as_secs_f64(), viol);
    for s in &rep.spaces { println!("  {:<44} cases {:>10}  new states {:>9}  {:.2}s", s.0, s.1, s.2, s.3); }
    println!("{}: cases {} states {} transitions {} validated {} outcomes {:?} in {:.1}s", p.id, rep.cases, rep.states, rep.transitions, rep.validated, rep.notes, t0.elapsed().as_secs_f64());
    if let Some(v) = rep.violation { report_violation(p.id, &v.space, v.idx, &v.msg, &v.desc); return 1; }
    0
}

fn run_one(p: &Prop, thorough: bool, space: &str, idx: u64) -> i32 {
    for s in spaces_of(p, thorough).iter().filter(|s| s.name == space) {
        let mut cx = Cx::new();
        println!("case: {}", (s.describe)(idx));
        return match (s.run)(idx, &mut cx) { Ok(()) => { println!("held"); 0 } Err(m) => { println!("failure: {}", m); 1 } };
    }
    eprintln!("no space {}", space);
    2
}

fn main() {
    alloc::reserve();
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); exit(2) });
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in &ps { println!("{}", p.id); for s in spaces_of(p, thorough) { println!("  {} {}", s.name, s.size); } } }
        Some("replay") => {
            let idx = a[4].parse().unwrap();
            let t = thorough || !spaces_of(find(&a[2]), false).iter().any(|s| s.name == a[3] && idx < s.size);
            exit(run_one(find(&a[2]), t, &a[3], idx))
        }
        Some("cost") => { cost::child(&a[2], &a[3]); }
        Some("worker") => { let s = Slots::open(&a[3]); exit(worker(find(&a[2]), thorough, &s)) }
        Some("check") => {
            let p = find(&a[2]);
            let dir = std::env::temp_dir();
            let sf = dir.join(format!("mc-slots-{}-{}", p.id, std::process::id()));
            let sfs = sf.to_str().unwrap().to_string();
            let _ = std::fs::remove_file(&sf);
            let slots = Slots::open(&sfs);
            let t0 = std::time::Instant::now();
            let st = Command::new(std::env::current_exe().unwrap()).args(["worker", p.id, &sfs]).status().expect("spawn worker");
            let code = match st.code() {
                Some(c @ (0 | 1)) => c,
                _ => {
                    // The worker died (abort, stack overflow, invalid memory access). Find the case that kills it.
                    let spaces = spaces_of(p, thorough);
                    let mut code = 3;
                    for w in 0..MAXW {
                        let s = slots.at(w, 0).load(std::sync::atomic::Ordering::SeqCst);
                        let i = slots.at(w, 1).load(std::sync::atomic::Ordering::SeqCst);
                        if s == 0 || s as usize > spaces.len() { continue; }
                        let sp = &spaces[s as usize - 1];
                        let r = Command::new(std::env::current_exe().unwrap()).args(["replay", p.id, &sp.name, &i.to_string()])
                            .env("VERIF_TIER", if thorough { "thorough" } else { "quick" }).output().expect("spawn replay");
                        if !matches!(r.status.code(), Some(0 | 1 | 2)) {
                            let rep = Report { states: 0, transitions: 1, validated: 0, cases: 1, notes: Default::default(), spaces: vec![], samples: vec![(sp.describe)(i)], violation: None };
                            evidence(p, thorough, &rep, t0.elapsed().as_secs_f64(), 1);
                            report_violation(p.id, &sp.name, i, &format!("the process died: {:?} {}", r.status, String::from_utf8_lossy(&r.stderr).lines().next().unwrap_or("")), &(sp.describe)(i));
                            code = 1;
                            break;
                        }
                    }
                    use std::os::unix::process::ExitStatusExt;
                    if code == 3 && matches!(st.signal(), Some(4 | 5 | 6 | 7 | 8 | 11)) {
                        // memory was damaged by an earlier case of the same process
                        let rep = Report { states: 0, transitions: 1, validated: 0, cases: 1, notes: Default::default(), spaces: vec![], samples: vec![format!("{:?}", st)], violation: None };
                        evidence(p, thorough, &rep, t0.elapsed().as_secs_f64(), 1);
                        let (s, i) = (0..MAXW).map(|w| (slots.at(w, 0).load(std::sync::atomic::Ordering::SeqCst), slots.at(w, 1).load(std::sync::atomic::Ordering::SeqCst))).find(|x| x.0 > 0 && x.0 as usize <= spaces.len()).unwrap_or((1, 0));
                        let sp = &spaces[s as usize - 1];
                        report_violation(p.id, &sp.name, i, &format!("the exploring process died ({:?}); at that point it was exploring this case among others, after damage that no single case shows", st), &(sp.describe)(i));
                        code = 1;
                    }
                    if code == 3 { eprintln!("worker ended with {:?} and no single case reproduces it", st); }
                    code
                }
            };
            let _ = std::fs::remove_file(&sf);
            exit(code)
        }
        _ => { eprintln!("usage: mc check|replay|list ..."); exit(2) }
    }
}
