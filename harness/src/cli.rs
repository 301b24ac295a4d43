//! Command line of the monitors.
//! `mon check <id>`: run one check in a child process, so that even an abort is observed and reported.
//! `mon worker <id>`: the child. `mon one <id> <phase> <index>`: a single case. `mon replay <file>`.
use crate::run::{known_findings, report, run, Check, Env, Failure, Journal, Tier};
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};

/// builds the check that decides a property
pub type Builder = for<'a> fn(&str, &'a Env) -> Option<Check<'a>>;

fn build<'a>(f: Builder, id: &str, env: &'a Env) -> Check<'a> {
    f(id, env).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        exit(2)
    })
}

fn crashed(bf: Builder, id: &str, env: &Env, jpath: &str, how: &str) -> i32 {
    let c = build(bf, id, env);
    let slots = Journal::read(jpath);
    let mut cand: Vec<(String, u64)> = slots
        .iter()
        .filter_map(|(p, i)| c.phases.get(*p as usize).map(|ph| (ph.name.to_string(), *i)))
        .collect();
    cand.dedup();
    if cand.is_empty() {
        eprintln!("inconclusive: the worker ended ({}) outside the code under test", how);
        return 2;
    }
    // find the case that does it
    let me = std::env::current_exe().expect("exe");
    let mut hit = None;
    for (p, i) in &cand {
        let st = Command::new(&me)
            .args(["one", id, p, &i.to_string()])
            .env("MON_JOURNAL", format!("{}.one", jpath))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if let Ok(s) = st {
            if s.signal().is_some() || s.code() == Some(99) {
                hit = Some((p.clone(), *i, true));
                break;
            }
        }
    }
    let (p, i, again) = hit.unwrap_or((cand[0].0.clone(), cand[0].1, false));
    let f = Failure {
        sig: if how.contains("sanitizer") { "sanitizer-report".into() } else { "abort".into() },
        msg: format!("the process ended inside the code under test: {}{}", how, if again { ", reproduced alone" } else { ", one of several cases running then" }),
        phase: p,
        idx: i,
        input: vec![],
    };
    let known = known_findings(&env.root, id);
    report(&c, env, &[f], &known);
    evidence_after_crash(&c, env, how);
    1
}
/// the worker could not write its own evidence
fn evidence_after_crash(c: &Check, env: &Env, how: &str) {
    let path = std::env::var("MON_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", env.root, c.id));
    let _ = std::fs::create_dir_all(format!("{}/evidence", env.root));
    let s = format!(
        "{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\",\n \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"the run ended early: {}\", \"samples\": [\"see replay\"]}},\n \"assumptions\": [], \"wall_s\": 0, \"violations\": 1\n}}\n",
        c.id,
        if env.tier == Tier::Quick { "quick" } else { "thorough" },
        env.seed,
        c.level,
        how
    );
    let _ = std::fs::write(path, s);
}

fn supervise(bf: Builder, id: &str, env: &Env, args: &[&str]) -> i32 {
    let work = format!("{}/work", env.root);
    std::fs::create_dir_all(&work).expect("work dir");
    let jpath = format!("{}/{}.{}.journal", work, id, std::process::id());
    let me = std::env::current_exe().expect("exe");
    let st = Command::new(me).args(args).env("MON_JOURNAL", &jpath).status().expect("worker");
    let code = match (st.code(), st.signal()) {
        (Some(99), _) => crashed(bf, id, env, &jpath, "sanitizer report"),
        (Some(c), _) => c,
        (None, Some(9)) => {
            eprintln!("inconclusive: the worker was killed");
            2
        }
        (None, Some(s)) => crashed(bf, id, env, &jpath, &format!("signal {}", s)),
        _ => 2,
    };
    let _ = std::fs::remove_file(&jpath);
    let _ = std::fs::remove_file(format!("{}.one", jpath));
    code
}

pub fn main(bf: Builder) {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let mut env = Env::from_env();
    let code = match s[1..] {
        ["check", id] => supervise(bf, id, &env, &["worker", id]),
        ["worker", id] => run(&build(bf, id, &env), &env, None).code,
        ["one", id, phase, idx] => run(&build(bf, id, &env), &env, Some((phase.to_string(), idx.parse().expect("index")))).code,
        ["replay", file] => {
            let t = std::fs::read_to_string(file).expect("replay file");
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim_start_matches(": ").trim_start_matches(':').trim().to_string()).unwrap_or_default();
            env.seed = g("seed").parse().expect("seed");
            env.tier = if g("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            std::env::set_var("VERIF_SEED", env.seed.to_string());
            std::env::set_var("VERIF_TIER", if env.tier == Tier::Thorough { "thorough" } else { "quick" });
            supervise(bf, &g("property"), &env, &["one", &g("property"), &g("phase"), &g("index")])
        }
        ["list"] => {
            for i in 1..=40 {
                let id = format!("C{:02}", i);
                if let Some(c) = bf(&id, &env) {
                    for p in &c.phases {
                        println!("{} {} {}", id, p.name, p.count);
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mon check|worker <id> | one <id> <phase> <index> | replay <file> | list");
            2
        }
    };
    exit(code)
}
