mod conv;
mod engine;
mod gen;
mod nat;
mod props;
mod real;

use engine::*;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("selftest") => real::selftest(),
        Some("list") => {
            for p in all.iter() {
                println!("{}", p.id);
                for s in p.subs.iter() { println!("  {} quick={} thorough={}", s.name, s.quick, s.thorough); }
            }
        }
        Some("run") => {
            let id = args.get(2).expect("property id");
            let p = all.into_iter().find(|p| p.id == id).expect("unknown property");
            std::process::exit(supervise(p, args.get(3)));
        }
        Some("worker") => {
            let id = args.get(2).expect("property id");
            let p = all.into_iter().find(|p| p.id == id).expect("unknown property");
            std::process::exit(run(p, args.get(3)));
        }
        Some("one") => {
            // one generated case, alone in its process: exit 0 it returned (whatever the verdict), killed or timed out otherwise
            let (id, sub, case) = (&args[2], &args[3], args[4].parse::<u64>().unwrap());
            let p = all.into_iter().find(|p| p.id == id).expect("property");
            let s = p.subs.into_iter().find(|s| s.name == sub).expect("sub");
            let (r, notes) = seeded_case(p.id, &s, seed(), thorough(), case);
            for n in notes { println!("  {}", n); }
            if let Err(m) = r { println!("  {}", m); }
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(args.get(2).expect("file")).expect("read");
            let field = |k: &str| -> String {
                let key = format!("\"{}\":", k);
                let i = txt.find(&key).expect("field") + key.len();
                let rest = txt[i..].trim_start();
                let e = if rest.starts_with('[') { rest.find(']').unwrap() + 1 } else if rest.starts_with('"') { rest[1..].find('"').unwrap() + 2 } else { rest.find(|c| c == ',' || c == '\n').unwrap() };
                rest[..e].trim_matches('"').to_string()
            };
            let (prop, sub) = (field("property"), field("sub"));
            let case: u64 = field("case").parse().unwrap();
            let thorough = field("tier") == "thorough";
            let t = field("tape");
            let tape: Vec<u64> = t.trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
            let p = all.into_iter().find(|p| p.id == prop).expect("property");
            let s = p.subs.into_iter().find(|s| s.name == sub).expect("sub");
            let (r, notes) = if field("mode") == "seed" { seeded_case(p.id, &s, field("seed").parse().unwrap(), thorough, case) } else { replay_case(s.f, tape, thorough, case) };
            for n in notes { println!("  {}", n); }
            match r {
                Ok(()) => println!("replay: property held"),
                Err(m) => {
                    println!("replay: {}", m);
                    println!("VIOLATION property={} replay={}", prop, args[2]);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: hv list | run ID [sub] | replay FILE");
            std::process::exit(2);
        }
    }
}

fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
fn root() -> String { std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into()) }

/// Runs the property in a worker process, so that a crash (stack overflow, out of memory, abort) or a hang of the
/// code under test is seen, attributed to its generated case, confirmed in a process of its own and reported.
fn supervise(p: Prop, only: Option<&String>) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("exe");
    let _ = std::fs::create_dir_all(format!("{}/replays", root()));
    let prog = format!("{}/replays/.progress-{}-{}", root(), p.id, std::process::id());
    std::fs::write(&prog, vec![0u8; 16 * 64]).expect("progress file");
    let mut c = Command::new(&exe);
    c.arg("worker").arg(p.id).env("HV_PROGRESS", &prog);
    if let Some(o) = only { c.arg(o); }
    let st = c.status().expect("worker");
    let data = std::fs::read(&prog).unwrap_or_default();
    let noted = std::fs::read_to_string(format!("{}.fail", prog)).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    let _ = std::fs::remove_file(format!("{}.fail", prog));
    match st.code() { Some(c @ (0 | 1 | 3)) => return c, _ => {} }
    println!("worker ended with {:?} (signal {:?}); looking for the case", st.code(), st.signal());
    let mut cand = vec![];
    for b in data.chunks(16) {
        let (s, c) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
        if s > 0 { cand.push((s as usize - 1, c - 1)); }
    }
    cand.sort();
    let mut kids: Vec<_> = cand.iter().map(|(s, c)| {
        Command::new(&exe).arg("one").arg(p.id).arg(p.subs[*s].name).arg(c.to_string()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("one")
    }).collect();
    let t0 = Instant::now();
    let mut bad: Option<(usize, &str)> = None;
    let mut done = vec![false; kids.len()];
    while bad.is_none() && done.iter().any(|d| !d) {
        for i in 0..kids.len() {
            if done[i] { continue; }
            if let Ok(Some(st)) = kids[i].try_wait() { done[i] = true; if st.code() != Some(0) { bad = Some((i, "the process was killed (stack overflow, memory exhaustion or abort)")); break; } }
            else if t0.elapsed() > Duration::from_secs(CASE_LIMIT_S) { bad = Some((i, "the case does not terminate")); break; }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    for k in kids.iter_mut() { let _ = k.kill(); let _ = k.wait(); }
    // otherwise the crash came while another failing case was being shrunk
    let (s, case, msg) = match bad {
        Some((i, msg)) => (cand[i].0, cand[i].1, msg.to_string()),
        None => {
            let mut l = noted.splitn(3, '\n');
            let known = (|| { let n = l.next()?; let c = l.next()?.parse::<u64>().ok()?; Some((p.subs.iter().position(|s| s.name == n)?, c, l.next()?.to_string())) })();
            match known { Some(k) => k, None => { println!("ERROR {}: not reproducible; inconclusive", p.id); return 3; } }
        }
    };
    let msg = msg.as_str();
    let path = format!("{}/replays/{}-{}.json", root(), p.id, p.subs[s].name);
    let tier = if thorough() { "thorough" } else { "quick" };
    let body = format!("{{\n\"property\": {},\n\"sub\": {},\n\"case\": {},\n\"mode\": \"seed\",\n\"tier\": {},\n\"seed\": {},\n\"tape\": [],\n\"message\": {}\n}}\n", js(p.id), js(p.subs[s].name), case, js(tier), seed(), js(msg));
    let _ = std::fs::write(&path, body);
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}}, \"wall_s\": {:.1}, \"violations\": 1}}\n",
        js(p.id), js(tier), seed(), case + 1, js(p.rule), js(&format!("{} case {}: {}", p.subs[s].name, case, msg)), t0.elapsed().as_secs_f64());
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), p.id), ev);
    println!("  case {} of {}: {}", case, p.subs[s].name, msg);
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

fn run(p: Prop, only: Option<&String>) -> i32 {
    let (seed, thorough) = (seed(), thorough());
    let scale: f64 = std::env::var("HV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let root = root();
    let progress = std::sync::Arc::new(Progress::open());
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(if thorough { 4 * 3600 } else { 780 });
    let tier = if thorough { "thorough" } else { "quick" };
    let mut reports = vec![];
    let mut viol = vec![];
    let mut errs = vec![];
    let _ = std::fs::create_dir_all(format!("{}/replays", root));
    for (ix, s) in p.subs.iter().enumerate() {
        if let Some(o) = only { if o != s.name { continue; } }
        let r = run_sub(p.id, s, ix as u64, &progress, seed, thorough, scale, deadline);
        println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s {:?}", p.id, s.name, r.evals, r.distinct_nontrivial, r.wall, r.labels);
        if let Some(m) = &r.inconclusive { if r.failure.is_none() { println!("{} {}: {}", p.id, s.name, m); if m.starts_with("case ") && viol.is_empty() { return 4; } if !s.slow { errs.push(m.clone()); } } }
        if let Some(f) = &r.failure {
            let path = format!("{}/replays/{}-{}.json", root, p.id, s.name);
            let tape = f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let body = format!(
                "{{\n\"property\": {},\n\"sub\": {},\n\"case\": {},\n\"mode\": \"tape\",\n\"tier\": {},\n\"seed\": {},\n\"shrink_tries\": {},\n\"tape\": [{}],\n\"message\": {},\n\"input\": {},\n\"replay_cmd\": {}\n}}\n",
                js(p.id), js(s.name), f.case, js(tier), seed, f.shrink_tries, tape, js(&f.msg), js(&f.notes.join("; ")),
                js(&format!("/verif/run.sh replay {}", path))
            );
            let _ = std::fs::write(&path, body);
            let mut n = f.notes.join("; ");
            if n.len() > 1500 { let mut e = 1500; while !n.is_char_boundary(e) { e -= 1; } n.truncate(e); }
            let mut m = f.msg.clone();
            if m.len() > 1500 { let mut e = 1500; while !m.is_char_boundary(e) { e -= 1; } m.truncate(e); }
            println!("  case {}: {}\n  input: {}", f.case, m, n);
            println!("VIOLATION property={} replay={}", p.id, path);
            viol.push(path);
        }
        reports.push(r);
    }
    let evals: u64 = reports.iter().map(|r| r.evals).sum();
    let dn: u64 = reports.iter().map(|r| r.distinct_nontrivial).sum();
    let mut samples: Vec<String> = reports.iter().flat_map(|r| r.samples.iter().map(|s| js(s))).collect();
    if samples.is_empty() { samples.push(js(&format!("stopped after {} cases", evals))); }
    let per: Vec<String> = reports.iter().map(|r| {
        let l: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        format!("{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}", js(&r.sub), r.evals, r.distinct_nontrivial, r.wall, l.join(", "))
    }).collect();
    let assum: Vec<String> = p.assumptions.iter().map(|a| js(a)).collect();
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"samples\": [{}],\n \"per_check\": {{{}}}\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        js(p.id), js(tier), seed, evals, dn, js(p.rule), samples.join(", "), per.join(", "), assum.join(", "), t0.elapsed().as_secs_f64(), viol.len()
    );
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", root));
        std::fs::write(format!("{}/evidence/{}.json", root, p.id), ev).expect("evidence");
    }
    if !viol.is_empty() { 1 } else if !errs.is_empty() { 3 } else { 0 }
}
