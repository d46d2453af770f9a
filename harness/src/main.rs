mod det;
#[macro_use]
mod engine;
mod props;
mod spec;
mod world;
mod model;
mod watch;
#[cfg(feature = "runner")]
mod worker;

use engine::{DynPart, Env, Report};
use serde_json::{json, Value};
use std::time::Instant;

/// Signals that whoever started this ignores or blocks would stay ignored in
/// the commands the checks run.
fn default_signals() {
  unsafe {
    for s in 1..32 {
      if !matches!(s, libc::SIGKILL | libc::SIGSTOP | libc::SIGPIPE) {
        let mut old: libc::sigaction = std::mem::zeroed();
        if libc::sigaction(s, std::ptr::null(), &mut old) == 0 && old.sa_sigaction == libc::SIG_IGN {
          libc::signal(s, libc::SIG_DFL);
        }
      }
    }
    let mut none: libc::sigset_t = std::mem::zeroed();
    libc::sigemptyset(&mut none);
    libc::pthread_sigmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
  }
}

fn main() {
  default_signals();
  let args: Vec<String> = std::env::args().skip(1).collect();
  if let Some(code) = props::special(&args) {
    std::process::exit(code);
  }
  let Some(property) = args.first().cloned() else {
    eprintln!("usage: pbt <property> [--replay FILE]");
    std::process::exit(2);
  };
  let replay = args
    .iter()
    .position(|a| a == "--replay")
    .and_then(|i| args.get(i + 1).cloned());

  det::install_panic_hook(replay.is_some() || std::env::var("PBT_VERBOSE").is_ok());

  let seed: u64 = std::env::var("VERIF_SEED")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(1);
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());

  let Some((technique, assumptions, parts)) = props::parts(&property) else {
    eprintln!("unknown property {}", property);
    std::process::exit(2);
  };

  if let Some(file) = replay {
    let text = std::fs::read_to_string(&file).expect("read replay file");
    let v: Value = serde_json::from_str(&text).expect("parse replay file");
    let name = v["part"].as_str().unwrap_or("");
    let Some(part) = parts.iter().find(|p| p.name() == name) else {
      eprintln!("no part {}", name);
      std::process::exit(2);
    };
    // with as much stack as it had in the search
    let outcome = std::thread::scope(|s| {
      std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn_scoped(s, || part.replay(&v["case"]))
        .expect("spawn")
        .join()
        .expect("replay")
    });
    props::finish();
    match outcome {
      Err(e) => {
        eprintln!("bad replay file: {}", e);
        std::process::exit(2);
      }
      Ok(Ok(_)) => {
        println!("replay: property {} holds on this case", property);
        std::process::exit(0);
      }
      Ok(Err(f)) => {
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", property, file);
        std::process::exit(1);
      }
    }
  }

  if let Some(code) = watch::supervise(&property, &args, &root, seed) {
    std::process::exit(code);
  }
  watch::guard();

  let started = Instant::now();
  let env = Env {
    property: property.clone(),
    seed,
    thorough: tier == "thorough",
    known: engine::load_known(&format!("{}/known-findings.txt", root)),
  };
  let only = std::env::var("PBT_PART").ok();

  let mut report = Report::default();
  let mut violation = None;
  for part in &parts {
    if let Some(o) = &only {
      if part.name() != o {
        continue;
      }
    }
    if let Err(v) = part.run(&env, &mut report) {
      violation = Some(v);
      break;
    }
  }

  props::finish();

  let evidence = json!({
    "property": property,
    "tier": if env.thorough { "thorough" } else { "quick" },
    "seed": seed,
    "level": "exploration",
    "technique": technique,
    "coverage": {
      "evaluations": report.evaluations,
      "distinct_nontrivial": report.distinct,
      "rule": report.rules.join(" "),
      "samples": report.samples,
      "parts": report.parts,
      "known_findings_hit": report.known_hits,
    },
    "assumptions": assumptions,
    "wall_s": started.elapsed().as_secs_f64(),
    "violations": if violation.is_some() { 1 } else { 0 },
  });
  let dir = format!("{}/evidence", root);
  let _ = std::fs::create_dir_all(&dir);
  std::fs::write(
    format!("{}/{}.json", dir, property),
    serde_json::to_string_pretty(&evidence).unwrap(),
  )
  .expect("write evidence");

  for k in env.known.iter().filter(|k| k.property == property) {
    println!("KNOWN-FINDING: property={} {}", property, k.text);
  }

  match violation {
    None => {
      println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
        property,
        report.evaluations,
        report.distinct,
        started.elapsed().as_secs_f64()
      );
    }
    Some(v) => {
      let dir = format!("{}/replays", root);
      let _ = std::fs::create_dir_all(&dir);
      let path = format!("{}/{}-{}-seed{}.json", dir, property, v.part, seed);
      let body = json!({
        "property": property,
        "part": v.part,
        "seed": seed,
        "message": v.msg,
        "case": v.case,
      });
      std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
      println!("{}", v.msg);
      println!("VIOLATION property={} replay={}", property, path);
      std::process::exit(1);
    }
  }
}
