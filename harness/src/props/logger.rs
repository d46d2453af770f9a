//! C27: the logger, which can be installed only once per process; so every
//! case is a process of its own (this program with `--logger`).

use super::Property;
use crate::engine::{CaseOk, CaseResult, Fail, Part};
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Init {
  /// init_logger()
  Env,
  /// init_logger_with_level()
  Level(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Rec {
  level: u8,
  text: String,
  /// Given to the logger as a record with this origin, or by the macro.
  origin: Option<(String, u32)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
  Init(Init),
  Log(Rec),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  env: Option<String>,
  /// What initialises the logger first, in one thread each, all at once.
  first: Vec<Init>,
  /// What the threads do afterwards.
  threads: Vec<Vec<Act>>,
}

fn level(n: u8) -> log::Level {
  [
    log::Level::Error,
    log::Level::Warn,
    log::Level::Info,
    log::Level::Debug,
    log::Level::Trace,
  ][n as usize % 5]
}

fn init(i: &Init) {
  match i {
    Init::Env => astro_run_logger::init_logger(),
    Init::Level(n) => astro_run_logger::init_logger_with_level(level(*n)),
  }
}

/// A text that is found again in the output whatever surrounds it.
fn framed(thread: usize, i: usize, text: &str) -> String {
  format!("<<{}.{}|{}|{}.{}>>", thread, i, text, thread, i)
}

// ------------------------------------------------------------------ the process

pub fn child() -> i32 {
  let mut text = String::new();
  std::io::stdin().read_to_string(&mut text).unwrap();
  let case: Case = serde_json::from_str(&text).unwrap();
  let n = case.first.len().max(case.threads.len());
  let (begin, ready) = (Arc::new(Barrier::new(n)), Arc::new(Barrier::new(n)));
  let handles: Vec<_> = (0..n)
    .map(|t| {
      let first = case.first.get(t).cloned();
      let acts = case.threads.get(t).cloned().unwrap_or_default();
      let (begin, ready) = (begin.clone(), ready.clone());
      std::thread::spawn(move || {
        begin.wait();
        let ok = first.map_or(true, |f| std::panic::catch_unwind(|| init(&f)).is_ok());
        ready.wait();
        if !ok {
          std::process::exit(3);
        }
        for (i, act) in acts.iter().enumerate() {
          match act {
            Act::Init(i) => init(i),
            Act::Log(r) => {
              let text = framed(t, i, &r.text);
              match &r.origin {
                None => log::log!(level(r.level), "{}", text),
                Some((module, line)) => log::logger().log(
                  &log::Record::builder()
                    .level(level(r.level))
                    .target(module)
                    .module_path(Some(module))
                    .line(Some(*line))
                    .args(format_args!("{}", text))
                    .build(),
                ),
              }
            }
          }
        }
      })
    })
    .collect();
  let ok = handles.into_iter().map(|h| h.join().is_ok()).fold(true, |a, b| a && b);
  let _ = std::io::stdout().flush();
  if ok { 0 } else { 3 }
}

// -------------------------------------------------------------------- the check

fn run_case(case: &Case) -> CaseResult {
  let mut cmd = Command::new(std::env::current_exe().unwrap());
  cmd
    .arg("--logger")
    .env_remove("RUST_LOG")
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped());
  if let Some(e) = &case.env {
    cmd.env("RUST_LOG", e);
  }
  let mut child = cmd.spawn().expect("spawn");
  child
    .stdin
    .take()
    .unwrap()
    .write_all(&serde_json::to_vec(case).unwrap())
    .expect("write the case");
  let out = child.wait_with_output().expect("wait");
  ensure!(
    out.status.success(),
    "initialising or using the logger failed: {} {:?}",
    out.status,
    String::from_utf8_lossy(&out.stderr)
  );
  let text = String::from_utf8(out.stdout).map_err(|_| Fail::from("the output is not UTF-8"))?;

  let of = |i: &Init| match i {
    Init::Level(n) => level(*n),
    // not the name of a level: the default
    Init::Env => case
      .env
      .as_ref()
      .and_then(|e| {
        [0u8, 1, 2, 3, 4]
          .into_iter()
          .map(level)
          .find(|l| l.as_str().eq_ignore_ascii_case(e))
      })
      .unwrap_or(log::Level::Info),
  };
  // of those that initialise it at once any may be the one that counts
  let mut possible: Vec<log::Level> = case.first.iter().map(of).collect();
  possible.sort();
  possible.dedup();

  let mut found = vec![];
  for (t, acts) in case.threads.iter().enumerate() {
    let mut last = 0;
    for (i, act) in acts.iter().enumerate() {
      let Act::Log(r) = act else { continue };
      let whole = framed(t, i, &r.text);
      let at: Vec<usize> = text.match_indices(&whole).map(|(p, _)| p).collect();
      ensure!(at.len() <= 1, "{:?} was printed {} times", whole, at.len());
      if at.is_empty() {
        ensure!(
          !text.contains(&format!("<<{}.{}|", t, i)),
          "record {}.{} was printed, but not as {:?}:\n{}",
          t,
          i,
          r.text,
          text
        );
      }
      if let Some(p) = at.first() {
        ensure!(*p >= last, "record {}.{} was printed before an earlier one of its thread", t, i);
        last = *p;
        // what stands before it belongs to it, and is on its line
        let head = &text[..*p];
        let head = match head.rfind(">>\n") {
          Some(e) => &head[e + 3..],
          None => head,
        };
        ensure!(!head.contains('\n'), "record {}.{} stands in the middle of {:?}", t, i, head);
        ensure!(
          head.split(|c: char| !c.is_ascii_uppercase()).any(|w| w == level(r.level).as_str()),
          "{:?} does not say {}",
          head,
          level(r.level)
        );
        ensure!(
          text[*p + whole.len()..].starts_with('\n'),
          "something follows record {}.{} on its line",
          t,
          i
        );
        if let Some((module, line)) = &r.origin {
          ensure!(
            head.contains(&format!("{}:{}", module, line)),
            "{:?} does not say where the record comes from, {}:{}",
            head,
            module,
            line
          );
        }
      }
      found.push((t, i, level(r.level), !at.is_empty()));
    }
  }
  ensure!(
    possible.iter().any(|max| found.iter().all(|(_, _, l, printed)| *printed == (l <= max))),
    "of these records (thread, number, level, printed) exactly those up to one of {:?} were to be printed: {:?}",
    possible,
    found
  );
  let printed = found.iter().filter(|f| f.3).count();
  Ok(
    CaseOk::new(printed > 0 && printed < found.len())
      .tag(case.first.len() > 1, "initialised at once")
      .tag(case.threads.len() > 1, "several threads")
      .tag(case.env.is_some(), "RUST_LOG"),
  )
}

fn case() -> BoxedStrategy<Case> {
  let env = proptest::option::weighted(
    0.7,
    prop_oneof![
      6 => prop_oneof![Just("error"), Just("warn"), Just("info"), Just("debug"), Just("trace")].prop_map(|s| s.to_string()),
      2 => prop_oneof![Just("ERROR"), Just("Warn"), Just("DEBUG"), Just("Trace")].prop_map(|s| s.to_string()),
      2 => prop_oneof![Just(""), Just("verbose"), Just("5"), Just(" warn"), Just("errors"), Just("tracing")].prop_map(|s| s.to_string()),
    ],
  );
  let init = || {
    prop_oneof![2 => Just(Init::Env), 1 => (0u8..5).prop_map(Init::Level)]
  };
  let text = prop_oneof![
    3 => "[a-zA-Z0-9 _./:-]{0,14}",
    2 => "[^\u{0}\u{1b}<>|]{0,12}",
    1 => Just("a\nb".to_string()),
    1 => Just("{} {0} %s \\n".to_string()),
    1 => "x{200,9000}",
  ];
  let rec = (0u8..5, text, proptest::option::weighted(0.5, ("[a-z_]{1,6}(::[a-z_]{1,6}){0,2}", any::<u32>())))
    .prop_map(|(level, text, origin)| Rec { level, text, origin });
  let act = prop_oneof![6 => rec.prop_map(Act::Log), 1 => init().prop_map(Act::Init)];
  (
    env,
    prop_oneof![3 => vec(init(), 1..2), 1 => vec(init(), 2..5)],
    prop_oneof![3 => vec(vec(act.clone(), 1..15), 1..2), 1 => vec(vec(act, 1..25), 2..5)],
  )
    .prop_map(|(env, first, threads)| Case { env, first, threads })
    .boxed()
}

pub fn c27() -> Property {
  (
    "property-based testing of whole processes against a reference filter",
    vec!["no other logger is installed in the process", "standard output is not closed"],
    vec![Part::new(
      "processes",
      "One process per case: RUST_LOG (level names in any case, other texts, none), 1-4 threads that initialise the logger at once, by environment or by level, then 1-4 threads that log records of all levels, through the macros and with generated origins, and initialise it again. Non-trivial: some records are to be printed and some are not.",
      12_000,
      150_000,
      case,
      run_case,
    )
    .boxed()],
  )
}
