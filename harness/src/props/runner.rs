//! C23-C26: the runner that executes steps on the host or in docker.
//! Everything here runs inside unprivileged workers (see worker.rs).

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::worker::{self, DockerLog};
use astro_run::{
  async_trait, AstroRun, AstroRunPlugin, AstroRunSignal, ContainerOptions, Context,
  EnvironmentVariable, HookNoopResult, RunResult, Runner, StepId, TriggerEvent, Workflow,
  WorkflowState,
};
use astro_runner::{AstroRunner, Plugin};
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio_stream::StreamExt;

const STALL: Duration = Duration::from_secs(10);
const STALLED: &str = "stalled: ";

fn stall(what: &str) -> Fail {
  format!("{}{} (within {:?}, three times in a row)", STALLED, what, STALL).into()
}

/// A stall only counts if it happens every time.
fn confirmed(scratch: &Path, f: impl Fn(&Path) -> CaseResult) -> CaseResult {
  let mut last = None;
  for n in 0..3 {
    let dir = scratch.join(format!("try{}", n));
    std::fs::create_dir(&dir).unwrap();
    let r = f(&dir);
    worker::remove(&dir);
    match r {
      Err(e) if e.msg.starts_with(STALLED) => last = Some(e),
      other => return other,
    }
  }
  Err(last.unwrap())
}

/// `busy`: the only thread for file operations is kept occupied, so that they
/// take their time.
fn block<Fut: Future<Output = CaseResult>>(busy: bool, f: Fut) -> CaseResult {
  let rt = tokio::runtime::Builder::new_current_thread()
    .enable_all()
    .max_blocking_threads(if busy { 1 } else { 8 })
    .build()
    .unwrap();
  let res = rt.block_on(async {
    let load = busy.then(|| {
      (0..3)
        .map(|_| {
          tokio::spawn(async {
            loop {
              let _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_millis(8))).await;
            }
          })
        })
        .collect::<Vec<_>>()
    });
    let r = f.await;
    for h in load.into_iter().flatten() {
      h.abort();
    }
    r
  });
  rt.shutdown_timeout(Duration::from_millis(200));
  res
}

const DIRS: [&str; 3] = ["work", "with space", "wörk"];

fn host_container(arch: bool) -> ContainerOptions {
  let os = std::env::consts::OS;
  ContainerOptions {
    name: if arch {
      format!("host/{}-{}", os, std::env::consts::ARCH)
    } else {
      format!("host/{}", os)
    },
    volumes: None,
    security_opts: None,
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum EnvV {
  S(String),
  I(i32),
  Half(i16),
  B(bool),
}

impl EnvV {
  fn value(&self) -> EnvironmentVariable {
    match self {
      EnvV::S(s) => s.clone().into(),
      EnvV::I(i) => EnvironmentVariable::Number(*i as f64),
      EnvV::Half(i) => EnvironmentVariable::Number(*i as f64 + 0.5),
      EnvV::B(b) => EnvironmentVariable::Boolean(*b),
    }
  }

  fn text(&self) -> String {
    match self {
      EnvV::S(s) => s.clone(),
      EnvV::I(i) => i.to_string(),
      EnvV::Half(i) => {
        let v = *i as i32 * 2 + 1;
        format!("{}{}.5", if v < 0 { "-" } else { "" }, v.abs() / 2)
      }
      EnvV::B(b) => if *b { "true" } else { "false" }.into(),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Out(Vec<u8>),
  Err(Vec<u8>),
  /// that many lines at once, to stderr or stdout
  Flood(u16, bool),
  /// one line of that many KiB
  Long(u16, bool),
  CloseOut,
  CloseErr,
  Nap(u8),
  /// ms
  Sleep(u16),
  /// print an environment variable
  Env(u8),
  /// print a text that stands in the script as it is
  Raw(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum End {
  Last,
  Exit(u8),
  Kill(u8),
}

struct Script {
  text: String,
  out: Vec<u8>,
  err: Vec<u8>,
}

fn printf(bytes: &[u8]) -> String {
  let mut s = String::from("printf '");
  for b in bytes {
    s.push_str(&format!("\\{:03o}", b));
  }
  s.push('\'');
  s
}

fn script(ops: &[Op], end: &End, env: &[(String, EnvV)]) -> Script {
  let mut s = Script {
    text: String::new(),
    out: vec![],
    err: vec![],
  };
  let (mut out, mut err) = (true, true);
  for op in ops {
    let line = match op {
      Op::Out(b) if out && !b.is_empty() => {
        s.out.extend(b);
        printf(b)
      }
      Op::Err(b) if err && !b.is_empty() => {
        s.err.extend(b);
        format!("{} >&2", printf(b))
      }
      Op::Flood(n, to_err) if (*to_err && err) || (!*to_err && out) => {
        let filler = "x".repeat(180);
        for i in 0..*n {
          let l = format!("{} {}\n", i, filler);
          if *to_err {
            s.err.extend(l.bytes())
          } else {
            s.out.extend(l.bytes())
          }
        }
        format!(
          "i=0; while [ $i -lt {} ]; do echo \"$i {}\"; i=$((i+1)); done{}",
          n,
          filler,
          if *to_err { " >&2" } else { "" }
        )
      }
      Op::Long(kib, to_err) if (*to_err && err) || (!*to_err && out) => {
        let l = "0123456789abcdef".repeat(64 * *kib as usize);
        let stream = if *to_err { &mut s.err } else { &mut s.out };
        stream.extend(l.bytes());
        stream.push(b'\n');
        format!(
          "i=0; while [ $i -lt {} ]; do printf '{}'; i=$((i+1)); done{r}; echo{r}",
          kib,
          "0123456789abcdef".repeat(64),
          r = if *to_err { " >&2" } else { "" }
        )
      }
      Op::CloseOut if out => {
        out = false;
        "exec 1>&-".into()
      }
      Op::CloseErr if err => {
        err = false;
        "exec 2>&-".into()
      }
      Op::Nap(ms) => format!("sleep 0.{:03}", ms),
      Op::Sleep(ms) => format!("sleep {}.{:03}", ms / 1000, ms % 1000),
      Op::Raw(t) if out => {
        s.out.extend(t.bytes());
        s.out.push(b'\n');
        format!("printf '%s\\n' '{}'", t.replace('\'', "'\\''"))
      }
      Op::Env(i) if out && !env.is_empty() => {
        let (k, v) = &env[*i as usize % env.len()];
        // the last of equal keys wins
        let v = env.iter().rev().find(|e| e.0 == *k).map(|e| &e.1).unwrap_or(v);
        s.out.extend(v.text().bytes());
        s.out.push(b'\n');
        format!("printf '%s\\n' \"${{{}-unset}}\"", k)
      }
      _ => continue,
    };
    s.text.push_str(&line);
    s.text.push('\n');
  }
  match end {
    End::Last => {}
    End::Exit(c) => s.text.push_str(&format!("exit {}", c)),
    End::Kill(n) => s.text.push_str(&format!("kill -{} $$; sleep 5", n)),
  }
  s
}

/// What must be logged of what was written.
fn lines(bytes: &[u8]) -> Vec<String> {
  let mut v: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
  let last = v.pop().unwrap_or_default();
  let mut out: Vec<String> = v
    .into_iter()
    .map(|l| String::from_utf8_lossy(l.strip_suffix(b"\r").unwrap_or(l)).into_owned())
    .collect();
  if !last.is_empty() {
    out.push(String::from_utf8_lossy(last).into_owned());
  }
  out
}

struct Ran {
  out: Vec<String>,
  err: Vec<String>,
  result: RunResult,
}

async fn collect(rx: &mut astro_run::StreamReceiver, what: &str) -> Result<Ran, Fail> {
  let (mut out, mut err) = (vec![], vec![]);
  let all = async {
    while let Some(l) = rx.next().await {
      if l.is_error() {
        err.push(l.message);
      } else {
        out.push(l.message);
      }
    }
  };
  tokio::time::timeout(STALL, all).await.map_err(|_| stall(what))?;
  let result = rx
    .result()
    .ok_or_else(|| Fail::from("the stream ended without a result"))?;
  Ok(Ran { out, err, result })
}

fn same_lines(what: &str, got: &[String], want: &[String]) -> Result<(), Fail> {
  // a carriage return before the end of an unterminated line may go
  let eq = |a: &String, b: &String| a == b || b.strip_suffix('\r') == Some(a.as_str());
  if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| eq(a, b)) {
    return Ok(());
  }
  let at = got.iter().zip(want).position(|(a, b)| !eq(a, b)).unwrap_or(got.len().min(want.len()));
  Err(
    format!(
      "{}: line {} is {:.200?}, written was {:.200?} ({} lines of {})",
      what,
      at,
      got.get(at),
      want.get(at),
      got.len(),
      want.len()
    )
    .into(),
  )
}

fn same_end(end: &End, got: &RunResult) -> Result<(), Fail> {
  let ok = match (end, got) {
    (End::Last | End::Exit(0), RunResult::Succeeded) => true,
    (End::Exit(c), RunResult::Failed { exit_code }) => *c != 0 && *exit_code == *c as i32,
    (End::Kill(_), RunResult::Failed { exit_code }) => *exit_code != 0,
    _ => false,
  };
  ensure!(ok, "the command ended with {:?}, reported is {:?}", end, got);
  Ok(())
}

fn context(
  id: &StepId,
  run: String,
  container: Option<ContainerOptions>,
  env: &[(String, EnvV)],
  event: Option<TriggerEvent>,
) -> Context {
  Context {
    id: id.clone(),
    signal: AstroRunSignal::new(),
    command: astro_run::Command {
      id: id.clone(),
      container,
      run,
      environments: env.iter().map(|(k, v)| (k.clone(), v.value())).collect(),
      timeout: Duration::from_secs(3600),
      ..Default::default()
    },
    event,
    payload: None,
  }
}

fn repo(k: u8) -> TriggerEvent {
  TriggerEvent {
    event: "push".into(),
    repo_owner: ["octo", "kitten"][k as usize / 2 % 2].into(),
    repo_name: ["r0", "r1"][k as usize % 2].into(),
    ..Default::default()
  }
}

fn files(dir: &Path) -> Vec<PathBuf> {
  let mut out = vec![];
  if let Ok(d) = std::fs::read_dir(dir) {
    for e in d.flatten() {
      let p = e.path();
      if p.is_dir() {
        out.extend(files(&p));
      } else {
        out.push(p);
      }
    }
  }
  out.sort();
  out
}

fn dirs(dir: &Path) -> Vec<PathBuf> {
  let mut out = vec![];
  if let Ok(d) = std::fs::read_dir(dir) {
    for e in d.flatten() {
      let p = e.path();
      if p.is_dir() {
        out.extend(dirs(&p));
        out.push(p);
      }
    }
  }
  out.sort();
  out
}

async fn eventually(mut f: impl FnMut() -> bool) -> bool {
  let start = std::time::Instant::now();
  loop {
    if f() {
      return true;
    }
    if start.elapsed() > STALL {
      return false;
    }
    tokio::time::sleep(Duration::from_millis(2)).await;
  }
}

// ---------------------------------------------------------------- strategies

fn bytes() -> BoxedStrategy<Vec<u8>> {
  prop_oneof![
    4 => "[a-z ]{0,10}\n".prop_map(String::into_bytes),
    2 => "[a-z]{1,6}".prop_map(String::into_bytes),
    1 => "\\PC{0,8}\n".prop_map(String::into_bytes),
    1 => "[a-z]{0,3}\r\n".prop_map(String::into_bytes),
    1 => vec(any::<u8>(), 1..12).prop_map(|mut v| { v.push(b'\n'); v }),
    1 => Just(b"\n".to_vec()),
    1 => vec(prop_oneof![Just(b'\n'), Just(b'\r'), Just(b'a'), Just(0xC3u8), Just(0xA9u8), Just(0u8)], 1..8),
  ]
  .boxed()
}

fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
  let op = prop_oneof![
    6 => bytes().prop_map(Op::Out),
    6 => bytes().prop_map(Op::Err),
    1 => (1u16..400, any::<bool>()).prop_map(|(n, e)| Op::Flood(n, e)),
    1 => (prop_oneof![3 => 1u16..20, 1 => 20u16..300], any::<bool>()).prop_map(|(n, e)| Op::Long(n, e)),
    1 => Just(Op::CloseOut),
    1 => Just(Op::CloseErr),
    1 => (1u8..15).prop_map(Op::Nap),
    3 => any::<u8>().prop_map(Op::Env),
    2 => prop_oneof![
      "[a-z\"'`$\\\\#!%&{}<> \t\r\n]{0,10}",
      "\\PC{0,8}",
      Just("a\r\nb  \n\n\tc ".to_string()),
    ].prop_filter("no NUL", |s: &String| !s.contains('\0')).prop_map(Op::Raw),
  ];
  vec(op, 0..max).boxed()
}

fn end() -> BoxedStrategy<End> {
  prop_oneof![
    3 => Just(End::Last),
    1 => Just(End::Exit(0)),
    3 => prop_oneof![Just(1u8), Just(123), Just(255), any::<u8>()].prop_map(End::Exit),
    1 => prop_oneof![Just(9u8), Just(15), Just(2)].prop_map(End::Kill),
  ]
  .boxed()
}

fn env() -> BoxedStrategy<Vec<(String, EnvV)>> {
  let text = prop_oneof![
    3 => "[a-zA-Z0-9 _./:-]{0,14}",
    2 => "\\PC{0,12}",
    2 => "[a-z\"'`$\\\\(){}*!;&|<>#~ \n\t=]{0,10}",
    1 => prop_oneof![
      Just("$HOME"), Just("${HOME}"), Just("$(echo x)"), Just("`echo x`"), Just("a\"b"), Just("a\\"),
      Just("\\\\"), Just("it's"), Just("line\nbreak"), Just("trailing\n"), Just("a\r\nb"), Just("\r"), Just(" x\t"), Just("\u{feff}x"), Just("\"; echo y; \""),
    ].prop_map(|s| s.to_string()),
    1 => (1usize..9000).prop_map(|n| "0123456789".chars().cycle().take(n).collect::<String>()),
  ];
  let value = prop_oneof![
    5 => text.prop_filter("no NUL", |s: &String| !s.contains('\0')).prop_map(EnvV::S),
    1 => any::<i32>().prop_map(EnvV::I),
    1 => any::<i16>().prop_map(EnvV::Half),
    1 => any::<bool>().prop_map(EnvV::B),
  ];
  vec(("V_[A-Za-z0-9_]{0,4}", value), 0..5)
    .prop_map(|v| {
      let m: BTreeMap<String, EnvV> = v.into_iter().collect();
      m.into_iter().collect()
    })
    .boxed()
}

// ------------------------------------------------------------------------ C23

#[derive(Serialize, Deserialize, Clone, Debug)]
struct HostCase {
  ops: Vec<Op>,
  end: End,
  env: Vec<(String, EnvV)>,
  arch: bool,
  event: Option<u8>,
  dir: u8,
  busy: bool,
}

fn host_worker(case: &HostCase, scratch: &Path) -> CaseResult {
  confirmed(scratch, |scratch| {
    let wd = scratch.join(DIRS[case.dir as usize % 3]);
    let s = script(&case.ops, &case.end, &case.env);
    block(case.busy, async {
      let docker = DockerLog::new(scratch);
      let runner = AstroRunner::builder()
        .working_directory(wd.clone())
        .build()
        .map_err(|e| Fail::from(e.to_string()))?;
      let id = StepId::new("w0", "job", 0);
      let ctx = context(
        &id,
        s.text.clone(),
        Some(host_container(case.arch)),
        &case.env,
        case.event.map(repo),
      );
      let mut rx = Runner::run(&runner, ctx).await.map_err(|e| Fail::from(e.to_string()))?;
      let ran = collect(&mut rx, "the step never ended").await?;
      same_lines("stdout", &ran.out, &lines(&s.out))?;
      same_lines("stderr", &ran.err, &lines(&s.err))?;
      same_end(&case.end, &ran.result)?;
      ensure!(docker.calls().is_empty(), "docker was used for a host step: {:?}", docker.calls());
      let closes = case.ops.iter().any(|o| matches!(o, Op::CloseOut | Op::CloseErr));
      Ok(
        CaseOk::new(!s.out.is_empty() || !s.err.is_empty())
          .tag(!s.out.is_empty() && !s.err.is_empty(), "both streams")
          .tag(closes, "a stream closed early")
          .tag(
            std::str::from_utf8(&s.out).is_err() || std::str::from_utf8(&s.err).is_err(),
            "invalid UTF-8",
          )
          .tag(s.out.len() + s.err.len() > 65536, "more than a pipe holds")
          .tag(case.ops.iter().any(|o| matches!(o, Op::Env(_))) && !case.env.is_empty(), "environment")
          .tag(matches!(case.end, End::Kill(_)), "killed by a signal"),
      )
    })
  })
}

fn host_strategy() -> BoxedStrategy<HostCase> {
  (
    ops(10),
    end(),
    env(),
    any::<bool>(),
    proptest::option::of(0u8..4),
    0u8..3,
    proptest::bool::weighted(0.03),
  )
    .prop_map(|(ops, end, env, arch, event, dir, busy)| HostCase {
      ops,
      end,
      env,
      arch,
      event,
      dir,
      busy,
    })
    .boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ExecCase {
  out: String,
  err: String,
  flood: u16,
  code: u8,
  env: Vec<(String, EnvV)>,
  dir: u8,
}

fn exec_worker(case: &ExecCase, scratch: &Path) -> CaseResult {
  confirmed(scratch, |scratch| {
    let wd = scratch.join(DIRS[case.dir as usize % 3]);
    std::fs::create_dir(&wd).unwrap();
    std::fs::write(wd.join("here"), b"").unwrap();
    let mut text = String::from("[ -e here ] || echo 'not in the directory'\n");
    let mut out = String::new();
    if !case.out.is_empty() {
      text.push_str(&format!("{}\n", printf(case.out.as_bytes())));
      out.push_str(&case.out);
    }
    for (k, v) in &case.env {
      text.push_str(&format!("printf '%s|' \"${{{}-unset}}\"\n", k));
      out.push_str(&format!("{}|", v.text()));
    }
    if case.flood > 0 {
      text.push_str(&format!("i=0; while [ $i -lt {} ]; do echo \"line $i\"; echo \"error $i\" >&2; i=$((i+1)); done\n", case.flood));
      for i in 0..case.flood {
        out.push_str(&format!("line {}\n", i));
      }
    }
    if !case.err.is_empty() {
      text.push_str(&format!("{} >&2\n", printf(case.err.as_bytes())));
    }
    text.push_str(&format!("exit {}", case.code));
    block(false, async {
      let mut cmd = astro_runner::Command::new(text.clone());
      cmd.dir(&wd);
      for (k, v) in &case.env {
        cmd.env(k.clone(), v.text());
      }
      let r = tokio::time::timeout(STALL, cmd.exec())
        .await
        .map_err(|_| stall("the command never ended"))?;
      match (case.code, r) {
        (0, Ok(s)) => ensure!(
          s == out.trim(),
          "the command printed {:.300?}, returned was {:.300?}",
          out.trim(),
          s
        ),
        (0, Err(e)) => return Err(format!("the command succeeded, returned was error {}", e).into()),
        (c, Ok(s)) => return Err(format!("the command failed with {}, returned was {:?}", c, s).into()),
        (_, Err(e)) => ensure!(
          e.to_string().contains(&case.err),
          "the command's errors {:?} are missing in {:.300?}",
          case.err,
          e.to_string()
        ),
      }
      // the same through a stream, as an executor uses it
      let (tx, mut rx) = astro_run::stream();
      let mut cmd = astro_runner::Command::new(text.clone());
      cmd.dir(&wd);
      for (k, v) in &case.env {
        cmd.env(k.clone(), v.text());
      }
      let (ran, r) = tokio::join!(collect(&mut rx, "the command never ended"), cmd.run(tx));
      let ran = ran?;
      if let Err(e) = r {
        return Err(format!("running the command failed: {}", e).into());
      }
      same_lines("stdout", &ran.out, &lines(out.as_bytes()))?;
      same_end(&End::Exit(case.code), &ran.result)?;
      Ok(
        CaseOk::new(!out.trim().is_empty() || !case.err.is_empty())
          .tag(case.code != 0, "failing command")
          .tag(case.flood > 0, "much output"),
      )
    })
  })
}

fn exec_strategy() -> BoxedStrategy<ExecCase> {
  let text = || prop_oneof!["[a-z \n]{0,12}", "\\PC{0,8}", Just(" \n x \n\n".to_string())];
  (
    text(),
    text(),
    prop_oneof![4 => Just(0u16), 1 => 1u16..500],
    prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
    env(),
    0u8..3,
  )
    .prop_map(|(out, err, flood, code, env, dir)| ExecCase {
      out,
      err,
      flood,
      code,
      env,
      dir,
    })
    .boxed()
}

const ASSUME: &[&str] = &[
  "the runner runs as an unprivileged user with a scratch directory, in real time",
  "docker is a stand-in on the PATH that parses its arguments like the docker CLI and runs the entrypoint as a child process",
  "a stall (10 s without progress) is a violation only if it repeats three times",
];

pub fn c23() -> Property {
  (
    "property-based testing: generated scripts whose output and end are known, compared with the step's log lines and result",
    ASSUME.to_vec(),
    vec![
      Part::new(
        "host",
        "Host steps writing arbitrary bytes to both streams, closing either, flooding, printing their environment, and ending in every way. Non-trivial: something was written.",
        20_000,
        400_000,
        host_strategy,
        |c| worker::decide("host", c),
      )
      .shards(16)
      .fixed(vec![
        HostCase {
          ops: vec![Op::Out(b"first\n".to_vec()), Op::CloseOut, Op::Nap(15), Op::Err(b"later\n".to_vec())],
          end: End::Exit(3),
          env: vec![],
          arch: false,
          event: None,
          dir: 0,
          busy: false,
        },
        HostCase {
          ops: vec![Op::Out(b"\xff\xfe\n".to_vec()), Op::Out(b"after\n".to_vec())],
          end: End::Last,
          env: vec![],
          arch: true,
          event: Some(0),
          dir: 1,
          busy: false,
        },
      ])
      .boxed(),
      Part::new(
        "silence",
        "As host, with a silence of 0.3-6.5 s. Non-trivial: something was written.",
        40,
        600,
        || {
          (host_strategy(), 300u16..6_500, any::<proptest::sample::Index>())
            .prop_map(|(mut c, ms, at)| {
              let at = at.index(c.ops.len() + 1);
              c.ops.insert(at, Op::Sleep(ms));
              c.busy = false;
              c
            })
            .boxed()
        },
        |c| worker::decide("host", c),
      )
      .shards(20)
      .boxed(),
      Part::new(
        "command",
        "Command::exec and Command::run with output, errors, exit codes, environment and directory. Non-trivial: something was written.",
        6_000,
        100_000,
        exec_strategy,
        |c| worker::decide("exec", c),
      )
      .boxed(),
    ],
  )
}

// ------------------------------------------------------------------------ C24

#[derive(Serialize, Deserialize, Clone, Debug)]
enum WEnd {
  Exit(u8),
  /// the step only waits until its timeout
  Timeout,
  /// the step waits until its job is cancelled
  Cancel,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct WStep {
  docker: bool,
  writes: Vec<u8>,
  cache: bool,
  end: WEnd,
  continue_on_error: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct WRun {
  wf: u8,
  repo: Option<u8>,
  /// (waits for the previous job, steps)
  jobs: Vec<(bool, Vec<WStep>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct SpaceCase {
  batches: Vec<Vec<WRun>>,
  dir: u8,
  busy: bool,
  /// how many remote servers share the work; 0: none, it runs locally
  #[serde(default)]
  servers: u8,
}

/// The runner of a case: local, or remote servers around one runner each.
async fn with_runner(
  case: &SpaceCase,
  b: astro_run::AstroRunBuilder,
  mut runners: Vec<AstroRunner>,
) -> Result<astro_run::AstroRunBuilder, Fail> {
  if case.servers == 0 {
    return Ok(b.runner(runners.remove(0)));
  }
  #[cfg(feature = "remote")]
  {
    use super::remote::{connect, serve};
    let mut urls = vec![];
    for (k, r) in runners.into_iter().enumerate() {
      let server = astro_run_remote_runner::AstroRunRemoteRunnerServer::builder()
        .id(format!("srv-{}", k))
        .max_runs(9)
        .support_docker(true)
        .support_host(true)
        .runner(r)
        .build()
        .map_err(|e| Fail::from(format!("{}", e)))?;
      urls.push(format!("http://127.0.0.1:{}", serve(server).await));
    }
    let n = urls.len();
    let client = connect(urls, n, astro_run_scheduler::DefaultScheduler::new()).await?;
    return Ok(b.runner(client));
  }
  #[cfg(not(feature = "remote"))]
  Err("this build has no remote runner".into())
}

fn job_name(j: usize) -> String {
  ["build", "test", "x1"][j % 3].to_string() + &"y".repeat(j / 3)
}

fn wf_name(w: u8) -> String {
  format!("wf{}", w)
}

/// Which steps run, and how the job ends.
fn job_plan(steps: &[WStep]) -> (Vec<bool>, WorkflowState) {
  let mut state = WorkflowState::Succeeded;
  let ran = steps
    .iter()
    .map(|s| {
      let run = match state {
        WorkflowState::Succeeded => true,
        WorkflowState::Failed => s.continue_on_error,
        _ => false,
      };
      if run {
        match s.end {
          WEnd::Exit(0) => {}
          WEnd::Cancel => state = WorkflowState::Cancelled,
          _ => state = WorkflowState::Failed,
        }
      }
      run
    })
    .collect();
  (ran, state)
}

fn cache_file(batch: usize, run: &WRun, j: usize, i: usize) -> String {
  format!("c{}-{}-{}-{}", batch, run.wf, j, i)
}

fn space_yaml(batch: usize, run: &WRun) -> String {
  let mut m = Map::new();
  for (j, (after, steps)) in run.jobs.iter().enumerate() {
    let steps: Vec<Value> = steps
      .iter()
      .enumerate()
      .map(|(i, s)| {
        let mut text = String::new();
        let mut v = json!({"continue-on-error": s.continue_on_error});
        match s.end {
          WEnd::Timeout => {
            text.push_str("exec sleep 4");
            // enough for docker to have started
            v["timeout"] = json!(if s.docker { "400ms" } else { "60ms" });
          }
          WEnd::Cancel => text.push_str("echo 'CANCEL ME'\nexec sleep 4"),
          WEnd::Exit(c) => {
            for w in &s.writes {
              text.push_str(&format!("echo {}-{}-{} > f{}\n", run.wf, j, i, w));
            }
            text.push_str("echo \"LS $(ls -A | sort | tr '\\n' ' ')\"\n");
            text.push_str("echo \"PWD $(pwd -P)\"\n");
            if s.docker {
              text.push_str("[ -d \"$PBT_CACHES\" ] || echo \"NO CACHES\"\n");
              if s.cache {
                text.push_str(&format!("echo x > \"$PBT_CACHES/{}\"\n", cache_file(batch, run, j, i)));
              }
              text.push_str("echo \"CA $(ls -A \"$PBT_CACHES\" | sort | tr '\\n' ' ')\"\n");
            }
            text.push_str(&format!("exit {}\n", c));
          }
        }
        v["run"] = json!(text);
        if !s.docker {
          v["container"] = json!(format!("host/{}", std::env::consts::OS));
        }
        v
      })
      .collect();
    let deps: Vec<String> = if *after && j > 0 { vec![job_name(j - 1)] } else { vec![] };
    m.insert(job_name(j), json!({"steps": steps, "depends-on": deps}));
  }
  json!({ "jobs": m }).to_string()
}

/// Files of the repositories' caches, by repository (None: no trigger).
type Caches = BTreeMap<Option<u8>, BTreeSet<String>>;

fn space_worker(case: &SpaceCase, scratch: &Path) -> CaseResult {
  confirmed(scratch, |scratch| {
    let wds: Vec<PathBuf> = (0..case.servers.max(1))
      .map(|k| scratch.join(format!("{}{}", DIRS[case.dir as usize % 3], ["", "2", "3"][k as usize % 3])))
      .collect();
    block(case.busy, async {
      let _docker = DockerLog::new(scratch);
      // what belongs to others
      let foreign: Vec<PathBuf> = wds
        .iter()
        .flat_map(|wd| {
          ["notes.txt", "wf9/build/data/keep", "octo/r0/caches/keep", "octo/wf8/keep"].map(|p| wd.join(p))
        })
        .collect();
      for f in &foreign {
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, b"keep").unwrap();
      }
      let mut caches: Caches = BTreeMap::new();
      caches.entry(Some(0)).or_default().insert("keep".into());

      let logs: Arc<Mutex<BTreeMap<(String, String, usize), Vec<String>>>> = Arc::default();
      let sink = logs.clone();
      let handle: Arc<Mutex<Option<AstroRun>>> = Arc::default();
      let canceller = handle.clone();
      let mut runners = vec![];
      for wd in &wds {
        let runner = AstroRunner::builder()
          .working_directory(wd.clone())
          .build()
          .map_err(|e| Fail::from(e.to_string()))?;
        runners.push(runner);
      }
      let astro = with_runner(case, AstroRun::builder(), runners)
        .await?
        .plugin(
          AstroRunPlugin::builder("logs")
            .on_log(move |l| {
              let id = &l.step_id;
              if l.message == "CANCEL ME" {
                let astro = canceller.lock().clone();
                astro.unwrap().cancel_job(&id.job_id())?;
              }
              sink
                .lock()
                .entry((id.workflow_id().inner(), id.job_key(), id.step_number()))
                .or_default()
                .push(format!("{}{}", if l.is_error() { "! " } else { "" }, l.message));
              Ok(())
            })
            .build(),
        )
        .build();
      *handle.lock() = Some(astro.clone());
      let (mut shared, mut cached, mut timeouts, mut cancels) = (0, 0, 0, 0);
      for (b, batch) in case.batches.iter().enumerate() {
        logs.lock().clear();
        let mut handles = vec![];
        for run in batch {
          let workflow = Workflow::builder()
            .id(wf_name(run.wf))
            .config(space_yaml(b, run))
            .build(&astro)
            .await
            .map_err(|e| Fail::from(format!("a valid workflow was rejected: {}", e)))?;
          let mut ctx = astro.execution_context();
          if let Some(r) = run.repo {
            ctx = ctx.event(repo(r));
          }
          let ctx = ctx.build();
          handles.push(tokio::spawn(async move { workflow.run(ctx).await }));
        }
        let mut results = vec![];
        for h in handles {
          let r = tokio::time::timeout(STALL, h)
            .await
            .map_err(|_| stall("a workflow never completed"))?
            .map_err(|e| Fail::from(format!("a workflow panicked: {}", e)))?;
          results.push(r);
        }
        let logs = logs.lock().clone();
        // every cache file that may show up in this batch
        let mut possible = caches.clone();
        for run in batch {
          for (j, (_, steps)) in run.jobs.iter().enumerate() {
            let (ran, _) = job_plan(steps);
            for (i, s) in steps.iter().enumerate() {
              if ran[i] && s.docker && s.cache && matches!(s.end, WEnd::Exit(_)) {
                possible.entry(run.repo).or_default().insert(cache_file(b, run, j, i));
              }
            }
          }
        }
        let mut places: BTreeMap<String, (u8, usize)> = BTreeMap::new();
        for (run, result) in batch.iter().zip(&results) {
          let mut before: BTreeSet<String> = caches.get(&run.repo).cloned().unwrap_or_default();
          for (j, (after, steps)) in run.jobs.iter().enumerate() {
            let (ran, want) = job_plan(steps);
            let job = result
              .jobs
              .get(&job_name(j))
              .ok_or_else(|| Fail::from(format!("no result for {}", job_name(j))))?;
            // what this job's steps certainly see in the cache: everything
            // cached before this batch, by the jobs it waited for, and by itself
            let mut known = if *after && j > 0 {
              before.clone()
            } else {
              caches.get(&run.repo).cloned().unwrap_or_default()
            };
            let mut data: BTreeSet<String> = BTreeSet::new();
            for (i, s) in steps.iter().enumerate() {
              let what = format!("step {}/{}/{}", wf_name(run.wf), job_name(j), i);
              let got = logs.get(&(wf_name(run.wf), job_name(j), i)).cloned().unwrap_or_default();
              if !ran[i] {
                ensure!(got.is_empty(), "{} was to be skipped, it logged {:?}", what, got);
                continue;
              }
              if let WEnd::Timeout = s.end {
                timeouts += 1;
                ensure!(
                  job.steps.get(i).map(|s| (s.state.clone(), s.exit_code))
                    == Some((WorkflowState::Failed, Some(123))),
                  "{} timed out, it is reported as {:?}",
                  what,
                  job.steps.get(i)
                );
                continue;
              }
              if let WEnd::Cancel = s.end {
                cancels += 1;
                let state = job.steps.get(i).map(|s| s.state.clone());
                ensure!(
                  state == Some(WorkflowState::Cancelled) && got == ["CANCEL ME"],
                  "{} was cancelled, it is reported as {:?} and logged {:?}",
                  what,
                  job.steps.get(i),
                  got
                );
                continue;
              }
              shared += (!data.is_empty()) as usize;
              data.extend(s.writes.iter().map(|w| format!("f{}", w)));
              let field = |tag: &str| -> Result<BTreeSet<String>, Fail> {
                let l = got
                  .iter()
                  .find_map(|l| l.strip_prefix(tag))
                  .ok_or_else(|| Fail::from(format!("{} did not run as written, it logged {:?}", what, got)))?;
                Ok(l.split_whitespace().map(|x| x.to_string()).collect())
              };
              let ls = field("LS ")?;
              ensure!(
                ls == data,
                "{} found {:?} in its working directory, its job had written {:?}",
                what,
                ls,
                data
              );
              let pwd = got
                .iter()
                .find_map(|l| l.strip_prefix("PWD "))
                .unwrap_or("")
                .to_string();
              ensure!(
                wds.iter().any(|wd| Path::new(&pwd).starts_with(wd.canonicalize().unwrap())),
                "{} ran in {:?}, outside of the working directory",
                what,
                pwd
              );
              let place = places.entry(pwd.clone()).or_insert((run.wf, j));
              ensure!(
                *place == (run.wf, j),
                "{} ran in {:?}, where another job ({}/{}) ran at the same time",
                what,
                pwd,
                wf_name(place.0),
                job_name(place.1)
              );
              let mut count = 2;
              if s.docker {
                count += 1;
                if s.cache {
                  known.insert(cache_file(b, run, j, i));
                }
                let ca = field("CA ")?;
                let most = possible.get(&run.repo).cloned().unwrap_or_default();
                ensure!(
                  known.is_subset(&ca) && ca.is_subset(&most),
                  "{} found {:?} in the cache of its repository, expected at least {:?}, at most {:?}",
                  what,
                  ca,
                  known,
                  most
                );
                cached += (known.len() > 1) as usize;
              }
              ensure!(got.len() == count, "{} logged {:?}", what, got);
            }
            ensure!(
              job.state == want,
              "job {}/{} is {:?}, expected {:?}; its steps: {:?}",
              wf_name(run.wf),
              job_name(j),
              job.state,
              want,
              job.steps.iter().map(|s| (s.state.clone(), s.exit_code)).collect::<Vec<_>>()
            );
            if *after || j == 0 {
              before.extend(known);
            } else {
              before = known;
            }
          }
        }
        caches = possible;

        // nothing of the completed workflows is left, everything else is
        let cache_files: usize = caches.values().map(|c| c.len()).sum();
        let names: BTreeSet<String> = (0..8).map(wf_name).collect();
        let rest = || {
          wds
            .iter()
            .flat_map(|wd| dirs(wd))
            .filter(|d| names.contains(&d.file_name().unwrap().to_string_lossy().to_string()))
            .collect::<Vec<_>>()
        };
        let gone = eventually(|| rest().is_empty()).await;
        ensure!(
          gone,
          "after workflows {:?} completed, {:?} is left",
          batch.iter().map(|r| wf_name(r.wf)).collect::<Vec<_>>(),
          rest()
        );
        for f in &foreign {
          ensure!(f.exists(), "{:?}, which belongs to something else, was removed", f);
        }
        let left: Vec<PathBuf> = wds.iter().flat_map(|wd| files(wd)).collect();
        ensure!(
          left.len() == cache_files - 1 + foreign.len(),
          "left are {:?}, expected the {} cached files and {:?}",
          left,
          cache_files,
          foreign
        );
      }
      let many = case.batches.iter().any(|b| b.len() > 1 || b.iter().any(|r| r.jobs.len() > 1));
      Ok(
        CaseOk::new(shared > 0 || cached > 0)
          .tag(shared > 0, "files shared between steps")
          .tag(cached > 0, "cache shared")
          .tag(many, "several jobs at once")
          .tag(timeouts > 0, "timeouts")
          .tag(cancels > 0, "cancelled jobs")
          .tag(case.batches.len() > 1, "consecutive workflows"),
      )
    })
  })
}

fn space_strategy() -> BoxedStrategy<SpaceCase> {
  let step = (
    any::<bool>(),
    vec(0u8..4, 0..3),
    any::<bool>(),
    prop_oneof![
      12 => Just(WEnd::Exit(0)),
      2 => (1u8..200).prop_map(WEnd::Exit),
      1 => Just(WEnd::Timeout),
      1 => Just(WEnd::Cancel),
    ],
    any::<bool>(),
  )
    .prop_map(|(docker, writes, cache, end, continue_on_error)| WStep {
      docker,
      writes,
      cache,
      end,
      continue_on_error,
    });
  let job = (any::<bool>(), vec(step, 1..4));
  let run = (0u8..4, proptest::option::weighted(0.7, 0u8..4), vec(job, 1..3))
    .prop_map(|(wf, repo, jobs)| WRun { wf, repo, jobs });
  (
    vec(vec(run, 1..3), 1..4),
    0u8..3,
    proptest::bool::weighted(0.03),
  )
    .prop_map(|(mut batches, dir, busy)| {
      for b in &mut batches {
        // workflows that run at once have different ids
        let mut seen = BTreeSet::new();
        b.retain(|r| seen.insert(r.wf));
      }
      SpaceCase { batches, dir, busy, servers: 0 }
    })
    .boxed()
}

/// The same over remote servers; with several of them there is a cache on each,
/// and only steps in containers stay together.
fn remote_space_strategy() -> BoxedStrategy<SpaceCase> {
  (space_strategy(), 1u8..3)
    .prop_map(|(mut c, servers)| {
      c.servers = servers;
      c.busy = false;
      if servers > 1 {
        for s in c.batches.iter_mut().flatten().flat_map(|r| &mut r.jobs).flat_map(|j| &mut j.1) {
          s.docker = true;
          s.cache = false;
        }
      }
      c
    })
    .boxed()
}

#[cfg(feature = "remote")]
pub fn c28() -> Property {
  let mut assume = ASSUME.to_vec();
  assume.push("the client and the servers share one process and talk over loopback");
  (
    "stateful property-based testing: histories of workflows with real commands through 1-2 remote servers against the model of a local run",
    assume,
    vec![Part::new(
      "system",
      "1-3 batches of 1-2 workflows at once are run through a client and 1-2 servers with a runner and a working directory each; steps run on the host or in docker, write and list files, list the cache, fail, time out or are cancelled. Non-trivial: a step saw files of an earlier one.",
      1_800,
      40_000,
      remote_space_strategy,
      |c| worker::decide("space", c),
    )
    .shards(16)
    .boxed()],
  )
}

pub fn c24() -> Property {
  (
    "stateful property-based testing: steps that write and list files, over sequences of concurrent workflows, against a model of the directories",
    ASSUME.to_vec(),
    vec![Part::new(
      "spaces",
      "One runner executes 1-3 batches of 1-2 workflows at once (equal job names, with and without repository, ids used again later), each with 1-2 jobs of 1-3 host or docker steps that write files, list their directory and the cache, fail, time out or are cancelled. Non-trivial: a step saw files of an earlier one.",
      3_000,
      60_000,
      space_strategy,
      |c| worker::decide("space", c),
    )
    .shards(16)
    .fixed(vec![SpaceCase {
      batches: vec![
        vec![WRun { wf: 0, repo: Some(1), jobs: vec![(false, vec![plain_step()])] }],
        vec![WRun { wf: 0, repo: None, jobs: vec![(false, vec![plain_step()])] }],
      ],
      dir: 0,
      busy: false,
      servers: 0,
    }])
    .boxed()],
  )
}

fn plain_step() -> WStep {
  WStep {
    docker: false,
    writes: vec![1],
    cache: false,
    end: WEnd::Exit(0),
    continue_on_error: false,
  }
}

// ------------------------------------------------------------------------ C25

#[derive(Serialize, Deserialize, Clone, Debug)]
struct DockerCase {
  image: Option<String>,
  /// (host directory in scratch or named volume, container path, mode)
  volumes: Vec<(String, String, Option<String>)>,
  volumes_set: bool,
  security: Option<Vec<String>>,
  env: Vec<(String, EnvV)>,
  shebang: Option<String>,
  ops: Vec<Op>,
  end: End,
  event: Option<u8>,
  job: String,
  step: u8,
  dir: u8,
  busy: bool,
}

fn docker_worker(case: &DockerCase, scratch: &Path) -> CaseResult {
  confirmed(scratch, |scratch| {
    let wd = scratch.join(DIRS[case.dir as usize % 3]);
    let mut s = script(&case.ops, &case.end, &case.env);
    if let Some(b) = &case.shebang {
      s.text = format!("{}\n{}", b, s.text);
    }
    let volumes: Vec<String> = case
      .volumes
      .iter()
      .map(|(h, c, m)| {
        let host = match h.strip_prefix('/') {
          Some(h) => scratch.join("mounts").join(h).display().to_string(),
          None => h.clone(),
        };
        match m {
          Some(m) => format!("{}:{}:{}", host, c, m),
          None => format!("{}:{}", host, c),
        }
      })
      .collect();
    block(case.busy, async {
      let docker = DockerLog::new(scratch);
      let runner = AstroRunner::builder()
        .working_directory(wd.clone())
        .build()
        .map_err(|e| Fail::from(e.to_string()))?;
      let id = StepId::new("w0", case.job.clone(), case.step as usize);
      let container = case.image.as_ref().map(|i| ContainerOptions {
        name: i.clone(),
        volumes: case.volumes_set.then(|| volumes.clone()),
        security_opts: case.security.clone(),
      });
      let ctx = context(&id, s.text.clone(), container.clone(), &case.env, case.event.map(repo));
      let mut rx = Runner::run(&runner, ctx).await.map_err(|e| Fail::from(e.to_string()))?;
      let ran = collect(&mut rx, "the step never ended").await?;
      let calls = docker.calls();
      ensure!(
        calls.len() == 1 && calls[0].args.first().map(|a| a.as_str()) == Some("run"),
        "docker was called {} times: {:.1500?}",
        calls.len(),
        calls.iter().map(|c| &c.args).collect::<Vec<_>>()
      );
      let call = &calls[0];
      let r = worker::parse_run(&call.args[1..])
        .map_err(|e| Fail::from(format!("docker would not accept {:?}: {}", call.args, e)))?;
      ensure!(call.error.is_none(), "the container could not be started: {:?}", call.error);
      ensure!(
        r.image == case.image.clone().unwrap_or("ubuntu".into()) && r.command.is_empty(),
        "docker was to run {:?}, the configured image is {:?}: {:?}",
        r.image,
        case.image,
        call.args
      );
      ensure!(r.rm, "the container is not removed when it ends: {:?}", call.args);
      let mut want: Vec<String> = case.env.iter().map(|(k, v)| format!("{}={}", k, v.text())).collect();
      let mut got = r.env.clone();
      want.sort();
      got.sort();
      ensure!(got == want, "the container's environment is {:?}, configured is {:?}", got, want);
      let security = container.as_ref().and_then(|c| c.security_opts.clone()).unwrap_or_default();
      ensure!(
        r.security == security,
        "the container's security options are {:?}, configured are {:?}",
        r.security,
        security
      );
      let configured = container.as_ref().and_then(|c| c.volumes.clone()).unwrap_or_default();
      for v in &configured {
        let n = configured.iter().filter(|x| *x == v).count();
        ensure!(
          r.volumes.iter().filter(|x| *x == v).count() == n,
          "volume {:?} is configured, mounted are {:?}",
          v,
          r.volumes
        );
      }
      let rest: Vec<_> = r
        .volumes
        .iter()
        .filter(|v| !configured.contains(v))
        .map(|v| worker::split_volume(v))
        .collect();
      let workdir = r.workdir.clone().unwrap_or_default();
      let entry = r.entrypoint.clone().unwrap_or_default();
      for (host, _, _) in &rest {
        ensure!(
          Path::new(host).starts_with(&wd),
          "{:?} of the host is mounted, which was not configured",
          host
        );
      }
      let mut inner: Vec<&str> = rest.iter().map(|(_, c, _)| c.as_str()).collect();
      inner.sort();
      let mut expected = vec![workdir.as_str(), entry.as_str(), "/home/work/caches"];
      expected.sort();
      ensure!(
        inner == expected,
        "besides the configured volumes {:?} are mounted, expected the working directory {:?}, the entrypoint {:?} and the caches",
        inner,
        workdir,
        entry
      );
      let text = if s.text.starts_with("#!") {
        s.text.clone()
      } else {
        format!("#!/bin/sh\n{}", s.text)
      };
      ensure!(
        call.entrypoint.as_deref() == Some(text.as_bytes()) && call.executable,
        "the container ran {:?} (executable: {}), the step is {:?}",
        call.entrypoint.as_ref().map(|e| String::from_utf8_lossy(e).into_owned()),
        call.executable,
        text
      );
      same_lines("stdout", &ran.out, &lines(&s.out))?;
      same_lines("stderr", &ran.err, &lines(&s.err))?;
      same_end(&case.end, &ran.result)?;
      let special = case
        .env
        .iter()
        .any(|(_, v)| v.text().contains(['"', '\\', '$', '`', '\n']));
      Ok(
        CaseOk::new(!case.env.is_empty() || !configured.is_empty() || !s.out.is_empty())
          .tag(special, "environment with shell characters")
          .tag(case.volumes.iter().any(|v| v.2.is_some()) && case.volumes_set && case.image.is_some(), "volumes with a mode")
          .tag(case.busy, "slow file system")
          .tag(!matches!(case.end, End::Last | End::Exit(0)), "failing step"),
      )
    })
  })
}

fn docker_strategy() -> BoxedStrategy<DockerCase> {
  let image = prop_oneof![
    1 => Just(None),
    4 => "[a-z]{1,6}(/[a-z]{1,5})?(:[a-z0-9.]{1,5})?".prop_map(Some),
    1 => Just(Some("ghcr.io/o/i@sha256:0123abcd".to_string())),
  ];
  let volume = (
    prop_oneof!["/[a-z]{1,4}(/[a-z]{1,3})?", "/[a-z] [a-z]", "[a-z]{3,6}-vol"],
    "/(data|srv|opt)(/[a-z]{1,3})?",
    proptest::option::of(prop_oneof![Just("ro"), Just("rw"), Just("ro,z")].prop_map(String::from)),
  );
  let security = vec(
    prop_oneof![
      Just("seccomp=unconfined"),
      Just("no-new-privileges"),
      Just("label=type:svirt_apache_t"),
      Just("apparmor=unconfined")
    ]
    .prop_map(String::from),
    0..3,
  );
  (
    (image, vec(volume, 0..4), any::<bool>(), proptest::option::of(security)),
    env(),
    proptest::option::weighted(0.3, prop_oneof![Just("#!/bin/sh"), Just("#!/bin/bash"), Just("#! /bin/sh -u"), Just("\n#!/bin/bash"), Just(" #!/bin/sh"), Just("\t\n #! note"), Just("# !/bin/sh"), Just("#")].prop_map(String::from)),
    ops(8),
    end(),
    proptest::option::of(0u8..4),
    "[a-z]{1,5}(-[a-z]{1,3})?",
    0u8..12,
    0u8..3,
    proptest::bool::weighted(0.06),
  )
    .prop_map(|((image, volumes, volumes_set, security), env, shebang, ops, end, event, job, step, dir, busy)| DockerCase {
      image,
      volumes,
      volumes_set,
      security,
      env,
      shebang,
      ops,
      end,
      event,
      job,
      step,
      dir,
      busy,
    })
    .boxed()
}

pub fn c25() -> Property {
  (
    "property-based testing: a stand-in docker parses and records the call, compared with the configured container; the entrypoint's real output with the log",
    ASSUME.to_vec(),
    vec![Part::new(
      "containers",
      "Docker steps with generated images, volumes, security options, environments and scripts; some with a slow file system. Non-trivial: an environment, a volume or output.",
      15_000,
      300_000,
      docker_strategy,
      |c| worker::decide("docker", c),
    )
    .shards(16)
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C26

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Before {
  Pass,
  Fail,
  AppendRun,
  SetEnv,
  /// to a docker container or to the host
  Move(bool),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum When {
  Never,
  BeforeStart,
  During,
  AfterEnd,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct LifeCase {
  docker: bool,
  plugins: Vec<(Before, bool)>,
  when: When,
  cancel: bool,
  logs: u8,
  code: u8,
  /// the working directory cannot be used
  broken: bool,
  event: Option<u8>,
  dir: u8,
}

#[derive(Clone, Debug, PartialEq)]
enum Hook {
  Before(usize, String, Vec<String>),
  After(usize, String, Vec<String>, bool),
}

struct Hooks {
  k: usize,
  before: Before,
  after_fails: bool,
  log: Arc<Mutex<Vec<Hook>>>,
  end_marker: PathBuf,
  /// becomes true once the end of the step has been received
  received: tokio::sync::watch::Receiver<bool>,
  /// an after-run hook waited for that in vain
  early: Arc<AtomicBool>,
}

/// Where the step is to run, beside its variables.
fn place(c: Option<&ContainerOptions>) -> String {
  format!("@{}", c.map(|c| c.name.as_str()).unwrap_or("-"))
}

fn moved(docker: bool) -> ContainerOptions {
  if docker {
    ContainerOptions { name: "moved".into(), volumes: None, security_opts: None }
  } else {
    host_container(false)
  }
}

fn seen(ctx: &Context) -> (String, Vec<String>) {
  let mut env: Vec<String> = ctx
    .command
    .environments
    .iter()
    .map(|(k, v)| format!("{}={}", k, v))
    .collect();
  env.push(place(ctx.command.container.as_ref()));
  env.sort();
  (ctx.command.run.clone(), env)
}

fn hook_change(b: &Before, k: usize, run: &mut String, env: &mut Vec<String>) {
  match b {
    Before::AppendRun => *run = format!("echo from {}\n{}", k, run),
    Before::SetEnv => {
      env.push(format!("P{}=v", k));
      env.sort();
    }
    Before::Move(docker) => {
      env.retain(|e| !e.starts_with('@'));
      env.push(place(Some(&moved(*docker))));
      env.sort();
    }
    _ => {}
  }
}

#[async_trait]
impl Plugin for Hooks {
  fn name(&self) -> &'static str {
    "hooks"
  }

  async fn on_before_run(&self, mut ctx: Context) -> astro_run::Result<Context> {
    let (run, env) = seen(&ctx);
    self.log.lock().push(Hook::Before(self.k, run, env));
    let mut env = vec![];
    match self.before {
      Before::Fail => return Err(astro_run::Error::error("no")),
      Before::Move(docker) => ctx.command.container = Some(moved(docker)),
      _ => hook_change(&self.before, self.k, &mut ctx.command.run, &mut env),
    }
    for e in env {
      let Some((k, v)) = e.split_once('=') else {
        continue;
      };
      ctx.command.environments.insert(k.into(), v.into());
    }
    Ok(ctx)
  }

  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    let (run, env) = seen(&ctx);
    let mut received = self.received.clone();
    let wait = received.wait_for(|r| *r);
    if self.k == 0 && tokio::time::timeout(STALL / 3, wait).await.is_err() {
      self.early.store(true, Ordering::SeqCst);
    }
    self.log.lock().push(Hook::After(self.k, run, env, self.end_marker.exists()));
    if self.after_fails {
      return Err(astro_run::Error::error("no"));
    }
    Ok(())
  }
}

fn life_worker(case: &LifeCase, scratch: &Path) -> CaseResult {
  confirmed(scratch, |scratch| {
    let wd = scratch.join(DIRS[case.dir as usize % 3]);
    if case.broken {
      std::fs::write(&wd, b"a file").unwrap();
    }
    let marks = scratch.join("marks");
    std::fs::create_dir(&marks).unwrap();
    let (started, ended, pid) = (marks.join("started"), marks.join("ended"), marks.join("pid"));
    let mut text = format!("echo x > '{}'\necho data > d\n", started.display());
    for i in 0..case.logs {
      text.push_str(&format!("echo line {}\n", i));
    }
    if case.when == When::During {
      text.push_str(&format!("echo $$ > '{}'\necho ready\nsleep 15\n", pid.display()));
    }
    text.push_str(&format!("echo x > '{}'\nexit {}\n", ended.display(), case.code));

    let res = block(false, async {
      let docker = DockerLog::new(scratch);
      let log: Arc<Mutex<Vec<Hook>>> = Arc::default();
      let (is_received, received) = tokio::sync::watch::channel(false);
      let early_hook = Arc::new(AtomicBool::new(false));
      let mut b = AstroRunner::builder().working_directory(wd.clone());
      for (k, (before, after_fails)) in case.plugins.iter().enumerate() {
        b = b.plugin(Hooks {
          k,
          before: before.clone(),
          after_fails: *after_fails,
          log: log.clone(),
          end_marker: ended.clone(),
          received: received.clone(),
          early: early_hook.clone(),
        });
      }
      let runner = b.build().map_err(|e| Fail::from(e.to_string()))?;
      let id = StepId::new("w0", "job", 2);
      let container = (!case.docker).then(|| host_container(false));
      let from = place(container.as_ref());
      // where it runs in the end
      let docker_run = case.plugins.iter().fold(case.docker, |d, (b, _)| match b {
        Before::Move(to) => *to,
        _ => d,
      });
      let ctx = context(&id, text.clone(), container, &[], case.event.map(repo));
      let signal = ctx.signal.clone();
      let fire = || {
        let r = if case.cancel { signal.cancel() } else { signal.timeout() };
        r.map_err(|e| Fail::from(format!("the signal was refused: {}", e)))
      };
      if case.when == When::BeforeStart {
        fire()?;
      }
      let mut rx = Runner::run(&runner, ctx).await.map_err(|e| Fail::from(e.to_string()))?;

      let executes = !case.broken && case.when != When::BeforeStart;
      let mut head = vec![];
      if case.when == When::During && executes {
        let ready = async {
          while let Some(l) = rx.next().await {
            let done = l.message == "ready" || l.is_error();
            head.push(l.message);
            if done {
              break;
            }
          }
        };
        tokio::time::timeout(STALL, ready).await.map_err(|_| stall("the step never got going"))?;
        ensure!(head.last().map(|s| s.as_str()) == Some("ready"), "the step failed: {:?}", head);
        fire()?;
      }
      let ran = collect(&mut rx, "the step was not ended").await?;
      let early = ended.exists();
      is_received.send(true).ok();

      // after-run hooks follow the end
      let n = case.plugins.len();
      let hooked = eventually(|| {
        log.lock().iter().filter(|h| matches!(h, Hook::After(..))).count() >= n
      })
      .await;
      if !hooked {
        return Err(stall(&format!("on_after_run of {} plugins was not called: {:?}", n, log.lock())));
      }
      if early_hook.load(Ordering::SeqCst) {
        return Err(stall("on_after_run was called before the step was reported"));
      }
      if case.when == When::AfterEnd {
        fire()?;
      }
      if case.when != When::Never {
        tokio::time::sleep(Duration::from_millis(4)).await;
      }

      // results
      let signalled = matches!(case.when, When::BeforeStart | When::During) && !case.broken
        || case.when == When::BeforeStart;
      let want = if signalled && case.cancel {
        RunResult::Cancelled
      } else if signalled {
        RunResult::Failed { exit_code: 123 }
      } else if case.broken {
        RunResult::Failed { exit_code: 1 }
      } else if case.code == 0 {
        RunResult::Succeeded
      } else {
        RunResult::Failed {
          exit_code: case.code as i32,
        }
      };
      ensure!(ran.result == want, "the step is reported as {:?}, expected {:?}", ran.result, want);
      ensure!(
        started.exists() == executes,
        "the step was {}started",
        if executes { "not " } else { "" }
      );
      if case.when == When::During && executes {
        ensure!(!early, "the step ran to its end although it was interrupted");
      }

      // what it logged
      let mut out = head;
      out.extend(ran.out);
      let mut expected: Vec<String> = vec![];
      if executes {
        for (k, (b, _)) in case.plugins.iter().enumerate().rev() {
          if let Before::AppendRun = b {
            expected.push(format!("from {}", k));
          }
        }
        expected.extend((0..case.logs).map(|i| format!("line {}", i)));
        if case.when == When::During {
          expected.push("ready".into());
        }
      }
      same_lines("stdout", &out, &expected)?;

      // hooks
      let mut want = vec![];
      let (mut run, mut env) = (text.clone(), vec![from]);
      for (k, (b, _)) in case.plugins.iter().enumerate() {
        want.push(Hook::Before(k, run.clone(), env.clone()));
        hook_change(b, k, &mut run, &mut env);
      }
      let complete = executes && case.when != When::During;
      for k in 0..n {
        want.push(Hook::After(k, run.clone(), env.clone(), complete));
      }
      let got = log.lock().clone();
      ensure!(got == want, "the plugins saw {:?}, expected {:?}", got, want);

      // docker
      let calls = docker.calls();
      let runs: Vec<_> = calls.iter().filter(|c| c.args[0] == "run").collect();
      let kills: Vec<_> = calls.iter().filter(|c| c.args[0] == "kill").collect();
      ensure!(
        runs.len() == (executes && docker_run) as usize,
        "{} containers were started",
        runs.len()
      );
      if docker_run && executes && case.when == When::During {
        let name = worker::parse_run(&runs[0].args[1..]).ok().and_then(|r| r.name);
        ensure!(
          !kills.is_empty() && kills.iter().all(|k| k.args.last() == name.as_ref()),
          "container {:?} was to be killed, kill was called as {:?}",
          name,
          kills.iter().map(|k| &k.args).collect::<Vec<_>>()
        );
        ensure!(
          eventually(|| docker.running().is_empty()).await,
          "the interrupted container is still running"
        );
      } else {
        ensure!(kills.is_empty(), "docker was told to kill {:?}", kills.iter().map(|k| &k.args).collect::<Vec<_>>());
      }

      // the step's own files are gone, those of its job are not
      let own = || -> Vec<PathBuf> {
        files(&wd)
          .into_iter()
          .filter(|f| {
            std::fs::read(f)
              .map(|c| String::from_utf8_lossy(&c).contains(&started.display().to_string()))
              .unwrap_or(false)
          })
          .collect()
      };
      if !eventually(|| own().is_empty()).await {
        return Err(stall(&format!("the step's own files were not removed: {:?}", own())));
      }
      if complete {
        ensure!(
          files(&wd).iter().any(|f| f.file_name() == Some("d".as_ref())),
          "the files the step wrote for its job are gone; left is {:?}",
          files(&wd)
        );
      }
      Ok(
        CaseOk::new(case.when != When::Never || n > 0)
          .tag(case.when == When::During, "interrupted")
          .tag(case.when == When::BeforeStart, "signalled before the start")
          .tag(case.when == When::AfterEnd, "signalled after the end")
          .tag(docker_run, "docker")
          .tag(docker_run != case.docker, "moved by a plugin")
          .tag(case.broken, "unusable working directory")
          .tag(case.plugins.iter().any(|p| p.1 || matches!(p.0, Before::Fail)), "failing hooks"),
      )
    });
    if let Some(p) = std::fs::read_to_string(&pid).ok().and_then(|p| p.trim().parse::<i32>().ok()) {
      // the children first; all of this user
      let _ = std::process::Command::new("pkill").args(["-9", "-P", &p.to_string()]).status();
      unsafe { libc::kill(p, libc::SIGKILL) };
    }
    res
  })
}

fn life_strategy() -> BoxedStrategy<LifeCase> {
  let before = prop_oneof![
    Just(Before::Pass),
    Just(Before::Fail),
    Just(Before::AppendRun),
    Just(Before::SetEnv),
    any::<bool>().prop_map(Before::Move)
  ];
  (
    any::<bool>(),
    vec((before, proptest::bool::weighted(0.3)), 0..4),
    prop_oneof![
      1 => Just(When::Never),
      1 => Just(When::BeforeStart),
      2 => Just(When::During),
      1 => Just(When::AfterEnd)
    ],
    any::<bool>(),
    0u8..4,
    prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
    proptest::bool::weighted(0.07),
    proptest::option::of(0u8..4),
    0u8..3,
  )
    .prop_map(|(docker, plugins, when, cancel, logs, code, broken, event, dir)| LifeCase {
      docker,
      plugins,
      when: if broken && when == When::During { When::Never } else { when },
      cancel,
      logs,
      code,
      broken,
      event,
      dir,
    })
    .boxed()
}

pub fn c26() -> Property {
  (
    "property-based testing with injected signals and failing hooks: every step's result, hooks, container and files against a model",
    ASSUME.to_vec(),
    vec![Part::new(
      "lives",
      "Host and docker steps with 0-3 plugins (passing, failing, changing the step), cancelled or timed out before, during or after their execution, or with an unusable working directory. Non-trivial: a signal or a plugin.",
      15_000,
      300_000,
      life_strategy,
      |c| worker::decide("life", c),
    )
    .shards(16)
    .boxed()],
  )
}

pub fn serve(kind: &str, dir: &str) -> i32 {
  match kind {
    "host" => worker::serve(dir, host_worker),
    "exec" => worker::serve(dir, exec_worker),
    "space" => worker::serve(dir, space_worker),
    "docker" => worker::serve(dir, docker_worker),
    "life" => worker::serve(dir, life_worker),
    _ => 2,
  }
}
