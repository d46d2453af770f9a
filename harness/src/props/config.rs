//! C07-C09: from a user's YAML to the workflow that is executed.

use super::Property;
use crate::engine::{CaseOk, CaseResult, Fail, Part};
use crate::ensure;
use crate::spec::{self, CondSpec};
use crate::det;
use astro_run::{
  async_trait, Action, ActionSteps, AstroRun, Container, Context, EnvironmentVariable, Error,
  HookResolveActionResult, Plugin, RunResponse, Runner, UserActionStep, UserCommandStep, UserStep,
  Workflow,
};
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use serde_yaml::{Mapping, Value as Yaml};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

/// Succeeds every step at once.
pub struct QuickRunner;

#[async_trait]
impl Runner for QuickRunner {
  async fn run(&self, _ctx: Context) -> RunResponse {
    let (tx, rx) = astro_run::stream();
    tx.succeeded();
    Ok(rx)
  }
}

/// Builds (and optionally runs) a workflow on a thread of its own; the run
/// yields the number of jobs in its result, or None if it never completes.
fn build(seed: u64, yaml: String, astro: AstroRun, run: bool) -> Result<Built, Fail> {
  det::on_fresh_thread(seed, Duration::from_secs(60), move || {
    det::block_on_virtual(seed, async move {
      let res = Workflow::builder().id("wf").config(yaml).build(&astro).await;
      let ran = match &res {
        Ok(w) if run => {
          let ctx = astro.execution_context().build();
          let r = tokio::time::timeout(Duration::from_secs(40_000), w.run(ctx)).await;
          Some(r.ok().map(|r| r.jobs.len()))
        }
        _ => None,
      };
      Built {
        res: res.map_err(|e| (format!("{:?}", e), e.to_string())),
        ran,
      }
    })
  })
  .map_err(|e| e.into())
}

struct Built {
  res: Result<Workflow, (String, String)>,
  ran: Option<Option<usize>>,
}

// ------------------------------------------------------------------------ C07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GraphCase {
  pub seed: u64,
  /// per job: number of steps, dependencies (by index; may not exist)
  pub jobs: Vec<(u8, Option<Vec<u8>>)>,
  pub timeout: Option<String>,
  pub bad_step: bool,
}

fn graph_case() -> BoxedStrategy<GraphCase> {
  let job = (
    prop_oneof![12 => 1u8..3, 1 => Just(0u8)],
    option::weighted(0.75, vec(prop_oneof![20 => 0u8..7, 1 => 7u8..9], 0..3)),
  );
  let timeout = prop_oneof![
    8 => Just(None),
    2 => duration().prop_map(|(s, _)| Some(s)),
    1 => bad_duration().prop_map(Some),
  ];
  // long chains in any order, some of them closed to a cycle
  let chain = (2usize..16)
    .prop_flat_map(|n| {
      (
        Just((0..n as u8).collect::<Vec<_>>()).prop_shuffle(),
        proptest::bool::weighted(0.4),
        vec((any::<u8>(), any::<u8>()), 0..3),
      )
    })
    .prop_map(|(order, closed, extra)| {
      let n = order.len();
      let mut jobs: Vec<(u8, Option<Vec<u8>>)> = vec![(1, None); n];
      for w in order.windows(2) {
        jobs[w[1] as usize].1.get_or_insert_with(Vec::new).push(w[0]);
      }
      let back = n / 2 + (n > 3) as usize;
      if closed {
        // the end of the chain is needed by its start, or by its middle
        let at = order[(extra.len() * back) % n];
        jobs[at as usize].1.get_or_insert_with(Vec::new).push(order[n - 1]);
      }
      for (a, b) in extra {
        // forward edges change nothing
        let (a, b) = (a as usize % n, b as usize % n);
        if a < b {
          jobs[order[b] as usize].1.get_or_insert_with(Vec::new).push(order[a]);
        }
      }
      jobs
    });
  let jobs = prop_oneof![9 => vec(job, 0..8), 1 => chain];
  (any::<u64>(), jobs, timeout, proptest::bool::weighted(0.05))
    .prop_map(|(seed, jobs, timeout, bad_step)| GraphCase {
      seed,
      jobs,
      timeout,
      bad_step,
    })
    .boxed()
}

/// humantime's documented grammar, with the value it denotes in nanoseconds.
pub fn duration() -> BoxedStrategy<(String, u128)> {
  const UNITS: [(&str, u128); 22] = [
    ("ns", 1),
    ("nsec", 1),
    ("us", 1_000),
    ("usec", 1_000),
    ("ms", 1_000_000),
    ("msec", 1_000_000),
    ("s", 1_000_000_000),
    ("sec", 1_000_000_000),
    ("seconds", 1_000_000_000),
    ("m", 60_000_000_000),
    ("min", 60_000_000_000),
    ("minutes", 60_000_000_000),
    ("h", 3_600_000_000_000),
    ("hr", 3_600_000_000_000),
    ("hours", 3_600_000_000_000),
    ("d", 86_400_000_000_000),
    ("day", 86_400_000_000_000),
    ("days", 86_400_000_000_000),
    ("w", 604_800_000_000_000),
    ("week", 604_800_000_000_000),
    ("weeks", 604_800_000_000_000),
    ("hour", 3_600_000_000_000),
  ];
  vec((0u64..1000, 0usize..UNITS.len(), any::<bool>(), any::<bool>()), 1..3)
    .prop_map(|parts| {
      let mut text = String::new();
      let mut total = 0u128;
      for (i, (n, u, space, glue)) in parts.iter().enumerate() {
        let (unit, ns) = UNITS[*u];
        if i > 0 && *space {
          text.push(' ');
        }
        text.push_str(&n.to_string());
        if *glue {
          text.push(' ');
        }
        text.push_str(unit);
        total += *n as u128 * ns;
      }
      (text, total)
    })
    .boxed()
}

fn bad_duration() -> BoxedStrategy<String> {
  prop_oneof![
    Just("".to_string()),
    Just("10".to_string()),
    Just("1ss".to_string()),
    Just("-5m".to_string()),
    Just("abc".to_string()),
    Just("m".to_string()),
    Just("10 parsecs".to_string()),
    Just("1m 2".to_string()),
    Just("99999999999999999999s".to_string()),
  ]
  .boxed()
}

fn graph_yaml(c: &GraphCase) -> String {
  let mut jobs = Mapping::new();
  for (i, (steps, deps)) in c.jobs.iter().enumerate() {
    let mut m = Mapping::new();
    if let Some(d) = deps {
      m.insert(
        "depends-on".into(),
        Yaml::Sequence(d.iter().map(|x| Yaml::from(format!("j{}", x))).collect()),
      );
    }
    let mut list = vec![];
    for k in 0..*steps {
      let mut s = Mapping::new();
      if c.bad_step && i == 0 && k == 0 {
        s.insert("name".into(), "neither run nor uses".into());
      } else {
        s.insert("run".into(), "true".into());
      }
      if i == 0 && k == 0 {
        if let Some(t) = &c.timeout {
          s.insert("timeout".into(), t.clone().into());
        }
      }
      list.push(Yaml::Mapping(s));
    }
    m.insert("steps".into(), Yaml::Sequence(list));
    jobs.insert(format!("j{}", i).into(), Yaml::Mapping(m));
  }
  let mut root = Mapping::new();
  root.insert("jobs".into(), Yaml::Mapping(jobs));
  serde_yaml::to_string(&Yaml::Mapping(root)).unwrap()
}

fn timeout_ok(t: &str) -> bool {
  // the generator's own invalid forms
  !matches!(
    t,
    "" | "10" | "1ss" | "-5m" | "abc" | "m" | "10 parsecs" | "1m 2" | "99999999999999999999s"
  )
}

fn acyclic(deps: &[BTreeSet<usize>]) -> bool {
  let mut done: BTreeSet<usize> = BTreeSet::new();
  loop {
    let before = done.len();
    for (i, d) in deps.iter().enumerate() {
      if d.is_subset(&done) {
        done.insert(i);
      }
    }
    if done.len() == deps.len() {
      return true;
    }
    if done.len() == before {
      return false;
    }
  }
}

fn c07_graph(c: &GraphCase) -> CaseResult {
  let n = c.jobs.len();
  let deps: Vec<BTreeSet<usize>> = c
    .jobs
    .iter()
    .map(|(_, d)| d.iter().flatten().map(|x| *x as usize).collect())
    .collect();
  let missing = deps.iter().any(|d| d.iter().any(|x| *x >= n));
  let cyclic = !missing && !acyclic(&deps);
  let mut reasons = vec![];
  if n == 0 {
    reasons.push("it has no job");
  }
  if missing {
    reasons.push("a dependency does not exist");
  }
  if cyclic {
    reasons.push("its dependencies form a cycle");
  }
  if c.jobs.iter().any(|(s, _)| *s == 0) {
    reasons.push("a job has no step");
  }
  let first = c.jobs.first().map(|j| j.0 > 0).unwrap_or(false);
  if first && c.bad_step {
    reasons.push("a step has neither run nor uses");
  }
  if first && c.timeout.as_deref().map(|t| !timeout_ok(t)).unwrap_or(false) {
    reasons.push("a timeout is malformed");
  }
  let astro = AstroRun::builder().runner(QuickRunner).build();
  let built = build(c.seed, graph_yaml(c), astro, true)?;
  match (&built.res, reasons.is_empty()) {
    (Ok(_), true) => {
      ensure!(
        built.ran == Some(Some(n)),
        "an accepted workflow with {} jobs never completed (or lost jobs): {:?}\n{}",
        n,
        built.ran,
        graph_yaml(c)
      );
    }
    (Err((_, e)), true) => {
      return Err(format!("a valid workflow was rejected: {}\n{}", e, graph_yaml(c)).into())
    }
    (Ok(_), false) => {
      return Err(
        format!(
          "an invalid workflow was accepted although {}\n{}",
          reasons.join(" and "),
          graph_yaml(c)
        )
        .into(),
      )
    }
    (Err((debug, _)), false) => {
      ensure!(
        debug.starts_with("WorkflowConfigError"),
        "a configuration mistake was reported as {}",
        debug
      );
    }
  }
  let edges: usize = deps.iter().map(|d| d.len()).sum();
  Ok(
    CaseOk::new(edges > 0)
      .tag(cyclic, "cyclic")
      .tag(
        cyclic && c.jobs.iter().any(|(_, d)| d.as_ref().map(|d| d.is_empty()).unwrap_or(true)),
        "cyclic-with-a-free-job",
      )
      .tag(missing, "missing-dependency")
      .tag(reasons.is_empty(), "valid"),
  )
}

/// Text close to a workflow: fragments, mutations and garbage.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TextCase {
  pub seed: u64,
  pub text: String,
}

fn text_case() -> BoxedStrategy<TextCase> {
  let line = (0usize..5, 0usize..TOKENS.len(), option::of(0usize..VALUES.len()))
    .prop_map(|(indent, t, v)| {
      format!(
        "{}{}{}",
        "  ".repeat(indent),
        TOKENS[t],
        v.map(|v| VALUES[v]).unwrap_or("")
      )
    });
  let soup = vec(line, 0..14).prop_map(|l| l.join("\n"));
  let mutated = (
    (0usize..BASES.len()),
    vec((0usize..2000, 0u8..5, any::<char>(), 0usize..TOKENS.len()), 1..5),
  )
    .prop_map(|(b, edits)| {
      let mut c: Vec<char> = BASES[b].chars().collect();
      for (at, kind, ch, tok) in edits {
        if c.is_empty() {
          break;
        }
        let at = at % c.len();
        match kind {
          0 => {
            c.remove(at);
          }
          1 => c.insert(at, ch),
          2 => c[at] = ch,
          3 => {
            let end = (at + 12).min(c.len());
            let piece: Vec<char> = c[at..end].to_vec();
            for (k, p) in piece.into_iter().enumerate() {
              c.insert(at + k, p);
            }
          }
          _ => {
            // replace a whole line
            let text: String = c.iter().collect();
            let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            if !lines.is_empty() {
              let k = at % lines.len();
              let indent: String = lines[k].chars().take_while(|x| *x == ' ').collect();
              lines[k] = format!("{}{}", indent, TOKENS[tok]);
            }
            c = lines.join("\n").chars().collect();
          }
        }
      }
      c.into_iter().collect::<String>()
    });
  let nested = (1usize..400, 0u8..3).prop_map(|(n, k)| match k {
    0 => format!("jobs: {}{}", "[".repeat(n), "]".repeat(n)),
    1 => format!("jobs:\n  a:\n    steps:\n      - uses: x\n        with: {}1{}", "{a: ".repeat(n), "}".repeat(n)),
    _ => format!("a: &a [x]\nb: &b [{}]\njobs: *b", "*a,".repeat(n)),
  });
  (
    any::<u64>(),
    prop_oneof![6 => mutated, 3 => soup, 1 => nested, 1 => "\\PC{0,60}"],
  )
    .prop_map(|(seed, text)| TextCase { seed, text })
    .boxed()
}

const TOKENS: [&str; 34] = [
  "jobs:", "a:", "b:", "steps:", "- run: echo", "- uses: known", "- uses: missing", "name: x",
  "on:", "push:", "branches: [main]", "paths: ['**/*.rs']", "pull_request:", "depends-on: [a]",
  "depends-on: a", "depends-on: []", "container: alpine", "container:", "volumes: [a:b]",
  "security-opts: [x]", "timeout: 1h", "timeout: 5", "timeout: x", "continue-on-error: true",
  "continue-on-error: maybe", "environments:", "A: 1", "B: 0x10", "secrets: [A]",
  "working-directories: [/x]", "on: [push]", "- {run: a, uses: known}", "with: {a: [1, 2]}", "- []",
];

const VALUES: [&str; 10] = [" null", " ~", " []", " {}", " 'x'", " 1.5", " !!binary aGk=", " &a b", " *a", " |"];

const BASES: [&str; 3] = [
  "name: t\non:\n  push:\n    branches: [main]\n    paths: ['src/**']\njobs:\n  a:\n    name: A\n    container: alpine\n    working-directories: [/w]\n    steps:\n      - run: echo hi\n        timeout: 5m\n        continue-on-error: true\n        environments:\n          K: v\n          N: 1\n        secrets: [S]\n      - uses: known\n        with:\n          x: 1\n  b:\n    depends-on: [a]\n    steps:\n      - name: s\n        container:\n          name: c\n          volumes: ['a:b']\n          security-opts: ['x=y']\n        run: |\n          one\n          two\n",
  "jobs:\n  a:\n    steps:\n      - run: x\n  b:\n    depends-on: [a]\n    steps:\n      - run: y\n  c:\n    depends-on: [a, b]\n    on: [push, pull_request]\n    steps:\n      - run: z\n",
  "{\"jobs\": {\"a\": {\"steps\": [{\"run\": \"x\"}]}, \"b\": {\"depends-on\": [\"a\"], \"steps\": [{\"uses\": \"known\"}]}}}",
];

struct Echo;
impl Action for Echo {
  fn normalize(&self, step: UserActionStep) -> astro_run::Result<ActionSteps> {
    Ok(ActionSteps {
      pre: None,
      run: UserStep::Command(UserCommandStep {
        run: format!("echo {}", step.uses),
        ..Default::default()
      }),
      post: None,
    })
  }
}

fn c07_text(c: &TextCase) -> CaseResult {
  let astro = AstroRun::builder()
    .runner(QuickRunner)
    .action("known", Echo)
    .build();
  let built = build(c.seed, c.text.clone(), astro, true)?;
  let mut accepted = false;
  if let Ok(w) = &built.res {
    accepted = true;
    ensure!(!w.jobs.is_empty(), "accepted a workflow without jobs: {:?}", c.text);
    let keys: Vec<&String> = w.jobs.keys().collect();
    let deps: Vec<BTreeSet<usize>> = w
      .jobs
      .values()
      .map(|j| {
        j.depends_on
          .iter()
          .map(|d| keys.iter().position(|k| *k == d).unwrap_or(usize::MAX))
          .collect()
      })
      .collect();
    ensure!(
      deps.iter().all(|d| !d.contains(&usize::MAX)),
      "accepted a dependency on an unknown job: {:?}",
      c.text
    );
    ensure!(acyclic(&deps), "accepted cyclic dependencies: {:?}", c.text);
    for (k, j) in &w.jobs {
      ensure!(!j.steps.is_empty(), "accepted a job without steps: {:?}", c.text);
      ensure!(
        j.id.job_key() == *k && j.id.workflow_id() == w.id,
        "job {} has id {:?}",
        k,
        j.id
      );
      for (i, s) in j.steps.iter().enumerate() {
        ensure!(
          s.id.step_number() == i && s.id.job_id() == j.id,
          "step {} of {} has id {:?}",
          i,
          k,
          s.id
        );
      }
    }
    ensure!(
      built.ran == Some(Some(w.jobs.len())),
      "an accepted workflow never completed: {:?}",
      c.text
    );
  }
  Ok(
    CaseOk::new(!c.text.trim().is_empty())
      .tag(accepted, "accepted")
      .tag(built.res.is_err(), "rejected"),
  )
}

pub fn c07() -> Property {
  (
    "property-based testing: generated job graphs against a reference validator, and grammar/mutation fuzzing of the YAML text",
    vec!["workflows are built and run in-process; the runner is a stand-in that succeeds at once"],
    vec![
      Part::new(
        "graphs",
        "cases: job maps with random (also cyclic, self-referring, dangling, empty) dependency lists, step counts, timeouts; accepted ones are also run to completion; non-trivial: at least one dependency; distinct by case",
        100_000,
        3_000_000,
        graph_case,
        c07_graph,
      )
      .fixed(vec![
        GraphCase { seed: 1, jobs: vec![(1, None), (1, Some(vec![1]))], timeout: None, bad_step: false },
        GraphCase { seed: 1, jobs: vec![(1, None), (1, Some(vec![2])), (1, Some(vec![1]))], timeout: None, bad_step: false },
        GraphCase { seed: 1, jobs: vec![], timeout: None, bad_step: false },
      ])
      .boxed(),
      Part::new(
        "text",
        "cases: mutated workflow files, soups of workflow keywords, deep nestings and arbitrary text; non-trivial: text is not blank; distinct by case",
        80_000,
        3_000_000,
        text_case,
        c07_text,
      )
      .boxed(),
    ],
  )
}

// ------------------------------------------------------------------------ C08

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum EnvVal {
  S(String),
  I(i32),
  F(i32, u8),
  B(bool),
}

impl EnvVal {
  fn yaml(&self) -> Yaml {
    match self {
      EnvVal::S(s) => s.clone().into(),
      EnvVal::I(i) => (*i).into(),
      EnvVal::F(a, b) => self.f(*a, *b).into(),
      EnvVal::B(b) => (*b).into(),
    }
  }
  fn f(&self, a: i32, b: u8) -> f64 {
    a as f64 + (b % 4) as f64 / 4.0
  }
  pub fn json(&self) -> Value {
    match self {
      EnvVal::S(s) => s.clone().into(),
      EnvVal::I(i) => (*i as f64).into(),
      EnvVal::F(a, b) => self.f(*a, *b).into(),
      EnvVal::B(b) => (*b).into(),
    }
  }
  pub fn expect(&self) -> EnvironmentVariable {
    match self {
      EnvVal::S(s) => EnvironmentVariable::String(s.clone()),
      EnvVal::I(i) => EnvironmentVariable::Number(*i as f64),
      EnvVal::F(a, b) => EnvironmentVariable::Number(self.f(*a, *b)),
      EnvVal::B(b) => EnvironmentVariable::Boolean(*b),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ContainerSpec {
  Name(String),
  Options {
    name: String,
    volumes: Option<Vec<String>>,
    security: Option<Vec<String>>,
  },
}

impl ContainerSpec {
  fn yaml(&self) -> Yaml {
    match self {
      ContainerSpec::Name(n) => n.clone().into(),
      ContainerSpec::Options {
        name,
        volumes,
        security,
      } => {
        let mut m = Mapping::new();
        m.insert("name".into(), name.clone().into());
        if let Some(v) = volumes {
          m.insert("volumes".into(), strings(v));
        }
        if let Some(v) = security {
          m.insert("security-opts".into(), strings(v));
        }
        Yaml::Mapping(m)
      }
    }
  }
  fn expect(&self) -> (String, Option<Vec<String>>, Option<Vec<String>>) {
    match self {
      ContainerSpec::Name(n) => (n.clone(), None, None),
      ContainerSpec::Options {
        name,
        volumes,
        security,
      } => (name.clone(), volumes.clone(), security.clone()),
    }
  }
}

fn strings(v: &[String]) -> Yaml {
  Yaml::Sequence(v.iter().map(|s| Yaml::from(s.clone())).collect())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CmdSpec {
  pub name: Option<String>,
  pub container: Option<ContainerSpec>,
  pub run: String,
  pub on: Option<CondSpec>,
  pub continue_on_error: Option<bool>,
  pub env: Option<Vec<(String, EnvVal)>>,
  pub secrets: Option<Vec<String>>,
  pub timeout: Option<(String, u64)>,
  /// also carries a `uses` key
  pub uses_too: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct JobConf {
  pub name: Option<String>,
  pub on: Option<CondSpec>,
  pub container: Option<ContainerSpec>,
  pub dirs: Option<Vec<String>>,
  pub deps: Option<Vec<u8>>,
  pub steps: Vec<CmdSpec>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FidelityCase {
  pub seed: u64,
  pub id: String,
  pub name: Option<String>,
  pub on: Option<CondSpec>,
  pub jobs: Vec<(String, JobConf)>,
  pub json: bool,
}

pub fn text() -> BoxedStrategy<String> {
  prop_oneof![
    6 => "[a-zA-Z0-9 _./:-]{0,14}",
    2 => "\\PC{0,12}",
    1 => prop_oneof![
      Just("true"), Just("null"), Just("~"), Just("1.0"), Just("0x1F"), Just("- a"), Just("a: b"),
      Just("# c"), Just("'"), Just("\""), Just("line\nbreak"), Just("tab\tx"), Just("yes"), Just("[x]"),
      Just("{a}"), Just("&a"), Just("*a"), Just("!t"), Just("%"), Just("@"), Just("|"), Just(">"),
      Just("trailing \n"), Just("\n\nlead"), Just("1e3"), Just("2001-01-01"), Just(" sp "), Just("cr\r\nlf")
    ].prop_map(|s| s.to_string()),
  ]
  .boxed()
}

fn container() -> BoxedStrategy<ContainerSpec> {
  prop_oneof![
    "[a-z/:.-]{1,12}".prop_map(ContainerSpec::Name),
    (text(), option::of(spec::list(text, 3, 8)), option::of(spec::list(text, 3, 8))).prop_map(
      |(name, volumes, security)| ContainerSpec::Options {
        name,
        volumes,
        security
      }
    ),
  ]
  .boxed()
}

pub fn env() -> BoxedStrategy<Vec<(String, EnvVal)>> {
  env_of(|| "[A-Za-z_][A-Za-z0-9_]{0,6}".boxed())
}

/// Any text may name an environment variable in a configuration.
fn conf_env() -> BoxedStrategy<Vec<(String, EnvVal)>> {
  prop_oneof![4 => env(), 1 => env_of(text)].boxed()
}

fn env_of(key: fn() -> BoxedStrategy<String>) -> BoxedStrategy<Vec<(String, EnvVal)>> {
  let val = prop_oneof![
    4 => text().prop_map(EnvVal::S),
    2 => any::<i32>().prop_map(EnvVal::I),
    1 => (any::<i32>(), any::<u8>()).prop_map(|(a, b)| EnvVal::F(a, b)),
    1 => any::<bool>().prop_map(EnvVal::B),
  ];
  spec::list(move || (key(), val.clone()), 4, 20)
    .prop_map(|v| {
      let mut seen = BTreeSet::new();
      v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect()
    })
    .boxed()
}

fn cmd() -> BoxedStrategy<CmdSpec> {
  (
    (
      option::weighted(0.3, text()),
      option::weighted(0.3, container()),
      text(),
      option::weighted(0.2, spec::cond()),
      option::weighted(0.4, any::<bool>()),
    ),
    option::weighted(0.4, conf_env()),
    option::weighted(0.3, spec::list(text, 3, 8)),
    option::weighted(0.4, duration()),
    proptest::bool::weighted(0.05),
  )
    .prop_map(
      |((name, container, run, on, continue_on_error), env, secrets, timeout, uses_too)| CmdSpec {
        name,
        container,
        run,
        on,
        continue_on_error,
        env,
        secrets,
        timeout: timeout.map(|(s, ns)| (s, ns as u64)),
        uses_too,
      },
    )
    .boxed()
}

fn fidelity_case() -> BoxedStrategy<FidelityCase> {
  let job = (
    option::weighted(0.3, text()),
    option::weighted(0.2, spec::cond()),
    option::weighted(0.3, container()),
    option::weighted(0.3, spec::list(text, 3, 8)),
    option::weighted(0.5, vec(0u8..4, 0..3)),
    prop_oneof![12 => vec(cmd(), 1..5), 1 => vec(cmd(), 9..14)],
  )
    .prop_map(|(name, on, container, dirs, deps, steps)| JobConf {
      name,
      on,
      container,
      dirs,
      deps,
      steps,
    })
    .boxed();
  let named = (prop_oneof![4 => "[a-zA-Z0-9_-]{1,8}", 1 => text()], job).boxed();
  (
    any::<u64>(),
    "[a-z0-9-]{1,10}",
    option::weighted(0.5, text()),
    option::weighted(0.3, spec::cond()),
    prop_oneof![14 => vec(named.clone(), 1..4), 1 => vec(named, 4..10)],
    any::<bool>(),
  )
    .prop_map(|(seed, id, name, on, jobs, json)| {
      let mut seen = BTreeSet::new();
      let jobs: Vec<_> = jobs.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect();
      FidelityCase {
        seed,
        id,
        name,
        on,
        jobs,
        json,
      }
    })
    .boxed()
}

fn deps_of(c: &FidelityCase, j: usize) -> Option<Vec<String>> {
  // only edges to earlier jobs: the graph stays valid
  c.jobs[j].1.deps.as_ref().map(|d| {
    d.iter()
      .filter(|_| j > 0)
      .map(|x| c.jobs[*x as usize % j.max(1)].0.clone())
      .collect()
  })
}

fn fidelity_doc(c: &FidelityCase) -> Yaml {
  let mut jobs = Mapping::new();
  for (j, (key, job)) in c.jobs.iter().enumerate() {
    let mut m = Mapping::new();
    if let Some(n) = &job.name {
      m.insert("name".into(), n.clone().into());
    }
    if let Some(on) = &job.on {
      m.insert("on".into(), on.yaml());
    }
    if let Some(x) = &job.container {
      m.insert("container".into(), x.yaml());
    }
    if let Some(d) = &job.dirs {
      m.insert("working-directories".into(), strings(d));
    }
    if let Some(d) = deps_of(c, j) {
      m.insert("depends-on".into(), strings(&d));
    }
    let steps = job
      .steps
      .iter()
      .map(|s| {
        let mut m = Mapping::new();
        if let Some(n) = &s.name {
          m.insert("name".into(), n.clone().into());
        }
        if let Some(x) = &s.container {
          m.insert("container".into(), x.yaml());
        }
        m.insert("run".into(), s.run.clone().into());
        if s.uses_too {
          m.insert("uses".into(), "nothing".into());
        }
        if let Some(on) = &s.on {
          m.insert("on".into(), on.yaml());
        }
        if let Some(x) = s.continue_on_error {
          m.insert("continue-on-error".into(), x.into());
        }
        if let Some(e) = &s.env {
          let mut em = Mapping::new();
          for (k, v) in e {
            em.insert(k.clone().into(), v.yaml());
          }
          m.insert("environments".into(), Yaml::Mapping(em));
        }
        if let Some(x) = &s.secrets {
          m.insert("secrets".into(), strings(x));
        }
        if let Some((t, _)) = &s.timeout {
          m.insert("timeout".into(), t.clone().into());
        }
        Yaml::Mapping(m)
      })
      .collect();
    m.insert("steps".into(), Yaml::Sequence(steps));
    jobs.insert(key.clone().into(), Yaml::Mapping(m));
  }
  let mut root = Mapping::new();
  if let Some(n) = &c.name {
    root.insert("name".into(), n.clone().into());
  }
  if let Some(on) = &c.on {
    root.insert("on".into(), on.yaml());
  }
  root.insert("jobs".into(), Yaml::Mapping(jobs));
  Yaml::Mapping(root)
}

/// The JSON shape of astro_run::Condition for a generated one.
pub fn cond_json(c: &CondSpec) -> Value {
  match c {
    CondSpec::Events(e) => serde_json::json!(e),
    CondSpec::Config { push, pull_request } => {
      let f = |x: &Option<spec::FilterSpec>| match x {
        None => Value::Null,
        Some(f) => serde_json::json!({"branches": f.branches, "paths": f.paths}),
      };
      serde_json::json!({"push": f(push), "pull_request": f(pull_request)})
    }
  }
}

fn c08_check(c: &FidelityCase) -> CaseResult {
  let doc = fidelity_doc(c);
  let json = serde_json::to_string(&doc).unwrap();
  // JSON is YAML only without YAML's additional line breaks in it
  let breaks = ['\u{85}', '\u{2028}', '\u{2029}', '\u{feff}'];
  let yaml = if c.json && !json.contains(breaks) {
    json
  } else {
    serde_yaml::to_string(&doc).unwrap()
  };
  let astro = AstroRun::builder().runner(QuickRunner).build();
  let (seed, id, y) = (c.seed, c.id.clone(), yaml.clone());
  let res = det::on_fresh_thread(seed, Duration::from_secs(60), move || {
    det::block_on_virtual(seed, async move {
      Workflow::builder().id(id).config(y).build(&astro).await
    })
  })?;
  let w = match res {
    Ok(w) => w,
    Err(e) => return Err(format!("a valid workflow was rejected: {}\n{}", e, yaml).into()),
  };
  let on = |got: &Option<astro_run::Condition>, want: &Option<CondSpec>, what: &str| -> Result<(), Fail> {
    let got = got.as_ref().map(|g| serde_json::to_value(g).unwrap());
    let want = want.as_ref().map(cond_json);
    ensure!(got == want, "{}: condition {:?}, configured {:?}", what, got, want);
    Ok(())
  };
  ensure!(w.id.inner() == c.id, "workflow id {:?}", w.id);
  ensure!(w.name == c.name, "workflow name {:?}, configured {:?}", w.name, c.name);
  on(&w.on, &c.on, "workflow")?;
  ensure!(w.jobs.len() == c.jobs.len(), "{} jobs, configured {}", w.jobs.len(), c.jobs.len());
  let mut nontrivial = false;
  for (j, (key, conf)) in c.jobs.iter().enumerate() {
    let Some(job) = w.jobs.get(key) else {
      return Err(format!("job {:?} is missing", key).into());
    };
    ensure!(
      job.id.job_key() == *key && job.id.workflow_id() == w.id,
      "job {:?} has id {:?}",
      key,
      job.id
    );
    ensure!(job.name == conf.name, "job {:?} is named {:?}, configured {:?}", key, job.name, conf.name);
    on(&job.on, &conf.on, key)?;
    let want = deps_of(c, j).unwrap_or_default();
    ensure!(job.depends_on == want, "job {:?} depends on {:?}, configured {:?}", key, job.depends_on, want);
    let want = conf.dirs.clone().unwrap_or_default();
    ensure!(
      job.working_directories == want,
      "job {:?} has directories {:?}, configured {:?}",
      key,
      job.working_directories,
      want
    );
    ensure!(
      job.steps.len() == conf.steps.len(),
      "job {:?} has {} steps, configured {}",
      key,
      job.steps.len(),
      conf.steps.len()
    );
    for (i, (s, sc)) in job.steps.iter().zip(&conf.steps).enumerate() {
      let what = format!("step {} of {:?}", i, key);
      ensure!(s.id.job_id() == job.id && s.id.step_number() == i, "{} has id {:?}", what, s.id);
      ensure!(s.name == sc.name, "{} is named {:?}, configured {:?}", what, s.name, sc.name);
      ensure!(s.run == sc.run, "{} runs {:?}, configured {:?}", what, s.run, sc.run);
      on(&s.on, &sc.on, &what)?;
      ensure!(
        s.continue_on_error == sc.continue_on_error.unwrap_or(false),
        "{}: continue_on_error {}, configured {:?}",
        what,
        s.continue_on_error,
        sc.continue_on_error
      );
      let got: BTreeMap<_, _> = s.environments.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
      let want: BTreeMap<_, _> =
        sc.env.iter().flatten().map(|(k, v)| (k.clone(), v.expect())).collect();
      ensure!(got == want, "{}: environment {:?}, configured {:?}", what, got, want);
      ensure!(
        s.secrets == sc.secrets.clone().unwrap_or_default(),
        "{}: secrets {:?}, configured {:?}",
        what,
        s.secrets,
        sc.secrets
      );
      let want = sc.timeout.as_ref().map(|(_, ns)| *ns).unwrap_or(3_600_000_000_000);
      ensure!(
        s.timeout.as_nanos() == want as u128,
        "{}: timeout {:?}, configured {:?}",
        what,
        s.timeout,
        sc.timeout
      );
      let got = s
        .container
        .as_ref()
        .map(|x| (x.name.clone(), x.volumes.clone(), x.security_opts.clone()));
      let want = sc.container.as_ref().or(conf.container.as_ref()).map(|x| x.expect());
      ensure!(got == want, "{}: container {:?}, configured {:?}", what, got, want);
      nontrivial |= sc.env.is_some() || sc.timeout.is_some() || sc.container.is_some();
    }
  }
  let both = c
    .jobs
    .iter()
    .any(|(_, j)| j.container.is_some() && j.steps.iter().any(|s| s.container.is_some()));
  Ok(
    CaseOk::new(nontrivial)
      .tag(both, "step-container-overrides-job")
      .tag(c.json, "json-spelling"),
  )
}

pub fn c08() -> Property {
  (
    "property-based testing: round trip of generated configurations through YAML/JSON and the parser, field by field",
    vec![],
    vec![Part::new(
      "fidelity",
      "cases: random workflow configurations (every documented key, YAML-hostile strings, every duration unit) written as YAML or JSON; non-trivial: some step sets an environment, a timeout or a container; distinct by case",
      60_000,
      3_000_000,
      fidelity_case,
      c08_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Piece {
  Command(String),
  /// an action that expands to another action
  Nested,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ActionSpec {
  pub pre: Option<Piece>,
  pub run: Piece,
  pub post: Option<Piece>,
  pub fails: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Resolve {
  Nothing,
  Error,
  Action(ActionSpec),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum StepRef {
  Run(String),
  Uses {
    action: u8,
    with: Option<i64>,
    name: Option<String>,
    timeout: Option<u8>,
    env: bool,
    continue_on_error: Option<bool>,
  },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ActionCase {
  pub seed: u64,
  /// names `act0..`: registered statically
  pub statics: Vec<(u8, ActionSpec)>,
  /// per plugin, per action number
  pub plugins: Vec<Vec<Resolve>>,
  pub jobs: Vec<Vec<StepRef>>,
}

const ACTIONS: u8 = 5;

fn action_spec() -> BoxedStrategy<ActionSpec> {
  let piece = || {
    prop_oneof![
      30 => "[a-z]{1,4}".prop_map(Piece::Command),
      1 => Just(Piece::Nested),
    ]
  };
  (option::of(piece()), piece(), option::of(piece()), proptest::bool::weighted(0.02))
    .prop_map(|(pre, run, post, fails)| ActionSpec { pre, run, post, fails })
    .boxed()
}

fn action_case() -> BoxedStrategy<ActionCase> {
  let resolve = prop_oneof![
    3 => Just(Resolve::Nothing),
    1 => Just(Resolve::Error),
    3 => action_spec().prop_map(Resolve::Action),
  ];
  let step = prop_oneof![
    2 => "[a-z]{1,4}".prop_map(StepRef::Run),
    4 => (
      0u8..ACTIONS,
      option::of(any::<i64>()),
      option::of("[a-z]{1,3}"),
      option::of(1u8..99),
      any::<bool>(),
      option::of(any::<bool>())
    )
      .prop_map(|(action, with, name, timeout, env, continue_on_error)| StepRef::Uses {
        action,
        with,
        name,
        timeout,
        env,
        continue_on_error
      }),
  ];
  (
    any::<u64>(),
    spec::list(|| (0u8..ACTIONS, action_spec()), 9, 14),
    vec(vec(resolve, ACTIONS as usize), 0..4),
    vec(prop_oneof![12 => vec(step.clone(), 1..6), 1 => vec(step, 8..20)], 1..3),
  )
    .prop_map(|(seed, statics, plugins, jobs)| ActionCase {
      seed,
      statics,
      plugins,
      jobs,
    })
    .boxed()
}

type Received = Arc<Mutex<Vec<(String, Value)>>>;

struct Scripted {
  who: String,
  spec: ActionSpec,
  got: Received,
}

impl Piece {
  fn step(&self, who: &str, part: &str) -> UserStep {
    match self {
      Piece::Command(c) => UserStep::Command(UserCommandStep {
        name: Some(format!("{}:{}", who, part)),
        run: c.clone(),
        timeout: Some("7s".into()),
        continue_on_error: Some(true),
        container: Some(Container::Name(format!("img-{}", part))),
        on: Some(astro_run::Condition::Event(vec![part.to_string()])),
        environments: Some([("K".to_string(), EnvironmentVariable::from(who))].into()),
        secrets: Some(vec![part.to_string(), who.to_string()]),
      }),
      Piece::Nested => UserStep::Action(UserActionStep {
        uses: "act0".into(),
        ..Default::default()
      }),
    }
  }
}

impl Action for Scripted {
  fn normalize(&self, step: UserActionStep) -> astro_run::Result<ActionSteps> {
    self
      .got
      .lock()
      .push((self.who.clone(), serde_json::to_value(&step).unwrap()));
    if self.spec.fails {
      return Err(Error::error("normalize fails"));
    }
    Ok(ActionSteps {
      pre: self.spec.pre.as_ref().map(|p| p.step(&self.who, "pre")),
      run: self.spec.run.step(&self.who, "run"),
      post: self.spec.post.as_ref().map(|p| p.step(&self.who, "post")),
    })
  }
}

struct Resolver {
  index: usize,
  table: Vec<Resolve>,
  got: Received,
}

fn action_number(uses: &str) -> Option<usize> {
  uses.strip_prefix("act").and_then(|n| n.parse().ok())
}

#[async_trait]
impl Plugin for Resolver {
  fn name(&self) -> &'static str {
    "resolver"
  }
  async fn on_resolve_dynamic_action(&self, step: UserActionStep) -> HookResolveActionResult {
    if self.index % 2 == 1 {
      tokio::time::sleep(Duration::from_millis(3)).await;
    }
    match action_number(&step.uses).and_then(|n| self.table.get(n)) {
      None | Some(Resolve::Nothing) => Ok(None),
      Some(Resolve::Error) => Err(Error::error("resolver fails")),
      Some(Resolve::Action(spec)) => Ok(Some(Box::new(Scripted {
        who: format!("p{}-{}", self.index, step.uses),
        spec: spec.clone(),
        got: self.got.clone(),
      }))),
    }
  }
}

fn c09_check(c: &ActionCase) -> CaseResult {
  // what each action name means
  let mut meaning: Vec<Option<(String, ActionSpec)>> = vec![None; ACTIONS as usize];
  for (n, slot) in meaning.iter_mut().enumerate() {
    // the last registration of a name wins
    if let Some((_, spec)) = c.statics.iter().rev().find(|(k, _)| *k as usize == n) {
      *slot = Some((format!("s-act{}", n), spec.clone()));
      continue;
    }
    for (i, table) in c.plugins.iter().enumerate() {
      if let Resolve::Action(spec) = &table[n] {
        *slot = Some((format!("p{}-act{}", i, n), spec.clone()));
        break;
      }
    }
  }

  let mut jobs = Mapping::new();
  for (j, steps) in c.jobs.iter().enumerate() {
    let list = steps
      .iter()
      .map(|s| {
        let mut m = Mapping::new();
        match s {
          StepRef::Run(r) => {
            m.insert("run".into(), r.clone().into());
          }
          StepRef::Uses {
            action,
            with,
            name,
            timeout,
            env,
            continue_on_error,
          } => {
            m.insert("uses".into(), format!("act{}", action).into());
            if let Some(w) = with {
              let mut x = Mapping::new();
              x.insert("value".into(), (*w).into());
              m.insert("with".into(), Yaml::Mapping(x));
            }
            if let Some(n) = name {
              m.insert("name".into(), n.clone().into());
            }
            if let Some(t) = timeout {
              m.insert("timeout".into(), format!("{}s", t).into());
            }
            if *env {
              let mut x = Mapping::new();
              x.insert("E".into(), "v".into());
              m.insert("environments".into(), Yaml::Mapping(x));
              m.insert("secrets".into(), strings(&["S".to_string()]));
            }
            if let Some(x) = continue_on_error {
              m.insert("continue-on-error".into(), (*x).into());
            }
          }
        }
        Yaml::Mapping(m)
      })
      .collect();
    let mut m = Mapping::new();
    m.insert("steps".into(), Yaml::Sequence(list));
    jobs.insert(format!("job{}", j).into(), Yaml::Mapping(m));
  }
  let mut root = Mapping::new();
  root.insert("jobs".into(), Yaml::Mapping(jobs));
  let yaml = serde_yaml::to_string(&Yaml::Mapping(root)).unwrap();

  let got: Received = Default::default();
  let mut builder = AstroRun::builder().runner(QuickRunner);
  for (n, spec) in &c.statics {
    builder = builder.action(
      format!("act{}", n),
      Scripted {
        who: format!("s-act{}", n),
        spec: spec.clone(),
        got: got.clone(),
      },
    );
  }
  for (index, table) in c.plugins.iter().enumerate() {
    builder = builder.plugin(Resolver {
      index,
      table: table.clone(),
      got: got.clone(),
    });
  }
  let built = build(c.seed, yaml.clone(), builder.build(), false)?;

  // the reference expansion
  type Want = (Option<String>, String, Duration, bool, Option<String>, Value);
  let mut problem: Option<&'static str> = None;
  let mut unknown = vec![];
  let mut want: Vec<Vec<Want>> = vec![];
  let mut received: Vec<(String, Value)> = vec![];
  let expand = |p: &Piece, who: &str, part: &str| -> Option<Want> {
    match p {
      Piece::Nested => None,
      Piece::Command(run) => Some((
        Some(format!("{}:{}", who, part)),
        run.clone(),
        Duration::from_secs(7),
        true,
        Some(format!("img-{}", part)),
        serde_json::json!([[part], {"K": who}, [part, who]]),
      )),
    }
  };
  for steps in &c.jobs {
    let (mut pre, mut mid, mut post) = (vec![], vec![], vec![]);
    for s in steps {
      match s {
        StepRef::Run(r) => mid.push((None, r.clone(), Duration::from_secs(3600), false, None, serde_json::json!([null, {}, []]))),
        StepRef::Uses {
          action,
          with,
          name,
          timeout,
          env,
          continue_on_error,
        } => {
          let Some((who, spec)) = &meaning[*action as usize] else {
            unknown.push(format!("act{}", action));
            continue;
          };
          received.push((
            who.clone(),
            serde_json::json!({
              "name": name,
              "uses": format!("act{}", action),
              "with": with.map(|w| serde_json::json!({"value": w})),
              "on": null,
              "continue-on-error": continue_on_error,
              "environments": if *env { serde_json::json!({"E": "v"}) } else { Value::Null },
              "secrets": if *env { serde_json::json!(["S"]) } else { Value::Null },
              "timeout": timeout.map(|t| format!("{}s", t)),
            }),
          ));
          if spec.fails {
            problem = Some("an action failed to expand");
            continue;
          }
          let mut add = |p: &Piece, part: &str, to: &mut Vec<Want>, front: bool| match expand(p, who, part) {
            None => problem = Some("an action expands to another action"),
            Some(w) if front => to.insert(0, w),
            Some(w) => to.push(w),
          };
          if let Some(p) = &spec.pre {
            add(p, "pre", &mut pre, false);
          }
          add(&spec.run, "run", &mut mid, false);
          if let Some(p) = &spec.post {
            add(p, "post", &mut post, true);
          }
        }
      }
    }
    pre.extend(mid);
    pre.extend(post);
    want.push(pre);
  }

  let uses: usize = c
    .jobs
    .iter()
    .map(|j| j.iter().filter(|s| matches!(s, StepRef::Uses { .. })).count())
    .sum();
  let ok = CaseOk::new(uses > 0);
  match built.res {
    Err((_, text)) => {
      ensure!(
        problem.is_some() || !unknown.is_empty(),
        "a valid workflow was rejected: {}\n{}",
        text,
        yaml
      );
      if problem.is_none() {
        ensure!(
          unknown.iter().any(|u| text.contains(u.as_str())),
          "the error {:?} names none of the unknown actions {:?}",
          text,
          unknown
        );
      }
      Ok(ok.tag(true, "rejected"))
    }
    Ok(w) => {
      ensure!(unknown.is_empty(), "unknown actions {:?} were accepted\n{}", unknown, yaml);
      ensure!(problem.is_none(), "accepted although {}\n{}", problem.unwrap_or(""), yaml);
      for (j, want) in want.iter().enumerate() {
        let job = &w.jobs[&format!("job{}", j)];
        let have: Vec<Want> = job
          .steps
          .iter()
          .map(|s| {
            (
              s.name.clone(),
              s.run.clone(),
              s.timeout,
              s.continue_on_error,
              s.container.as_ref().map(|c| c.name.clone()),
              serde_json::json!([s.on, s.environments, s.secrets]),
            )
          })
          .collect();
        ensure!(
          have == *want,
          "job{} expands to {:?}, expected {:?}\n{}",
          j,
          have,
          want,
          yaml
        );
        for (i, s) in job.steps.iter().enumerate() {
          ensure!(s.id.step_number() == i, "expanded step {} has id {:?}", i, s.id);
          ensure!(s.id.job_id() == job.id, "expanded step {} has id {:?}", i, s.id);
        }
      }
      let mut g = got.lock().clone();
      let key = |x: &(String, Value)| format!("{}|{}", x.0, x.1);
      g.sort_by_key(key);
      received.sort_by_key(key);
      ensure!(
        g == received,
        "the actions were given {:?}, expected {:?}",
        g,
        received
      );
      let posts = want.iter().any(|w| {
        w.iter().filter(|x| x.0.as_deref().unwrap_or("").ends_with(":post")).count() >= 2
      });
      let dynamic = received.iter().any(|r| r.0.starts_with('p'));
      Ok(ok.tag(posts, "several-post-steps").tag(dynamic, "dynamic-action"))
    }
  }
}

pub fn c09() -> Property {
  (
    "property-based testing: generated action definitions and uses against a reference expansion",
    vec![],
    vec![Part::new(
      "expansion",
      "cases: random jobs of commands and action uses, actions registered statically and/or offered by plugins (which may decline, fail or suspend), with optional pre/post steps, nested actions and failing actions; non-trivial: at least one action is used; distinct by case",
      100_000,
      3_000_000,
      action_case,
      c09_check,
    )
    .boxed()],
  )
}
