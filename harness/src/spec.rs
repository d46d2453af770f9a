//! The generated scenario: a workflow, the scripted behaviour of the runner
//! for each of its steps, plugins, cancellations and the trigger event.
//!
//! All delays are in ticks, so that everything a runner or plugin does happens
//! at a multiple of a tick; timeouts fire half a tick and cancellations 0.3
//! ticks after one. No two kinds of event can therefore fall on the same
//! instant, and the reference model's timeline is exact. A tick is 10 virtual
//! milliseconds times the scenario's scale; the scales are chosen so that the
//! default timeout of an hour does not fall on a tick, half a tick or a
//! cancellation instant either. (Cancellations from inside a hook happen on
//! the tick of the hook's event.)

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_yaml::{Mapping, Value as Yaml};

/// Milliseconds of a tick at scale 1.
pub const TICK: u64 = 10;

/// Ticks of 10 ms, 130 ms, 6 min 10 s and 1 h 56 min 40 s.
pub const SCALES: [u32; 4] = [1, 13, 37_000, 700_000];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
  Succeeded,
  Failed(i32),
  Cancelled,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum React {
  /// carry on as if nothing happened
  Ignore,
  /// stop `ticks` (>= 1) ticks after the signal, the way a well-behaved
  /// runner does: Cancelled on cancel, exit code 123 on timeout
  Obey(u8),
  /// stop with another result
  EndWith(u8, End),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct LogSpec {
  pub delay: u8,
  pub error: bool,
  pub msg: String,
}

impl LogSpec {
  /// The text of the line; a very long one is described by its length.
  pub fn text(&self) -> String {
    match self.msg.strip_prefix('\u{1}').and_then(|n| n.parse::<usize>().ok()) {
      Some(n) => "0123456789abcdef".chars().cycle().take(n).collect(),
      None => self.msg.clone(),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StepSpec {
  pub continue_on_error: bool,
  pub on: Option<CondSpec>,
  /// timeout = ticks * 10 + 5 ms
  pub timeout: Option<u16>,
  pub run_delay: u8,
  pub run_err: bool,
  pub logs: Vec<LogSpec>,
  pub end_delay: u8,
  pub end: End,
  pub on_cancel: React,
  pub on_timeout: React,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct JobSpec {
  /// bit i: depends on job i (only bits below this job's own index count)
  pub deps: u32,
  pub salt: u8,
  pub on: Option<CondSpec>,
  pub steps: Vec<StepSpec>,
  /// repeat the dependency list (a legal, redundant spelling)
  pub dup_deps: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CancelSpec {
  /// at tick * 10 + 3 ms
  pub tick: u16,
  pub job: u8,
  pub via_context: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CondSpec {
  Events(Vec<String>),
  Config {
    push: Option<FilterSpec>,
    pull_request: Option<FilterSpec>,
  },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct FilterSpec {
  pub branches: Option<Vec<String>>,
  pub paths: Option<Vec<String>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Auth {
  None,
  Token,
  BadToken,
  App,
  BadApp,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GhSpec {
  pub auth: Auth,
  pub event: Option<GhEvent>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct GhEvent {
  pub kind: String,
  pub branch: String,
  pub pr_number: Option<i64>,
  /// changed files; None: the commit / pull request does not exist
  pub files: Option<Vec<String>>,
  /// GitHub answers a commit without any `files` member
  pub no_files_field: bool,
}

/// Hooks of a plugin, by number (see world.rs).
pub const HOOKS: [&str; 10] = [
  "run_workflow",
  "run_job",
  "before_run_step",
  "run_step",
  "state_change",
  "log",
  "step_completed",
  "job_completed",
  "workflow_completed",
  "resolve_action",
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PluginSpec {
  /// implemented through the Plugin trait (may suspend) or AstroRunPlugin
  pub is_async: bool,
  /// bit i: hook HOOKS[i] returns an error
  pub fails: u16,
  /// suspension inside each hook, in ticks (async plugins only)
  pub latency: u8,
  /// only every other hook suspends
  #[serde(default)]
  pub uneven: bool,
  pub transform: Transform,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Transform {
  None,
  AppendRun(String),
  SetEnv(String, String),
  SetName(String),
  Timeout(u16),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scenario {
  pub seed: u64,
  pub jobs: Vec<JobSpec>,
  pub on: Option<CondSpec>,
  pub plugins: Vec<PluginSpec>,
  /// the same for the hooks of the runner itself
  pub runner_hooks: PluginSpec,
  pub cancels: Vec<CancelSpec>,
  pub gh: GhSpec,
  #[serde(default = "one")]
  pub scale: u32,
  /// cancellations issued from inside a hook
  #[serde(default)]
  pub hook_cancels: Vec<HookCancel>,
  /// which plugin issues them (modulo the number of plugins and the runner)
  #[serde(default)]
  pub hook_src: u8,
  /// the same configuration runs a second time, as another workflow of the
  /// same AstroRun, at the same time
  #[serde(default)]
  pub twin: Option<TwinSpec>,
}

fn one() -> u32 {
  1
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HookCancel {
  pub job: u8,
  pub at: HookPoint,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HookPoint {
  /// on_run_job of the job
  RunJob,
  /// the step's n-th log line
  Log(u8, u8),
  /// on_step_completed
  StepDone(u8),
  /// on_run_step: the step is about to be queued
  RunStep(u8),
  /// when the step is reported to be in progress
  InProgress(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TwinSpec {
  /// starts this many ticks after the first workflow
  pub start: u8,
  /// ticks count from the start of the first workflow
  pub cancels: Vec<CancelSpec>,
}

const SALTS: [&str; 12] = [
  "build", "test", "lint", "a", "b", "zz", "deploy-to", "x_y", "J", "0", "release.1", "é",
];

impl Scenario {
  /// Length of a tick in (virtual) milliseconds.
  pub fn tick(&self) -> u64 {
    TICK * self.scale as u64
  }

  /// The instant of a cancellation.
  pub fn cancel_ms(&self, c: &CancelSpec) -> u64 {
    c.tick as u64 * self.tick() + 3 * self.scale as u64
  }

  pub fn key(&self, job: usize) -> String {
    format!("{}{}", SALTS[self.jobs[job].salt as usize % SALTS.len()], job)
  }

  pub fn deps(&self, job: usize) -> Vec<usize> {
    // beyond 32 jobs the pattern repeats
    (0..job).filter(|i| self.jobs[job].deps & (1 << (i % 32)) != 0).collect()
  }

  pub fn yaml(&self) -> String {
    let mut jobs = Mapping::new();
    for (i, job) in self.jobs.iter().enumerate() {
      let mut m = Mapping::new();
      let deps = self.deps(i);
      if !deps.is_empty() {
        let mut list: Vec<Yaml> = deps.iter().map(|d| Yaml::from(self.key(*d))).collect();
        if job.dup_deps {
          list.extend(list.clone());
        }
        m.insert("depends-on".into(), Yaml::Sequence(list));
      }
      if let Some(on) = &job.on {
        m.insert("on".into(), on.yaml());
      }
      let steps: Vec<Yaml> = job
        .steps
        .iter()
        .enumerate()
        .map(|(k, s)| {
          let mut m = Mapping::new();
          m.insert("run".into(), format!("step {} of {}", k, i).into());
          if s.continue_on_error {
            m.insert("continue-on-error".into(), true.into());
          }
          // Fields nothing here computes with: what one observer is told of a
          // step must still be what every other one is told.
          match (i + 2 * k) % 5 {
            1 => {
              m.insert("name".into(), format!("Step {}", k).into());
              m.insert("secrets".into(), Yaml::Sequence(vec![format!("SECRET_{}", k).into()]));
            }
            2 => {
              m.insert("container".into(), format!("image-{}", i).into());
            }
            3 => {
              let mut e = Mapping::new();
              e.insert("TEXT".into(), format!("value {}", k).into());
              e.insert("NUMBER".into(), Yaml::from(k as u64));
              m.insert("environments".into(), Yaml::Mapping(e));
              m.insert("secrets".into(), Yaml::Sequence(vec!["A".into(), "B".into()]));
            }
            4 => {
              let mut c = Mapping::new();
              c.insert("name".into(), format!("image-{}", k).into());
              c.insert("volumes".into(), Yaml::Sequence(vec!["/a:/b".into()]));
              c.insert("security-opts".into(), Yaml::Sequence(vec!["x".into()]));
              m.insert("container".into(), Yaml::Mapping(c));
            }
            _ => {}
          }
          if let Some(t) = s.timeout {
            m.insert("timeout".into(), format!("{}ms", timeout_ms(Some(t), self.tick())).into());
          }
          if let Some(on) = &s.on {
            m.insert("on".into(), on.yaml());
          }
          Yaml::Mapping(m)
        })
        .collect();
      m.insert("steps".into(), Yaml::Sequence(steps));
      jobs.insert(self.key(i).into(), Yaml::Mapping(m));
    }
    let mut root = Mapping::new();
    if let Some(on) = &self.on {
      root.insert("on".into(), on.yaml());
    }
    root.insert("jobs".into(), Yaml::Mapping(jobs));
    serde_yaml::to_string(&Yaml::Mapping(root)).unwrap()
  }
}

pub fn timeout_ms(t: Option<u16>, tick: u64) -> u64 {
  match t {
    Some(t) => t as u64 * tick + tick / 2,
    None => 3_600_000,
  }
}

impl CondSpec {
  pub fn yaml(&self) -> Yaml {
    match self {
      CondSpec::Events(e) => Yaml::Sequence(e.iter().map(|x| Yaml::from(x.clone())).collect()),
      CondSpec::Config { push, pull_request } => {
        let mut m = Mapping::new();
        if let Some(f) = push {
          m.insert("push".into(), f.yaml());
        }
        if let Some(f) = pull_request {
          m.insert("pull_request".into(), f.yaml());
        }
        Yaml::Mapping(m)
      }
    }
  }
}

impl FilterSpec {
  fn yaml(&self) -> Yaml {
    let list = |v: &Vec<String>| Yaml::Sequence(v.iter().map(|x| Yaml::from(x.clone())).collect());
    let mut m = Mapping::new();
    if let Some(b) = &self.branches {
      m.insert("branches".into(), list(b));
    }
    if let Some(p) = &self.paths {
      m.insert("paths".into(), list(p));
    }
    Yaml::Mapping(m)
  }
}

// ---------------------------------------------------------------- strategies

/// What a generator should emphasise.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
  pub max_jobs: usize,
  pub max_steps: usize,
  pub max_logs: usize,
  pub cancels: usize,
  pub timeouts: bool,
  pub failures: u32,
  pub plugins: usize,
  pub plugin_errors: bool,
  pub plugin_latency: bool,
  pub transforms: bool,
  pub conditions: bool,
  /// probability weight (0..=10) of an edge between two jobs
  pub density: u32,
}

impl Shape {
  pub fn base() -> Self {
    Shape {
      max_jobs: 6,
      max_steps: 4,
      max_logs: 3,
      cancels: 0,
      timeouts: false,
      failures: 3,
      plugins: 1,
      plugin_errors: false,
      plugin_latency: false,
      transforms: false,
      conditions: false,
      density: 4,
    }
  }
}

pub fn delay() -> impl Strategy<Value = u8> {
  prop_oneof![4 => Just(0u8), 4 => 1u8..4, 1 => 4u8..12]
}

pub fn end(failures: u32) -> impl Strategy<Value = End> {
  prop_oneof![
    (10 - failures.min(9)) => Just(End::Succeeded),
    failures => prop_oneof![Just(1), Just(0), Just(-1), Just(123), 2i32..256].prop_map(End::Failed),
    failures.min(2) => Just(End::Cancelled),
  ]
}

fn react(failures: u32) -> impl Strategy<Value = React> {
  prop_oneof![
    3 => Just(React::Ignore),
    5 => (1u8..4).prop_map(React::Obey),
    2 => (1u8..4, end(failures)).prop_map(|(t, e)| React::EndWith(t, e)),
  ]
}

pub fn msg() -> impl Strategy<Value = String> {
  prop_oneof![
    200 => "[a-z]{0,8}",
    50 => "\\PC{0,12}",
    50 => Just(String::new()),
    1 => (1_000u32..300_000).prop_map(|n| format!("\u{1}{}", n)),
    50 => Just("line one\nline two".to_string()),
  ]
}

pub fn logs(max: usize) -> impl Strategy<Value = Vec<LogSpec>> {
  let line = || (delay(), any::<bool>(), msg()).prop_map(|(delay, error, msg)| LogSpec { delay, error, msg });
  // a chatty step: hundreds of lines, mostly in bursts
  let chatty = vec(
    (prop_oneof![6 => Just(0u8), 1 => Just(1u8)], any::<bool>()),
    60..320,
  )
  .prop_map(|v| {
    v.into_iter()
      .enumerate()
      .map(|(i, (delay, error))| LogSpec {
        delay,
        error,
        msg: format!("line {}", i),
      })
      .collect()
  });
  prop_oneof![
    400 => vec(line(), 0..=max),
    if max >= 8 { 4 } else { 1 } => chatty,
  ]
}

fn step(sh: Shape) -> BoxedStrategy<StepSpec> {
  let timeout = if sh.timeouts {
    prop_oneof![1 => Just(None), 4 => (1u16..30).prop_map(Some)].boxed()
  } else {
    Just(None).boxed()
  };
  let on = if sh.conditions {
    option::weighted(0.3, cond()).boxed()
  } else {
    Just(None).boxed()
  };
  (
    proptest::bool::weighted(0.4),
    on,
    timeout,
    delay(),
    proptest::bool::weighted(0.04 * sh.failures.min(4) as f64),
    logs(sh.max_logs),
    delay(),
    end(sh.failures),
    react(sh.failures),
    react(sh.failures),
  )
    .prop_map(
      |(
        continue_on_error,
        on,
        timeout,
        run_delay,
        run_err,
        logs,
        end_delay,
        end,
        on_cancel,
        on_timeout,
      )| StepSpec {
        continue_on_error,
        on,
        timeout,
        run_delay,
        run_err,
        logs,
        end_delay,
        end,
        on_cancel,
        on_timeout,
      },
    )
    .boxed()
}

fn job(sh: Shape) -> BoxedStrategy<JobSpec> {
  let on = if sh.conditions {
    option::weighted(0.3, cond()).boxed()
  } else {
    Just(None).boxed()
  };
  let p = sh.density as f64 / 10.0;
  let mask = vec(proptest::bool::weighted(p), sh.max_jobs).prop_map(|bits| {
    bits
      .iter()
      .enumerate()
      .fold(0u32, |m, (i, b)| if *b { m | (1 << i) } else { m })
  });
  (mask, 0u8..12, on, vec(step(sh), 1..=sh.max_steps), proptest::bool::weighted(0.1))
    .prop_map(|(deps, salt, on, steps, dup_deps)| JobSpec {
      deps,
      salt,
      on,
      steps,
      dup_deps,
    })
    .boxed()
}

fn plugin(sh: Shape) -> BoxedStrategy<PluginSpec> {
  let fails = if sh.plugin_errors {
    prop_oneof![2 => Just(0u16), 3 => 0u16..1024, 1 => Just(1023u16)].boxed()
  } else {
    Just(0u16).boxed()
  };
  let latency = if sh.plugin_latency {
    prop_oneof![2 => Just(0u8), 2 => 1u8..5].boxed()
  } else {
    Just(0u8).boxed()
  };
  let transform = if sh.transforms {
    prop_oneof![
      2 => Just(Transform::None),
      3 => "[a-c]{1,3}".prop_map(Transform::AppendRun),
      3 => ("[A-C]", "[a-z]{0,4}").prop_map(|(k, v)| Transform::SetEnv(k, v)),
      1 => "[a-z]{0,4}".prop_map(Transform::SetName),
      1 => (1u16..20).prop_map(Transform::Timeout),
    ]
    .boxed()
  } else {
    Just(Transform::None).boxed()
  };
  (any::<bool>(), fails, latency, transform, any::<bool>())
    .prop_map(|(is_async, fails, latency, transform, uneven)| PluginSpec {
      is_async,
      fails,
      uneven: is_async && latency > 0 && uneven,
      latency: if is_async { latency } else { 0 },
      transform,
    })
    .boxed()
}

impl Shape {
  /// Now and then a case is much larger than what is typical.
  fn large(self) -> Self {
    Shape {
      max_jobs: (self.max_jobs * 3).min(24),
      max_steps: self.max_steps * 3,
      max_logs: self.max_logs * 4,
      cancels: self.cancels * 2,
      plugins: self.plugins + 3,
      density: self.density.min(2),
      ..self
    }
  }
}

pub fn scenario(sh: Shape) -> BoxedStrategy<Scenario> {
  prop_oneof![
    240 => scenario_of(sh),
    10 => scenario_of(sh.large()),
    10 => wide(sh),
    1 => huge(sh),
  ]
  .boxed()
}

/// Many independent jobs that tend to end at the same instant, and a few that
/// wait for all of them.
fn wide(sh: Shape) -> BoxedStrategy<Scenario> {
  let one = Shape {
    max_jobs: 28,
    max_steps: 1,
    max_logs: sh.max_logs.min(2),
    density: 1,
    ..sh
  };
  (vec(job(one), 10..28), scenario_of(sh), 0u8..3)
    .prop_map(|(mut jobs, mut sc, d)| {
      let n = jobs.len();
      for (i, j) in jobs.iter_mut().enumerate() {
        j.deps = match j.salt {
          0 if i == n - 1 => u32::MAX,
          1 => j.deps,
          _ => 0,
        };
        for s in &mut j.steps {
          s.run_delay = 0;
          s.end_delay = if j.salt < 10 { d } else { s.end_delay };
          for l in &mut s.logs {
            l.delay = 0;
          }
        }
      }
      sc.jobs = jobs;
      sc
    })
    .boxed()
}

/// Far more jobs, or steps in one job, than anybody would write by hand: no
/// number of them is too much.
fn huge(sh: Shape) -> BoxedStrategy<Scenario> {
  let one = Shape {
    max_jobs: 32,
    max_steps: 1,
    max_logs: 1,
    density: 1,
    ..sh
  };
  let long = Shape { max_logs: 1, ..sh };
  let many_jobs = (vec(job(one), 40..140), 0u8..3).prop_map(|(mut jobs, style)| {
    for (i, j) in jobs.iter_mut().enumerate() {
      j.deps = match style {
        // all at once
        0 => 0,
        // one after the other (the previous one, and those 32 apart)
        1 if i > 0 => 1 << ((i - 1) % 32),
        1 => 0,
        // a dense graph
        _ => j.deps,
      };
      // a failure ends a job, and a short one at that
      for s in &mut j.steps {
        s.run_delay = s.run_delay.min(2);
        s.end_delay = s.end_delay.min(2);
      }
    }
    jobs
  });
  let many_steps = (job(one), vec(step(long), 40..150), proptest::bool::weighted(0.6)).prop_map(
    |(mut j, steps, forgiving)| {
      j.steps = steps;
      for s in &mut j.steps {
        s.continue_on_error |= forgiving;
        s.run_delay = s.run_delay.min(2);
        s.end_delay = s.end_delay.min(2);
      }
      vec![j]
    },
  );
  let many_lines = (job(one), 1usize..2500).prop_map(|(mut j, n)| {
    let s = &mut j.steps[0];
    s.run_delay = s.run_delay.min(2);
    s.logs = (0..n)
      .map(|i| LogSpec {
        delay: (i % 700 == 699) as u8,
        error: i % 5 == 2,
        msg: format!("{}", i / 2),
      })
      .collect();
    vec![j]
  });
  (
    prop_oneof![3 => many_jobs.boxed(), 2 => many_steps.boxed(), 1 => many_lines.boxed()],
    scenario_of(sh),
  )
    .prop_map(|(jobs, mut sc)| {
      sc.jobs = jobs;
      sc
    })
    .boxed()
}

/// Mostly the finest scale; now and then minutes or hours per tick.
pub fn with_scale(s: BoxedStrategy<Scenario>) -> BoxedStrategy<Scenario> {
  (s, prop_oneof![12 => Just(0usize), 1 => 1usize..4])
    .prop_map(|(mut sc, i)| {
      sc.scale = SCALES[i];
      sc
    })
    .boxed()
}

fn hook_point() -> BoxedStrategy<HookPoint> {
  prop_oneof![
    1 => Just(HookPoint::RunJob),
    3 => (0u8..3, 0u8..3).prop_map(|(s, l)| HookPoint::Log(s, l)),
    2 => (0u8..3).prop_map(HookPoint::StepDone),
    1 => (0u8..3).prop_map(HookPoint::RunStep),
    1 => (0u8..3).prop_map(HookPoint::InProgress),
  ]
  .boxed()
}

/// A plugin (or the runner) cancels a job from inside one of its hooks.
pub fn with_hook_cancels(s: BoxedStrategy<Scenario>) -> BoxedStrategy<Scenario> {
  let hooks = vec((0u8..8, hook_point()).prop_map(|(job, at)| HookCancel { job, at }), 1..3);
  (s, option::weighted(0.2, (hooks, any::<u8>())))
    .prop_map(|(mut sc, h)| {
      if let Some((h, src)) = h {
        sc.hook_cancels = h;
        sc.hook_src = src;
      }
      sc
    })
    .boxed()
}

/// Now and then the same configuration runs twice at a time, as two workflows.
pub fn with_twin(s: BoxedStrategy<Scenario>, cancels: usize) -> BoxedStrategy<Scenario> {
  let c = vec(
    (0u16..40, 0u8..8, any::<bool>()).prop_map(|(tick, job, via_context)| CancelSpec {
      tick,
      job,
      via_context,
    }),
    0..=cancels,
  );
  let twin = (prop_oneof![3 => Just(0u8), 3 => 1u8..6, 1 => 6u8..30], c)
    .prop_map(|(start, cancels)| TwinSpec { start, cancels });
  (s, option::weighted(0.15, twin))
    .prop_map(|(mut sc, twin)| {
      sc.twin = twin;
      sc
    })
    .boxed()
}

/// Short lists mostly, long ones now and then.
pub fn list<S>(elem: impl Fn() -> S, short: usize, long: usize) -> BoxedStrategy<Vec<S::Value>>
where
  S: Strategy + 'static,
{
  prop_oneof![
    12 => vec(elem(), 0..short),
    1 => vec(elem(), 0..long),
  ]
  .boxed()
}

fn scenario_of(sh: Shape) -> BoxedStrategy<Scenario> {
  let jobs = if sh.max_jobs > 8 { 24u8 } else { 8 };
  let on = if sh.conditions {
    option::weighted(0.25, cond()).boxed()
  } else {
    Just(None).boxed()
  };
  let gh = if sh.conditions {
    gh().boxed()
  } else {
    Just(GhSpec {
      auth: Auth::None,
      event: None,
    })
    .boxed()
  };
  let cancels = vec(
    (0u16..40, 0u8..jobs, any::<bool>()).prop_map(|(tick, job, via_context)| CancelSpec {
      tick,
      job,
      via_context,
    }),
    0..=sh.cancels,
  );
  (
    any::<u64>(),
    vec(job(sh), 1..=sh.max_jobs),
    on,
    vec(plugin(sh), 0..=sh.plugins),
    plugin(sh),
    cancels,
    gh,
  )
    .prop_map(|(seed, jobs, on, plugins, mut runner_hooks, cancels, gh)| {
      if !runner_hooks.is_async {
        runner_hooks.latency = 0;
      }
      Scenario {
        seed,
        jobs,
        on,
        plugins,
        runner_hooks,
        cancels,
        gh,
        scale: 1,
        hook_cancels: vec![],
        hook_src: 0,
        twin: None,
      }
    })
    .boxed()
}

// --------------------------------------------------- conditions and patterns

/// Path-like strings over a tiny alphabet, so that patterns and values collide.
pub fn path() -> BoxedStrategy<String> {
  vec(
    prop_oneof![
      4 => prop_oneof![
        Just("src"), Just("a"), Just("b"), Just("ab"), Just("main.rs"), Just(".git"), Just("é"), Just("Main.rs"), Just("A")
      ]
      .prop_map(|s| s.to_string()),
      1 => "[ab.]{1,3}",
    ],
    1..6,
  )
  .prop_map(|v| v.join("/"))
  .boxed()
}

/// Glob patterns in the documented grammar (`?`, `*`, `**` as a whole
/// component, character classes), never an invalid one.
pub fn pattern() -> BoxedStrategy<String> {
  let atom = prop_oneof![
    6 => prop_oneof![Just("a"), Just("b"), Just("src"), Just("main.rs"), Just("."), Just("rs")]
      .prop_map(|s| s.to_string()),
    3 => Just("*".to_string()),
    2 => Just("?".to_string()),
    1 => prop_oneof![
      Just("[ab]"), Just("[!a]"), Just("[a-c]"), Just("[!s-z]"), Just("[.]"), Just("[*]")
    ].prop_map(|s| s.to_string()),
  ];
  let component = prop_oneof![
    8 => vec(atom, 1..5).prop_map(|parts| {
      // two adjacent stars would be an (invalid) recursive wildcard
      let mut out = String::new();
      for p in parts {
        if p == "*" && out.ends_with('*') {
          continue;
        }
        out.push_str(&p);
      }
      out
    }),
    2 => Just("**".to_string()),
  ];
  prop_oneof![
    3 => path(),
    5 => vec(component, 1..6).prop_map(|v| v.join("/")),
  ]
  .boxed()
}

pub fn branch() -> BoxedStrategy<String> {
  prop_oneof![
    3 => Just("main".to_string()),
    2 => Just("feature/a".to_string()),
    1 => Just("feature/a/b".to_string()),
    1 => path(),
  ]
  .boxed()
}

fn branch_pattern() -> BoxedStrategy<String> {
  prop_oneof![
    3 => branch(),
    2 => Just("feature/*".to_string()),
    1 => Just("*".to_string()),
    2 => pattern(),
  ]
  .boxed()
}

pub fn event_kind() -> BoxedStrategy<String> {
  prop_oneof![
    5 => Just("push".to_string()),
    5 => Just("pull_request".to_string()),
    1 => Just("release".to_string()),
    1 => Just("".to_string()),
    1 => prop_oneof![
      Just("Push".to_string()),
      Just("PULL_REQUEST".to_string()),
      Just("pull".to_string()),
      Just("pull_request_target".to_string()),
      Just("pus".to_string()),
      Just("push ".to_string()),
      Just("pull-request".to_string()),
      Just("Release".to_string())
    ],
  ]
  .boxed()
}

pub fn filter() -> BoxedStrategy<FilterSpec> {
  (
    option::weighted(0.6, list(branch_pattern, 3, 8)),
    option::weighted(0.6, list(pattern, 3, 8)),
  )
    .prop_map(|(branches, paths)| FilterSpec { branches, paths })
    .boxed()
}

pub fn cond() -> BoxedStrategy<CondSpec> {
  prop_oneof![
    1 => list(event_kind, 3, 6).prop_map(CondSpec::Events),
    3 => (option::weighted(0.7, filter()), option::weighted(0.7, filter()))
      .prop_map(|(push, pull_request)| CondSpec::Config { push, pull_request }),
  ]
  .boxed()
}

pub fn files() -> BoxedStrategy<Vec<String>> {
  prop_oneof![
    6 => list(path, 6, 12),
    // long change lists: the interesting file may be far down the list
    1 => (30usize..260, vec(path(), 1..3), any::<bool>()).prop_map(|(n, tail, front)| {
      let filler = (0..n).map(|i| format!("docs/page-{}.md", i));
      if front {
        tail.into_iter().chain(filler).collect()
      } else {
        filler.chain(tail).collect()
      }
    }),
  ]
  .boxed()
}

fn gh() -> BoxedStrategy<GhSpec> {
  let auth = prop_oneof![
    1 => Just(Auth::None),
    6 => Just(Auth::Token),
    1 => Just(Auth::BadToken),
    4 => Just(Auth::App),
    1 => Just(Auth::BadApp),
  ];
  let event = (
    event_kind(),
    branch(),
    option::weighted(0.9, 1i64..40),
    option::weighted(0.9, files()),
    proptest::bool::weighted(0.05),
    prop_oneof![200 => Just(0usize), 1 => 300usize..2900],
  )
    .prop_map(|(kind, branch, pr_number, mut files, no_files_field, many)| {
      // a pull request lists up to 3000 files
      if kind == "pull_request" {
        if let Some(f) = &mut files {
          let few = std::mem::take(f);
          f.extend((0..many).map(|i| format!("gen/page-{}.md", i)));
          f.extend(few);
        }
      }
      GhEvent {
        kind,
        branch,
        pr_number,
        files,
        no_files_field,
      }
    });
  (auth, option::weighted(0.9, event))
    .prop_map(|(auth, event)| GhSpec { auth, event })
    .boxed()
}
