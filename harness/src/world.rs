//! Runs a generated scenario against the real astro-run under a virtual clock
//! and records everything observable: every hook call of every plugin and of
//! the runner, every `Runner::run` call, every signal a step saw, the outcome
//! of every cancellation, and the final result.

use crate::det;
use crate::spec::*;
use astro_run::{
  async_trait, AstroRun, AstroRunPlugin, Context, Error, HookBeforeRunStepResult, HookNoopResult,
  JobId, JobRunResult, Plugin, RunJobEvent, RunResponse, RunResult, RunStepEvent,
  RunWorkflowEvent, Runner, Signal, Step, StepId, StepRunResult, TriggerEvent, Workflow,
  WorkflowLog, WorkflowRunResult, WorkflowState, WorkflowStateEvent,
};
use parking_lot::Mutex;
use serde_json::Value;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;

pub const WF: &str = "wf";
/// The id of the second workflow, if the scenario has one.
pub const TWIN: &str = "twin";

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  RunWorkflow,
  WorkflowState(WorkflowState),
  WorkflowDone(Value),
  RunJob(String),
  JobState(String, WorkflowState),
  JobDone(String, Value),
  /// the step as the hook received it
  BeforeStep(String, usize, Value),
  RunStep(String, usize, Value),
  StepState(String, usize, WorkflowState),
  Log(String, usize, bool, String),
  StepDone(String, usize, Value),
  /// an event about an id that does not belong to this workflow
  Alien(String),
}

impl Ev {
  pub fn job(&self) -> Option<&str> {
    match self {
      Ev::RunJob(k)
      | Ev::JobState(k, _)
      | Ev::JobDone(k, _)
      | Ev::BeforeStep(k, ..)
      | Ev::RunStep(k, ..)
      | Ev::StepState(k, ..)
      | Ev::Log(k, ..)
      | Ev::StepDone(k, ..) => Some(k),
      _ => None,
    }
  }

  pub fn short(&self) -> String {
    match self {
      Ev::RunWorkflow => "run_workflow".into(),
      Ev::WorkflowState(s) => format!("workflow:{:?}", s),
      Ev::WorkflowDone(_) => "workflow_completed".into(),
      Ev::RunJob(k) => format!("run_job {}", k),
      Ev::JobState(k, s) => format!("job {}:{:?}", k, s),
      Ev::JobDone(k, _) => format!("job_completed {}", k),
      Ev::BeforeStep(k, i, _) => format!("before_run_step {}/{}", k, i),
      Ev::RunStep(k, i, _) => format!("run_step {}/{}", k, i),
      Ev::StepState(k, i, s) => format!("step {}/{}:{:?}", k, i, s),
      Ev::Log(k, i, e, m) => format!("log {}/{} {} {:?}", k, i, if *e { "err" } else { "out" }, m),
      Ev::StepDone(k, i, _) => format!("step_completed {}/{}", k, i),
      Ev::Alien(s) => format!("ALIEN {}", s),
    }
  }
}

#[derive(Clone, Debug)]
pub struct Rec {
  pub t: u64,
  /// plugin index; the runner comes last
  pub src: usize,
  pub ev: Ev,
  /// trigger event / payload as delivered with run_* hooks
  pub trigger: Option<Value>,
  pub payload: Option<Value>,
}

#[derive(Clone, Debug)]
pub struct RunCall {
  pub t: u64,
  /// the runner that was called (differs between remote servers)
  pub src: usize,
  pub job: String,
  pub idx: usize,
  pub command: Value,
  pub trigger: Option<Value>,
  pub payload: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Observed {
  pub t: u64,
  pub job: String,
  pub idx: usize,
  pub signal: Signal,
}

/// What the runner actually pushed into a step's stream.
#[derive(Clone, Debug, PartialEq)]
pub enum Push {
  Log(bool, String),
  End(End),
}

#[derive(Default)]
pub struct Log {
  pub pushes: Mutex<Vec<(u64, String, usize, Push)>>,
  pub recs: Mutex<Vec<Rec>>,
  pub calls: Mutex<Vec<RunCall>>,
  pub signals: Mutex<Vec<Observed>>,
  /// cancellations issued from inside hooks: (job, accepted?)
  pub hook_cancels: Mutex<Vec<(String, bool)>>,
  /// cancellations of jobs that certainly are not running, which were accepted
  pub probes: Mutex<Vec<String>>,
  /// set during the run when hooks are to issue cancellations
  pub astro: Mutex<Option<AstroRun>>,
  /// the record of the second workflow
  pub twin: Option<Arc<Log>>,
}

/// Everything observed in one execution.
pub struct Trace {
  /// None: the run did not finish within the (virtual) deadline
  pub result: Option<WorkflowRunResult>,
  pub workflow: Workflow,
  pub recs: Vec<Rec>,
  pub calls: Vec<RunCall>,
  pub signals: Vec<Observed>,
  pub pushes: Vec<(u64, String, usize, Push)>,
  /// outcome of each cancellation, in time order
  pub cancels: Vec<(CancelSpec, Result<(), String>)>,
  pub end: u64,
  pub github: Vec<octocrate::Call>,
  /// something awaited did not come (in time)
  pub stalled: bool,
  /// workflow id and start time
  pub id: &'static str,
  pub start: u64,
  pub hook_cancels: Vec<(String, bool)>,
  pub probes: Vec<String>,
  pub twin: Option<Box<Trace>>,
}

#[derive(Clone)]
pub struct Clock(pub Instant);

impl Clock {
  pub fn ms(&self) -> u64 {
    self.0.elapsed().as_millis() as u64
  }
}

#[derive(Clone)]
pub struct Recorder {
  pub log: Arc<Log>,
  pub clock: Clock,
  pub src: usize,
  pub spec: PluginSpec,
  pub tick: u64,
  /// what this recorder cancels from inside its hooks
  pub sc: Option<Arc<Scenario>>,
  /// counts the hooks, for an uneven latency
  pub turn: Arc<AtomicUsize>,
}

fn val<T: serde::Serialize>(v: &T) -> Value {
  serde_json::to_value(v).expect("serializable")
}

impl Recorder {
  /// The record of a workflow.
  pub fn of(&self, wf: &str) -> Option<&Arc<Log>> {
    match wf {
      WF => Some(&self.log),
      TWIN => self.log.twin.as_ref(),
      _ => None,
    }
  }

  fn push(&self, wf: &str, ev: Ev) {
    self.push_with(wf, ev, None, None)
  }

  fn push_with(&self, wf: &str, ev: Ev, trigger: Option<Value>, payload: Option<Value>) {
    let t = self.clock.ms();
    let (log, ev) = match self.of(wf) {
      Some(log) => (log, ev),
      None => (&self.log, Ev::Alien(format!("{}: {:?}", wf, ev))),
    };
    log.recs.lock().push(Rec {
      t,
      src: self.src,
      ev: ev.clone(),
      trigger,
      payload,
    });
    self.cancel_in_hook(wf, log, &ev);
  }

  /// Cancellations issued from inside a hook.
  fn cancel_in_hook(&self, wf: &str, log: &Log, ev: &Ev) {
    let Some(sc) = &self.sc else { return };
    let Some(astro) = self.log.astro.lock().clone() else {
      return;
    };
    let cancel = |key: &str| astro.cancel_job(&JobId::new(wf, key)).is_ok();
    // a job that has not started, was skipped or is over is not running
    let dead: Vec<String> = match ev {
      Ev::RunWorkflow | Ev::WorkflowDone(_) => (0..sc.jobs.len()).map(|j| sc.key(j)).collect(),
      Ev::JobDone(k, _) | Ev::JobState(k, WorkflowState::Skipped) => vec![k.clone()],
      _ => vec![],
    };
    for key in dead {
      if cancel(&key) {
        log.probes.lock().push(format!(
          "cancelling job {} of {} inside the {} hook succeeded",
          key,
          wf,
          ev.short()
        ));
      }
    }
    let sources = sc.plugins.len() + 1;
    if sc.hook_cancels.is_empty() || sc.hook_src as usize % sources != self.src {
      return;
    }
    let Some(job) = ev.job() else { return };
    for h in &sc.hook_cancels {
      let key = sc.key(h.job as usize % sc.jobs.len());
      if key != job {
        continue;
      }
      let hit = match (&h.at, ev) {
        (HookPoint::RunJob, Ev::RunJob(_)) => true,
        (HookPoint::RunStep(i), Ev::RunStep(_, x, _)) => *i as usize == *x,
        (HookPoint::InProgress(i), Ev::StepState(_, x, WorkflowState::InProgress)) => *i as usize == *x,
        (HookPoint::StepDone(i), Ev::StepDone(_, x, _)) => *i as usize == *x,
        (HookPoint::Log(i, n), Ev::Log(_, x, ..)) if *i as usize == *x => {
          let seen = log
            .recs
            .lock()
            .iter()
            .filter(|r| r.src == self.src && matches!(&r.ev, Ev::Log(k, y, ..) if *k == key && y == x))
            .count();
          seen == *n as usize + 1
        }
        _ => false,
      };
      if hit {
        let ok = cancel(&key);
        log.hook_cancels.lock().push((key, ok));
      }
    }
  }

  fn outcome(&self, hook: usize) -> HookNoopResult {
    if self.spec.fails & (1 << hook) != 0 {
      Err(Error::error(format!("hook {} of {} fails", HOOKS[hook], self.src)))
    } else {
      Ok(())
    }
  }

  pub fn run_workflow(&self, e: &RunWorkflowEvent) -> HookNoopResult {
    let (trigger, payload) = (e.trigger_event.as_ref().map(val), e.payload.as_ref().map(val));
    self.push_with(&e.source.id.inner(), Ev::RunWorkflow, trigger, payload);
    self.outcome(0)
  }

  pub fn run_job(&self, e: &RunJobEvent) -> HookNoopResult {
    let (trigger, payload) = (e.trigger_event.as_ref().map(val), e.payload.as_ref().map(val));
    let id = &e.source.id;
    self.push_with(&id.workflow_id().inner(), Ev::RunJob(id.job_key()), trigger, payload);
    self.outcome(1)
  }

  pub fn before_step(&self, step: Step) -> HookBeforeRunStepResult {
    let id = &step.id;
    let ev = Ev::BeforeStep(id.job_key(), id.step_number(), val(&step));
    self.push(&id.workflow_id().inner(), ev);
    self.outcome(2)?;
    Ok(apply(&self.spec.transform, step, self.tick))
  }

  pub fn run_step(&self, e: &RunStepEvent) -> HookNoopResult {
    let (trigger, payload) = (e.trigger_event.as_ref().map(val), e.payload.as_ref().map(val));
    let id = &e.source.id;
    let ev = Ev::RunStep(id.job_key(), id.step_number(), val(&e.source));
    self.push_with(&id.workflow_id().inner(), ev, trigger, payload);
    self.outcome(3)
  }

  pub fn state(&self, e: &WorkflowStateEvent) -> HookNoopResult {
    let (wf, ev) = match e {
      WorkflowStateEvent::WorkflowStateUpdated { id, state } => (id.inner(), Ev::WorkflowState(state.clone())),
      WorkflowStateEvent::JobStateUpdated { id, state } => {
        (id.workflow_id().inner(), Ev::JobState(id.job_key(), state.clone()))
      }
      WorkflowStateEvent::StepStateUpdated { id, state } => (
        id.workflow_id().inner(),
        Ev::StepState(id.job_key(), id.step_number(), state.clone()),
      ),
    };
    self.push(&wf, ev);
    self.outcome(4)
  }

  pub fn log(&self, l: &WorkflowLog) -> HookNoopResult {
    let id = &l.step_id;
    let ev = Ev::Log(id.job_key(), id.step_number(), l.is_error(), l.message.clone());
    self.push(&id.workflow_id().inner(), ev);
    self.outcome(5)
  }

  pub fn step_done(&self, r: &StepRunResult) -> HookNoopResult {
    let id = &r.id;
    let ev = Ev::StepDone(id.job_key(), id.step_number(), val(r));
    self.push(&id.workflow_id().inner(), ev);
    self.outcome(6)
  }

  pub fn job_done(&self, r: &JobRunResult) -> HookNoopResult {
    self.push(&r.id.workflow_id().inner(), Ev::JobDone(r.id.job_key(), val(r)));
    self.outcome(7)
  }

  pub fn workflow_done(&self, r: &WorkflowRunResult) -> HookNoopResult {
    self.push(&r.id.inner(), Ev::WorkflowDone(val(r)));
    self.outcome(8)
  }

  async fn pause(&self) {
    if self.spec.latency > 0 {
      if self.spec.uneven && self.turn.fetch_add(1, Ordering::Relaxed) % 2 == 1 {
        return;
      }
      tokio::time::sleep(Duration::from_millis(self.spec.latency as u64 * self.tick)).await;
    }
  }

  /// The synchronous flavour of the plugin API.
  pub fn sync_plugin(self) -> AstroRunPlugin {
    let r = Arc::new(self);
    macro_rules! hook {
      ($m:ident) => {{
        let r = r.clone();
        move |e| r.$m(&e)
      }};
    }
    let before = r.clone();
    AstroRunPlugin::builder("sync-recorder")
      .on_run_workflow(hook!(run_workflow))
      .on_run_job(hook!(run_job))
      .on_before_run_step(move |s| before.before_step(s))
      .on_run_step(hook!(run_step))
      .on_state_change(hook!(state))
      .on_log(hook!(log))
      .on_step_completed(hook!(step_done))
      .on_job_completed(hook!(job_done))
      .on_workflow_completed(hook!(workflow_done))
      .build()
  }
}

/// What a transforming hook does to a step.
pub fn apply(t: &Transform, mut step: Step, tick: u64) -> Step {
  match t {
    Transform::None => {}
    Transform::AppendRun(s) => step.run.push_str(s),
    Transform::SetEnv(k, v) => {
      step.environments.insert(k.clone(), v.clone().into());
    }
    Transform::SetName(n) => step.name = Some(n.clone()),
    Transform::Timeout(t) => step.timeout = Duration::from_millis(timeout_ms(Some(*t), tick)),
  }
  step
}

pub struct AsyncPlugin(pub Recorder);

#[async_trait]
impl Plugin for AsyncPlugin {
  fn name(&self) -> &'static str {
    "async-recorder"
  }
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    let r = self.0.run_workflow(&e);
    self.0.pause().await;
    r
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    let r = self.0.run_job(&e);
    self.0.pause().await;
    r
  }
  async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
    let r = self.0.before_step(s);
    self.0.pause().await;
    r
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    let r = self.0.run_step(&e);
    self.0.pause().await;
    r
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    let r = self.0.state(&e);
    self.0.pause().await;
    r
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    let r = self.0.log(&l);
    self.0.pause().await;
    r
  }
  async fn on_step_completed(&self, x: StepRunResult) -> HookNoopResult {
    let r = self.0.step_done(&x);
    self.0.pause().await;
    r
  }
  async fn on_job_completed(&self, x: JobRunResult) -> HookNoopResult {
    let r = self.0.job_done(&x);
    self.0.pause().await;
    r
  }
  async fn on_workflow_completed(&self, x: WorkflowRunResult) -> HookNoopResult {
    let r = self.0.workflow_done(&x);
    self.0.pause().await;
    r
  }
}

// ------------------------------------------------------------- the sim runner

/// A runner whose steps follow the scenario's script.
pub struct SimRunner {
  pub sc: Arc<Scenario>,
  pub rec: Recorder,
}

impl SimRunner {
  fn find(&self, job: &str, idx: usize) -> Option<StepSpec> {
    let j = (0..self.sc.jobs.len()).find(|j| self.sc.key(*j) == job)?;
    self.sc.jobs[j].steps.get(idx).cloned()
  }
}

fn run_result(e: &End) -> RunResult {
  match e {
    End::Succeeded => RunResult::Succeeded,
    End::Failed(c) => RunResult::Failed { exit_code: *c },
    End::Cancelled => RunResult::Cancelled,
  }
}

/// The end a step comes to when it reacts to `signal`.
pub fn reaction(spec: &StepSpec, signal: Signal) -> Option<(u64, End)> {
  let react = match signal {
    Signal::Cancel => &spec.on_cancel,
    Signal::Timeout => &spec.on_timeout,
  };
  match react {
    React::Ignore => None,
    React::Obey(k) => Some((
      *k as u64,
      match signal {
        Signal::Cancel => End::Cancelled,
        Signal::Timeout => End::Failed(123),
      },
    )),
    React::EndWith(k, e) => Some((*k as u64, e.clone())),
  }
}

#[async_trait]
impl Runner for SimRunner {
  async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
    let r = self.rec.run_workflow(&e);
    self.rec.pause().await;
    r
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    let r = self.rec.run_job(&e);
    self.rec.pause().await;
    r
  }
  async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
    let r = self.rec.before_step(s);
    self.rec.pause().await;
    r
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
    let r = self.rec.run_step(&e);
    self.rec.pause().await;
    r
  }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
    let r = self.rec.state(&e);
    self.rec.pause().await;
    r
  }
  async fn on_log(&self, l: WorkflowLog) -> HookNoopResult {
    let r = self.rec.log(&l);
    self.rec.pause().await;
    r
  }
  async fn on_step_completed(&self, x: StepRunResult) -> HookNoopResult {
    let r = self.rec.step_done(&x);
    self.rec.pause().await;
    r
  }
  async fn on_job_completed(&self, x: JobRunResult) -> HookNoopResult {
    let r = self.rec.job_done(&x);
    self.rec.pause().await;
    r
  }
  async fn on_workflow_completed(&self, x: WorkflowRunResult) -> HookNoopResult {
    let r = self.rec.workflow_done(&x);
    self.rec.pause().await;
    r
  }

  async fn run(&self, ctx: Context) -> RunResponse {
    let job = ctx.id.job_key();
    let idx = ctx.id.step_number();
    let Some(log) = self.rec.of(&ctx.id.workflow_id().inner()).cloned() else {
      return Err(Error::error("no such workflow in the scenario"));
    };
    let tick = self.sc.tick();
    log.calls.lock().push(RunCall {
      t: self.rec.clock.ms(),
      src: self.rec.src,
      job: job.clone(),
      idx,
      command: val(&ctx.command),
      trigger: ctx.event.as_ref().map(val),
      payload: ctx.payload.clone(),
    });
    let Some(spec) = self.find(&job, idx) else {
      return Err(Error::error("no such step in the scenario"));
    };
    if spec.run_delay > 0 {
      tokio::time::sleep(Duration::from_millis(spec.run_delay as u64 * tick)).await;
    }
    if spec.run_err {
      return Err(Error::error("the runner refuses this step"));
    }

    let (tx, rx) = astro_run::stream();
    let rec = self.rec.clone();
    let t0 = Instant::now();
    let signal = ctx.signal.clone();
    tokio::spawn(async move {
      let base = rec.clock.0;
      let t0_ms = t0.duration_since(base).as_millis() as u64;
      // (time, Some(log) | None = end)
      let mut at = t0_ms;
      let mut script = vec![];
      for l in &spec.logs {
        at += l.delay as u64 * tick;
        script.push((at, Some(l.clone())));
      }
      at += spec.end_delay as u64 * tick;
      script.push((at, None));

      let mut end = spec.end.clone();
      let mut recv = signal.recv();
      let mut signalled = false;
      let mut i = 0;
      while i < script.len() {
        let (t, what) = script[i].clone();
        tokio::select! {
          biased;
          s = &mut recv, if !signalled => {
            signalled = true;
            let now = rec.clock.ms();
            log.signals.lock().push(Observed { t: now, job: job.clone(), idx, signal: s });
            if let Some((k, e)) = reaction(&spec, s) {
              let stop = now.max(t0_ms) / tick * tick + tick * k;
              if script.last().unwrap().0 >= stop {
                script.retain(|(t, _)| *t < stop);
                script.push((stop, None));
                end = e;
              }
            }
            continue;
          }
          _ = tokio::time::sleep_until(base + Duration::from_millis(t)) => {
            let push = |p: Push| {
              let now = rec.clock.ms();
              log.pushes.lock().push((now, job.clone(), idx, p));
            };
            match what {
              Some(l) => {
                push(Push::Log(l.error, l.text()));
                if l.error {
                  tx.error(l.text())
                } else {
                  tx.log(l.text())
                }
              }
              None => {
                push(Push::End(end.clone()));
                tx.end(run_result(&end))
              }
            }
            i += 1;
          }
        }
      }
    });
    Ok(rx)
  }
}

// ------------------------------------------------------------------ execution

pub const OWNER: &str = "octo";
pub const REPO: &str = "widgets";
pub const SHA: &str = "c0ffee";
pub const TOKEN: &str = "good-token";

pub fn trigger_event(gh: &GhSpec) -> Option<TriggerEvent> {
  gh.event.as_ref().map(|e| TriggerEvent {
    event: e.kind.clone(),
    repo_owner: OWNER.into(),
    repo_name: REPO.into(),
    pr_number: e.pr_number,
    sha: SHA.into(),
    branch: e.branch.clone(),
    ref_name: format!("refs/heads/{}", e.branch),
  })
}

pub fn fake_github(gh: &GhSpec) -> octocrate::FakeGithub {
  let mut fake = octocrate::FakeGithub::default();
  let key = |x: &str| (OWNER.to_string(), REPO.to_string(), x.to_string());
  // decoys: another commit, another repository, neighbouring pull requests
  fake.commits.insert(key("other"), Some(vec!["decoy".into()]));
  fake.commits.insert(
    (REPO.to_string(), OWNER.to_string(), SHA.to_string()),
    Some(vec!["decoy".into()]),
  );
  if let Some(e) = &gh.event {
    if let Some(n) = e.pr_number {
      for d in [n - 1, n + 1] {
        fake
          .pulls
          .insert((OWNER.to_string(), REPO.to_string(), d), vec!["decoy".into()]);
      }
    }
    if let Some(files) = &e.files {
      match e.kind.as_str() {
        "push" => {
          let files = if e.no_files_field {
            None
          } else {
            Some(files.clone())
          };
          fake.commits.insert(key(SHA), files);
        }
        _ => {
          if let Some(n) = e.pr_number {
            fake
              .pulls
              .insert((OWNER.to_string(), REPO.to_string(), n), files.clone());
          }
        }
      }
    }
  }
  fake.installations.insert((OWNER.to_string(), REPO.to_string()), 42);
  fake.valid_tokens = vec![TOKEN.to_string()];
  fake.valid_apps = vec!["7:private".to_string()];
  fake
}

pub fn build_astro_run(sc: &Arc<Scenario>, log: &Arc<Log>, clock: &Clock) -> AstroRun {
  let n = sc.plugins.len();
  let rec = |src: usize, spec: &PluginSpec| Recorder {
    log: log.clone(),
    clock: clock.clone(),
    src,
    spec: spec.clone(),
    tick: sc.tick(),
    sc: Some(sc.clone()),
    turn: Default::default(),
  };
  let mut builder = AstroRun::builder().runner(SimRunner {
    sc: sc.clone(),
    rec: rec(n, &sc.runner_hooks),
  });
  for (i, p) in sc.plugins.iter().enumerate() {
    builder = if p.is_async {
      builder.plugin(AsyncPlugin(rec(i, p)))
    } else {
      builder.plugin(rec(i, p).sync_plugin())
    };
  }
  builder = match sc.gh.auth {
    Auth::None => builder,
    Auth::Token => builder.github_personal_token(TOKEN),
    Auth::BadToken => builder.github_personal_token("bad-token"),
    Auth::App => builder.github_app(7, "private"),
    Auth::BadApp => builder.github_app(8, "private"),
  };
  builder.build()
}

/// Virtual deadline. The longest script is far below it (and the timer wheel's
/// two years above it).
pub fn deadline(sc: &Scenario) -> Duration {
  Duration::from_millis((40_000_000 * sc.scale as u64).min(600 * 86_400_000))
}

async fn one_workflow(
  sc: &Arc<Scenario>,
  astro: &AstroRun,
  clock: &Clock,
  log: &Arc<Log>,
  id: &'static str,
  start: u64,
  mut cancels: Vec<CancelSpec>,
) -> Result<Trace, String> {
  let workflow = Workflow::builder()
    .id(id)
    .config(sc.yaml())
    .build(astro)
    .await
    .map_err(|e| format!("a valid workflow was rejected: {}\n{}", e, sc.yaml()))?;

  let mut ctx = astro.execution_context();
  if let Some(e) = trigger_event(&sc.gh) {
    ctx = ctx.event(e);
  }
  let ctx = ctx.build();
  cancels.sort_by_key(|c| c.tick);
  let canceller = {
    let ctx = ctx.clone();
    async move {
      let mut out = vec![];
      for c in cancels {
        tokio::time::sleep_until(clock.0 + Duration::from_millis(sc.cancel_ms(&c))).await;
        let key = sc.key(c.job as usize % sc.jobs.len());
        let id = JobId::new(id, key);
        let r = if c.via_context {
          ctx.cancel_job(&id)
        } else {
          astro.cancel_job(&id)
        };
        out.push((c, r.map_err(|e| e.to_string())));
      }
      out
    }
  };

  let run = {
    let workflow = workflow.clone();
    async move {
      tokio::time::sleep_until(clock.0 + Duration::from_millis(start)).await;
      let r = tokio::time::timeout(deadline(sc), workflow.run(ctx)).await.ok();
      (r, clock.ms())
    }
  };
  let ((result, end), cancels) = tokio::join!(run, canceller);
  // let stragglers (a duplicate execution, a late event) show themselves
  tokio::time::sleep(Duration::from_millis(2000 * sc.tick())).await;

  let trace = Trace {
    result,
    workflow,
    recs: log.recs.lock().clone(),
    calls: log.calls.lock().clone(),
    signals: log.signals.lock().clone(),
    pushes: log.pushes.lock().clone(),
    cancels,
    end,
    github: vec![],
    stalled: false,
    id,
    start,
    hook_cancels: log.hook_cancels.lock().clone(),
    probes: log.probes.lock().clone(),
    twin: None,
  };
  Ok(trace)
}

async fn execute(sc: Arc<Scenario>) -> Result<Trace, String> {
  let fake = octocrate::install_fake(fake_github(&sc.gh));
  let clock = Clock(Instant::now());
  let log = Arc::new(Log {
    twin: sc.twin.as_ref().map(|_| Arc::new(Log::default())),
    ..Log::default()
  });
  let astro = build_astro_run(&sc, &log, &clock);
  *log.astro.lock() = Some(astro.clone());

  let first = one_workflow(&sc, &astro, &clock, &log, WF, 0, sc.cancels.clone());
  let second = async {
    match (&sc.twin, &log.twin) {
      (Some(t), Some(log)) => {
        let start = t.start as u64 * sc.tick();
        one_workflow(&sc, &astro, &clock, log, TWIN, start, t.cancels.clone())
          .await
          .map(|t| Some(Box::new(t)))
      }
      _ => Ok(None),
    }
  };
  let (first, second) = tokio::join!(first, second);
  *log.astro.lock() = None;

  let calls = fake.lock().unwrap().calls.clone();
  octocrate::remove_fake();
  let mut trace = first?;
  trace.twin = second?;
  trace.github = calls;
  Ok(trace)
}

/// One execution of the scenario, on a thread of its own.
pub fn run(sc: &Scenario) -> Result<Trace, String> {
  let sc = Arc::new(sc.clone());
  let seed = sc.seed;
  det::on_fresh_thread(seed, Duration::from_secs(60), move || {
    det::block_on_virtual(seed, execute(sc))
  })?
}
