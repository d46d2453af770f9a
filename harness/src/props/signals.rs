//! C21: cancellations and timeouts reach exactly the steps they are meant
//! for, on whichever server these run.

use super::remote::{
  confirmed, connect, isolated, patient, payload_a, payload_b, serve, stall, trigger, until, STALL, STALLED,
};
use super::Property;
use crate::engine::*;
use crate::ensure;
use astro_run::{
  async_trait, AstroRun, AstroRunPlugin, Context, ExecutionContext, HookBeforeRunStepResult, HookNoopResult, JobId,
  JobRunResult, Plugin, RunJobEvent, RunResponse, RunStepEvent, RunWorkflowEvent, Runner, Signal, Step,
  StepId, StepRunResult, Workflow, WorkflowLog, WorkflowRunResult, WorkflowState, WorkflowStateEvent,
};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_run_scheduler::DefaultScheduler;
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum React {
  Obey,
  Succeed,
  Fail(i32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum What {
  /// ends by itself: Some = fails with this code
  Quick(Option<i32>),
  /// waits for a signal: its own timeout after so many ms, or (None) the
  /// cancellation of the job
  Hold(Option<u8>, React),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct StepS {
  what: What,
  continue_on_error: bool,
  logs_before: u8,
  logs_after: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct JobS {
  deps: u32,
  steps: Vec<StepS>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  seed: u64,
  servers: u8,
  workflows: Vec<Vec<JobS>>,
  /// cancel through the execution context instead of AstroRun
  via_context: bool,
  /// events pile up behind a slow hook of the first server
  slow_events: bool,
  /// how often the workflows run again, with the same ids, afterwards
  #[serde(default)]
  again: u8,
  /// for each client which servers it uses (a bit each, none: all); the
  /// workflows are theirs in turn. None: a single client.
  #[serde(default)]
  clients: Vec<u8>,
}

impl Case {
  fn clients(&self) -> usize {
    self.clients.len().max(1)
  }

  fn servers_of(&self, c: usize) -> Vec<usize> {
    let mask = self.clients.get(c).copied().unwrap_or(0);
    let some: Vec<usize> = (0..self.servers as usize).filter(|k| mask & (1 << k) != 0).collect();
    if some.is_empty() {
      (0..self.servers as usize).collect()
    } else {
      some
    }
  }
}

type Key = (String, String, usize);

#[derive(Default)]
struct Seen {
  started: Mutex<Vec<(Key, usize)>>,
  signals: Mutex<Vec<(Key, Signal)>>,
  logs: Mutex<Vec<(Key, String)>>,
  /// observer (a server, or TAP + a client), workflow, event
  events: Mutex<Vec<(usize, String, String)>>,
  /// trigger event and payload of each step, sent by a client or run by a server
  contexts: Mutex<Vec<(usize, Key, String)>>,
}

const TAP: usize = 100;

impl Seen {
  fn progress(&self) -> usize {
    self.events.lock().len() + self.logs.lock().len() + self.signals.lock().len()
  }

  fn event(&self, o: usize, wf: String, what: &str, e: Value) {
    self.events.lock().push((o, wf, format!("{} {}", what, e)));
  }

  fn context(&self, o: usize, ctx: &Context) {
    self.contexts.lock().push((o, key_of(&ctx.id), json!([ctx.event, ctx.payload]).to_string()));
  }
}

fn key_of(id: &StepId) -> Key {
  (id.workflow_id().inner(), id.job_key(), id.step_number())
}

fn state_wf(e: &WorkflowStateEvent) -> String {
  match e {
    WorkflowStateEvent::WorkflowStateUpdated { id, .. } => id.inner(),
    WorkflowStateEvent::JobStateUpdated { id, .. } => id.workflow_id().inner(),
    WorkflowStateEvent::StepStateUpdated { id, .. } => id.workflow_id().inner(),
  }
}

/// What an observer (a client's runner, or a server's plugin) records.
fn observe(seen: &Arc<Seen>, o: usize) -> AstroRunPlugin {
  macro_rules! note {
    ($what:literal, $e:ident, $wf:expr, $v:expr) => {{
      let seen = seen.clone();
      move |$e| {
        let wf = $wf.workflow_id().inner();
        seen.event(o, wf, $what, $v);
        Ok(())
      }
    }};
  }
  let (s, s1, s2) = (seen.clone(), seen.clone(), seen.clone());
  let s3 = seen.clone();
  AstroRunPlugin::builder("observer")
    .on_run_workflow(move |e| {
      s1.event(o, e.source.id.inner(), "run workflow", json!([e.source, e.trigger_event, e.payload]));
      Ok(())
    })
    .on_run_job(note!("run job", e, e.source.id, json!([e.source, e.trigger_event, e.payload])))
    .on_run_step(note!("run step", e, e.source.id, json!([e.source, e.trigger_event, e.payload])))
    .on_log(move |l| {
      let v = json!([l.step_id, l.is_error(), l.message, l.time]);
      s3.event(o, l.step_id.workflow_id().inner(), "log", v);
      Ok(())
    })
    .on_state_change(move |e| {
      s2.event(o, state_wf(&e), "state", json!(e));
      Ok(())
    })
    .on_step_completed(note!("step completed", r, r.id, json!(r)))
    .on_job_completed(note!("job completed", r, r.id, json!(r)))
    .on_workflow_completed(move |r| {
      s.event(o, r.id.inner(), "workflow completed", json!(r));
      Ok(())
    })
    .build()
}

/// A client as runner, observed.
struct Client {
  seen: Arc<Seen>,
  o: usize,
  plugin: AstroRunPlugin,
  inner: AstroRunRemoteRunnerClient,
}

macro_rules! observed {
  ($($hook:ident: $ty:ty),*) => {
    #[async_trait]
    impl Runner for Client {
      $(
        async fn $hook(&self, e: $ty) -> HookNoopResult {
          let _ = Plugin::$hook(&self.plugin, e.clone()).await;
          self.inner.$hook(e).await
        }
      )*

      async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
        self.inner.on_before_run_step(s).await
      }

      async fn run(&self, ctx: Context) -> RunResponse {
        self.seen.context(self.o, &ctx);
        Runner::run(&self.inner, ctx).await
      }
    }
  };
}

observed!(
  on_run_workflow: RunWorkflowEvent,
  on_run_job: RunJobEvent,
  on_run_step: RunStepEvent,
  on_state_change: WorkflowStateEvent,
  on_log: WorkflowLog,
  on_step_completed: StepRunResult,
  on_job_completed: JobRunResult,
  on_workflow_completed: WorkflowRunResult
);

struct HoldRunner {
  server: usize,
  case: Arc<Case>,
  seen: Arc<Seen>,
}

fn wf(w: usize) -> String {
  format!("wf{}", w)
}

fn job_key(j: usize) -> String {
  format!("job{}", j)
}

#[async_trait]
impl Runner for HoldRunner {
  async fn on_log(&self, _: astro_run::WorkflowLog) -> astro_run::HookNoopResult {
    if self.case.slow_events && self.server == 0 {
      tokio::time::sleep(std::time::Duration::from_millis(2)).await;
    }
    Ok(())
  }

  async fn run(&self, ctx: Context) -> RunResponse {
    let key = key_of(&ctx.id);
    if !self.case.clients.is_empty() {
      self.seen.context(self.server, &ctx);
    }
    let spec = (0..self.case.workflows.len())
      .find(|w| wf(*w) == key.0)
      .and_then(|w| {
        let jobs = &self.case.workflows[w];
        let j = (0..jobs.len()).find(|j| job_key(*j) == key.1)?;
        jobs[j].steps.get(key.2).cloned()
      })
      .ok_or_else(|| astro_run::Error::error("no such step"))?;
    let (tx, rx) = astro_run::stream();
    for i in 0..spec.logs_before {
      tx.log(format!("before {}", i));
    }
    let signal = ctx.signal.clone();
    let seen = self.seen.clone();
    let server = self.server;
    tokio::spawn(async move {
      seen.started.lock().push((key.clone(), server));
      match spec.what {
        What::Quick(code) => {
          for i in 0..spec.logs_after {
            tx.error(format!("after {}", i));
          }
          match code {
            None => tx.succeeded(),
            Some(c) => tx.failed(c),
          }
          let s = signal.recv().await;
          seen.signals.lock().push((key, s));
        }
        What::Hold(_, react) => {
          let s = signal.recv().await;
          seen.signals.lock().push((key.clone(), s));
          for i in 0..spec.logs_after {
            tx.error(format!("after {}", i));
          }
          match (react, s) {
            (React::Succeed, _) => tx.succeeded(),
            (React::Fail(c), _) => tx.failed(c),
            (React::Obey, Signal::Cancel) => tx.cancelled(),
            (React::Obey, Signal::Timeout) => tx.timeout(),
          }
          let s = signal.recv().await;
          seen.signals.lock().push((key, s));
        }
      }
    });
    Ok(rx)
  }
}

#[derive(Clone, Debug)]
struct Want {
  state: WorkflowState,
  exit_code: Option<i32>,
  signal: Option<Signal>,
  /// a quick step of a cancelled job may or may not notice
  may_cancel: bool,
}

struct JobWant {
  steps: Vec<Want>,
  state: WorkflowState,
  /// the step during which the job is to be cancelled
  cancel_at: Option<usize>,
}

fn model(job: &JobS) -> JobWant {
  let mut state = WorkflowState::Succeeded;
  let mut cancel_at = None;
  let mut steps = vec![];
  for (i, s) in job.steps.iter().enumerate() {
    let skip = match state {
      WorkflowState::Failed => !s.continue_on_error,
      WorkflowState::Cancelled => true,
      _ => false,
    };
    let mut w = Want {
      state: WorkflowState::Skipped,
      exit_code: None,
      signal: None,
      may_cancel: false,
    };
    if !skip {
      w.may_cancel = cancel_at.is_some();
      (w.state, w.exit_code) = match &s.what {
        What::Quick(None) => (WorkflowState::Succeeded, None),
        What::Quick(Some(c)) => (WorkflowState::Failed, Some(*c)),
        What::Hold(t, react) => {
          let signal = match (cancel_at, t) {
            (Some(_), _) => Signal::Cancel,
            (None, Some(_)) => Signal::Timeout,
            (None, None) => {
              cancel_at = Some(i);
              Signal::Cancel
            }
          };
          w.signal = Some(signal);
          match (react, signal) {
            (React::Succeed, _) => (WorkflowState::Succeeded, None),
            (React::Fail(c), _) => (WorkflowState::Failed, Some(*c)),
            (React::Obey, Signal::Cancel) => (WorkflowState::Cancelled, None),
            (React::Obey, Signal::Timeout) => (WorkflowState::Failed, Some(123)),
          }
        }
      };
      match w.state {
        WorkflowState::Failed => state = WorkflowState::Failed,
        WorkflowState::Cancelled => state = WorkflowState::Cancelled,
        _ => {}
      }
    }
    steps.push(w);
  }
  JobWant {
    steps,
    state,
    cancel_at,
  }
}

fn config(jobs: &[JobS]) -> String {
  let mut m = Map::new();
  for (j, job) in jobs.iter().enumerate() {
    let steps: Vec<Value> = job
      .steps
      .iter()
      .map(|s| {
        let mut v = json!({"run": "x", "continue-on-error": s.continue_on_error});
        if let What::Hold(Some(t), _) = s.what {
          v["timeout"] = json!(format!("{}ms", t.max(1)));
        }
        v
      })
      .collect();
    let deps: Vec<String> = (0..j).filter(|i| job.deps & (1 << i) != 0).map(job_key).collect();
    m.insert(job_key(j), json!({"steps": steps, "depends-on": deps}));
  }
  json!({ "jobs": m }).to_string()
}

fn check(case: &Case) -> CaseResult {
  confirmed(|| {
    let case = Arc::new(case.clone());
    isolated(case.seed, move || run(case))
  })
}

async fn run(case: Arc<Case>) -> CaseResult {
  let seen: Arc<Seen> = Arc::default();
  let mut urls = vec![];
  for k in 0..case.servers as usize {
    let mut server = AstroRunRemoteRunnerServer::builder()
      .id(format!("srv-{}", k))
      .support_docker(true)
      .runner(HoldRunner {
        server: k,
        case: case.clone(),
        seen: seen.clone(),
      });
    if !case.clients.is_empty() {
      server = server.plugin(observe(&seen, k));
    }
    let server = server.build().map_err(|e| Fail::from(e.to_string()))?;
    urls.push(format!("http://127.0.0.1:{}", serve(server).await));
  }
  let mut astros = vec![];
  for c in 0..case.clients() {
    let servers = case.servers_of(c);
    let n = servers.len();
    let urls = servers.into_iter().map(|k| urls[k].clone()).collect();
    let client = connect(urls, n, DefaultScheduler::new()).await?;
    let logs = seen.clone();
    let b = if case.clients.is_empty() {
      AstroRun::builder().runner(client)
    } else {
      AstroRun::builder().runner(Client {
        seen: seen.clone(),
        o: TAP + c,
        plugin: observe(&seen, TAP + c),
        inner: client,
      })
    };
    let b = b.plugin(
      AstroRunPlugin::builder("logs")
        .on_log(move |l| {
          logs.logs.lock().push((
            key_of(&l.step_id),
            format!("{}{}", if l.is_error() { "!" } else { "" }, l.message),
          ));
          Ok(())
        })
        .build(),
    );
    astros.push(b.build());
  }

  let wants: Vec<Vec<JobWant>> = case.workflows.iter().map(|jobs| jobs.iter().map(model).collect()).collect();
  let mut ok = round(&case, &astros, &seen, &wants).await?;
  for n in 0..case.again {
    seen.started.lock().clear();
    seen.signals.lock().clear();
    seen.logs.lock().clear();
    seen.events.lock().clear();
    seen.contexts.lock().clear();
    ok = round(&case, &astros, &seen, &wants)
      .await
      .map_err(|f| Fail { msg: if f.msg.starts_with(STALLED) { f.msg } else { format!("run again ({}): {}", n + 1, f.msg) }, sig: f.sig })?;
  }
  Ok(ok.tag(case.again > 0, "run again"))
}

async fn round(case: &Arc<Case>, astros: &[AstroRun], seen: &Arc<Seen>, wants: &[Vec<JobWant>]) -> CaseResult {
  let mut runs = vec![];
  let mut cancels = vec![];
  for (w, jobs) in case.workflows.iter().enumerate() {
    let c = w % astros.len();
    let astro = &astros[c];
    let workflow = Workflow::builder()
      .id(wf(w))
      .config(config(jobs))
      .build(astro)
      .await
      .map_err(|e| Fail::from(format!("a valid workflow was rejected: {}", e)))?;
    let ctx = context(case, c, astro);
    for j in 0..jobs.len() {
      if let Some(i) = wants[w][j].cancel_at {
        let (astro, ctx, seen, via) = (astro.clone(), ctx.clone(), seen.clone(), case.via_context);
        cancels.push(tokio::spawn(async move {
          let key: Key = (wf(w), job_key(j), i);
          until(&format!("step {:?} never started", key), || {
            seen.started.lock().iter().any(|(k, _)| *k == key)
          })
          .await?;
          let id = JobId::new(wf(w), job_key(j));
          let cancel = || if via { ctx.cancel_job(&id) } else { astro.cancel_job(&id) };
          if let Err(e) = cancel() {
            return Err(format!("job {:?} is running, but cannot be cancelled: {}", id, e).into());
          }
          ensure!(cancel().is_err(), "job {:?} was cancelled twice", id);
          Ok::<(), Fail>(())
        }));
      }
    }
    runs.push(tokio::spawn(async move { tokio::time::timeout(STALL * 3, workflow.run(ctx)).await }));
  }
  for c in cancels {
    c.await.map_err(|e| Fail::from(format!("{}", e)))??;
  }
  let mut results = vec![];
  for r in runs {
    let r = r.await.map_err(|e| Fail::from(format!("a workflow panicked: {}", e)))?;
    results.push(r.map_err(|_| stall("a workflow never completed"))?);
  }
  if !case.clients.is_empty() {
    forwarded(case, seen).await?;
  }
  // what comes too much
  tokio::time::sleep(std::time::Duration::from_millis(1)).await;

  let started = seen.started.lock().clone();
  let signals = seen.signals.lock().clone();
  let logs = seen.logs.lock().clone();
  let mut delivered = 0;
  for (w, jobs) in case.workflows.iter().enumerate() {
    for (j, job) in jobs.iter().enumerate() {
      let want = &wants[w][j];
      let got = results[w]
        .jobs
        .get(&job_key(j))
        .ok_or_else(|| Fail::from(format!("no result for {}/{}", wf(w), job_key(j))))?;
      for (i, s) in want.steps.iter().enumerate() {
        let key: Key = (wf(w), job_key(j), i);
        let sig: Vec<Signal> = signals.iter().filter(|(k, _)| *k == key).map(|(_, s)| *s).collect();
        match s.signal {
          Some(x) => {
            ensure!(
              sig.len() == 1 && sig[0].to_string() == x.to_string(),
              "step {:?} was to be told {:?} once, it was told {:?}",
              key,
              x,
              sig
            );
            delivered += 1;
          }
          None => ensure!(
            sig.is_empty() || (s.may_cancel && sig.len() == 1 && matches!(sig[0], Signal::Cancel)),
            "step {:?} was told {:?}, but nothing was meant for it",
            key,
            sig
          ),
        }
        let ran: Vec<usize> = started.iter().filter(|(k, _)| *k == key).map(|(_, s)| *s).collect();
        let skipped = s.state == WorkflowState::Skipped;
        let reachable = case.servers_of(w % astros.len());
        ensure!(
          ran.len() == !skipped as usize && ran.iter().all(|k| reachable.contains(k)),
          "step {:?} was started on servers {:?} (reachable: {:?})",
          key,
          ran,
          reachable
        );
        let g = got.steps.get(i).map(|g| (g.state.clone(), g.exit_code));
        ensure!(
          g == Some((s.state.clone(), s.exit_code)),
          "step {:?} is reported as {:?}, expected {:?} {:?}",
          key,
          g,
          s.state,
          s.exit_code
        );
        let lines: Vec<&String> = logs.iter().filter(|(k, _)| *k == key).map(|(_, l)| l).collect();
        let mut expected: Vec<String> = vec![];
        if !skipped {
          expected.extend((0..job.steps[i].logs_before).map(|n| format!("before {}", n)));
          expected.extend((0..job.steps[i].logs_after).map(|n| format!("!after {}", n)));
        }
        ensure!(
          lines.iter().map(|l| l.as_str()).eq(expected.iter().map(|l| l.as_str())),
          "step {:?} logged {:?}, expected {:?}",
          key,
          lines,
          expected
        );
      }
      ensure!(
        got.state == want.state && got.steps.len() == want.steps.len(),
        "job {}/{} is {:?} with {} steps, expected {:?} with {}",
        wf(w),
        job_key(j),
        got.state,
        got.steps.len(),
        want.state,
        want.steps.len()
      );
      let id = JobId::new(wf(w), job_key(j));
      for astro in astros {
        ensure!(astro.cancel_job(&id).is_err(), "job {:?} is over, but can be cancelled", id);
      }
    }
  }
  let jobs: usize = case.workflows.iter().map(|w| w.len()).sum();
  let mut by_job: BTreeMap<(String, String), usize> = BTreeMap::new();
  for (k, _) in &signals {
    *by_job.entry((k.0.clone(), k.1.clone())).or_insert(0) += 1;
  }
  let timeouts = signals.iter().filter(|(_, s)| matches!(s, Signal::Timeout)).count();
  Ok(
    CaseOk::new(delivered > 0 && jobs > by_job.len() || delivered > 1)
      .tag(timeouts > 0, "timeouts")
      .tag(timeouts < signals.len(), "cancellations")
      .tag(by_job.values().any(|n| *n > 1), "several signals in a job")
      .tag(by_job.len() > 1, "signals in several jobs")
      .tag(case.workflows.len() > 1, "two workflows at once")
      .tag(case.servers > 1, "several servers"),
  )
}

/// The context of client c's workflows: no two clients have the same.
fn context(case: &Case, c: usize, astro: &AstroRun) -> ExecutionContext {
  let mut b = astro.execution_context();
  if !case.clients.is_empty() {
    if c < 2 {
      let mut t = trigger(true).unwrap();
      t.repo_name = format!("repo{}", c);
      b = b.event(t);
    }
    b = match (c + case.seed as usize) % 3 {
      0 => b,
      1 => b.payload(payload_a()),
      _ => b.payload(payload_b()),
    };
  }
  b.build()
}

/// Each server is told what its clients are, in their order, and nothing else;
/// the steps get the contexts their clients sent.
async fn forwarded(case: &Case, seen: &Arc<Seen>) -> Result<(), Fail> {
  let owner: BTreeMap<String, usize> = (0..case.workflows.len()).map(|w| (wf(w), w % case.clients())).collect();
  let of = |o: usize, c: usize| -> Vec<String> {
    let events = seen.events.lock();
    events.iter().filter(|e| e.0 == o && owner.get(&e.1) == Some(&c)).map(|e| e.2.clone()).collect()
  };
  let mut pairs = vec![];
  for c in 0..case.clients() {
    for k in 0..case.servers as usize {
      let want = if case.servers_of(c).contains(&k) { of(TAP + c, c) } else { vec![] };
      pairs.push((c, k, want));
    }
  }
  let due: usize = pairs.iter().map(|p| p.2.len()).sum();
  let complete = || seen.events.lock().iter().filter(|e| e.0 < TAP).count() >= due;
  let waiting = async {
    while !complete() {
      tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
  };
  let s = seen.clone();
  let stalled = patient("a server was not told of every event", waiting, &move || s.progress())
    .await
    .is_err();
  tokio::time::sleep(std::time::Duration::from_millis(2)).await;
  for (c, k, want) in &pairs {
    let got = of(*k, *c);
    if got != *want {
      let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
      return Err(
        format!(
          "{}server {} was told {} events of client {}, which sent it {}; number {} is {:?} instead of {:?}",
          if stalled { STALLED } else { "" },
          k,
          got.len(),
          c,
          want.len(),
          at,
          got.get(at),
          want.get(at)
        )
        .into(),
      );
    }
  }
  let all = seen.events.lock().iter().filter(|e| e.0 < TAP).count();
  let own: usize = pairs.iter().map(|p| p.2.len()).sum();
  ensure!(all == own, "the servers were told {} events, but only {} are those of their clients", all, own);
  let contexts = seen.contexts.lock().clone();
  for (o, key, ctx) in contexts.iter().filter(|x| x.0 < TAP) {
    let sent: Vec<&String> = contexts.iter().filter(|x| x.0 >= TAP && x.1 == *key).map(|x| &x.2).collect();
    ensure!(
      sent == [ctx],
      "server {} ran step {:?} with the context {}, sent was {:?}",
      o,
      key,
      ctx,
      sent
    );
  }
  Ok(())
}

/// 2-3 clients with 1-2 workflows each.
fn shared_strategy() -> BoxedStrategy<Case> {
  (strategy(), strategy(), vec(0u8..8, 2..4), 1u8..3)
    .prop_map(|(mut case, more, clients, servers)| {
      case.workflows.extend(more.workflows);
      let n = case.workflows.len();
      if n < clients.len() {
        case.workflows.push(case.workflows[0].clone());
      }
      case.clients = clients;
      case.servers = case.servers.min(servers + 1);
      case.slow_events &= n < 3;
      // every line is an event for every server
      let steps = || case.workflows.iter().flatten().flat_map(|j| &j.steps);
      if steps().map(|s| s.logs_before as usize + s.logs_after as usize).sum::<usize>() > 150 {
        for s in case.workflows.iter_mut().flatten().flat_map(|j| &mut j.steps) {
          s.logs_before = s.logs_before.min(3);
          s.logs_after = s.logs_after.min(3);
        }
      }
      case
    })
    .boxed()
}

pub fn c29() -> Property {
  (
    "property-based testing: several clients with a history each, held against signals, on shared real servers, against a model per client",
    super::remote::ASSUME.to_vec(),
    vec![Part::new(
      "shared",
      "2-3 clients, each connected to some of 1-3 servers, with own trigger events and payloads, run 1-2 workflows each (equal job names) at the same time; steps end by themselves or wait for a timeout or cancellation. Non-trivial: at least two signals, or one signal beside undisturbed jobs.",
      1_000,
      30_000,
      shared_strategy,
      check,
    )
    .shards(16)
    .boxed()],
  )
}

fn strategy() -> BoxedStrategy<Case> {
  let react = prop_oneof![
    3 => Just(React::Obey),
    2 => Just(React::Succeed),
    1 => (-2i32..200).prop_map(React::Fail),
  ];
  let what = prop_oneof![
    3 => prop_oneof![3 => Just(None), 1 => (1i32..5).prop_map(Some)].prop_map(What::Quick),
    4 => (prop_oneof![(1u8..12).prop_map(Some), Just(None)], react).prop_map(|(t, r)| What::Hold(t, r)),
  ];
  let logs = || prop_oneof![6 => 0u8..3, 1 => 30u8..70];
  let step = (what, proptest::bool::weighted(0.5), logs(), logs()).prop_map(
    |(what, continue_on_error, logs_before, logs_after)| StepS {
      what,
      continue_on_error,
      logs_before,
      logs_after,
    },
  );
  let mask = vec(proptest::bool::weighted(0.2), 4)
    .prop_map(|b| b.iter().enumerate().fold(0, |m, (i, x)| m | ((*x as u32) << i)));
  let steps = prop_oneof![12 => vec(step.clone(), 1..4), 1 => vec(step, 4..9)];
  let job = (mask, steps).prop_map(|(deps, steps)| JobS { deps, steps });
  (
    any::<u64>(),
    1u8..4,
    vec(vec(job, 1..5), 1..3),
    any::<bool>(),
    proptest::bool::weighted(0.15),
    prop_oneof![4 => Just(0u8), 1 => 1u8..3],
  )
    .prop_map(|(seed, servers, mut workflows, via_context, slow_events, again)| {
      if slow_events {
        for s in workflows.iter_mut().flatten().flat_map(|j| &mut j.steps) {
          s.logs_before = s.logs_before.min(20);
          s.logs_after = s.logs_after.min(3);
        }
      }
      Case {
        seed,
        servers,
        workflows,
        via_context,
        slow_events,
        again,
        clients: vec![],
      }
    })
    .boxed()
}

pub fn c21() -> Property {
  (
    "property-based testing: steps held until a signal arrives, on real servers, against a model of which signals are due",
    super::remote::ASSUME.to_vec(),
    vec![Part::new(
      "signals",
      "One or two workflows at once (equal job names) over 1-3 servers; steps end by themselves or wait for their timeout (1-11 ms) or for the cancellation of their job, and then obey, succeed or fail; some run again with the same ids, right after, while the servers may still be told of the first run. Non-trivial: at least two signals, or one signal beside undisturbed jobs.",
      5_000,
      80_000,
      strategy,
      check,
    )
    .shards(16)
    .boxed()],
  )
}
