//! C19: what a client makes of runners that are unreachable, incompatible,
//! refuse steps, break off in the middle or disappear.

use super::oracle;
use super::remote::{
  confirmed, connect, forwarded, hasten, isolated, local_step, permutations, quiet, serve,
  server_src, Cable, Cluster,
};
use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use crate::world::{Ev, Push, Recorder, RunCall, Trace};
use astro_run::{
  async_trait, Context, JobRunResult, RunResult, Runner, Step, StepRunResult, Workflow,
  WorkflowRunResult, WorkflowState,
};
use astro_run_protocol::remote_runner::RemoteRunnerExt;
use astro_run_protocol::tonic::{self, Code, Request, Response, Status};
use astro_run_protocol::{Empty, ProtocolEvent};
use astro_run_scheduler::{RunnerMetadata, Scheduler};
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use tokio_stream::wrappers::UnboundedReceiverStream;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
  Good,
  WrongVersion(String),
  NoMetadata(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Srv {
  /// servers with equal numbers claim the same id
  id: u8,
  kind: Kind,
  fail_events: bool,
  fail_before: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Url {
  Server(u8),
  Unreachable,
  Malformed(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Fault {
  None,
  /// the run call itself fails
  Refuse(u8),
  /// the stream ends without a result after this many lines
  Eof(u8),
  /// the stream fails after this many lines
  Error(u8, u8),
  /// the network to this server breaks after this many lines
  Cut(u8, bool),
  /// the stream fails after the result
  LateError(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  sc: Scenario,
  servers: Vec<Srv>,
  urls: Vec<Url>,
  /// for each step (all jobs' steps in a row, cyclic): which server, how it
  /// fares; None: the scheduler finds nobody
  plan: Vec<(Option<u8>, Fault)>,
}

impl Case {
  fn flat(&self, job: usize, idx: usize) -> usize {
    self.sc.jobs[..job].iter().map(|j| j.steps.len()).sum::<usize>() + idx
  }

  fn plan(&self, job: usize, idx: usize) -> (Option<usize>, Fault) {
    let (s, f) = &self.plan[self.flat(job, idx) % self.plan.len()];
    (s.map(|s| s as usize % self.servers.len()), f.clone())
  }

  fn id(&self, k: usize) -> String {
    format!("srv-{}", self.servers[k].id)
  }

  /// Which servers end up connected: the good ones, the first of each id.
  fn connected(&self) -> BTreeSet<usize> {
    let mut ids = BTreeSet::new();
    let mut out = BTreeSet::new();
    for u in &self.urls {
      if let Url::Server(k) = u {
        let k = *k as usize % self.servers.len();
        if self.servers[k].kind == Kind::Good && ids.insert(self.id(k)) {
          out.insert(k);
        }
      }
    }
    out
  }

  fn find(&self, job: &str) -> Option<usize> {
    (0..self.sc.jobs.len()).find(|j| self.sc.key(*j) == job)
  }
}

struct Faulty {
  k: usize,
  case: Arc<Case>,
  rec: Recorder,
  cable: Cable,
}

fn code(c: u8) -> Code {
  Code::from(1 + (c as i32) % 16)
}

#[tonic::async_trait]
impl RemoteRunnerExt for Faulty {
  type RunStream = UnboundedReceiverStream<tonic::Result<astro_run_protocol::RunResponse>>;

  async fn run(&self, r: Request<Context>) -> Result<Response<Self::RunStream>, Status> {
    let ctx = r.into_inner();
    let (job, idx) = (ctx.id.job_key(), ctx.id.step_number());
    self.rec.log.calls.lock().push(RunCall {
      t: 0,
      src: server_src(self.k),
      job: job.clone(),
      idx,
      command: serde_json::to_value(&ctx.command).unwrap(),
      trigger: None,
      payload: None,
    });
    let j = self.case.find(&job).ok_or_else(|| Status::not_found("no such job"))?;
    let spec = self.case.sc.jobs[j].steps[idx].clone();
    let fault = self.case.plan(j, idx).1;
    if let Fault::Refuse(c) = fault {
      return Err(Status::new(code(c), "refused"));
    }
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let id = ctx.id.clone();
    let stop = match fault {
      Fault::Eof(k) | Fault::Error(k, _) | Fault::Cut(k, _) => Some(k as usize),
      _ => None,
    };
    let logs = stop.unwrap_or(usize::MAX);
    for l in spec.logs.iter().take(logs) {
      self.rec.log.pushes.lock().push((0, job.clone(), idx, Push::Log(l.error, l.text())));
      let log = if l.error {
        astro_run::Log::error(l.text())
      } else {
        astro_run::Log::log(l.text())
      };
      let _ = tx.send(Ok(astro_run_protocol::RunResponse::log(id.clone(), log)));
    }
    match fault {
      Fault::Error(_, c) => {
        let _ = tx.send(Err(Status::new(code(c), "broken off")));
      }
      Fault::Cut(_, late) => {
        let cable = self.cable.clone();
        tokio::spawn(async move {
          if late {
            tokio::time::sleep(Duration::from_millis(3)).await;
          }
          cable.cut();
          // the stream itself never ends
          tx.closed().await;
        });
      }
      Fault::Eof(_) => {}
      _ => {
        let result = match spec.end {
          End::Succeeded => RunResult::Succeeded,
          End::Failed(exit_code) => RunResult::Failed { exit_code },
          End::Cancelled => RunResult::Cancelled,
        };
        let _ = tx.send(Ok(astro_run_protocol::RunResponse::result(id, result)));
        if let Fault::LateError(c) = fault {
          let _ = tx.send(Err(Status::new(code(c), "too late")));
        }
      }
    }
    Ok(Response::new(UnboundedReceiverStream::new(rx)))
  }

  async fn send_event(&self, r: Request<ProtocolEvent>) -> Result<Response<Empty>, Status> {
    let rec = &self.rec;
    let _ = match r.into_inner() {
      ProtocolEvent::RunStep(e) => rec.run_step(&e),
      ProtocolEvent::RunJob(e) => rec.run_job(&e),
      ProtocolEvent::RunWorkflow(e) => rec.run_workflow(&e),
      ProtocolEvent::StepCompleted(e) => rec.step_done(&e),
      ProtocolEvent::JobCompleted(e) => rec.job_done(&e),
      ProtocolEvent::WorkflowCompleted(e) => rec.workflow_done(&e),
      ProtocolEvent::StepLog(e) => rec.log(&e),
      ProtocolEvent::StateChange(e) => rec.state(&e),
      ProtocolEvent::Signal(_) => Ok(()),
    };
    if self.case.servers[self.k].fail_events {
      return Err(Status::internal("cannot take events"));
    }
    Ok(Response::new(Empty {}))
  }

  async fn call_before_run_step_hook(
    &self,
    r: Request<astro_run::Command>,
  ) -> Result<Response<astro_run::Command>, Status> {
    let mut c = r.into_inner();
    let _ = self.rec.before_step(c.clone().into());
    if self.case.servers[self.k].fail_before {
      return Err(Status::internal("no such hook"));
    }
    c.run.push_str(&suffix(self.k));
    Ok(Response::new(c))
  }

  async fn get_runner_metadata(&self, _: Request<Empty>) -> Result<Response<RunnerMetadata>, Status> {
    let version = match &self.case.servers[self.k].kind {
      Kind::Good => astro_run_remote_runner::VERSION.to_string(),
      Kind::WrongVersion(v) => v.clone(),
      Kind::NoMetadata(c) => return Err(Status::new(code(*c), "no metadata")),
    };
    Ok(Response::new(RunnerMetadata {
      id: self.case.id(self.k),
      os: "linux".into(),
      arch: "x86_64".into(),
      support_docker: true,
      support_host: true,
      version,
      max_runs: 5,
    }))
  }
}

fn suffix(k: usize) -> String {
  format!("+{}", k)
}

/// Sends each step where the plan says; remembers whom it was offered.
#[derive(Clone)]
struct Assign {
  case: Arc<Case>,
  offered: Arc<Mutex<Vec<(String, usize, Vec<String>)>>>,
}

#[async_trait]
impl Scheduler for Assign {
  fn on_run_workflow(&self, _: Workflow) {}
  fn on_run_job(&self, _: astro_run::Job) {}
  fn on_run_step(&self, _: Step) {}
  fn on_step_completed(&self, _: StepRunResult) {}
  fn on_job_completed(&self, _: JobRunResult) {}
  fn on_workflow_completed(&self, _: WorkflowRunResult) {}
  async fn schedule<'a, 'b: 'a>(
    &'b self,
    runners: &'a [RunnerMetadata],
    ctx: &Context,
  ) -> Option<&'a RunnerMetadata> {
    let (job, idx) = (ctx.id.job_key(), ctx.id.step_number());
    let mut ids: Vec<String> = runners.iter().map(|r| r.id.clone()).collect();
    ids.sort();
    self.offered.lock().push((job.clone(), idx, ids));
    let j = self.case.find(&job)?;
    let k = self.case.plan(j, idx).0?;
    runners.iter().find(|r| r.id == self.case.id(k))
  }
}

/// What a step that reached server `k` may be reported as.
#[derive(Clone, Debug)]
struct Allowed {
  /// the script's outcome: these lines exactly, then possibly error lines if
  /// `tail`, and this end
  as_scripted: Option<bool>,
  /// Failed 1: the first n lines (or any fewer, if `fewer`), then error lines
  failed: Option<(usize, bool)>,
}

fn judge(
  what: &str,
  spec: &StepSpec,
  allowed: &Allowed,
  got: &[(bool, String)],
  state: &WorkflowState,
  exit_code: Option<i32>,
) -> Result<&'static str, Fail> {
  let lines: Vec<(bool, String)> = spec.logs.iter().map(|l| (l.error, l.text())).collect();
  if let Some(tail) = allowed.as_scripted {
    let end = match spec.end {
      End::Succeeded => (WorkflowState::Succeeded, None),
      End::Failed(c) => (WorkflowState::Failed, Some(c)),
      End::Cancelled => (WorkflowState::Cancelled, None),
    };
    let logs_ok = got.len() >= lines.len()
      && got[..lines.len()] == lines[..]
      && (got.len() == lines.len() || (tail && got[lines.len()..].iter().all(|l| l.0)));
    if logs_ok && (state.clone(), exit_code) == end {
      return Ok("as scripted");
    }
  }
  if let Some((n, fewer)) = allowed.failed {
    let n = n.min(lines.len());
    let logs_ok = (if fewer { 0 } else { n }..=n).any(|p| {
      got.len() > p && got[..p] == lines[..p] && got[p..].iter().all(|l| l.0)
    });
    if logs_ok && *state == WorkflowState::Failed && exit_code == Some(1) {
      return Ok("failed");
    }
  }
  Err(
    format!(
      "{} is reported as {:?} {:?} with lines {:?}; its runner was to write {:?} and end with {:?}; expected: {}{}{}",
      what,
      state,
      exit_code,
      got,
      lines,
      spec.end,
      if allowed.as_scripted.is_some() { "exactly that" } else { "" },
      if allowed.as_scripted.is_some() && allowed.failed.is_some() { ", or " } else { "" },
      match allowed.failed {
        Some((n, fewer)) => format!(
          "Failed 1 after {}{} of the lines and at least one line of error",
          if fewer { "at most " } else { "" },
          n
        ),
        None => String::new(),
      }
    )
    .into(),
  )
}

fn outcomes(case: &Case, tr: &Trace, cut: &BTreeSet<usize>) -> Result<BTreeMap<&'static str, usize>, Fail> {
  let res = oracle::result(&case.sc, tr)?;
  let tap = case.sc.plugins.len();
  let connected = case.connected();
  let mut classes = BTreeMap::new();
  for (j, job) in case.sc.jobs.iter().enumerate() {
    let key = case.sc.key(j);
    let Some(got) = res.jobs.get(&key) else {
      return Err(format!("no result for job {}", key).into());
    };
    ensure!(
      got.steps.len() == job.steps.len(),
      "job {} reports {} of its {} steps",
      key,
      got.steps.len(),
      job.steps.len()
    );
    let mut state = WorkflowState::Succeeded;
    for (i, spec) in job.steps.iter().enumerate() {
      let what = format!("step {}/{}", key, i);
      let g = &got.steps[i];
      let lines: Vec<(bool, String)> = tr
        .recs
        .iter()
        .filter(|r| r.src == tap)
        .filter_map(|r| match &r.ev {
          Ev::Log(k, x, e, m) if *k == key && *x == i => Some((*e, m.clone())),
          _ => None,
        })
        .collect();
      let calls: Vec<usize> = tr
        .calls
        .iter()
        .filter(|c| c.job == key && c.idx == i)
        .map(|c| c.src / 100 - 1)
        .collect();
      let skip = match state {
        WorkflowState::Failed => !spec.continue_on_error,
        WorkflowState::Cancelled => true,
        _ => false,
      };
      if skip {
        ensure!(
          g.state == WorkflowState::Skipped && lines.is_empty() && calls.is_empty(),
          "{} should have been skipped, it is {:?}",
          what,
          g.state
        );
        continue;
      }
      let (target, fault) = case.plan(j, i);
      // the id decides which server it is
      let target = target.and_then(|t| connected.iter().copied().find(|k| case.id(*k) == case.id(t)));
      let failed = |n: u8, fewer| Allowed {
        as_scripted: None,
        failed: Some((n as usize, fewer)),
      };
      let mut allowed = match (&target, &fault) {
        (None, _) | (_, Fault::Refuse(_)) => failed(0, false),
        (_, Fault::Eof(n)) | (_, Fault::Error(n, _)) => failed(*n, false),
        (_, Fault::Cut(n, _)) => failed(*n, true),
        (_, Fault::LateError(_)) => Allowed {
          as_scripted: Some(true),
          failed: None,
        },
        (_, Fault::None) => Allowed {
          as_scripted: Some(false),
          failed: None,
        },
      };
      if let Some(k) = target {
        if cut.contains(&k) {
          // the connection may have been lost at any time
          let n = allowed.failed.map(|f| f.0).unwrap_or(usize::MAX);
          allowed.failed = Some((n, true));
        } else {
          ensure!(calls == [k], "{} was to run on server {} once, it ran on {:?}", what, k, calls);
        }
      }
      ensure!(
        calls.len() <= 1 && calls.iter().all(|c| Some(*c) == target),
        "{} was run by servers {:?}, planned was {:?}",
        what,
        calls,
        target
      );
      let class = judge(&what, spec, &allowed, &lines, &g.state, g.exit_code)?;
      *classes.entry(class).or_insert(0) += 1;
      match g.state {
        WorkflowState::Failed => state = WorkflowState::Failed,
        WorkflowState::Cancelled => state = WorkflowState::Cancelled,
        _ => {}
      }
    }
    ensure!(got.state == state, "job {} is {:?}, its steps make it {:?}", key, got.state, state);
  }
  oracle::workflow_state(res)?;
  Ok(classes)
}

/// The step that is announced and run.
fn hooks(case: &Case, tr: &Trace, cut: &BTreeSet<usize>) -> Result<(), Fail> {
  let tap = case.sc.plugins.len();
  let connected: Vec<usize> = case.connected().into_iter().collect();
  let failing = connected.iter().any(|k| case.servers[*k].fail_before);
  for r in tr.recs.iter().filter(|r| r.src == tap) {
    let Ev::RunStep(key, i, v) = &r.ev else { continue };
    let local = local_step(&case.sc, &tr.workflow.jobs[key].steps[*i]).run;
    let mut allowed = BTreeSet::new();
    if failing || connected.is_empty() || connected.iter().any(|k| cut.contains(k)) {
      allowed.insert(local.clone());
    }
    if !failing {
      for p in permutations(connected.len()) {
        let s: String = p.iter().map(|x| suffix(connected[*x])).collect();
        allowed.insert(format!("{}{}", local, s));
      }
    }
    let run = v["run"].as_str().unwrap_or_default().to_string();
    ensure!(
      allowed.contains(&run),
      "step {}/{} was announced with command {:?}, expected one of {:?}",
      key,
      i,
      run,
      allowed
    );
    for c in tr.calls.iter().filter(|c| c.job == *key && c.idx == *i) {
      ensure!(
        c.command["run"] == v["run"],
        "step {}/{} was announced with command {:?} but run with {:?}",
        key,
        i,
        run,
        c.command["run"]
      );
    }
  }
  Ok(())
}

fn check(case: &Case) -> CaseResult {
  confirmed(|| {
    let case = Arc::new(case.clone());
    isolated(case.sc.seed, move || async move {
      let cl = Cluster::new(&case.sc);
      let mut ports = vec![];
      let mut cables = vec![];
      for k in 0..case.servers.len() {
        let cable = Cable::new();
        let port = serve(Faulty {
          k,
          case: case.clone(),
          rec: Recorder {
            log: cl.log.clone(),
            clock: cl.clock.clone(),
            src: server_src(k),
            spec: quiet(),
            tick: TICK,
            sc: None,
            turn: Default::default(),
          },
          cable: cable.clone(),
        })
        .await;
        ports.push(cable.to(port).await);
        cables.push(cable);
      }
      let urls: Vec<String> = case
        .urls
        .iter()
        .map(|u| match u {
          Url::Server(k) => format!("http://127.0.0.1:{}", ports[*k as usize % ports.len()]),
          Url::Unreachable => "http://127.0.0.2:1".into(),
          Url::Malformed(s) => s.clone(),
        })
        .collect();
      let connected = case.connected();
      // may the network break at all in this case?
      let may_cut: BTreeSet<usize> = connected
        .iter()
        .copied()
        .filter(|k| {
          (0..case.sc.jobs.len()).any(|j| {
            (0..case.sc.jobs[j].steps.len()).any(|i| {
              let (t, f) = case.plan(j, i);
              t.map(|t| case.id(t)) == Some(case.id(*k)) && matches!(f, Fault::Cut(..))
            })
          })
        })
        .collect();
      let observers: Vec<usize> = connected
        .iter()
        .filter(|k| !may_cut.contains(k))
        .map(|k| server_src(*k))
        .collect();
      let sched = Assign {
        case: case.clone(),
        offered: Arc::default(),
      };
      let client = connect(urls, connected.len(), sched.clone()).await?;
      let probe_client = client.clone();
      let tr = cl.run(client, None, 0, &observers).await?;
      let cut: BTreeSet<usize> = connected.iter().copied().filter(|k| cables[*k].is_cut()).collect();
      // a server whose step announced a cut may be cut a little later
      let cut: BTreeSet<usize> = cut.union(&may_cut).copied().collect();

      let classes = outcomes(&case, &tr, &cut)?;
      oracle::lifecycle(&case.sc, &tr)?;
      hooks(&case, &tr, &cut)?;
      forwarded(&tr, case.sc.plugins.len(), &observers)?;
      let tap = case.sc.plugins.len();
      for k in 0..case.servers.len() {
        let seen: Vec<&Ev> = tr
          .recs
          .iter()
          .filter(|r| r.src == server_src(k))
          .map(|r| &r.ev)
          .collect();
        if !connected.contains(&k) {
          ensure!(
            seen.is_empty() && !tr.calls.iter().any(|c| c.src == server_src(k)),
            "server {} was rejected, and yet it was told {:?}",
            k,
            seen
          );
        } else if cut.contains(&k) {
          let seen: Vec<&Ev> = seen.into_iter().filter(|e| !matches!(e, Ev::BeforeStep(..))).collect();
          let sent: Vec<&Ev> = tr
            .recs
            .iter()
            .filter(|r| r.src == tap && !matches!(r.ev, Ev::BeforeStep(..)))
            .map(|r| &r.ev)
            .collect();
          ensure!(
            seen.len() <= sent.len() && seen[..] == sent[..seen.len()],
            "server {}, which got lost, was told {:?}, sent was {:?}",
            k,
            seen,
            sent
          );
        }
      }
      let ids: Vec<String> = connected
        .iter()
        .map(|k| case.id(*k))
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
      // whoever is still to be rejected
      if observers.is_empty() {
        tokio::time::sleep(Duration::from_millis(5)).await;
      }
      let asked = sched.offered.lock().len();
      let ctx = Context {
        id: astro_run::StepId::new("wf", "nobody", 0),
        signal: astro_run::AstroRunSignal::new(),
        command: Default::default(),
        event: None,
        payload: None,
      };
      let _ = Runner::run(&probe_client, ctx).await;
      let offered = sched.offered.lock().clone();
      ensure!(offered.len() == asked + 1, "the scheduler was not asked about a further step");
      for (job, idx, o) in &offered {
        ensure!(
          *o == ids,
          "for step {}/{} the scheduler was offered {:?}, connected are {:?}",
          job,
          idx,
          o,
          ids
        );
      }
      let rejected = case.urls.iter().any(|u| !matches!(u, Url::Server(_)))
        || case.servers.len() > connected.len();
      let faulty = classes.get("failed").copied().unwrap_or(0);
      Ok(
        CaseOk::new(faulty > 0 || rejected || case.servers.iter().any(|s| s.fail_before || s.fail_events))
          .tag(faulty > 0, "steps failed by faults")
          .tag(rejected, "endpoints rejected")
          .tag(!cut.is_empty(), "network cut")
          .tag(connected.is_empty(), "nobody connected")
          .tag(classes.contains_key("as scripted") && faulty > 0, "unaffected steps beside failed ones"),
      )
    })
  })
}

fn strategy() -> BoxedStrategy<Case> {
  let shape = Shape {
    max_jobs: 4,
    max_steps: 3,
    max_logs: 4,
    failures: 2,
    plugins: 1,
    transforms: true,
    ..Shape::base()
  };
  let kind = prop_oneof![
    6 => Just(Kind::Good),
    1 => prop_oneof![
      Just("0.0.1".to_string()),
      Just("7.0.0".to_string()),
      Just(String::new()),
      "[a-z]{1,5}",
    ].prop_map(Kind::WrongVersion),
    1 => any::<u8>().prop_map(Kind::NoMetadata),
  ];
  let srv = (0u8..6, kind, proptest::bool::weighted(0.2), proptest::bool::weighted(0.15)).prop_map(
    |(id, kind, fail_events, fail_before)| Srv {
      id,
      kind,
      fail_events,
      fail_before,
    },
  );
  let url = prop_oneof![
    5 => any::<u8>().prop_map(Url::Server),
    1 => Just(Url::Unreachable),
    1 => prop_oneof![
      Just("not a url".to_string()),
      Just(String::new()),
      Just("http://".to_string()),
      "\\PC{0,8}",
    ].prop_map(Url::Malformed),
  ];
  let n = 0u8..5;
  let fault = prop_oneof![
    8 => Just(Fault::None),
    1 => any::<u8>().prop_map(Fault::Refuse),
    2 => n.clone().prop_map(Fault::Eof),
    2 => (n.clone(), any::<u8>()).prop_map(|(n, c)| Fault::Error(n, c)),
    1 => (n, any::<bool>()).prop_map(|(n, l)| Fault::Cut(n, l)),
    1 => any::<u8>().prop_map(Fault::LateError),
  ];
  let target = prop_oneof![9 => any::<u8>().prop_map(Some), 1 => Just(None)];
  (
    scenario(shape),
    vec(srv, 1..4),
    vec(url, 0..3),
    any::<u32>(),
    vec((target, fault), 1..10),
  )
    .prop_map(|(sc, servers, extra, at, plan)| {
      // every server is listed once, further urls are strewn in
      let mut urls: Vec<Url> = (0..servers.len() as u8).map(Url::Server).collect();
      let mut at = at as usize;
      for u in extra {
        let p = at % (urls.len() + 1);
        at /= urls.len() + 1;
        urls.insert(p, u);
      }
      Case {
        sc: hasten(sc, false),
        servers,
        urls,
        plan,
      }
    })
    .boxed()
}

pub fn c19() -> Property {
  (
    "property-based testing with fault injection: servers that are unreachable, incompatible, refuse, break off or disappear, against a model of what must be reported",
    super::remote::ASSUME.to_vec(),
    vec![Part::new(
      "faults",
      "Random workflows over 1-3 servers with unreachable, malformed, duplicate, incompatible and failing endpoints; every step has a scripted fault (refused, stream ended or failed after n lines, network cut, failure after the result, nobody to run it). Non-trivial: an endpoint was rejected, a server's hooks or events failed, or a step was failed by a fault.",
      5_000,
      80_000,
      strategy,
      check,
    )
    .shards(16)
    .boxed()],
  )
}
