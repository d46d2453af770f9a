//! C17: what crosses the wire arrives as it was sent.

use super::plug::{PayloadA, PayloadB};
use super::prim::{value_case, ValueCase, STATES};
use super::remote::{confirmed, isolated, serve};
use super::Property;
use crate::engine::*;
use crate::ensure;
use astro_run::*;
use astro_run_protocol::remote_runner::{RemoteRunnerClient, RemoteRunnerExt};
use astro_run_protocol::tonic::{self, Code, Request, Response, Status};
use astro_run_protocol::{Empty, ProtocolEvent, SignalEvent};
use astro_run_scheduler::RunnerMetadata;
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::result::Result;
use std::sync::Arc;
use std::time::Duration;
use tokio_stream::wrappers::ReceiverStream;
use tokio_stream::StreamExt as _;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Reply {
  Log(bool, String),
  Result(u8, i32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Metadata,
  Event { kind: u8, fail: Option<(u8, String)> },
  Before { fail: Option<(u8, String)> },
  Run { replies: Vec<Reply>, fail: Option<(u8, String)> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  seed: u64,
  /// all calls at once over the one connection, or one after the other
  concurrent: bool,
  /// every text is this many times as long
  blow: u32,
  meta: (String, bool, bool, i32),
  ops: Vec<(ValueCase, Op)>,
}

/// The values of one operation; its number is in every id.
struct Values {
  step: Step,
  command: Command,
  ctx: Context,
  job: Job,
  workflow: Workflow,
  step_result: StepRunResult,
  job_result: JobRunResult,
  workflow_result: WorkflowRunResult,
  state_event: WorkflowStateEvent,
  log: WorkflowLog,
  trigger: Option<TriggerEvent>,
  payload: Option<ContextPayload>,
}

fn values(c: &ValueCase, n: usize, blow: u32) -> Values {
  let opt = |bit: u32| c.opts & (1 << bit) != 0;
  let t = |i: usize| c.texts[i % c.texts.len()].repeat(blow as usize);
  let o = |bit: u32, i: usize| opt(bit).then(|| t(i));
  let id = StepId::new(format!("{}#{}", c.id.workflow, n), c.id.job.clone(), n);
  let state = STATES[c.state as usize % 7].0.clone();
  let on: Option<Condition> = c
    .cond
    .as_ref()
    .map(|c| serde_json::from_value(super::config::cond_json(c)).expect("condition"));
  let step = Step {
    id: id.clone(),
    name: o(3, 4),
    on: on.clone(),
    container: opt(0).then(|| ContainerOptions {
      name: t(0),
      volumes: opt(1).then(|| vec![t(1), t(2)]),
      security_opts: opt(2).then(|| vec![t(3)]),
    }),
    run: t(5),
    continue_on_error: opt(4),
    environments: c.env.iter().map(|(k, v)| (k.clone(), v.expect())).collect(),
    secrets: vec![t(1), t(4)],
    timeout: Duration::new(c.numbers.2, c.numbers.3),
  };
  let trigger = opt(6).then(|| TriggerEvent {
    event: t(0),
    repo_owner: t(1),
    repo_name: t(2),
    pr_number: opt(5).then_some(c.numbers.1),
    sha: t(3),
    branch: t(4),
    ref_name: t(5),
  });
  let payload = match c.opts % 3 {
    0 => None,
    1 => Some(ContextPayload::new(PayloadA {
      text: t(2),
      number: c.numbers.1,
      list: vec![None, Some(t(3))],
      map: BTreeMap::from([(t(4), opt(7))]),
    })),
    _ => Some(ContextPayload::new(PayloadB(c.numbers.3, t(1)))),
  };
  let time = |bit: u32, d: i64| {
    opt(bit).then(|| {
      chrono::DateTime::<chrono::Utc>::from_timestamp(
        1_600_000_000 + d + c.numbers.0 as i64,
        c.numbers.3,
      )
      .unwrap()
    })
  };
  let step_result = StepRunResult {
    id: id.clone(),
    state: state.clone(),
    exit_code: opt(10).then_some(c.numbers.0),
    started_at: time(8, 0),
    completed_at: time(9, 5),
  };
  let job_result = JobRunResult {
    id: id.job_id(),
    state: state.clone(),
    started_at: time(9, 3),
    completed_at: time(8, 4),
    steps: vec![step_result.clone(); (c.opts % 4) as usize],
  };
  let workflow_result = WorkflowRunResult {
    id: id.workflow_id(),
    state: state.clone(),
    started_at: time(8, 1),
    completed_at: time(9, 2),
    jobs: HashMap::from([(c.id.job.clone(), job_result.clone()), (t(0), job_result.clone())]),
  };
  let job = Job {
    id: id.job_id(),
    name: o(4, 2),
    on: on.clone(),
    steps: vec![step.clone(); (c.opts % 3) as usize],
    depends_on: vec![t(1)],
    working_directories: vec![t(2), t(3)],
  };
  let workflow = Workflow {
    id: id.workflow_id(),
    name: o(5, 1),
    on,
    jobs: HashMap::from([(c.id.job.clone(), job.clone())]),
  };
  let state_event = match c.opts % 3 {
    0 => WorkflowStateEvent::WorkflowStateUpdated { id: id.workflow_id(), state },
    1 => WorkflowStateEvent::JobStateUpdated { id: id.job_id(), state },
    _ => WorkflowStateEvent::StepStateUpdated { id: id.clone(), state },
  };
  let command: Command = step.clone().into();
  Values {
    ctx: Context {
      id: id.clone(),
      signal: AstroRunSignal::new(),
      command: command.clone(),
      event: trigger.clone(),
      payload: o(7, 0),
    },
    step,
    command,
    job,
    workflow,
    step_result,
    job_result,
    workflow_result,
    state_event,
    log: WorkflowLog {
      step_id: id,
      log_type: if opt(11) {
        WorkflowLogType::Error
      } else {
        WorkflowLogType::Log
      },
      message: t(2),
      time: time(8, 9).unwrap_or_default(),
    },
    trigger,
    payload,
  }
}

fn event(v: &Values, kind: u8) -> ProtocolEvent {
  match kind % 10 {
    0 => ProtocolEvent::RunStep(RunStepEvent {
      source: v.step.clone(),
      trigger_event: v.trigger.clone(),
      payload: v.payload.clone(),
    }),
    1 => ProtocolEvent::RunJob(RunJobEvent {
      source: v.job.clone(),
      trigger_event: v.trigger.clone(),
      payload: v.payload.clone(),
    }),
    2 => ProtocolEvent::RunWorkflow(RunWorkflowEvent {
      source: v.workflow.clone(),
      trigger_event: v.trigger.clone(),
      payload: v.payload.clone(),
    }),
    3 => ProtocolEvent::StepCompleted(v.step_result.clone()),
    4 => ProtocolEvent::JobCompleted(v.job_result.clone()),
    5 => ProtocolEvent::WorkflowCompleted(v.workflow_result.clone()),
    6 => ProtocolEvent::StepLog(v.log.clone()),
    7 => ProtocolEvent::StateChange(v.state_event.clone()),
    8 => ProtocolEvent::Signal(SignalEvent {
      step_id: v.log.step_id.clone(),
      signal: Signal::Cancel,
    }),
    _ => ProtocolEvent::Signal(SignalEvent {
      step_id: v.log.step_id.clone(),
      signal: Signal::Timeout,
    }),
  }
}

fn jv<T: Serialize>(x: &T) -> Value {
  serde_json::to_value(x).unwrap()
}

/// What an event says, read from its fields: it depends neither on how
/// ProtocolEvent nor on how the types within it are written.
fn view(e: &ProtocolEvent) -> Value {
  fn dbg<T: std::fmt::Debug>(x: &T) -> Value {
    json!(format!("{:?}", x))
  }
  fn step(s: &Step) -> Value {
    let env: BTreeMap<_, _> = s.environments.iter().collect();
    json!([
      dbg(&s.id), s.name, dbg(&s.on), dbg(&s.container), s.run, s.continue_on_error, dbg(&env), s.secrets,
      dbg(&s.timeout)
    ])
  }
  fn job(j: &Job) -> Value {
    let steps: Vec<Value> = j.steps.iter().map(step).collect();
    json!([dbg(&j.id), j.name, dbg(&j.on), steps, j.depends_on, j.working_directories])
  }
  fn workflow(w: &Workflow) -> Value {
    let jobs: BTreeMap<_, _> = w.jobs.iter().map(|(k, j)| (k, job(j))).collect();
    json!([dbg(&w.id), w.name, dbg(&w.on), dbg(&jobs)])
  }
  fn run<T: Clone>(name: &str, e: &RunEvent<T>, source: Value) -> Value {
    json!([
      name,
      source,
      dbg(&e.trigger_event),
      e.payload.as_ref().map(|p| {
        json!([
          p.payload::<PayloadA>().map(|x| format!("{:?}", x)),
          p.payload::<PayloadB>().map(|x| format!("{:?}", x)),
        ])
      })
    ])
  }
  match e {
    ProtocolEvent::RunStep(x) => run("run step", x, step(&x.source)),
    ProtocolEvent::RunJob(x) => run("run job", x, job(&x.source)),
    ProtocolEvent::RunWorkflow(x) => run("run workflow", x, workflow(&x.source)),
    ProtocolEvent::StepCompleted(x) => json!(["step completed", dbg(x)]),
    ProtocolEvent::JobCompleted(x) => json!(["job completed", dbg(x)]),
    ProtocolEvent::WorkflowCompleted(x) => {
      let jobs: BTreeMap<_, _> = x.jobs.iter().collect();
      json!([
        "workflow completed", dbg(&x.id), dbg(&x.state), dbg(&x.started_at), dbg(&x.completed_at), dbg(&jobs)
      ])
    }
    ProtocolEvent::StepLog(x) => {
      json!(["log", dbg(&x.step_id), x.is_error(), x.message, dbg(&x.time)])
    }
    ProtocolEvent::StateChange(x) => json!(["state", dbg(x)]),
    ProtocolEvent::Signal(x) => json!(["signal", dbg(&x.step_id), x.signal.to_string()]),
  }
}

fn key_of_event(e: &ProtocolEvent) -> String {
  view(e).to_string()
}

type Failure = Option<(u8, String)>;

#[derive(Default)]
struct Script {
  events: HashMap<String, Failure>,
  before: HashMap<String, (Command, Failure)>,
  runs: HashMap<String, (Vec<Reply>, Failure)>,
}

struct Fake {
  meta: RunnerMetadata,
  script: Script,
  seen: Arc<Mutex<Vec<String>>>,
}

fn status(f: &(u8, String)) -> Status {
  Status::new(Code::from(1 + (f.0 as i32) % 16), f.1.clone())
}

fn run_result(k: u8, code: i32) -> RunResult {
  match k % 3 {
    0 => RunResult::Succeeded,
    1 => RunResult::Failed { exit_code: code },
    _ => RunResult::Cancelled,
  }
}

#[tonic::async_trait]
impl RemoteRunnerExt for Fake {
  type RunStream = ReceiverStream<tonic::Result<astro_run_protocol::RunResponse>>;

  async fn run(&self, r: Request<Context>) -> Result<Response<Self::RunStream>, Status> {
    let ctx = r.into_inner();
    let key = jv(&ctx).to_string();
    self.seen.lock().push(format!("run {}", key));
    let Some((replies, fail)) = self.script.runs.get(&key).cloned() else {
      return Err(Status::not_found("this context was never sent"));
    };
    let (tx, rx) = tokio::sync::mpsc::channel(2);
    let id = ctx.id.clone();
    tokio::spawn(async move {
      for r in replies {
        let m = match r {
          Reply::Log(e, m) => astro_run_protocol::RunResponse::log(
            id.clone(),
            if e { astro_run::Log::error(m) } else { astro_run::Log::log(m) },
          ),
          Reply::Result(k, c) => astro_run_protocol::RunResponse::result(id.clone(), run_result(k, c)),
        };
        let _ = tx.send(Ok(m)).await;
      }
      if let Some(f) = fail {
        let _ = tx.send(Err(status(&f))).await;
      }
    });
    Ok(Response::new(ReceiverStream::new(rx)))
  }

  async fn send_event(&self, r: Request<ProtocolEvent>) -> Result<Response<Empty>, Status> {
    let key = key_of_event(&r.into_inner());
    self.seen.lock().push(format!("event {}", key));
    match self.script.events.get(&key) {
      None => Err(Status::not_found("this event was never sent")),
      Some(Some(f)) => Err(status(f)),
      Some(None) => Ok(Response::new(Empty {})),
    }
  }

  async fn get_runner_metadata(&self, _: Request<Empty>) -> Result<Response<RunnerMetadata>, Status> {
    self.seen.lock().push("metadata".into());
    Ok(Response::new(self.meta.clone()))
  }

  async fn call_before_run_step_hook(&self, r: Request<Command>) -> Result<Response<Command>, Status> {
    let key = jv(&r.into_inner()).to_string();
    self.seen.lock().push(format!("before {}", key));
    match self.script.before.get(&key) {
      None => Err(Status::not_found("this command was never sent")),
      Some((_, Some(f))) => Err(status(f)),
      Some((c, None)) => Ok(Response::new(c.clone())),
    }
  }
}

/// What the hook answers: the command with its fields moved about.
fn answer(c: &Command) -> Command {
  let mut c = c.clone();
  c.run = format!("{}\u{0}\n{}", c.run, c.name.clone().unwrap_or_default());
  c.name = c.name.is_none().then(|| c.run.clone());
  c.secrets.reverse();
  c.continue_on_error = !c.continue_on_error;
  c.environments.insert("added".into(), 0.5.into());
  c
}

fn expect_status(what: &str, got: &Status, want: &Failure) -> Result<(), Fail> {
  let Some(f) = want else {
    return Err(format!("{} failed with {:?}: {}", what, got.code(), got.message()).into());
  };
  let want = status(f);
  ensure!(
    got.code() == want.code() && got.message() == want.message(),
    "{} failed with {:?} {:?}, the server answered {:?} {:?}",
    what,
    got.code(),
    got.message(),
    want.code(),
    want.message()
  );
  Ok(())
}

async fn perform(
  mut client: RemoteRunnerClient<tonic::transport::Channel>,
  n: usize,
  v: Values,
  op: Op,
  meta: RunnerMetadata,
) -> Result<(), Fail> {
  match op {
    Op::Metadata => {
      let m = client
        .get_runner_metadata(Empty {})
        .await
        .map_err(|s| Fail::from(format!("metadata: {}", s)))?
        .into_inner();
      ensure!(
        (&m.id, &m.os, &m.arch, m.support_docker, m.support_host, &m.version, m.max_runs)
          == (
            &meta.id,
            &meta.os,
            &meta.arch,
            meta.support_docker,
            meta.support_host,
            &meta.version,
            meta.max_runs
          ),
        "runner metadata arrived as {:?}, sent as {:?}",
        m,
        meta
      );
    }
    Op::Event { kind, fail } => {
      let what = format!("call {} (event {})", n, kind % 10);
      match client.send_event(event(&v, kind)).await {
        Ok(_) => ensure!(fail.is_none(), "{} succeeded, the server answered {:?}", what, fail),
        Err(s) => expect_status(&what, &s, &fail)?,
      }
    }
    Op::Before { fail } => {
      let what = format!("call {} (before-run-step hook)", n);
      match client.call_before_run_step_hook(v.command.clone()).await {
        Ok(r) => {
          ensure!(fail.is_none(), "{} succeeded, the server answered {:?}", what, fail);
          let (got, want) = (jv(&r.into_inner()), jv(&answer(&v.command)));
          ensure!(got == want, "{} arrived as {}, answered was {}", what, got, want);
        }
        Err(s) => expect_status(&what, &s, &fail)?,
      }
    }
    Op::Run { replies, fail } => {
      let what = format!("call {} (run)", n);
      let mut stream = match client.run(v.ctx.clone()).await {
        Ok(r) => r.into_inner(),
        Err(s) => return Err(format!("{} was refused: {}", what, s).into()),
      };
      let mut i = 0;
      loop {
        match stream.next().await {
          None => {
            ensure!(
              i == replies.len() && fail.is_none(),
              "{}: the stream ended after {} of {} replies (then {:?})",
              what,
              i,
              replies.len(),
              fail
            );
            break;
          }
          Some(Err(s)) => {
            ensure!(i == replies.len(), "{}: failed after {} of {} replies: {}", what, i, replies.len(), s);
            expect_status(&what, &s, &fail)?;
            break;
          }
          Some(Ok(r)) => {
            let same = match (&r, replies.get(i)) {
              (astro_run_protocol::RunResponse::Log { step_id, log }, Some(Reply::Log(e, m))) => {
                *step_id == v.ctx.id && log.is_error() == *e && log.message == *m
              }
              (
                astro_run_protocol::RunResponse::Result { step_id, result },
                Some(Reply::Result(k, c)),
              ) => *step_id == v.ctx.id && *result == run_result(*k, *c),
              _ => false,
            };
            ensure!(same, "{}: reply {} arrived as {:?}, sent was {:?}", what, i, r, replies.get(i));
            i += 1;
          }
        }
      }
    }
  }
  Ok(())
}

fn check(case: &Case) -> CaseResult {
  confirmed(|| {
    let case = case.clone();
    isolated(case.seed, move || async move {
      let meta = RunnerMetadata {
        id: case.meta.0.clone(),
        os: case.meta.0.chars().rev().collect(),
        arch: "arch\n".into(),
        support_docker: case.meta.1,
        support_host: case.meta.2,
        version: case.meta.0.clone(),
        max_runs: case.meta.3,
      };
      let mut script = Script::default();
      let mut want: Vec<String> = vec![];
      for (n, (vc, op)) in case.ops.iter().enumerate() {
        let v = values(vc, n, case.blow);
        want.push(match op {
          Op::Metadata => "metadata".into(),
          Op::Event { kind, fail } => {
            let k = key_of_event(&event(&v, *kind));
            script.events.insert(k.clone(), fail.clone());
            format!("event {}", k)
          }
          Op::Before { fail } => {
            let k = jv(&v.command).to_string();
            script.before.insert(k.clone(), (answer(&v.command), fail.clone()));
            format!("before {}", k)
          }
          Op::Run { replies, fail } => {
            let k = jv(&v.ctx).to_string();
            script.runs.insert(k.clone(), (replies.clone(), fail.clone()));
            format!("run {}", k)
          }
        });
      }
      let seen: Arc<Mutex<Vec<String>>> = Arc::default();
      let port = serve(Fake {
        meta: meta.clone(),
        script,
        seen: seen.clone(),
      })
      .await;
      let client = RemoteRunnerClient::connect(format!("http://127.0.0.1:{}", port))
        .await
        .map_err(|e| Fail::from(format!("cannot connect: {}", e)))?;
      let calls = case.ops.iter().enumerate().map(|(n, (vc, op))| {
        perform(client.clone(), n, values(vc, n, case.blow), op.clone(), meta.clone())
      });
      let all = async {
        let mut out = vec![];
        if case.concurrent {
          let handles: Vec<_> = calls.map(tokio::spawn).collect();
          for h in handles {
            out.push(h.await.map_err(|e| Fail::from(format!("a call panicked: {}", e)))?);
          }
        } else {
          for c in calls {
            out.push(c.await);
          }
        }
        Ok::<_, Fail>(out)
      };
      let outcomes = tokio::time::timeout(super::remote::STALL, all)
        .await
        .map_err(|_| super::remote::stall("a call never returned"))??;

      let mut got = seen.lock().clone();
      if case.concurrent {
        got.sort();
        want.sort();
      }
      if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(
          format!(
            "the server received {:.2000} where {:.2000} was sent",
            got.get(at).map(|s| s.as_str()).unwrap_or("nothing"),
            want.get(at).map(|s| s.as_str()).unwrap_or("nothing")
          )
          .into(),
        );
      }
      for o in outcomes {
        o?;
      }
      let big = case.blow > 1;
      Ok(
        CaseOk::new(case.ops.iter().any(|(_, o)| !matches!(o, Op::Metadata)))
          .tag(case.concurrent && case.ops.len() > 1, "calls at once")
          .tag(big, "large messages")
          .tag(
            case.ops.iter().any(|(_, o)| {
              matches!(o, Op::Event { fail: Some(_), .. } | Op::Before { fail: Some(_) } | Op::Run { fail: Some(_), .. })
            }),
            "failing call",
          )
          .tag(
            case.ops.iter().any(|(_, o)| matches!(o, Op::Run { replies, .. } if replies.len() > 30)),
            "long streams",
          ),
      )
    })
  })
}

fn failure() -> BoxedStrategy<Failure> {
  proptest::option::weighted(0.2, (0u8..16, super::config::text())).boxed()
}

fn strategy() -> BoxedStrategy<Case> {
  let reply = prop_oneof![
    8 => (any::<bool>(), super::config::text()).prop_map(|(e, m)| Reply::Log(e, m)),
    1 => (0u8..3, any::<i32>()).prop_map(|(k, c)| Reply::Result(k, c)),
  ];
  let op = prop_oneof![
    1 => Just(Op::Metadata),
    8 => (0u8..10, failure()).prop_map(|(kind, fail)| Op::Event { kind, fail }),
    3 => failure().prop_map(|fail| Op::Before { fail }),
    4 => (prop_oneof![5 => vec(reply.clone(), 0..8), 1 => vec(reply, 30..90)], failure())
      .prop_map(|(replies, fail)| Op::Run { replies, fail }),
  ];
  (
    any::<u64>(),
    any::<bool>(),
    prop_oneof![8 => Just(1u32), 1 => 50u32..2000],
    (super::config::text(), any::<bool>(), any::<bool>(), any::<i32>()),
    vec((value_case(), op), 1..10),
  )
    .prop_map(|(seed, concurrent, blow, meta, ops)| Case {
      seed,
      concurrent,
      blow,
      meta,
      ops,
    })
    .boxed()
}

pub fn c17() -> Property {
  (
    "property-based testing: round trips of generated values through every RPC, against what was sent",
    vec![
      "one single-threaded runtime, over loopback TCP, in real time",
      "messages stay below gRPC's 4 MB limit; numbers are finite",
    ],
    vec![Part::new(
      "calls",
      "1-9 calls of all four RPCs, one by one or all at once over one connection, with all kinds of events, arbitrary texts (also large), and servers that answer, stream or fail. Non-trivial: something other than metadata was transferred.",
      8_000,
      120_000,
      strategy,
      check,
    )
    .shards(16)
    .boxed()],
  )
}
