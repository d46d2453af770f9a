//! C18-C20, C22: workflows run through the gRPC client and real servers on
//! the loopback interface (one single-threaded runtime per case, real time).

use super::oracle;
use super::plug::{PayloadA, PayloadB};
use super::Property;
use crate::det;
use crate::engine::*;
use crate::ensure;
use crate::model;
use crate::spec::*;
use crate::world::{self, AsyncPlugin, Clock, Ev, Log, Rec, Recorder, SimRunner, Trace, WF};
use astro_run::{
  async_trait, AstroRun, Command, Context, ContextPayload, ExecutionContext,
  HookBeforeRunStepResult, HookNoopResult, Job, JobRunResult, RunJobEvent, RunResponse,
  RunStepEvent, RunWorkflowEvent, Runner, Step, StepId, StepRunResult, TriggerEvent, Workflow,
  WorkflowLog, WorkflowRunResult, WorkflowState, WorkflowStateEvent,
};
use astro_run_protocol::remote_runner::{RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::tonic::{self, Request, Response, Status};
use astro_run_protocol::{Empty, ProtocolEvent};
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, AstroRunRemoteRunnerServer};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use parking_lot::Mutex;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio_stream::wrappers::TcpListenerStream;
use tokio_stream::StreamExt;

/// A wait that takes this long (in a case that needs milliseconds) is a stall.
pub const STALL: Duration = Duration::from_secs(10);
pub const STALLED: &str = "stalled: ";

/// A stall only counts if it happens every time.
pub fn confirmed(f: impl Fn() -> CaseResult) -> CaseResult {
  let mut last = None;
  for _ in 0..3 {
    match f() {
      Err(e) if e.msg.starts_with(STALLED) => last = Some(e),
      other => return other,
    }
  }
  Err(last.unwrap())
}

pub fn stall(what: &str) -> Fail {
  format!("{}{} (within {:?}, three times in a row)", STALLED, what, STALL).into()
}

pub async fn until(what: &str, mut f: impl FnMut() -> bool) -> Result<(), Fail> {
  let start = std::time::Instant::now();
  let mut spins = 0;
  while !f() {
    if start.elapsed() > STALL {
      return Err(stall(what));
    }
    spins += 1;
    if spins < 50 {
      tokio::task::yield_now().await;
    } else {
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
  }
  Ok(())
}

/// Waits for something that is not stalled as long as `progress` changes.
pub async fn patient<T>(
  what: &str,
  fut: impl std::future::Future<Output = T>,
  progress: impl Fn() -> usize,
) -> Result<T, Fail> {
  tokio::pin!(fut);
  let start = std::time::Instant::now();
  let mut last = (progress(), start);
  loop {
    match tokio::time::timeout(Duration::from_millis(100), &mut fut).await {
      Ok(v) => return Ok(v),
      Err(_) => {
        let now = progress();
        if now != last.0 {
          last = (now, std::time::Instant::now());
        }
        if last.1.elapsed() > STALL || start.elapsed() > 12 * STALL {
          return Err(stall(what));
        }
      }
    }
  }
}

/// Runs a case on its own thread, with its own runtime and hasher keys.
pub fn isolated<F, Fut>(seed: u64, f: F) -> CaseResult
where
  F: FnOnce() -> Fut + Send + 'static,
  Fut: std::future::Future<Output = CaseResult>,
{
  det::on_fresh_thread(seed, Duration::from_secs(200), move || det::block_on_real(seed, f()))
    .map_err(Fail::from)?
}

fn quick_close(s: TcpStream) -> TcpStream {
  let _ = s.set_nodelay(true);
  // no TIME_WAIT: thousands of cases share the loopback ports
  #[allow(deprecated)]
  let _ = s.set_linger(Some(Duration::ZERO));
  s
}

/// Serves `server` on a free loopback port.
pub async fn serve<S: RemoteRunnerExt>(server: S) -> u16 {
  let listener = TcpListener::bind("127.0.0.1:0").await.expect("bind loopback");
  let port = listener.local_addr().unwrap().port();
  let incoming = TcpListenerStream::new(listener).map(|s| s.map(quick_close));
  tokio::spawn(async move {
    let _ = tonic::transport::Server::builder()
      .add_service(RemoteRunnerServer::new(server))
      .serve_with_incoming(incoming)
      .await;
  });
  port
}

/// A TCP proxy whose connections can be cut.
#[derive(Clone)]
pub struct Cable {
  cut: Arc<AtomicBool>,
  conns: Arc<Mutex<Vec<tokio::task::AbortHandle>>>,
}

impl Cable {
  pub fn new() -> Self {
    Cable {
      cut: Arc::new(AtomicBool::new(false)),
      conns: Arc::default(),
    }
  }

  pub async fn to(&self, port: u16) -> u16 {
    let listener = TcpListener::bind("127.0.0.1:0").await.expect("bind loopback");
    let own = listener.local_addr().unwrap().port();
    let me = self.clone();
    tokio::spawn(async move {
      while let Ok((a, _)) = listener.accept().await {
        let mut a = quick_close(a);
        // a cut cable keeps the port, but drops whoever connects
        if me.cut.load(Ordering::SeqCst) {
          continue;
        }
        let h = tokio::spawn(async move {
          if let Ok(b) = TcpStream::connect(("127.0.0.1", port)).await {
            let mut b = quick_close(b);
            let _ = tokio::io::copy_bidirectional(&mut a, &mut b).await;
          }
        });
        me.conns.lock().push(h.abort_handle());
      }
    });
    own
  }

  pub fn cut(&self) {
    self.cut.store(true, Ordering::SeqCst);
    for c in self.conns.lock().drain(..) {
      c.abort();
    }
  }

  pub fn is_cut(&self) -> bool {
    self.cut.load(Ordering::SeqCst)
  }
}

/// Passes everything on, except contexts of the workflow "probe", with which
/// the harness asks how many runners are connected.
pub struct Probed<S> {
  pub inner: S,
  pub seen: Arc<Mutex<usize>>,
}

#[async_trait]
impl<S: Scheduler> Scheduler for Probed<S> {
  fn on_run_workflow(&self, w: Workflow) {
    self.inner.on_run_workflow(w)
  }
  fn on_run_job(&self, j: Job) {
    self.inner.on_run_job(j)
  }
  fn on_run_step(&self, s: Step) {
    self.inner.on_run_step(s)
  }
  fn on_step_completed(&self, r: StepRunResult) {
    self.inner.on_step_completed(r)
  }
  fn on_job_completed(&self, r: JobRunResult) {
    self.inner.on_job_completed(r)
  }
  fn on_workflow_completed(&self, r: WorkflowRunResult) {
    self.inner.on_workflow_completed(r)
  }
  async fn schedule<'a, 'b: 'a>(
    &'b self,
    runners: &'a [RunnerMetadata],
    ctx: &Context,
  ) -> Option<&'a RunnerMetadata> {
    if ctx.id.workflow_id().inner() == "probe" {
      *self.seen.lock() = runners.len();
      return None;
    }
    self.inner.schedule(runners, ctx).await
  }
}

/// A client that is connected to `expected` of the servers.
pub async fn connect<S: Scheduler + 'static>(
  urls: Vec<String>,
  expected: usize,
  scheduler: S,
) -> Result<AstroRunRemoteRunnerClient, Fail> {
  let seen = Arc::new(Mutex::new(0));
  let client = AstroRunRemoteRunnerClient::builder()
    .scheduler(Probed {
      inner: scheduler,
      seen: seen.clone(),
    })
    .build()
    .map_err(|e| Fail::from(format!("the client cannot be built: {}", e)))?;
  let mut starter = client.clone();
  tokio::spawn(async move {
    let _ = starter.start(urls).await;
  });
  let id = StepId::new("probe", "probe", 0);
  let start = std::time::Instant::now();
  loop {
    let ctx = Context {
      id: id.clone(),
      signal: astro_run::AstroRunSignal::new(),
      command: Command {
        id: id.clone(),
        ..Default::default()
      },
      event: None,
      payload: None,
    };
    // the probe also lets `start` subscribe before anything is sent
    tokio::task::yield_now().await;
    let _ = Runner::run(&client, ctx).await;
    let n = *seen.lock();
    ensure!(n <= expected, "{} runners are connected, expected {}", n, expected);
    if n == expected {
      break;
    }
    if start.elapsed() > STALL {
      return Err(stall(&format!("{} of {} runners are connected", n, expected)));
    }
    tokio::time::sleep(Duration::from_micros(300)).await;
  }
  for _ in 0..20 {
    tokio::task::yield_now().await;
  }
  Ok(client)
}

/// The client as the runner of AstroRun, observed.
pub struct Tap {
  pub rec: Recorder,
  pub inner: AstroRunRemoteRunnerClient,
}

macro_rules! tap {
  ($hook:ident, $ty:ty, $rec:ident) => {
    fn $hook<'a, 'b>(
      &'a self,
      e: $ty,
    ) -> std::pin::Pin<Box<dyn std::future::Future<Output = HookNoopResult> + Send + 'b>>
    where
      'a: 'b,
      Self: 'b,
    {
      Box::pin(async move {
        let _ = self.rec.$rec(&e);
        self.inner.$hook(e).await
      })
    }
  };
}

impl Runner for Tap {
  tap!(on_run_workflow, RunWorkflowEvent, run_workflow);
  tap!(on_run_job, RunJobEvent, run_job);
  tap!(on_run_step, RunStepEvent, run_step);
  tap!(on_state_change, WorkflowStateEvent, state);
  tap!(on_log, WorkflowLog, log);
  tap!(on_step_completed, StepRunResult, step_done);
  tap!(on_job_completed, JobRunResult, job_done);
  tap!(on_workflow_completed, WorkflowRunResult, workflow_done);

  fn on_before_run_step<'a, 'b>(
    &'a self,
    s: Step,
  ) -> std::pin::Pin<Box<dyn std::future::Future<Output = HookBeforeRunStepResult> + Send + 'b>>
  where
    'a: 'b,
    Self: 'b,
  {
    Box::pin(async move {
      let _ = self.rec.before_step(s.clone());
      self.inner.on_before_run_step(s).await
    })
  }

  fn run<'a, 'b>(
    &'a self,
    ctx: Context,
  ) -> std::pin::Pin<Box<dyn std::future::Future<Output = RunResponse> + Send + 'b>>
  where
    'a: 'b,
    Self: 'b,
  {
    Box::pin(async move { Runner::run(&self.inner, ctx).await })
  }
}

// ------------------------------------------------------------------ the cases

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ServerSpec {
  pub plugins: Vec<PluginSpec>,
  pub hooks: PluginSpec,
  pub docker: bool,
  pub host: bool,
  pub max_runs: i32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RemoteCase {
  pub sc: Scenario,
  pub servers: Vec<ServerSpec>,
  pub trigger: bool,
  pub payload: u8,
  /// the first server's runner takes so many ms, once, for one of its calls
  #[serde(default)]
  pub nap: u16,
  #[serde(default)]
  pub nap_at: u8,
}

/// A runner that takes its time, once.
struct Slowly<R> {
  inner: R,
  at: u8,
  ms: u16,
  done: AtomicBool,
}

impl<R> Slowly<R> {
  async fn nap(&self, at: u8) {
    if self.ms > 0 && self.at % 6 == at && !self.done.swap(true, Ordering::SeqCst) {
      tokio::time::sleep(Duration::from_millis(self.ms as u64)).await;
    }
  }
}

macro_rules! slowly {
  ($($hook:ident($ty:ty) -> $ret:ty, $at:literal;)*) => {
    #[astro_run::async_trait]
    impl<R: Runner> Runner for Slowly<R> {
      $(
        async fn $hook(&self, e: $ty) -> $ret {
          self.nap($at).await;
          self.inner.$hook(e).await
        }
      )*
    }
  };
}

slowly!(
  run(Context) -> RunResponse, 0;
  on_before_run_step(Step) -> HookBeforeRunStepResult, 1;
  on_log(WorkflowLog) -> HookNoopResult, 2;
  on_run_job(RunJobEvent) -> HookNoopResult, 3;
  on_workflow_completed(WorkflowRunResult) -> HookNoopResult, 4;
  on_state_change(WorkflowStateEvent) -> HookNoopResult, 5;
  on_run_workflow(RunWorkflowEvent) -> HookNoopResult, 9;
  on_run_step(RunStepEvent) -> HookNoopResult, 9;
  on_step_completed(StepRunResult) -> HookNoopResult, 9;
  on_job_completed(JobRunResult) -> HookNoopResult, 9;
);

/// Small cases in which a server takes up to seconds for something.
fn napping(c: BoxedStrategy<RemoteCase>, at: std::ops::Range<u8>) -> BoxedStrategy<RemoteCase> {
  (c, 300u16..6_500, at)
    .prop_map(|(mut c, nap, nap_at)| {
      c.nap = nap;
      c.nap_at = nap_at;
      c.servers.truncate(2);
      c
    })
    .boxed()
}

pub fn server_src(k: usize) -> usize {
  100 * (k + 1)
}

pub fn trigger(on: bool) -> Option<TriggerEvent> {
  on.then(|| TriggerEvent {
    event: "push".into(),
    repo_owner: "octo".into(),
    repo_name: "widgets \"é\"".into(),
    pr_number: Some(-7),
    sha: "c0ffee".into(),
    branch: "main".into(),
    ref_name: "refs/heads/main".into(),
  })
}

pub fn payload_a() -> PayloadA {
  PayloadA {
    text: "line one\nline \"two\" \u{2028}".into(),
    number: i64::MIN,
    list: vec![None, Some("é".into())],
    map: BTreeMap::from([("k".to_string(), true)]),
  }
}

pub fn payload_b() -> PayloadB {
  PayloadB(u32::MAX, String::new())
}

/// The payload's text as a runner must get it.
fn payload_value(k: u8) -> Option<Value> {
  match k % 3 {
    0 => None,
    1 => Some(jv(&ContextPayload::new(payload_a()))),
    _ => Some(jv(&ContextPayload::new(payload_b()))),
  }
}

pub fn build_server(
  k: usize,
  spec: &ServerSpec,
  sc: &Arc<Scenario>,
  log: &Arc<Log>,
  clock: &Clock,
  (at, ms): (u8, u16),
) -> AstroRunRemoteRunnerServer {
  let rec = |i: usize, p: &PluginSpec| Recorder {
    log: log.clone(),
    clock: clock.clone(),
    src: server_src(k) + i,
    spec: p.clone(),
    tick: TICK,
    sc: None,
    turn: Default::default(),
  };
  let mut b = AstroRunRemoteRunnerServer::builder()
    .id(format!("srv-{}", k))
    .max_runs(spec.max_runs)
    .support_docker(spec.docker)
    .support_host(spec.host)
    .runner(Slowly {
      inner: SimRunner {
        sc: sc.clone(),
        rec: rec(spec.plugins.len(), &spec.hooks),
      },
      at,
      ms,
      done: AtomicBool::new(false),
    });
  for (i, p) in spec.plugins.iter().enumerate() {
    b = if p.is_async {
      b.plugin(AsyncPlugin(rec(i, p)))
    } else {
      b.plugin(rec(i, p).sync_plugin())
    };
  }
  b.build().expect("server")
}

pub struct Cluster {
  pub sc: Arc<Scenario>,
  pub log: Arc<Log>,
  pub clock: Clock,
}

impl Cluster {
  pub fn new(sc: &Scenario) -> Self {
    Cluster {
      sc: Arc::new(sc.clone()),
      log: Arc::new(Log::default()),
      clock: Clock(tokio::time::Instant::now()),
    }
  }

  /// AstroRun with the scenario's local plugins and the tapped client.
  fn astro(&self, client: AstroRunRemoteRunnerClient) -> AstroRun {
    let n = self.sc.plugins.len();
    let rec = |src: usize, spec: &PluginSpec| Recorder {
      log: self.log.clone(),
      clock: self.clock.clone(),
      src,
      spec: spec.clone(),
      tick: TICK,
      sc: None,
      turn: Default::default(),
    };
    let mut b = AstroRun::builder().runner(Tap {
      rec: rec(n, &quiet()),
      inner: client,
    });
    for (i, p) in self.sc.plugins.iter().enumerate() {
      b = if p.is_async {
        b.plugin(AsyncPlugin(rec(i, p)))
      } else {
        b.plugin(rec(i, p).sync_plugin())
      };
    }
    b.build()
  }

  /// Runs the scenario's workflow; `servers` (and how many observers each
  /// has) must have been told everything before this returns.
  pub async fn run(
    &self,
    client: AstroRunRemoteRunnerClient,
    trigger: Option<TriggerEvent>,
    payload: u8,
    observers: &[usize],
  ) -> Result<Trace, Fail> {
    let astro = self.astro(client);
    let workflow = Workflow::builder()
      .id(WF)
      .config(self.sc.yaml())
      .build(&astro)
      .await
      .map_err(|e| Fail::from(format!("a valid workflow was rejected: {}", e)))?;
    let ctx: ExecutionContext = {
      let mut b = astro.execution_context();
      if let Some(t) = trigger {
        b = b.event(t);
      }
      match payload % 3 {
        0 => b.build(),
        1 => b.payload(payload_a()).build(),
        _ => b.payload(payload_b()).build(),
      }
    };
    let log = self.log.clone();
    let progress = move || log.recs.lock().len() + log.pushes.lock().len();
    let result = patient("the workflow never completed", workflow.run(ctx), &progress).await?;
    let end = self.clock.ms();
    // the tap has seen everything; wait for the servers' observers
    let tap = self.sc.plugins.len();
    let n = self.log.recs.lock().iter().filter(|r| r.src == tap && !is_before(r)).count();
    let log = self.log.clone();
    let observers = observers.to_vec();
    let told = async {
      let mut spins = 0;
      loop {
        let all = {
          let recs = log.recs.lock();
          observers
            .iter()
            .all(|o| recs.iter().filter(|r| r.src == *o && !is_before(r)).count() >= n)
        };
        if all {
          break;
        }
        spins += 1;
        if spins < 50 {
          tokio::task::yield_now().await;
        } else {
          tokio::time::sleep(Duration::from_millis(1 + spins / 200)).await;
        }
      }
    };
    // those who are told too little are told so by the comparison
    let stalled = patient("a server was not told of every event", told, &progress).await.is_err();
    if !stalled {
      // whatever comes in excess
      tokio::time::sleep(Duration::from_millis(2)).await;
    }
    let recs = self.log.recs.lock().clone();
    let calls = self.log.calls.lock().clone();
    let signals = self.log.signals.lock().clone();
    let pushes = self.log.pushes.lock().clone();
    Ok(Trace {
      result: Some(result),
      workflow,
      recs,
      calls,
      signals,
      pushes,
      cancels: vec![],
      end,
      github: vec![],
      stalled,
      id: WF,
      start: 0,
      hook_cancels: vec![],
      probes: vec![],
      twin: None,
    })
  }
}

fn is_before(r: &Rec) -> bool {
  matches!(r.ev, Ev::BeforeStep(..))
}

pub fn quiet() -> PluginSpec {
  PluginSpec {
    is_async: false,
    fails: 0,
    latency: 0,
    uneven: false,
    transform: Transform::None,
  }
}

// ------------------------------------------------------------------- oracles

pub fn local_step(sc: &Scenario, original: &Step) -> Step {
  let mut s = original.clone();
  for p in &sc.plugins {
    if p.fails & (1 << 2) == 0 {
      s = world::apply(&p.transform, s, TICK);
    }
  }
  s
}

/// The chain of one server's hooks; None: the server reports an error.
fn server_step(spec: &ServerSpec, mut s: Step) -> Option<Step> {
  for p in &spec.plugins {
    if p.fails & (1 << 2) == 0 {
      s = world::apply(&p.transform, s, TICK);
    }
  }
  if spec.hooks.fails & (1 << 2) != 0 {
    return None;
  }
  Some(world::apply(&spec.hooks.transform, s, TICK))
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
  if n == 0 {
    return vec![vec![]];
  }
  let mut out = vec![];
  for p in permutations(n - 1) {
    for at in 0..=p.len() {
      let mut q = p.clone();
      q.insert(at, n - 1);
      out.push(q);
    }
  }
  out
}

fn step_value(s: &Step) -> Value {
  let mut v = serde_json::to_value(s).unwrap();
  v.as_object_mut().unwrap().remove("on");
  v
}

/// What may be announced and run, given what the servers' hooks do.
fn final_steps(case: &RemoteCase, original: &Step) -> Vec<Value> {
  let local = local_step(&case.sc, original);
  let mut out = BTreeMap::new();
  for perm in permutations(case.servers.len()) {
    let mut s = local.clone();
    let mut failed = false;
    for k in perm {
      match server_step(&case.servers[k], s.clone()) {
        Some(next) => s = next,
        None => failed = true,
      }
    }
    let v = step_value(if failed { &local } else { &s });
    out.insert(v.to_string(), v);
  }
  out.into_values().collect()
}

fn commands(case: &RemoteCase, tr: &Trace) -> Result<(), Fail> {
  let tap = case.sc.plugins.len();
  let trig = trigger(case.trigger).map(|t| serde_json::to_value(t).unwrap());
  let pay = payload_value(case.payload);
  for call in &tr.calls {
    let original = &tr.workflow.jobs[&call.job].steps[call.idx];
    let allowed = final_steps(case, original);
    let announced = tr.recs.iter().find_map(|r| match &r.ev {
      Ev::RunStep(k, i, v) if r.src == tap && *k == call.job && *i == call.idx => {
        let mut v = v.clone();
        v.as_object_mut().unwrap().remove("on");
        Some(v)
      }
      _ => None,
    });
    ensure!(
      announced.as_ref() == Some(&call.command),
      "step {}/{} was announced as {:?}, but the server was told to run {}",
      call.job,
      call.idx,
      announced,
      call.command
    );
    ensure!(
      allowed.contains(&call.command),
      "step {}/{} was run as {}, the hooks of plugins and servers make it {:?}",
      call.job,
      call.idx,
      call.command,
      allowed
    );
    ensure!(
      call.trigger == trig,
      "step {}/{} was run with trigger event {:?}, expected {:?}",
      call.job,
      call.idx,
      call.trigger,
      trig
    );
    ensure!(
      call.payload.as_ref().map(|s| serde_json::from_str::<Value>(s).unwrap_or(Value::Null)) == pay,
      "step {}/{} was run with payload {:?}, expected {:?}",
      call.job,
      call.idx,
      call.payload,
      pay
    );
  }
  Ok(())
}

/// Every observer of a server is told exactly what the client was told.
pub fn forwarded(tr: &Trace, tap: usize, observers: &[usize]) -> Result<(), Fail> {
  type Seen = (Ev, Option<Value>, Option<Value>);
  let of = |src: usize| -> Vec<Seen> {
    tr.recs
      .iter()
      .filter(|r| r.src == src && !is_before(r))
      .map(|r| {
        let ev = match &r.ev {
          Ev::RunStep(k, i, v) => Ev::RunStep(k.clone(), *i, v.clone()),
          e => e.clone(),
        };
        (ev, r.trigger.clone(), r.payload.clone())
      })
      .collect()
  };
  let want = of(tap);
  for o in observers {
    let got = of(*o);
    let a: Vec<Ev> = got.iter().map(|x| x.0.clone()).collect();
    let b: Vec<Ev> = want.iter().map(|x| x.0.clone()).collect();
    oracle::diff(
      &format!("events at {} of server {}, against those sent,", observer(*o), o / 100 - 1),
      &a,
      &b,
    )
    .map_err(|f| Fail {
      msg: if tr.stalled { format!("{}{}", STALLED, f.msg) } else { f.msg },
      sig: f.sig,
    })?;
    ensure!(
      got == want,
      "trigger events or payloads at {} of server {} are not those sent: {:?} instead of {:?}",
      observer(*o),
      o / 100 - 1,
      got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, _)| a),
      got.iter().zip(&want).find(|(a, b)| a != b).map(|(_, b)| b)
    );
  }
  Ok(())
}

fn observer(o: usize) -> String {
  format!("observer {}", o % 100)
}

fn observers(servers: &[ServerSpec]) -> Vec<usize> {
  servers
    .iter()
    .enumerate()
    .flat_map(|(k, s)| (0..=s.plugins.len()).map(move |i| server_src(k) + i))
    .collect()
}

// ---------------------------------------------------------------- strategies

/// No long waits: everything runs on the real clock.
pub fn hasten(mut sc: Scenario, slow: bool) -> Scenario {
  let d = |x: u8| if slow && x % 8 == 7 { 1 } else { 0 };
  for j in &mut sc.jobs {
    for s in &mut j.steps {
      s.timeout = None;
      s.run_err = false;
      s.run_delay = d(s.run_delay);
      s.end_delay = d(s.end_delay);
      for l in &mut s.logs {
        l.delay = d(l.delay);
      }
    }
  }
  for p in sc.plugins.iter_mut() {
    hasten_plugin(p);
  }
  sc.runner_hooks = quiet();
  sc
}

fn hasten_plugin(p: &mut PluginSpec) {
  if let Transform::Timeout(t) = p.transform {
    // visible, but never reached
    p.transform = Transform::Timeout(30_000 + t);
  }
  p.latency = 0;
}

fn plugin_spec(errors: bool, transforms: bool) -> BoxedStrategy<PluginSpec> {
  let fails = if errors {
    prop_oneof![2 => Just(0u16), 2 => 0u16..512, 1 => Just(511u16)].boxed()
  } else {
    Just(0u16).boxed()
  };
  let transform = if transforms {
    prop_oneof![
      2 => Just(Transform::None),
      3 => "[a-c]{1,3}".prop_map(Transform::AppendRun),
      2 => ("[A-C]", "\\PC{0,4}").prop_map(|(k, v)| Transform::SetEnv(k, v)),
      1 => "[a-z]{0,4}".prop_map(Transform::SetName),
      1 => (30_000u16..60_000).prop_map(Transform::Timeout),
    ]
    .boxed()
  } else {
    Just(Transform::None).boxed()
  };
  (any::<bool>(), fails, transform)
    .prop_map(|(is_async, fails, transform)| PluginSpec {
      is_async,
      fails,
      latency: 0,
      uneven: false,
      transform,
    })
    .boxed()
}

fn server_spec(plugins: usize, errors: bool, transforms: bool) -> BoxedStrategy<ServerSpec> {
  (
    vec(plugin_spec(errors, transforms), 0..=plugins),
    plugin_spec(errors, transforms),
    any::<bool>(),
    0i32..20,
  )
    .prop_map(|(plugins, hooks, host, max_runs)| ServerSpec {
      plugins,
      hooks,
      docker: true,
      host,
      max_runs,
    })
    .boxed()
}

fn remote_case(
  shape: Shape,
  max_servers: usize,
  server: BoxedStrategy<ServerSpec>,
) -> BoxedStrategy<RemoteCase> {
  (
    scenario(shape),
    proptest::bool::weighted(0.1),
    vec(server, 1..=max_servers),
    any::<bool>(),
    0u8..3,
  )
    .prop_map(|(sc, slow, servers, trigger, payload)| {
      let sc = hasten(sc, slow);
      RemoteCase {
        sc,
        servers,
        trigger,
        payload,
        nap: 0,
        nap_at: 0,
      }
    })
    .boxed()
}

async fn run_cluster<S: Scheduler + 'static>(
  case: &RemoteCase,
  sched: S,
  observers: &[usize],
) -> Result<Trace, Fail> {
  let cl = Cluster::new(&case.sc);
  let mut urls = vec![];
  for (k, s) in case.servers.iter().enumerate() {
    let port = serve(build_server(k, s, &cl.sc, &cl.log, &cl.clock, (case.nap_at, if k == 0 { case.nap } else { 0 }))).await;
    urls.push(format!("http://127.0.0.1:{}", port));
  }
  let client = connect(urls, case.servers.len(), sched).await?;
  cl.run(client, trigger(case.trigger), case.payload, observers)
    .await
}

// ------------------------------------------------------------------------ C18

fn c18_strategy() -> BoxedStrategy<RemoteCase> {
  let shape = Shape {
    max_jobs: 4,
    max_steps: 4,
    max_logs: 4,
    failures: 3,
    plugins: 2,
    transforms: true,
    ..Shape::base()
  };
  remote_case(shape, 3, server_spec(2, false, true))
}

/// One step writing far more than any buffer between server and client holds.
fn c18_floods() -> BoxedStrategy<RemoteCase> {
  let shape = Shape {
    max_jobs: 2,
    max_steps: 2,
    max_logs: 120,
    failures: 2,
    plugins: 1,
    ..Shape::base()
  };
  remote_case(shape, 2, server_spec(1, false, false))
}

fn c18_check(case: &RemoteCase) -> CaseResult {
  confirmed(|| {
    let case = case.clone();
    isolated(case.sc.seed, move || async move {
      let tr = run_cluster(&case, DefaultScheduler::new(), &[]).await?;
      let ex = model::simulate(&case.sc);
      oracle::results(&case.sc, &tr, &ex)?;
      oracle::logs(&case.sc, &tr)?;
      oracle::lifecycle(&case.sc, &tr)?;
      commands(&case, &tr)?;
      let used: BTreeSet<usize> = tr.calls.iter().map(|c| c.src / 100).collect();
      let transforms = case.servers.iter().any(|s| {
        s.hooks.transform != Transform::None || s.plugins.iter().any(|p| p.transform != Transform::None)
      });
      let logs = tr.pushes.len() - tr.calls.len();
      Ok(
        CaseOk::new(tr.calls.len() >= 2 && logs > 0)
          .tag(used.len() > 1, "several servers used")
          .tag(transforms, "servers change steps")
          .tag(logs > 60, "more lines than any buffer")
          .tag(case.payload % 3 != 0, "with payload"),
      )
    })
  })
}

pub fn c18() -> Property {
  (
    "property-based testing: generated workflows through real gRPC servers against the reference model of a local run",
    ASSUME.to_vec(),
    vec![
      Part::new(
        "equivalence",
        "Random workflows (jobs, dependencies, step outcomes, logs, local plugins) run through 1-3 servers, each with its own plugins and hooks. Non-trivial: at least two steps ran and something was logged.",
        5_000,
        80_000,
        c18_strategy,
        c18_check,
      )
      .boxed(),
      Part::new(
        "floods",
        "Steps writing up to 120 lines at once. Non-trivial: as above.",
        700,
        10_000,
        c18_floods,
        c18_check,
      )
      .boxed(),
      Part::new(
        "patience",
        "As above, but a server takes 0.3-6.5 s, once, to start a step or in a hook. Non-trivial: as above.",
        40,
        600,
        || napping(c18_strategy(), 0..2),
        c18_check,
      )
      .shards(20)
      .boxed(),
    ],
  )
}

pub const ASSUME: &[&str] = &[
  "client and servers share one single-threaded runtime, over loopback TCP, in real time; interleavings are those the kernel and tokio produce",
  "ids contain no '/', messages stay below gRPC's 4 MB limit",
  "a stall (10 s without progress) is a violation only if it repeats three times",
];

// ------------------------------------------------------------------------ C20

fn c20_strategy() -> BoxedStrategy<RemoteCase> {
  let shape = Shape {
    max_jobs: 4,
    max_steps: 3,
    max_logs: 5,
    failures: 3,
    plugins: 1,
    ..Shape::base()
  };
  remote_case(shape, 3, server_spec(2, true, true))
}

fn c20_bursts() -> BoxedStrategy<RemoteCase> {
  let shape = Shape {
    max_jobs: 3,
    max_steps: 2,
    max_logs: 80,
    failures: 2,
    plugins: 1,
    ..Shape::base()
  };
  (
    remote_case(shape, 2, server_spec(1, true, false)),
    proptest::bool::weighted(0.15),
    any::<bool>(),
  )
    .prop_map(|(mut c, slow, uneven)| {
      if slow {
        // a slow observer must not cost the others anything either; keep the
        // number of events small enough for the real clock
        for j in &mut c.sc.jobs {
          for s in &mut j.steps {
            s.logs.truncate(20);
          }
        }
        c.sc.jobs.truncate(1);
        // the first observer of the first server suspends, before those after
        // it learn of the event
        let observer = c.servers[0].plugins.first_mut();
        if let (Some(p), true) = (observer, uneven) {
          p.is_async = true;
          p.latency = 1;
          p.uneven = true;
        } else {
          c.servers[0].hooks.is_async = true;
          c.servers[0].hooks.latency = 1;
        }
      }
      c
    })
    .boxed()
}

fn c20_check(case: &RemoteCase) -> CaseResult {
  confirmed(|| {
    let case = case.clone();
    isolated(case.sc.seed, move || async move {
      let tr = run_cluster(&case, DefaultScheduler::new(), &observers(&case.servers)).await?;
      let tap = case.sc.plugins.len();
      forwarded(&tr, tap, &observers(&case.servers))?;
      let n = tr.recs.iter().filter(|r| r.src == tap && !is_before(r)).count();
      let failing = case
        .servers
        .iter()
        .any(|s| s.hooks.fails != 0 || s.plugins.iter().any(|p| p.fails != 0));
      Ok(
        CaseOk::new(n > 12)
          .tag(case.servers.len() > 1, "several servers")
          .tag(n > 30, "more than 30 events")
          .tag(n > 150, "more than 150 events")
          .tag(failing, "failing hooks on a server"),
      )
    })
  })
}

fn burst_case() -> RemoteCase {
  let step = StepSpec {
    continue_on_error: false,
    on: None,
    timeout: None,
    run_delay: 0,
    run_err: false,
    logs: (0..60)
      .map(|i| LogSpec {
        delay: 0,
        error: false,
        msg: format!("line {}", i),
      })
      .collect(),
    end_delay: 0,
    end: End::Succeeded,
    on_cancel: React::Ignore,
    on_timeout: React::Ignore,
  };
  RemoteCase {
    sc: Scenario {
      seed: 1,
      jobs: vec![JobSpec {
        deps: 0,
        salt: 0,
        on: None,
        steps: vec![step],
        dup_deps: false,
      }],
      on: None,
      plugins: vec![],
      runner_hooks: quiet(),
      cancels: vec![],
      gh: GhSpec {
        auth: Auth::None,
        event: None,
      },
      scale: 1,
      hook_cancels: vec![],
      hook_src: 0,
      twin: None,
    },
    servers: vec![ServerSpec {
      plugins: vec![],
      hooks: quiet(),
      docker: true,
      host: true,
      max_runs: 5,
    }],
    trigger: false,
    payload: 0,
    nap: 0,
    nap_at: 0,
  }
}

pub fn c20() -> Property {
  (
    "property-based testing: the event streams of every server's plugins and runner against the stream handed to the client",
    ASSUME.to_vec(),
    vec![
      Part::new(
        "events",
        "Random workflows over 1-3 servers whose plugins and runners observe (and may fail). Non-trivial: more than 12 events.",
        3_000,
        60_000,
        c20_strategy,
        c20_check,
      )
      .shards(16)
      .boxed(),
      Part::new(
        "bursts",
        "Steps that write up to 80 lines at once, so that hundreds of events are waiting to be forwarded; some servers take 10 ms per event. Non-trivial: as above.",
        500,
        12_000,
        c20_bursts,
        c20_check,
      )
      .shards(16)
      .fixed(vec![burst_case()])
      .boxed(),
      Part::new(
        "patience",
        "As events, but a server takes 0.3-6.5 s, once, for one of them. Non-trivial: as above.",
        40,
        600,
        || napping(c20_strategy(), 2..6),
        c20_check,
      )
      .shards(20)
      .boxed(),
    ],
  )
}

// ------------------------------------------------------------------------ C22

#[derive(Clone, Debug, PartialEq)]
enum Sch {
  RunWorkflow,
  RunJob(String),
  RunStep(String, usize, Value),
  StepDone(String, usize, Value),
  JobDone(String, Value),
  WorkflowDone(Value),
  Schedule {
    job: String,
    idx: usize,
    command: Value,
    offered: Vec<Value>,
    chosen: Option<String>,
  },
}

#[derive(Clone)]
struct RecSched {
  inner: Arc<DefaultScheduler>,
  log: Arc<Mutex<Vec<Sch>>>,
}

fn jv<T: Serialize>(x: &T) -> Value {
  serde_json::to_value(x).unwrap()
}

#[async_trait]
impl Scheduler for RecSched {
  fn on_run_workflow(&self, w: Workflow) {
    self.log.lock().push(Sch::RunWorkflow);
    self.inner.on_run_workflow(w)
  }
  fn on_run_job(&self, j: Job) {
    self.log.lock().push(Sch::RunJob(j.id.job_key()));
    self.inner.on_run_job(j)
  }
  fn on_run_step(&self, s: Step) {
    self.log.lock().push(Sch::RunStep(s.id.job_key(), s.id.step_number(), jv(&s)));
    self.inner.on_run_step(s)
  }
  fn on_step_completed(&self, r: StepRunResult) {
    self.log.lock().push(Sch::StepDone(r.id.job_key(), r.id.step_number(), jv(&r)));
    self.inner.on_step_completed(r)
  }
  fn on_job_completed(&self, r: JobRunResult) {
    self.log.lock().push(Sch::JobDone(r.id.job_key(), jv(&r)));
    self.inner.on_job_completed(r)
  }
  fn on_workflow_completed(&self, r: WorkflowRunResult) {
    self.log.lock().push(Sch::WorkflowDone(jv(&r)));
    self.inner.on_workflow_completed(r)
  }
  async fn schedule<'a, 'b: 'a>(
    &'b self,
    runners: &'a [RunnerMetadata],
    ctx: &Context,
  ) -> Option<&'a RunnerMetadata> {
    let chosen = self.inner.schedule(runners, ctx).await;
    self.log.lock().push(Sch::Schedule {
      job: ctx.id.job_key(),
      idx: ctx.id.step_number(),
      command: jv(&ctx.command),
      offered: runners.iter().map(jv).collect(),
      chosen: chosen.map(|c| c.id.clone()),
    });
    chosen
  }
}

fn c22_strategy() -> BoxedStrategy<RemoteCase> {
  let shape = Shape {
    max_jobs: 6,
    max_steps: 3,
    max_logs: 1,
    failures: 3,
    plugins: 1,
    density: 2,
    ..Shape::base()
  };
  (remote_case(shape, 4, server_spec(0, false, false)), 0u8..16)
    .prop_map(|(mut c, mask)| {
      for (k, s) in c.servers.iter_mut().enumerate() {
        s.docker = k == 0 || mask & (1 << k) == 0;
      }
      // steps that take a moment, so that the load differs
      c
    })
    .boxed()
}

fn c22_check(case: &RemoteCase) -> CaseResult {
  confirmed(|| {
    let case = case.clone();
    isolated(case.sc.seed, move || async move {
      let sched = RecSched {
        inner: Arc::new(DefaultScheduler::new()),
        log: Arc::default(),
      };
      let tr = run_cluster(&case, sched.clone(), &[]).await?;
      let log = sched.log.lock().clone();
      let tap = case.sc.plugins.len();

      // the scheduler hears what the client hears
      let want: Vec<Sch> = tr
        .recs
        .iter()
        .filter(|r| r.src == tap)
        .filter_map(|r| {
          Some(match &r.ev {
            Ev::RunWorkflow => Sch::RunWorkflow,
            Ev::RunJob(k) => Sch::RunJob(k.clone()),
            Ev::RunStep(k, i, v) => Sch::RunStep(k.clone(), *i, v.clone()),
            Ev::StepDone(k, i, v) => Sch::StepDone(k.clone(), *i, v.clone()),
            Ev::JobDone(k, v) => Sch::JobDone(k.clone(), v.clone()),
            Ev::WorkflowDone(v) => Sch::WorkflowDone(v.clone()),
            _ => return None,
          })
        })
        .collect();
      let got: Vec<Sch> = log
        .iter()
        .filter(|x| !matches!(x, Sch::Schedule { .. }))
        .cloned()
        .collect();
      if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(
          format!(
            "the scheduler was told {:?} where the client was told {:?} (notification {}, {} against {} in all)",
            got.get(at),
            want.get(at),
            at,
            got.len(),
            want.len()
          )
          .into(),
        );
      }

      // it is asked once per executed step, and offered the connected runners
      let mut offered_want: Vec<String> = case
        .servers
        .iter()
        .enumerate()
        .map(|(k, s)| {
          jv(&RunnerMetadata {
            id: format!("srv-{}", k),
            os: std::env::consts::OS.into(),
            arch: std::env::consts::ARCH.into(),
            support_docker: s.docker,
            support_host: s.host,
            version: astro_run_remote_runner::VERSION.into(),
            max_runs: s.max_runs,
          })
          .to_string()
        })
        .collect();
      offered_want.sort();
      let mut running: BTreeMap<(String, usize), String> = BTreeMap::new();
      let mut sticky: BTreeMap<String, String> = BTreeMap::new();
      let mut asked: Vec<(String, usize)> = vec![];
      let mut decided = 0;
      for x in &log {
        match x {
          Sch::StepDone(k, i, _) => {
            running.remove(&(k.clone(), *i));
          }
          Sch::JobDone(k, _) => {
            sticky.remove(k);
          }
          Sch::Schedule {
            job,
            idx,
            command,
            offered,
            chosen,
          } => {
            let mut o: Vec<String> = offered.iter().map(|v| v.to_string()).collect();
            o.sort();
            ensure!(
              o == offered_want,
              "step {}/{}: the scheduler was offered {:?}, connected are {:?}",
              job,
              idx,
              o,
              offered_want
            );
            asked.push((job.clone(), *idx));
            let call = tr.calls.iter().find(|c| c.job == *job && c.idx == *idx);
            let chosen = chosen.clone().ok_or_else(|| {
              Fail::from(format!("nobody was picked for step {}/{}", job, idx))
            })?;
            let Some(call) = call else {
              return Err(format!("step {}/{} was sent to {} but never ran", job, idx, chosen).into());
            };
            let server = call.src / 100 - 1;
            ensure!(
              format!("srv-{}", server) == chosen,
              "step {}/{} was scheduled on {} but ran on srv-{}",
              job,
              idx,
              chosen,
              server
            );
            ensure!(
              call.command == *command,
              "the scheduler was asked about {}, run was {}",
              command,
              call.command
            );
            // placement by real load
            let load = |id: &str| running.values().filter(|r| *r == id).count();
            let able: Vec<String> = (0..case.servers.len())
              .filter(|k| case.servers[*k].docker)
              .map(|k| format!("srv-{}", k))
              .collect();
            let allowed: Vec<String> = match sticky.get(job) {
              Some(s) => vec![s.clone()],
              None => {
                let min = able.iter().map(|a| load(a)).min().unwrap();
                able.iter().filter(|a| load(a) == min).cloned().collect()
              }
            };
            decided += (allowed.len() < able.len()) as usize;
            ensure!(
              allowed.contains(&chosen),
              "step {}/{} went to {}, expected one of {:?}; running now: {:?}",
              job,
              idx,
              chosen,
              allowed,
              running
            );
            running.insert((job.clone(), *idx), chosen.clone());
            sticky.insert(job.clone(), chosen);
          }
          _ => {}
        }
      }
      let mut calls: Vec<(String, usize)> = tr.calls.iter().map(|c| (c.job.clone(), c.idx)).collect();
      let mut a = asked.clone();
      calls.sort();
      a.sort();
      ensure!(calls == a, "the scheduler was asked about {:?}, run were {:?}", a, calls);
      Ok(
        CaseOk::new(decided > 0)
          .tag(case.servers.len() > 1, "several servers")
          .tag(case.servers.iter().any(|s| !s.docker), "a server without docker")
          .tag(case.sc.jobs.len() > 2, "three or more jobs"),
      )
    })
  })
}

pub fn c22() -> Property {
  (
    "property-based testing: a recording scheduler inside the client, its calls against the events and against a load model",
    ASSUME.to_vec(),
    vec![Part::new(
      "feedback",
      "Random workflows over 1-4 servers, some without docker, with a recording wrapper around the default scheduler. Non-trivial: load or stickiness excluded at least one capable server.",
      5_000,
      80_000,
      c22_strategy,
      c22_check,
    )
    .boxed()],
  )
}
