//! C12, C14: what plugins can and cannot do, and what they are told.

use super::oracle;
use super::Property;
use crate::engine::{CaseOk, CaseResult, Fail, Part};
use crate::ensure;
use crate::model;
use crate::spec::*;
use crate::world::{self, Ev};
use astro_run::{Step, WorkflowState};
use proptest::prelude::*;
use serde_json::Value;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------ C12

fn c12_strategy() -> BoxedStrategy<Scenario> {
  scenario(Shape {
    max_jobs: 3,
    max_steps: 3,
    max_logs: 3,
    cancels: 1,
    failures: 2,
    plugins: 4,
    plugin_errors: true,
    plugin_latency: true,
    transforms: true,
    density: 3,
    ..Shape::base()
  })
}

/// The step as each hook in the chain must see it, and as it must run.
fn chain(sc: &Scenario, original: &Step) -> Vec<Step> {
  let mut out = vec![original.clone()];
  for p in sc.plugins.iter().chain(std::iter::once(&sc.runner_hooks)) {
    let last = out.last().unwrap().clone();
    out.push(if p.fails & (1 << 2) != 0 {
      last
    } else {
      world::apply(&p.transform, last, sc.tick())
    });
  }
  out
}

fn command_of(step: &Step) -> Value {
  serde_json::json!({
    "id": step.id,
    "name": step.name,
    "container": step.container,
    "run": step.run,
    "continue_on_error": step.continue_on_error,
    "environments": step.environments,
    "secrets": step.secrets,
    "timeout": step.timeout,
  })
}

pub fn c12_check(sc: &Scenario) -> CaseResult {
  let tr = world::run(sc)?;
  let res = oracle::result(sc, &tr)?;
  let n = sc.plugins.len();

  // the transformation chain
  for call in &tr.calls {
    let original = &tr.workflow.jobs[&call.job].steps[call.idx];
    let chain = chain(sc, original);
    for r in &tr.recs {
      match &r.ev {
        Ev::BeforeStep(k, i, v) if *k == call.job && *i == call.idx => {
          let want = serde_json::to_value(&chain[r.src]).unwrap();
          ensure!(
            *v == want,
            "observer {} of step {}/{} was given {}, the observers before it produced {}",
            r.src,
            k,
            i,
            v,
            want
          );
        }
        Ev::RunStep(k, i, v) if *k == call.job && *i == call.idx => {
          let want = serde_json::to_value(chain.last().unwrap()).unwrap();
          ensure!(*v == want, "step {}/{} was announced as {}, expected {}", k, i, v, want);
        }
        _ => {}
      }
    }
    let want = command_of(chain.last().unwrap());
    ensure!(
      call.command == want,
      "step {}/{} was run as {}, expected {}",
      call.job,
      call.idx,
      call.command,
      want
    );
  }

  // every notification goes to the plugins in order, then to the runner
  let mut streams: BTreeMap<Option<String>, Vec<(usize, String)>> = BTreeMap::new();
  for r in &tr.recs {
    streams
      .entry(r.ev.job().map(|s| s.to_string()))
      .or_default()
      .push((r.src, r.ev.short()));
  }
  for (job, stream) in &streams {
    ensure!(
      stream.len() % (n + 1) == 0,
      "{:?}: some observer missed a notification: {:?}",
      job,
      stream.iter().rev().take(8).collect::<Vec<_>>()
    );
    for group in stream.chunks(n + 1) {
      for (i, (src, what)) in group.iter().enumerate() {
        ensure!(
          *src == i && *what == group[0].1,
          "{:?}: a notification was not delivered to every observer in order: {:?}",
          job,
          group
        );
      }
    }
  }

  // the outcome is the one without any failing hook
  let no_latency = sc.plugins.iter().all(|p| p.latency == 0) && sc.runner_hooks.latency == 0;
  if no_latency {
    let ex = model::simulate(sc);
    oracle::results(sc, &tr, &ex)?;
    oracle::timeline(sc, &tr, &ex)?;
  }
  oracle::lifecycle(sc, &tr)?;
  oracle::logs(sc, &tr)?;

  let failing = sc.plugins.iter().chain(std::iter::once(&sc.runner_hooks)).any(|p| p.fails != 0);
  let transforms = sc
    .plugins
    .iter()
    .filter(|p| p.transform != Transform::None && p.fails & 4 == 0)
    .count();
  Ok(
    CaseOk::new(failing && n > 0 && res.state != WorkflowState::Skipped)
      .tag(transforms >= 2, "several-transformations")
      .tag(
        sc.plugins.iter().any(|p| p.transform != Transform::None && p.fails & 4 != 0),
        "transformation-withheld-by-error",
      )
      .tag(!no_latency, "suspending-hooks"),
  )
}

pub fn c12() -> Property {
  (
    "property-based testing: failing, suspending and transforming hooks against a reference chain and the failure-free outcome",
    vec!["hooks fail by returning an error; panicking hooks are out of scope"],
    vec![Part::new(
      "hooks",
      "cases: random workflows with up to 4 plugins and a runner whose hooks fail, suspend and transform steps at random; non-trivial: at least one plugin and one failing hook; distinct by case",
      40_000,
      1_500_000,
      c12_strategy,
      c12_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C14

use astro_run::{
  async_trait, typetag, AstroRun, AstroRunPlugin, Context, ContextPayloadExt, RunResponse, Runner,
  TriggerEvent, Workflow,
};
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PayloadA {
  pub text: String,
  pub number: i64,
  pub list: Vec<Option<String>>,
  pub map: BTreeMap<String, bool>,
}

#[typetag::serde]
impl ContextPayloadExt for PayloadA {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PayloadB(pub u32, pub String);

#[typetag::serde(name = "second")]
impl ContextPayloadExt for PayloadB {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AnyPayload {
  None,
  A(PayloadA),
  B(PayloadB),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Trig {
  pub event: String,
  pub owner: String,
  pub repo: String,
  pub pr: Option<i64>,
  pub sha: String,
  pub branch: String,
  pub ref_name: String,
}

impl Trig {
  fn event(&self) -> TriggerEvent {
    TriggerEvent {
      event: self.event.clone(),
      repo_owner: self.owner.clone(),
      repo_name: self.repo.clone(),
      pr_number: self.pr,
      sha: self.sha.clone(),
      branch: self.branch.clone(),
      ref_name: self.ref_name.clone(),
    }
  }
}

/// Several executions of the same AstroRun at once, each with its own trigger
/// and payload.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ContextCase {
  pub seed: u64,
  pub runs: Vec<(Option<Trig>, AnyPayload, u8, u8)>,
}

fn context_case() -> BoxedStrategy<ContextCase> {
  let s = || super::config::text();
  let trig = (s(), s(), s(), proptest::option::of(any::<i64>()), s(), s(), s()).prop_map(
    |(event, owner, repo, pr, sha, branch, ref_name)| Trig {
      event,
      owner,
      repo,
      pr,
      sha,
      branch,
      ref_name,
    },
  );
  let payload = prop_oneof![
    1 => Just(AnyPayload::None),
    3 => (
      s(),
      any::<i64>(),
      proptest::collection::vec(proptest::option::of(s()), 0..3),
      proptest::collection::btree_map(s(), any::<bool>(), 0..3)
    )
      .prop_map(|(text, number, list, map)| AnyPayload::A(PayloadA { text, number, list, map })),
    2 => (any::<u32>(), s()).prop_map(|(a, b)| AnyPayload::B(PayloadB(a, b))),
  ];
  (
    any::<u64>(),
    proptest::collection::vec(
      (proptest::option::weighted(0.8, trig), payload, 1u8..3, 1u8..3),
      1..4,
    ),
  )
    .prop_map(|(seed, runs)| ContextCase { seed, runs })
    .boxed()
}

#[derive(Clone, Debug)]
struct Told {
  who: &'static str,
  workflow: String,
  trigger: Option<Value>,
  /// what the payload is as an A, as a B, and its serialized form
  payload: Option<Value>,
  as_a: Option<PayloadA>,
  as_b: Option<PayloadB>,
}

type Heard = Arc<Mutex<Vec<Told>>>;

fn hear<T: Clone + Serialize>(
  heard: &Heard,
  who: &'static str,
  workflow: String,
  e: &astro_run::RunEvent<T>,
) {
  heard.lock().push(Told {
    who,
    workflow,
    trigger: e.trigger_event.as_ref().map(|t| serde_json::to_value(t).unwrap()),
    payload: e.payload.as_ref().map(|p| serde_json::to_value(p).unwrap()),
    as_a: e.payload.as_ref().and_then(|p| p.payload::<PayloadA>()).cloned(),
    as_b: e.payload.as_ref().and_then(|p| p.payload::<PayloadB>()).cloned(),
  });
}

struct TellingRunner(Heard);

#[async_trait]
impl Runner for TellingRunner {
  async fn on_run_workflow(&self, e: astro_run::RunWorkflowEvent) -> astro_run::HookNoopResult {
    hear(&self.0, "runner/workflow", e.source.id.inner(), &e);
    Ok(())
  }
  async fn on_run_job(&self, e: astro_run::RunJobEvent) -> astro_run::HookNoopResult {
    hear(&self.0, "runner/job", e.source.id.workflow_id().inner(), &e);
    Ok(())
  }
  async fn on_run_step(&self, e: astro_run::RunStepEvent) -> astro_run::HookNoopResult {
    hear(&self.0, "runner/step", e.source.id.workflow_id().inner(), &e);
    Ok(())
  }
  async fn run(&self, ctx: Context) -> RunResponse {
    let parsed: Option<astro_run::ContextPayload> =
      ctx.payload.as_ref().and_then(|p| serde_json::from_str(p).ok());
    self.0.lock().push(Told {
      who: "runner/run",
      workflow: ctx.id.workflow_id().inner(),
      trigger: ctx.event.as_ref().map(|t| serde_json::to_value(t).unwrap()),
      payload: ctx.payload.as_ref().and_then(|p| serde_json::from_str(p).ok()),
      as_a: parsed.as_ref().and_then(|p| p.payload::<PayloadA>()).cloned(),
      as_b: parsed.as_ref().and_then(|p| p.payload::<PayloadB>()).cloned(),
    });
    let (tx, rx) = astro_run::stream();
    tokio::spawn(async move {
      tokio::time::sleep(Duration::from_millis(10)).await;
      tx.succeeded();
    });
    Ok(rx)
  }
}

fn c14_check(c: &ContextCase) -> CaseResult {
  let heard: Heard = Default::default();
  let (case, h) = (c.clone(), heard.clone());
  let outcome: Result<(), Fail> = crate::det::on_fresh_thread(c.seed, Duration::from_secs(60), move || {
    crate::det::block_on_virtual(case.seed, async move {
      let (a, b, d) = (h.clone(), h.clone(), h.clone());
      let plugin = AstroRunPlugin::builder("telling")
        .on_run_workflow(move |e| {
          hear(&a, "plugin/workflow", e.source.id.inner(), &e);
          Ok(())
        })
        .on_run_job(move |e| {
          hear(&b, "plugin/job", e.source.id.workflow_id().inner(), &e);
          Ok(())
        })
        .on_run_step(move |e| {
          hear(&d, "plugin/step", e.source.id.workflow_id().inner(), &e);
          Ok(())
        })
        .build();
      let astro = AstroRun::builder().runner(TellingRunner(h)).plugin(plugin).build();
      let mut runs = vec![];
      for (i, (trig, payload, jobs, steps)) in case.runs.iter().enumerate() {
        let mut yaml = "jobs:\n".to_string();
        for j in 0..*jobs {
          yaml.push_str(&format!("  j{}:\n    steps:\n", j));
          for _ in 0..*steps {
            yaml.push_str("      - run: x\n");
          }
        }
        let w = Workflow::builder()
          .id(format!("w{}", i))
          .config(yaml)
          .build(&astro)
          .await
          .map_err(|e| Fail::from(format!("a valid workflow was rejected: {}", e)))?;
        let mut b = astro.execution_context();
        if let Some(t) = trig {
          b = b.event(t.event());
        }
        b = match payload {
          AnyPayload::None => b,
          AnyPayload::A(p) => b.payload(p.clone()),
          AnyPayload::B(p) => b.payload(p.clone()),
        };
        let ctx = b.build();
        let (as_a, as_b) = (ctx.payload::<PayloadA>().cloned(), ctx.payload::<PayloadB>().cloned());
        check_payload("the execution context", payload, &as_a, &as_b)?;
        runs.push(async move {
          tokio::time::timeout(Duration::from_secs(40_000), w.run(ctx)).await.is_ok()
        });
      }
      let handles: Vec<_> = runs.into_iter().map(tokio::spawn).collect();
      for h in handles {
        ensure!(h.await.unwrap_or(false), "an execution never completed");
      }
      Ok(())
    })
  })?;
  outcome?;
  let heard = heard.lock().clone();
  for (i, (trig, payload, jobs, steps)) in c.runs.iter().enumerate() {
    let mine: Vec<&Told> = heard.iter().filter(|t| t.workflow == format!("w{}", i)).collect();
    let (j, s) = (*jobs as usize, *jobs as usize * *steps as usize);
    ensure!(
      mine.len() == 2 * (1 + j + s) + s,
      "execution {} produced {} notifications, expected {}",
      i,
      mine.len(),
      2 * (1 + j + s) + s
    );
    let want = trig.as_ref().map(|t| serde_json::to_value(t.event()).unwrap());
    for t in mine {
      ensure!(
        t.trigger == want,
        "{} was told the trigger {:?}, it is {:?}",
        t.who,
        t.trigger,
        want
      );
      check_payload(t.who, payload, &t.as_a, &t.as_b)?;
      ensure!(
        t.payload.is_some() == !matches!(payload, AnyPayload::None),
        "{} was given payload {:?}",
        t.who,
        t.payload
      );
    }
  }
  Ok(
    CaseOk::new(c.runs.iter().any(|r| !matches!(r.1, AnyPayload::None) || r.0.is_some()))
      .tag(c.runs.len() > 1, "concurrent-executions"),
  )
}

fn check_payload(
  who: &str,
  want: &AnyPayload,
  a: &Option<PayloadA>,
  b: &Option<PayloadB>,
) -> Result<(), Fail> {
  let (wa, wb) = match want {
    AnyPayload::None => (None, None),
    AnyPayload::A(p) => (Some(p.clone()), None),
    AnyPayload::B(p) => (None, Some(p.clone())),
  };
  ensure!(
    *a == wa && *b == wb,
    "{} sees payload {:?}/{:?}, it is {:?}",
    who,
    a,
    b,
    want
  );
  Ok(())
}

pub fn c14() -> Property {
  (
    "property-based testing: generated trigger events and typed payloads compared at every place they are delivered",
    vec![],
    vec![Part::new(
      "context",
      "cases: 1-3 concurrent executions of one AstroRun, each with a random trigger event and a random payload of one of two types (or none); non-trivial: some execution has a trigger or a payload; distinct by case",
      40_000,
      1_500_000,
      context_case,
      c14_check,
    )
    .boxed()],
  )
}
