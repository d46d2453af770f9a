//! C01-C06: the execution engine, driven by generated scenarios.

use super::oracle;
use super::Property;
use crate::engine::{CaseOk, CaseResult, Part};
use crate::model;
use crate::spec::*;
use crate::world;
use astro_run::{Signal, WorkflowState};
use proptest::prelude::*;

const SIM: &[&str] = &[
  "one process, single-threaded tokio runtime with a virtual clock; select! choices, HashMap iteration order and uuids are functions of the case's seed",
  "the step runner is a scripted stand-in implementing astro_run::Runner",
];

fn run(sc: &Scenario) -> Result<world::Trace, crate::engine::Fail> {
  world::run(sc).map_err(|e| e.into())
}

// ------------------------------------------------------------------------ C01

/// Every dimension of a case: the scale of time, cancellations from inside
/// hooks, a second workflow at the same time; and, in a third of the cases,
/// conditions.
fn full(sh: Shape) -> BoxedStrategy<Scenario> {
  let plain = scenario(sh);
  let conditional = scenario(Shape { conditions: true, ..sh });
  let s = prop_oneof![2 => plain, 1 => conditional].boxed();
  with_twin(with_scale(s), sh.cancels)
}

fn c01_strategy() -> BoxedStrategy<Scenario> {
  full(Shape {
    max_jobs: 9,
    max_steps: 2,
    max_logs: 1,
    cancels: 1,
    failures: 2,
    plugins: 1,
    density: 3,
    ..Shape::base()
  })
}

fn c01_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  oracle::each(sc, &tr, |tr, _| oracle::dag(sc, tr))?;
  let edges: usize = (0..sc.jobs.len()).map(|j| sc.deps(j).len()).sum();
  let diamond = (0..sc.jobs.len()).any(|j| sc.deps(j).len() >= 2);
  let ex = model::simulate(sc);
  let bad = oracle::any_job(&ex, |j| j.state != WorkflowState::Succeeded);
  Ok(
    CaseOk::new(edges >= 1 && sc.jobs.len() >= 3)
      .tag(diamond, "job-with-several-dependencies")
      .tag(edges == 0, "independent-jobs")
      .tag(sc.twin.is_some(), "two-workflows-at-a-time")
      .tag(oracle::any_job(&ex, |j| j.skipped), "job-skipped-by-condition")
      .tag(sc.jobs.len() > 10, "more-than-ten-jobs")
      .tag(bad, "unsuccessful-dependency"),
  )
}

pub fn c01() -> Property {
  (
    "property-based testing: generated job graphs and step scripts against an ordering/exactly-once oracle on a virtual clock",
    SIM.to_vec(),
    vec![Part::new(
      "graph",
      "cases: random job graphs (up to 9 jobs, random edges, some of them spelled twice) with random step durations, failures, refusals and a cancellation; non-trivial: at least 3 jobs and at least one dependency edge; distinct by case",
      40_000,
      1_500_000,
      c01_strategy,
      c01_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C02

fn c02_strategy() -> BoxedStrategy<Scenario> {
  full(Shape {
    max_jobs: 4,
    max_steps: 6,
    max_logs: 1,
    cancels: 1,
    failures: 4,
    plugins: 1,
    density: 3,
    ..Shape::base()
  })
}

fn c02_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  let ex = model::simulate(sc);
  oracle::each(sc, &tr, |tr, ex| oracle::results(sc, tr, ex))?;
  let skipped = oracle::any_step(&ex, |s| s.skipped);
  let failed = oracle::any_step(&ex, |s| s.state == WorkflowState::Failed);
  let carried = ex.jobs.iter().zip(&sc.jobs).any(|(j, spec)| {
    let mut failed = false;
    j.steps.iter().zip(&spec.steps).any(|(s, sp)| {
      let c = failed && sp.continue_on_error && !s.skipped;
      failed |= s.state == WorkflowState::Failed;
      c
    })
  });
  Ok(
    CaseOk::new(failed || oracle::any_step(&ex, |s| s.state == WorkflowState::Cancelled))
      .tag(sc.twin.is_some(), "two-workflows-at-a-time")
      .tag(oracle::any_job(&ex, |j| j.skipped), "job-skipped-by-condition")
      .tag(skipped, "some-step-skipped")
      .tag(carried, "step-continued-after-failure")
      .tag(oracle::any_job(&ex, |j| j.state == WorkflowState::Cancelled), "job-cancelled")
      .tag(oracle::any_step(&ex, |s| !s.skipped && s.t0.is_none()), "runner-refused"),
  )
}

pub fn c02() -> Property {
  (
    "property-based testing: generated step outcomes against a reference state machine",
    SIM.to_vec(),
    vec![Part::new(
      "outcomes",
      "cases: random workflows whose steps succeed, fail with any exit code, are cancelled or are refused by the runner, with random continue-on-error; non-trivial: at least one step failed or was cancelled; distinct by case",
      40_000,
      1_500_000,
      c02_strategy,
      c02_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C03

fn c03_strategy() -> BoxedStrategy<Scenario> {
  full(Shape {
    max_jobs: 4,
    max_steps: 4,
    max_logs: 3,
    cancels: 1,
    timeouts: true,
    failures: 3,
    plugins: 3,
    plugin_latency: true,
    conditions: true,
    density: 4,
    ..Shape::base()
  })
}

fn c03_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  oracle::each(sc, &tr, |tr, _| oracle::lifecycle(sc, tr))?;
  let r = tr.result.as_ref().unwrap();
  let ran = r.jobs.values().filter(|j| j.state != WorkflowState::Skipped).count();
  Ok(
    CaseOk::new(ran >= 1 && !sc.plugins.is_empty())
      .tag(r.state == WorkflowState::Skipped, "workflow-skipped")
      .tag(r.jobs.values().any(|j| j.state == WorkflowState::Skipped), "job-skipped")
      .tag(ran >= 2, "several-jobs")
      .tag(
        sc.plugins.iter().any(|p| p.latency > 0) || sc.runner_hooks.latency > 0,
        "suspending-hooks",
      ),
  )
}

pub fn c03() -> Property {
  (
    "property-based testing: recorded hook streams of every plugin and the runner against the life-cycle grammar",
    SIM.to_vec(),
    vec![Part::new(
      "streams",
      "cases: random workflows with 0-3 observing plugins (synchronous, asynchronous, suspending) and an observing runner, failures, skips by condition, timeouts and a cancellation; non-trivial: at least one job ran and at least one plugin observed; distinct by case",
      30_000,
      1_000_000,
      c03_strategy,
      c03_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C04

fn c04_strategy() -> BoxedStrategy<Scenario> {
  full(Shape {
    max_jobs: 3,
    max_steps: 3,
    max_logs: 12,
    cancels: 1,
    timeouts: true,
    failures: 3,
    plugins: 2,
    density: 3,
    ..Shape::base()
  })
}

fn c04_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  oracle::each(sc, &tr, |tr, ex| {
    oracle::logs(sc, tr)?;
    oracle::log_times(sc, tr, ex)
  })?;
  let ex = model::simulate(sc);
  let n: usize = ex.jobs.iter().map(|j| j.steps.iter().map(|s| s.logs.len()).sum::<usize>()).sum();
  let cut = tr.pushes.len();
  Ok(
    CaseOk::new(n >= 2)
      .tag(n >= 10, "ten-or-more-logs")
      .tag(n >= 64, "hundreds-of-logs")
      .tag(cut > 0 && oracle::any_step(&ex, |s| s.signal.is_some()), "signalled-step"),
  )
}

pub fn c04() -> Property {
  (
    "property-based testing: generated log scripts, and generated producer/consumer interleavings of the stream, against a sequential reference",
    SIM.to_vec(),
    {
      let mut parts = vec![Part::new(
      "workflow-logs",
      "cases: random workflows whose steps write up to 12 log lines at random instants; non-trivial: at least two lines delivered; distinct by case",
      30_000,
      1_000_000,
      c04_strategy,
      c04_check,
    )
    .boxed()];
      parts.extend(super::prim::c04_parts());
      parts
    },
  )
}

// ------------------------------------------------------------------------ C05

fn c05_strategy() -> BoxedStrategy<Scenario> {
  with_hook_cancels(full(Shape {
    max_jobs: 4,
    max_steps: 4,
    max_logs: 3,
    cancels: 4,
    timeouts: false,
    failures: 2,
    plugins: 1,
    density: 3,
    ..Shape::base()
  }))
}

fn c05_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  let ex = model::simulate(sc);
  oracle::each(sc, &tr, |tr, ex| {
    oracle::result(sc, tr)?;
    oracle::cancel_outcomes(sc, tr, ex)?;
    oracle::hook_cancels(tr, ex, sc)?;
    oracle::signals(sc, tr, ex)?;
    oracle::results(sc, tr, ex)?;
    oracle::timeline(sc, tr, ex)
  })?;
  let accepted = ex.cancels.iter().any(|c| *c);
  let later = ex.jobs.iter().any(|j| {
    j.cancelled_at
      .map(|c| j.steps.iter().any(|s| !s.skipped && s.start > c))
      .unwrap_or(false)
  });
  Ok(
    CaseOk::new(accepted || !tr.hook_cancels.is_empty())
      .tag(!tr.hook_cancels.is_empty(), "cancelled-from-inside-a-hook")
      .tag(sc.twin.is_some(), "two-workflows-at-a-time")
      .tag(ex.cancels.iter().any(|c| !*c), "rejected-cancellation")
      .tag(oracle::any_job(&ex, |j| j.state == WorkflowState::Cancelled), "job-cancelled")
      .tag(later, "step-started-after-cancellation"),
  )
}

pub fn c05() -> Property {
  (
    "property-based testing: cancellations at generated instants against a timed reference model",
    SIM.to_vec(),
    vec![Part::new(
      "cancel",
      "cases: random workflows and up to 4 cancellations (through AstroRun or the execution context) at random instants, with runners that obey, delay, ignore or answer otherwise; non-trivial: at least one cancellation hit a running job; distinct by case",
      40_000,
      1_500_000,
      c05_strategy,
      c05_check,
    )
    .boxed()],
  )
}

// ------------------------------------------------------------------------ C06

fn c06_strategy() -> BoxedStrategy<Scenario> {
  full(Shape {
    max_jobs: 3,
    max_steps: 3,
    max_logs: 8,
    cancels: 1,
    timeouts: true,
    failures: 2,
    plugins: 1,
    transforms: true,
    density: 3,
    ..Shape::base()
  })
}

fn c06_check(sc: &Scenario) -> CaseResult {
  let tr = run(sc)?;
  let ex = model::simulate(sc);
  oracle::each(sc, &tr, |tr, ex| {
    oracle::result(sc, tr)?;
    oracle::signals(sc, tr, ex)?;
    oracle::results(sc, tr, ex)?;
    oracle::timeline(sc, tr, ex)
  })?;
  let fired = |s: &model::StepOut| matches!(s.signal, Some((_, Signal::Timeout, _)));
  let with_logs = oracle::any_step(&ex, |s| fired(s) && !s.logs.is_empty());
  Ok(
    CaseOk::new(oracle::any_step(&ex, fired))
      .tag(with_logs, "timeout-of-a-logging-step")
      .tag(
        sc.jobs.iter().zip(&ex.jobs).any(|(j, o)| j.steps.iter().zip(&o.steps).any(|(s, o)| s.timeout.is_none() && fired(o))),
        "default-timeout-of-an-hour",
      )
      .tag(sc.scale > 1000 && oracle::any_step(&ex, fired), "timeout-of-hours")
      .tag(
        oracle::any_step(&ex, |s| matches!(s.signal, Some((_, Signal::Cancel, _)))),
        "cancelled-before-timeout",
      ),
  )
}

pub fn c06() -> Property {
  (
    "property-based testing: generated timeouts and step scripts against a timed reference model",
    SIM.to_vec(),
    vec![Part::new(
      "timeout",
      "cases: random workflows whose steps have random timeouts (also set by a plugin) and write logs at random instants; non-trivial: at least one timeout expired; distinct by case",
      40_000,
      1_500_000,
      c06_strategy,
      c06_check,
    )
    .boxed()],
  )
}
