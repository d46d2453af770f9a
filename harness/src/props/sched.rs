//! C16: the default scheduler, against a reference model of placement.

use super::Property;
use crate::det;
use crate::engine::*;
use astro_run::{
  Command, ContainerOptions, Context, JobId, JobRunResult, StepId, StepRunResult, WorkflowId,
  WorkflowRunResult, WorkflowState,
};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;

const OSES: [&str; 3] = ["linux", "macos", "windows"];
const ARCHS: [&str; 2] = ["x86_64", "aarch64"];
const IMAGES: [&str; 6] = ["ubuntu", "alpine:3", "ghost/app", "hostile/app", "host", "my.host/linux"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct RunnerSpec {
  os: u8,
  arch: u8,
  docker: bool,
  host: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
  /// no container: the default image
  Default,
  Image(u8),
  Host(u8),
  HostArch(u8, u8),
  HostOdd(u8),
}

impl Kind {
  fn name(&self) -> Option<String> {
    match self {
      Kind::Default => None,
      Kind::Image(i) => Some(IMAGES[*i as usize % IMAGES.len()].into()),
      Kind::Host(o) => Some(format!("host/{}", OSES[*o as usize % 3])),
      Kind::HostArch(o, a) => Some(format!("host/{}-{}", OSES[*o as usize % 3], ARCHS[*a as usize % 2])),
      Kind::HostOdd(i) => Some(["host/", "host/linux-", "host/Linux", "host/linux-riscv", "host/any"][*i as usize % 5].into()),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Op {
  /// schedule a new step of this job among the connected runners
  Schedule {
    job: u16,
    kind: Kind,
    /// the id of a step that is over (the workflow runs once more)
    #[serde(default)]
    again: bool,
  },
  /// one of the running steps completes
  Complete(u8),
  /// a step that was never scheduled (skipped) completes
  CompleteSkipped { job: u16 },
  /// all running steps of the job complete, then the job does
  CompleteJob { job: u16 },
  CompleteWorkflow,
  /// runners connect and disconnect: bit i = runner i is connected
  Connected { mask: u8, rotate: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  seed: u64,
  runners: Vec<RunnerSpec>,
  ops: Vec<Op>,
}

fn meta(i: usize, r: &RunnerSpec) -> RunnerMetadata {
  RunnerMetadata {
    id: format!("runner-{}", i),
    os: OSES[r.os as usize % 3].into(),
    arch: ARCHS[r.arch as usize % 2].into(),
    support_docker: r.docker,
    support_host: r.host,
    version: "0.2.0".into(),
    max_runs: 100,
  }
}

fn job_id(j: u16) -> JobId {
  // two workflows with the same job keys
  let wf = ["wf-a", "wf-b"][j as usize % 2];
  if j >= 4 {
    return JobId::new(wf, &format!("job-{}", j / 2));
  }
  let key = ["build", "test"][(j as usize / 2) % 2];
  JobId::new(wf, key)
}

fn matches(name: &str, m: &RunnerMetadata) -> bool {
  name == format!("host/{}", m.os) || name == format!("host/{}-{}", m.os, m.arch)
}

fn run_case(c: &Case) -> CaseResult {
  let c2 = c.clone();
  det::on_fresh_thread(c.seed, Duration::from_secs(30), move || {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(interpret(&c2))
  })
  .map_err(Fail::from)?
}

async fn interpret(c: &Case) -> CaseResult {
  let all: Vec<RunnerMetadata> = c.runners.iter().enumerate().map(|(i, r)| meta(i, r)).collect();
  let mut connected = all.clone();
  let sut = DefaultScheduler::new();

  // the model
  let mut running: Vec<(StepId, String)> = vec![];
  let mut sticky: HashMap<JobId, String> = HashMap::new();
  let mut next_step = 0usize;
  let mut finished: Vec<StepId> = vec![];
  let mut loads: HashMap<String, usize> = HashMap::new();

  let (mut n_sticky, mut n_balanced, mut n_host, mut n_none, mut n_repick) = (0, 0, 0, 0, 0);
  let step_result = |id: &StepId, state: WorkflowState| StepRunResult {
    id: id.clone(),
    exit_code: (state == WorkflowState::Failed).then_some(1),
    state,
    started_at: None,
    completed_at: None,
  };

  for (at, op) in c.ops.iter().enumerate() {
    match op {
      Op::Connected { mask, rotate } => {
        connected = all
          .iter()
          .enumerate()
          .filter(|(i, _)| mask & (1 << (i % 8)) != 0)
          .map(|(_, m)| m.clone())
          .collect();
        if !connected.is_empty() {
          let k = *rotate as usize % connected.len();
          connected.rotate_left(k);
        }
      }
      Op::Complete(i) => {
        if running.is_empty() {
          continue;
        }
        let (id, r) = running.remove(*i as usize % running.len());
        *loads.get_mut(&r).unwrap() -= 1;
        let state = match *i % 3 {
          0 => WorkflowState::Failed,
          1 => WorkflowState::Cancelled,
          _ => WorkflowState::Succeeded,
        };
        sut.on_step_completed(step_result(&id, state));
        finished.push(id);
      }
      Op::CompleteSkipped { job } => {
        next_step += 1;
        let id = job_id(*job);
        let id = StepId::new(id.workflow_id().inner(), id.job_key(), next_step);
        sut.on_step_completed(step_result(&id, WorkflowState::Skipped));
      }
      Op::CompleteJob { job } => {
        let id = job_id(*job);
        let (done, rest): (Vec<_>, Vec<_>) = running.into_iter().partition(|(s, _)| s.job_id() == id);
        running = rest;
        for (s, r) in done {
          *loads.get_mut(&r).unwrap() -= 1;
          sut.on_step_completed(step_result(&s, WorkflowState::Failed));
          finished.push(s);
        }
        sut.on_job_completed(JobRunResult {
          id: id.clone(),
          state: WorkflowState::Succeeded,
          started_at: None,
          completed_at: None,
          steps: vec![],
        });
        sticky.remove(&id);
      }
      Op::CompleteWorkflow => {
        sut.on_workflow_completed(WorkflowRunResult {
          id: WorkflowId::new("wf-z"),
          state: WorkflowState::Succeeded,
          started_at: None,
          completed_at: None,
          jobs: HashMap::new(),
        });
      }
      Op::Schedule { job, kind, again } => {
        next_step += 1;
        let jid = job_id(*job);
        let old = finished.iter().position(|s| *again && s.job_id() == jid);
        let id = match old {
          Some(i) => finished.remove(i),
          None => StepId::new(jid.workflow_id().inner(), jid.job_key(), next_step),
        };
        let name = kind.name();
        let ctx = Context {
          id: id.clone(),
          signal: astro_run::AstroRunSignal::new(),
          command: Command {
            id: id.clone(),
            container: name.clone().map(|name| ContainerOptions {
              name,
              volumes: None,
              security_opts: None,
            }),
            ..Default::default()
          },
          event: None,
          payload: None,
        };
        let got = sut.schedule(&connected, &ctx).await.map(|m| m.id.clone());

        let load = |id: &str| loads.get(id).copied().unwrap_or(0);
        let is_host = name.as_deref().map_or(false, |n| n.starts_with("host/"));
        let last = sticky
          .get(&jid)
          .and_then(|l| connected.iter().find(|m| &m.id == l));
        let allowed: Vec<String> = if is_host {
          let name = name.clone().unwrap();
          n_host += 1;
          let able: Vec<&RunnerMetadata> = connected
            .iter()
            .filter(|m| m.support_host && matches(&name, m))
            .collect();
          match last {
            Some(l) if able.iter().any(|m| m.id == l.id) => {
              n_sticky += (able.len() > 1) as usize;
              vec![l.id.clone()]
            }
            _ => able.iter().map(|m| m.id.clone()).collect(),
          }
        } else {
          match last {
            Some(l) => {
              n_sticky += (connected.iter().filter(|m| m.support_docker).count() > 1) as usize;
              vec![l.id.clone()]
            }
            None => {
              n_repick += sticky.contains_key(&jid) as usize;
              let able: Vec<&RunnerMetadata> =
                connected.iter().filter(|m| m.support_docker).collect();
              let min = able.iter().map(|m| load(&m.id)).min().unwrap_or(0);
              let best: Vec<String> = able
                .iter()
                .filter(|m| load(&m.id) == min)
                .map(|m| m.id.clone())
                .collect();
              n_balanced += (best.len() < able.len()) as usize;
              best
            }
          }
        };
        let show = || {
          let shown: Vec<String> = connected
            .iter()
            .map(|m| {
              format!(
                "{} ({}-{} docker={} host={} running={})",
                m.id, m.os, m.arch, m.support_docker, m.support_host, load(&m.id)
              )
            })
            .collect();
          format!(
            "operation {}: a step of {:?} with container {:?}; connected: [{}]; the job's last runner: {:?}",
            at, jid, name, shown.join(", "), sticky.get(&jid)
          )
        };
        match &got {
          None => {
            n_none += 1;
            ensure!(
              allowed.is_empty(),
              "no runner was picked although {:?} can run the step; {}",
              allowed,
              show()
            );
            // such a step fails and is reported like any other
            sut.on_step_completed(step_result(&id, WorkflowState::Failed));
            finished.push(id);
          }
          Some(r) => {
            ensure!(
              allowed.contains(r),
              "the step was sent to {:?}, but should go to one of {:?}; {}",
              r,
              allowed,
              show()
            );
            running.push((id, r.clone()));
            *loads.entry(r.clone()).or_default() += 1;
            if !is_host {
              sticky.insert(jid, r.clone());
            }
          }
        }
      }
    }
  }
  Ok(
    CaseOk::new(n_sticky + n_balanced > 0 || n_host > 1)
      .tag(n_sticky > 0, "job stays on its runner")
      .tag(n_balanced > 0, "least loaded decides")
      .tag(n_repick > 0, "the job's runner is gone")
      .tag(n_host > 0, "host step")
      .tag(n_none > 0, "nobody can run it"),
  )
}

fn kind() -> BoxedStrategy<Kind> {
  prop_oneof![
    3 => Just(Kind::Default),
    3 => (0u8..6).prop_map(Kind::Image),
    3 => (0u8..3).prop_map(Kind::Host),
    3 => (0u8..3, 0u8..2).prop_map(|(o, a)| Kind::HostArch(o, a)),
    1 => (0u8..5).prop_map(Kind::HostOdd),
  ]
  .boxed()
}

fn case() -> BoxedStrategy<Case> {
  let runner = (
    prop_oneof![3 => Just(0u8), 1 => 0u8..3],
    prop_oneof![3 => Just(0u8), 1 => 0u8..2],
    proptest::bool::weighted(0.75),
    proptest::bool::weighted(0.65),
  )
    .prop_map(|(os, arch, docker, host)| RunnerSpec { os, arch, docker, host });
  let op = prop_oneof![
    12 => (0u16..4, kind(), any::<bool>()).prop_map(|(job, kind, again)| Op::Schedule { job, kind, again }),
    5 => any::<u8>().prop_map(Op::Complete),
    1 => (0u16..4).prop_map(|job| Op::CompleteSkipped { job }),
    2 => (0u16..4).prop_map(|job| Op::CompleteJob { job }),
    1 => Just(Op::CompleteWorkflow),
    2 => (prop_oneof![3 => Just(255u8), 2 => any::<u8>()], any::<u8>())
      .prop_map(|(mask, rotate)| Op::Connected { mask, rotate }),
  ];
  (any::<u64>(), vec(runner, 1..6), vec(op, 1..40))
    .prop_map(|(seed, runners, ops)| Case { seed, runners, ops })
    .boxed()
}

/// Small numbers of runners and long histories: counts must not drift.
fn long_case() -> BoxedStrategy<Case> {
  let op = prop_oneof![
    10 => (0u16..4, prop_oneof![4 => Just(Kind::Default), 1 => Just(Kind::Host(0))], any::<bool>())
      .prop_map(|(job, kind, again)| Op::Schedule { job, kind, again }),
    8 => any::<u8>().prop_map(Op::Complete),
    1 => (0u16..4).prop_map(|job| Op::CompleteSkipped { job }),
    4 => (0u16..4).prop_map(|job| Op::CompleteJob { job }),
    1 => (prop_oneof![3 => Just(255u8), 1 => any::<u8>()], any::<u8>())
      .prop_map(|(mask, rotate)| Op::Connected { mask, rotate }),
  ];
  (any::<u64>(), 2usize..4, vec(op, 100..300))
    .prop_map(|(seed, n, ops)| Case {
      seed,
      runners: (0..n).map(|_| RunnerSpec { os: 0, arch: 0, docker: true, host: true }).collect(),
      ops,
    })
    .boxed()
}

/// Many jobs (and runners) at once: nothing may be forgotten before it is over.
fn crowd_case() -> BoxedStrategy<Case> {
  let jobs = prop_oneof![3 => 20u16..200, 2 => 200u16..700, 1 => 700u16..2500];
  (any::<u64>(), jobs, prop_oneof![3 => 2usize..5, 1 => 5usize..60])
    .prop_flat_map(|(seed, jobs, runners)| {
      let op = prop_oneof![
        10 => (0..jobs, prop_oneof![4 => Just(Kind::Default), 1 => Just(Kind::Host(0))], any::<bool>())
          .prop_map(|(job, kind, again)| Op::Schedule { job, kind, again }),
        6 => any::<u8>().prop_map(Op::Complete),
        3 => (0..jobs).prop_map(|job| Op::CompleteJob { job }),
      ];
      (Just((seed, jobs, runners)), vec(op, 20..400), any::<bool>())
    })
    .prop_map(|((seed, jobs, runners), later, one_each)| {
      let mut ops: Vec<Op> = (0..jobs)
        .flat_map(|job| {
          let s = Op::Schedule { job, kind: Kind::Default, again: false };
          // either all of them run at once, or each starts when another is over
          let done = (!one_each && job % 3 == 0).then_some(Op::Complete((job % 251) as u8));
          std::iter::once(s).chain(done)
        })
        .collect();
      ops.extend(later);
      Case {
        seed,
        runners: (0..runners).map(|_| RunnerSpec { os: 0, arch: 0, docker: true, host: true }).collect(),
        ops,
      }
    })
    .boxed()
}

pub fn c16() -> Property {
  let docker_only = RunnerSpec { os: 0, arch: 0, docker: true, host: false };
  let host = RunnerSpec { os: 0, arch: 0, docker: false, host: true };
  (
    "stateful property-based testing against a reference model of placement",
    vec![
      "schedule() calls are not concurrent with each other",
      "the metadata of a runner id does not change",
    ],
    vec![
      Part::new(
        "placement",
        "Random histories of schedule / step completed / job completed / runners connecting and disconnecting over 1-5 runners of mixed capabilities and 4 jobs in 2 workflows, with every kind of container name. Non-trivial: stickiness or load decided at least one placement among several capable runners, or several host steps were placed.",
        60_000,
        900_000,
        case,
        run_case,
      )
      .fixed(vec![Case {
        seed: 1,
        runners: vec![docker_only, host],
        ops: vec![
          Op::Schedule { job: 0, kind: Kind::Default, again: false },
          Op::Schedule { job: 0, kind: Kind::HostArch(0, 0), again: false },
        ],
      }])
      .boxed(),
      Part::new(
        "long-histories",
        "Histories of 100-300 operations over 2-3 equal runners, where a drifting load count would show. Non-trivial: as above.",
        6_000,
        100_000,
        long_case,
        run_case,
      )
      .boxed(),
      Part::new(
        "crowds",
        "20-2500 jobs under way at once on 2-60 equal runners, then a random history over them: the runner of every job and the load of every runner is still known. Non-trivial: as above.",
        400,
        8_000,
        crowd_case,
        run_case,
      )
      .boxed(),
    ],
  )
}
