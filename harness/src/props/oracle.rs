//! Oracles over a recorded execution. Each states one aspect, so that a check
//! only speaks about its own property.

use crate::engine::Fail;
use crate::model::{Expected, JobOut, StepOut};
use crate::spec::*;
use crate::world::*;
use crate::ensure;
use astro_run::{Signal, WorkflowRunResult, WorkflowState};
use serde_json::Value;
use std::collections::BTreeMap;

pub type R = Result<(), Fail>;

pub fn result<'a>(sc: &Scenario, tr: &'a Trace) -> Result<&'a WorkflowRunResult, Fail> {
  match &tr.result {
    Some(r) => Ok(r),
    None => Err(
      format!(
        "the workflow never completed; jobs: {}",
        (0..sc.jobs.len())
          .map(|j| format!("{} after {:?}", sc.key(j), sc.deps(j).iter().map(|d| sc.key(*d)).collect::<Vec<_>>()))
          .collect::<Vec<_>>()
          .join(", ")
      )
      .into(),
    ),
  }
}

pub fn sources(sc: &Scenario) -> usize {
  sc.plugins.len() + 1
}

fn of_src(tr: &Trace, src: usize) -> Vec<&Rec> {
  tr.recs.iter().filter(|r| r.src == src).collect()
}

fn pos<'a>(recs: &[&'a Rec], f: impl Fn(&Ev) -> bool) -> Option<(usize, &'a Rec)> {
  recs.iter().enumerate().find(|(_, r)| f(&r.ev)).map(|(i, r)| (i, *r))
}

/// C01: every job once, after exactly its dependencies, without delay, and
/// the workflow ends exactly when the last job does.
pub fn dag(sc: &Scenario, tr: &Trace) -> R {
  let res = result(sc, tr)?;
  if res.state == WorkflowState::Skipped {
    return Ok(());
  }
  for src in 0..sources(sc) {
    let recs = of_src(tr, src);
    let mut last_end = tr.start;
    for j in 0..sc.jobs.len() {
      let key = sc.key(j);
      let starts: Vec<_> = recs
        .iter()
        .filter(|r| matches!(&r.ev, Ev::RunJob(k) if *k == key)
          || matches!(&r.ev, Ev::JobState(k, WorkflowState::Skipped) if *k == key))
        .collect();
      ensure!(
        starts.len() == 1,
        "job {} was started {} times (source {})",
        key,
        starts.len(),
        src
      );
      let (start_pos, start) = pos(&recs, |e| e.job() == Some(key.as_str())).unwrap();
      let terminal = |k: &str| pos(&recs, |e| matches!(e, Ev::JobState(x, s) if x == k && s.is_terminal()));
      let mut ready = tr.start;
      for d in sc.deps(j) {
        let dk = sc.key(d);
        let Some((p, rec)) = terminal(&dk) else {
          return Err(format!("job {} never reached a terminal state", dk).into());
        };
        ensure!(
          p < start_pos,
          "job {} started before its dependency {} had finished",
          key,
          dk
        );
        ready = ready.max(rec.t);
      }
      ensure!(
        start.t == ready,
        "job {} started at {} ms although its dependencies had finished at {} ms",
        key,
        start.t,
        ready
      );
      let Some((_, rec)) = terminal(&key) else {
        return Err(format!("job {} never reached a terminal state", key).into());
      };
      last_end = last_end.max(rec.t);
    }
    let Some((_, done)) = pos(&recs, |e| matches!(e, Ev::WorkflowDone(_))) else {
      return Err("the workflow completion was not reported".into());
    };
    ensure!(
      done.t == last_end,
      "the workflow completed at {} ms, its last job at {} ms",
      done.t,
      last_end
    );
  }
  let mut counts: BTreeMap<(String, usize), usize> = BTreeMap::new();
  for c in &tr.calls {
    *counts.entry((c.job.clone(), c.idx)).or_insert(0) += 1;
  }
  for ((job, idx), n) in counts {
    ensure!(n == 1, "step {}/{} was executed {} times", job, idx, n);
  }
  let mut got: Vec<_> = res.jobs.keys().cloned().collect();
  let mut want: Vec<_> = (0..sc.jobs.len()).map(|j| sc.key(j)).collect();
  got.sort();
  want.sort();
  ensure!(got == want, "result has jobs {:?}, not {:?}", got, want);
  Ok(())
}

/// The workflow state follows from the job states.
pub fn workflow_state(res: &WorkflowRunResult) -> R {
  let bad: Vec<WorkflowState> = res
    .jobs
    .values()
    .map(|j| j.state.clone())
    .filter(|s| matches!(s, WorkflowState::Failed | WorkflowState::Cancelled))
    .collect();
  if bad.is_empty() {
    ensure!(
      res.state == WorkflowState::Succeeded,
      "workflow state {:?} although no job failed or was cancelled",
      res.state
    );
  } else {
    ensure!(
      bad.contains(&res.state),
      "workflow state {:?} with failed/cancelled jobs {:?}",
      res.state,
      bad
    );
  }
  Ok(())
}

/// Of the jobs that failed or were cancelled, the last to complete decides.
fn last_to_complete(sc: &Scenario, tr: &Trace, res: &WorkflowRunResult) -> R {
  let ends: Vec<(u64, WorkflowState)> = of_src(tr, sources(sc) - 1)
    .iter()
    .filter_map(|r| match &r.ev {
      Ev::JobDone(k, _) => Some((r.t, res.jobs.get(k)?.state.clone())),
      _ => None,
    })
    .filter(|(_, s)| matches!(s, WorkflowState::Failed | WorkflowState::Cancelled))
    .collect();
  let last = ends.iter().map(|e| e.0).max();
  ensure!(
    last.is_none() || ends.iter().any(|(t, s)| Some(*t) == last && *s == res.state),
    "workflow state {:?}, its unsuccessful jobs completed (ms) as {:?}",
    res.state,
    ends
  );
  Ok(())
}

fn times(what: &str, skipped: bool, a: &Option<astro_run::Time>, b: &Option<astro_run::Time>) -> R {
  if skipped {
    ensure!(a.is_none() && b.is_none(), "{} is skipped but has times", what);
  } else {
    match (a, b) {
      (Some(a), Some(b)) => ensure!(a <= b, "{} completed before it started", what),
      _ => return Err(format!("{} lacks its start or completion time", what).into()),
    }
  }
  Ok(())
}

/// C02: states and exit codes of steps, jobs and workflow.
pub fn results(sc: &Scenario, tr: &Trace, ex: &Expected) -> R {
  let res = result(sc, tr)?;
  ensure!(res.id.inner() == tr.id, "result id {:?}", res.id);
  times("workflow", ex.skipped, &res.started_at, &res.completed_at)?;
  if ex.skipped {
    ensure!(
      res.state == WorkflowState::Skipped && res.jobs.is_empty(),
      "workflow should be skipped, got {:?}",
      res
    );
    ensure!(tr.calls.is_empty(), "a skipped workflow executed a step");
    return Ok(());
  }
  for (j, want) in ex.jobs.iter().enumerate() {
    let key = sc.key(j);
    let Some(got) = res.jobs.get(&key) else {
      return Err(format!("no result for job {}", key).into());
    };
    ensure!(
      got.id.job_key() == key && got.id.workflow_id().inner() == tr.id,
      "job id {:?} for {}",
      got.id,
      key
    );
    ensure!(
      got.state == want.state,
      "job {} is {:?}, expected {:?}",
      key,
      got.state,
      want.state
    );
    times(&key, want.skipped, &got.started_at, &got.completed_at)?;
    ensure!(
      got.steps.len() == want.steps.len(),
      "job {} reports {} steps, expected {}",
      key,
      got.steps.len(),
      want.steps.len()
    );
    for (i, (g, w)) in got.steps.iter().zip(&want.steps).enumerate() {
      ensure!(
        g.id.job_key() == key && g.id.step_number() == i && g.id.workflow_id().inner() == tr.id,
        "step {}/{} has id {:?}",
        key,
        i,
        g.id
      );
      ensure!(
        g.state == w.state && g.exit_code == w.exit_code,
        "step {}/{} is {:?} {:?}, expected {:?} {:?}",
        key,
        i,
        g.state,
        g.exit_code,
        w.state,
        w.exit_code
      );
      times(&format!("step {}/{}", key, i), w.skipped, &g.started_at, &g.completed_at)?;
      if let (Some(a), Some(b), Some(ja), Some(jb)) =
        (g.started_at, g.completed_at, got.started_at, got.completed_at)
      {
        ensure!(ja <= a && b <= jb, "step {}/{} ran outside its job's times", key, i);
      }
    }
    if let (Some(a), Some(b), Some(wa), Some(wb)) =
      (got.started_at, got.completed_at, res.started_at, res.completed_at)
    {
      ensure!(wa <= a && b <= wb, "job {} ran outside the workflow's times", key);
    }
    // exactly the steps that are not skipped reach the runner, in order
    let calls: Vec<usize> = tr.calls.iter().filter(|c| c.job == key).map(|c| c.idx).collect();
    let expected: Vec<usize> = (0..want.steps.len()).filter(|i| !want.steps[*i].skipped).collect();
    ensure!(
      calls == expected,
      "the runner was given steps {:?} of job {}, expected {:?}",
      calls,
      key,
      expected
    );
  }
  ensure!(
    res.jobs.len() == ex.jobs.len(),
    "result has {} jobs, expected {}",
    res.jobs.len(),
    ex.jobs.len()
  );
  if sc.plugins.iter().all(|p| p.latency == 0) && sc.runner_hooks.latency == 0 {
    last_to_complete(sc, tr, res)?;
  }
  workflow_state(res)
}

fn run_error(sc: &Scenario, key: &str, idx: usize) -> bool {
  (0..sc.jobs.len())
    .find(|j| sc.key(*j) == key)
    .map(|j| sc.jobs[j].steps[idx].run_err)
    .unwrap_or(false)
}

/// C03: the life cycle of workflow, jobs and steps as every plugin and the
/// runner see it. Derived from the actual result, not from the model.
pub fn lifecycle(sc: &Scenario, tr: &Trace) -> R {
  let res = result(sc, tr)?;
  for r in &tr.recs {
    if let Ev::Alien(s) = &r.ev {
      return Err(format!("event with a foreign id: {}", s).into());
    }
  }
  let wf_value = serde_json::to_value(res).unwrap();
  for src in 0..sources(sc) {
    let recs = of_src(tr, src);
    // the workflow's own events
    let own: Vec<&Rec> = recs.iter().filter(|r| r.ev.job().is_none()).copied().collect();
    if res.state == WorkflowState::Skipped {
      ensure!(
        recs.len() == 1 && recs[0].ev == Ev::WorkflowState(WorkflowState::Skipped),
        "source {}: a skipped workflow produced {:?}",
        src,
        recs.iter().map(|r| r.ev.short()).collect::<Vec<_>>()
      );
      continue;
    }
    let want = vec![
      Ev::RunWorkflow,
      Ev::WorkflowState(WorkflowState::InProgress),
      Ev::WorkflowState(res.state.clone()),
      Ev::WorkflowDone(wf_value.clone()),
    ];
    let got: Vec<Ev> = own.iter().map(|r| r.ev.clone()).collect();
    diff(&format!("source {}: workflow events", src), &got, &want)?;
    let first_two = recs.iter().take(2).map(|r| r.ev.clone()).collect::<Vec<_>>();
    ensure!(
      first_two == want[..2],
      "source {}: the workflow's start is not reported first: {:?}",
      src,
      recs.iter().take(3).map(|r| r.ev.short()).collect::<Vec<_>>()
    );
    let tail: Vec<Ev> = recs.iter().skip(recs.len() - 2).map(|r| r.ev.clone()).collect();
    ensure!(
      tail == want[2..],
      "source {}: events after the workflow's completion: {:?}",
      src,
      recs.iter().rev().take(4).rev().map(|r| r.ev.short()).collect::<Vec<_>>()
    );
    for (key, job) in &res.jobs {
      let got: Vec<Ev> = recs
        .iter()
        .filter(|r| r.ev.job() == Some(key.as_str()))
        .map(|r| match &r.ev {
          // contents of these belong to C12 / C04
          Ev::BeforeStep(k, i, _) => Ev::BeforeStep(k.clone(), *i, Value::Null),
          Ev::RunStep(k, i, _) => Ev::RunStep(k.clone(), *i, Value::Null),
          Ev::Log(k, i, ..) => Ev::Log(k.clone(), *i, false, String::new()),
          e => e.clone(),
        })
        .collect();
      let mut want = vec![];
      if job.state == WorkflowState::Skipped {
        want.push(Ev::JobState(key.clone(), WorkflowState::Skipped));
      } else {
        want.push(Ev::RunJob(key.clone()));
        want.push(Ev::JobState(key.clone(), WorkflowState::InProgress));
        for (i, s) in job.steps.iter().enumerate() {
          if s.state == WorkflowState::Skipped {
            want.push(Ev::StepState(key.clone(), i, WorkflowState::Skipped));
            continue;
          }
          want.push(Ev::BeforeStep(key.clone(), i, Value::Null));
          want.push(Ev::RunStep(key.clone(), i, Value::Null));
          want.push(Ev::StepState(key.clone(), i, WorkflowState::Queued));
          if !run_error(sc, key, i) {
            want.push(Ev::StepState(key.clone(), i, WorkflowState::InProgress));
            let n = got
              .iter()
              .filter(|e| matches!(e, Ev::Log(_, x, ..) if *x == i))
              .count();
            for _ in 0..n {
              want.push(Ev::Log(key.clone(), i, false, String::new()));
            }
          }
          want.push(Ev::StepState(key.clone(), i, s.state.clone()));
          want.push(Ev::StepDone(key.clone(), i, serde_json::to_value(s).unwrap()));
        }
        want.push(Ev::JobState(key.clone(), job.state.clone()));
        want.push(Ev::JobDone(key.clone(), serde_json::to_value(job).unwrap()));
      }
      diff(&format!("source {}: events of job {}", src, key), &got, &want)?;
    }
    // nothing about unknown jobs
    for r in &recs {
      if let Some(k) = r.ev.job() {
        ensure!(res.jobs.contains_key(k), "source {}: event about unknown job {}", src, k);
      }
    }
  }
  Ok(())
}

pub fn diff(what: &str, got: &[Ev], want: &[Ev]) -> R {
  if got == want {
    return Ok(());
  }
  let at = got
    .iter()
    .zip(want.iter())
    .position(|(a, b)| a != b)
    .unwrap_or(got.len().min(want.len()));
  let show = |v: &[Ev]| {
    v.iter()
      .skip(at.saturating_sub(2))
      .take(6)
      .map(|e| e.short())
      .collect::<Vec<_>>()
      .join(", ")
  };
  let detail = match (got.get(at), want.get(at)) {
    (Some(a), Some(b)) if a.short() == b.short() => format!("; {:?} instead of {:?}", a, b),
    _ => String::new(),
  };
  Err(
    format!(
      "{} differ at position {}: got [{}], expected [{}]{}",
      what,
      at,
      show(got),
      show(want),
      detail
    )
    .into(),
  )
}

/// C04: what a step's runner put into the stream before ending it is what
/// every plugin and the runner are told, in order, once.
pub fn logs(sc: &Scenario, tr: &Trace) -> R {
  let res = result(sc, tr)?;
  let mut sent: BTreeMap<(String, usize), (Vec<(bool, String)>, Option<End>)> = BTreeMap::new();
  for (_, job, idx, p) in &tr.pushes {
    let e = sent.entry((job.clone(), *idx)).or_default();
    match p {
      Push::Log(err, m) => {
        if e.1.is_none() {
          e.0.push((*err, m.clone()));
        }
      }
      Push::End(x) => {
        if e.1.is_none() {
          e.1 = Some(x.clone());
        }
      }
    }
  }
  for src in 0..sources(sc) {
    let mut seen: BTreeMap<(String, usize), Vec<(bool, String)>> = BTreeMap::new();
    for r in tr.recs.iter().filter(|r| r.src == src) {
      if let Ev::Log(k, i, e, m) = &r.ev {
        seen.entry((k.clone(), *i)).or_default().push((*e, m.clone()));
      }
    }
    for (k, (want, _)) in &sent {
      let got = seen.remove(k).unwrap_or_default();
      ensure!(
        got == *want,
        "source {}: logs of step {}/{} are {:?}, the runner wrote {:?}",
        src,
        k.0,
        k.1,
        got,
        want
      );
    }
    ensure!(seen.is_empty(), "source {}: logs nobody wrote: {:?}", src, seen);
  }
  for ((job, idx), (_, end)) in &sent {
    let got = &res.jobs[job].steps[*idx];
    let want = match end {
      Some(End::Succeeded) => (WorkflowState::Succeeded, None),
      Some(End::Failed(c)) => (WorkflowState::Failed, Some(*c)),
      Some(End::Cancelled) => (WorkflowState::Cancelled, None),
      None => return Err(format!("step {}/{} was reported before its runner ended it", job, idx).into()),
    };
    ensure!(
      (got.state.clone(), got.exit_code) == want,
      "step {}/{} ended with {:?} but is reported as {:?} {:?}",
      job,
      idx,
      end,
      got.state,
      got.exit_code
    );
  }
  // delivered when written: the log hooks run at the instant of the write
  Ok(())
}

/// Logs are delivered at the very instant they are written (no hook suspends).
pub fn log_times(sc: &Scenario, tr: &Trace, ex: &Expected) -> R {
  if ex.skipped {
    return Ok(());
  }
  for (j, job) in ex.jobs.iter().enumerate() {
    for (i, s) in job.steps.iter().enumerate() {
      for src in 0..sources(sc) {
        let got: Vec<u64> = tr
          .recs
          .iter()
          .filter(|r| r.src == src && matches!(&r.ev, Ev::Log(k, x, ..) if *k == sc.key(j) && *x == i))
          .map(|r| r.t)
          .collect();
        let want: Vec<u64> = s.logs.iter().map(|l| l.0).collect();
        ensure!(
          got == want,
          "source {}: logs of step {}/{} were delivered at {:?} ms, written at {:?} ms",
          src,
          sc.key(j),
          i,
          got,
          want
        );
      }
    }
  }
  Ok(())
}

/// The signals each step saw.
pub fn signals(sc: &Scenario, tr: &Trace, ex: &Expected) -> R {
  let mut seen: BTreeMap<(String, usize), Vec<(u64, Signal)>> = BTreeMap::new();
  for s in &tr.signals {
    seen.entry((s.job.clone(), s.idx)).or_default().push((s.t, s.signal));
  }
  for (j, job) in ex.jobs.iter().enumerate() {
    for (i, s) in job.steps.iter().enumerate() {
      let got = seen.remove(&(sc.key(j), i)).unwrap_or_default();
      signal_of(&format!("{}/{}", sc.key(j), i), s, &got)?;
    }
  }
  ensure!(seen.is_empty(), "signals for steps that never ran: {:?}", seen);
  Ok(())
}

fn signal_of(what: &str, s: &StepOut, got: &[(u64, Signal)]) -> R {
  ensure!(got.len() <= 1, "step {} was signalled more than once: {:?}", what, got);
  match (&s.signal, got.first()) {
    (None, None) => Ok(()),
    (None, Some(g)) => Err(format!("step {} was signalled ({:?} at {} ms) for no reason", what, g.1, g.0).into()),
    (Some((_, _, false)), None) => Ok(()),
    (Some((t, sig, true)), None) => {
      Err(format!("step {} was not told about the {:?} due at {} ms", what, sig, t).into())
    }
    (Some((t, sig, _)), Some(g)) => {
      ensure!(
        g.0 == *t && g.1 == *sig,
        "step {} saw {:?} at {} ms, expected {:?} at {} ms",
        what,
        g.1,
        g.0,
        sig,
        t
      );
      Ok(())
    }
  }
}

/// Start and end of every job and step on the virtual clock.
pub fn timeline(sc: &Scenario, tr: &Trace, ex: &Expected) -> R {
  let src = sc.plugins.len();
  let find = |f: &dyn Fn(&Ev) -> bool| tr.recs.iter().find(|r| r.src == src && f(&r.ev)).map(|r| r.t);
  for (j, job) in ex.jobs.iter().enumerate() {
    let key = sc.key(j);
    let end = find(&|e| matches!(e, Ev::JobState(k, s) if *k == key && s.is_terminal()));
    ensure!(
      end == Some(job.end),
      "job {} ended at {:?} ms, expected {} ms",
      key,
      end,
      job.end
    );
    for (i, s) in job.steps.iter().enumerate() {
      let end = find(&|e| matches!(e, Ev::StepState(k, x, s) if *k == key && *x == i && s.is_terminal()));
      ensure!(
        end == Some(s.end),
        "step {}/{} ended at {:?} ms, expected {} ms",
        key,
        i,
        end,
        s.end
      );
      if s.skipped {
        continue;
      }
      let queued = find(&|e| *e == Ev::StepState(key.clone(), i, WorkflowState::Queued));
      ensure!(
        queued == Some(s.start),
        "step {}/{} was queued at {:?} ms, expected {} ms",
        key,
        i,
        queued,
        s.start
      );
      let running = find(&|e| *e == Ev::StepState(key.clone(), i, WorkflowState::InProgress));
      ensure!(
        running == s.t0,
        "step {}/{} was in progress at {:?} ms, expected {:?} ms",
        key,
        i,
        running,
        s.t0
      );
    }
  }
  Ok(())
}

pub fn cancel_outcomes(sc: &Scenario, tr: &Trace, ex: &Expected) -> R {
  for ((c, got), want) in tr.cancels.iter().zip(&ex.cancels) {
    let key = sc.key(c.job as usize % sc.jobs.len());
    ensure!(
      got.is_ok() == *want,
      "cancelling {} at {} ms returned {:?}, expected {}",
      key,
      sc.cancel_ms(c),
      got,
      if *want { "success" } else { "an error" }
    );
  }
  Ok(())
}

/// Cancellations issued from inside hooks: those of a job that is not running
/// are rejected; of the others the first is accepted, unless a cancellation
/// from outside came before it.
pub fn hook_cancels(tr: &Trace, ex: &Expected, sc: &Scenario) -> R {
  if let Some(p) = tr.probes.first() {
    return Err(p.clone().into());
  }
  let mut done: Vec<String> = tr
    .cancels
    .iter()
    .zip(&ex.cancels)
    .filter(|(_, accepted)| **accepted)
    .map(|((c, _), _)| sc.key(c.job as usize % sc.jobs.len()))
    .collect();
  for (job, ok) in &tr.hook_cancels {
    let before = done.contains(job);
    ensure!(
      *ok != before,
      "a cancellation of job {} from inside a hook {}",
      job,
      if *ok {
        "succeeded although the job had been cancelled before"
      } else {
        "was rejected although the job was running"
      }
    );
    done.push(job.clone());
  }
  Ok(())
}

/// The execution and its second workflow, each with what is expected of it.
pub fn each(
  sc: &Scenario,
  tr: &Trace,
  f: impl Fn(&Trace, &Expected) -> R,
) -> R {
  f(tr, &crate::model::simulate(sc))?;
  if let (Some(tw), Some(ex)) = (&tr.twin, crate::model::simulate_twin(sc)) {
    f(tw, &ex).map_err(|e| Fail {
      msg: format!("second workflow: {}", e.msg),
      ..e
    })?;
  }
  Ok(())
}

pub fn any_step(ex: &Expected, f: impl Fn(&StepOut) -> bool) -> bool {
  ex.jobs.iter().any(|j| j.steps.iter().any(|s| f(s)))
}

pub fn any_job(ex: &Expected, f: impl Fn(&JobOut) -> bool) -> bool {
  ex.jobs.iter().any(f)
}
