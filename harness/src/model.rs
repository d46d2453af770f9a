//! The reference model: what the documentation promises for a scenario, as an
//! exact per-job timeline. It shares no code with astro-run (the glob
//! matcher, the condition rules and the state machine are written anew).

use crate::spec::*;
use crate::world::reaction;
use astro_run::{Signal, WorkflowState};

#[derive(Clone, Debug)]
pub struct StepOut {
  pub skipped: bool,
  pub start: u64,
  /// None: `Runner::run` returned an error
  pub t0: Option<u64>,
  pub logs: Vec<(u64, bool, String)>,
  /// the signal the step must see, when, and whether it certainly has the time
  pub signal: Option<(u64, Signal, bool)>,
  pub end: u64,
  pub state: WorkflowState,
  pub exit_code: Option<i32>,
}

#[derive(Clone, Debug)]
pub struct JobOut {
  pub skipped: bool,
  pub start: u64,
  pub end: u64,
  pub state: WorkflowState,
  pub steps: Vec<StepOut>,
  /// the effective cancellation time
  pub cancelled_at: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Expected {
  pub skipped: bool,
  pub jobs: Vec<JobOut>,
  /// in time order: accepted?
  pub cancels: Vec<bool>,
  pub end: u64,
}

/// The timeout of a step after every transforming hook.
pub fn effective_timeout(sc: &Scenario, step: &StepSpec) -> u64 {
  let mut t = timeout_ms(step.timeout, sc.tick());
  for p in sc.plugins.iter().chain(std::iter::once(&sc.runner_hooks)) {
    if p.fails & (1 << 2) != 0 {
      continue;
    }
    if let Transform::Timeout(x) = p.transform {
      t = timeout_ms(Some(x), sc.tick());
    }
  }
  t
}

fn this_tick(sc: &Scenario, t: u64) -> u64 {
  t / sc.tick() * sc.tick()
}

fn run_step(sc: &Scenario, spec: &StepSpec, start: u64, cancel: Option<u64>) -> StepOut {
  let t0 = start + spec.run_delay as u64 * sc.tick();
  if spec.run_err {
    return StepOut {
      skipped: false,
      start,
      t0: None,
      logs: vec![],
      signal: None,
      end: t0,
      state: WorkflowState::Failed,
      exit_code: Some(1),
    };
  }
  let timeout_at = t0 + effective_timeout(sc, spec);
  let mut signal = (timeout_at, Signal::Timeout);
  if let Some(c) = cancel {
    let c = c.max(t0);
    if c < timeout_at {
      signal = (c, Signal::Cancel);
    }
  }

  let mut at = t0;
  let mut logs = vec![];
  for l in &spec.logs {
    at += l.delay as u64 * sc.tick();
    logs.push((at, l.error, l.text()));
  }
  at += spec.end_delay as u64 * sc.tick();
  let natural_end = at;
  let mut end = (natural_end, spec.end.clone());

  if signal.0 <= natural_end {
    if let Some((k, e)) = reaction(spec, signal.1) {
      let stop = this_tick(sc, signal.0) + sc.tick() * k;
      if stop <= natural_end {
        logs.retain(|l| l.0 < stop);
        end = (stop, e);
      }
    }
  }
  let (state, exit_code) = match end.1 {
    End::Succeeded => (WorkflowState::Succeeded, None),
    End::Failed(c) => (WorkflowState::Failed, Some(c)),
    End::Cancelled => (WorkflowState::Cancelled, None),
  };
  StepOut {
    skipped: false,
    start,
    t0: Some(t0),
    logs,
    signal: if signal.0 <= end.0 {
      Some((signal.0, signal.1, signal.0 < end.0))
    } else {
      None
    },
    end: end.0,
    state,
    exit_code,
  }
}

fn run_job(sc: &Scenario, job: &JobSpec, start: u64, cancel: Option<u64>) -> JobOut {
  let mut t = start;
  let mut state = WorkflowState::InProgress;
  let mut steps = vec![];
  for spec in &job.steps {
    let mut skip = match state {
      WorkflowState::Failed => !spec.continue_on_error,
      WorkflowState::Cancelled => true,
      _ => false,
    };
    if !skip {
      if let Some(on) = &spec.on {
        skip = !matches(sc, on);
      }
    }
    if skip {
      steps.push(StepOut {
        skipped: true,
        start: t,
        t0: None,
        logs: vec![],
        signal: None,
        end: t,
        state: WorkflowState::Skipped,
        exit_code: None,
      });
      continue;
    }
    let out = run_step(sc, spec, t, cancel);
    t = out.end;
    match out.state {
      WorkflowState::Failed => state = WorkflowState::Failed,
      WorkflowState::Cancelled => state = WorkflowState::Cancelled,
      _ => {}
    }
    steps.push(out);
  }
  if state == WorkflowState::InProgress {
    state = WorkflowState::Succeeded;
  }
  JobOut {
    skipped: false,
    start,
    end: t,
    state,
    steps,
    cancelled_at: cancel,
  }
}

/// The instant at which a hook cancellation is issued, if the hook runs.
fn hook_instant(job: &JobOut, at: &HookPoint) -> Option<u64> {
  let step = |i: u8| job.steps.get(i as usize).filter(|s| !s.skipped);
  match at {
    HookPoint::RunJob => Some(job.start),
    HookPoint::RunStep(i) => step(*i).map(|s| s.start),
    HookPoint::InProgress(i) => step(*i).and_then(|s| s.t0),
    HookPoint::Log(i, n) => step(*i).and_then(|s| s.logs.get(*n as usize)).map(|l| l.0),
    HookPoint::StepDone(i) => step(*i).map(|s| s.end),
  }
}

/// The whole execution. Valid for scenarios whose hooks do not suspend.
pub fn simulate(sc: &Scenario) -> Expected {
  simulate_from(sc, 0, &sc.cancels)
}

/// The second workflow of the scenario.
pub fn simulate_twin(sc: &Scenario) -> Option<Expected> {
  let twin = sc.twin.as_ref()?;
  Some(simulate_from(sc, twin.start as u64 * sc.tick(), &twin.cancels))
}

fn simulate_from(sc: &Scenario, origin: u64, cancels: &[CancelSpec]) -> Expected {
  let mut cancels: Vec<&CancelSpec> = cancels.iter().collect();
  cancels.sort_by_key(|c| c.tick);
  let when = |c: &CancelSpec| sc.cancel_ms(c);

  if let Some(on) = &sc.on {
    if !matches(sc, on) {
      return Expected {
        skipped: true,
        jobs: vec![],
        cancels: cancels.iter().map(|_| false).collect(),
        end: origin,
      };
    }
  }

  let mut accepted = vec![false; cancels.len()];
  let mut jobs: Vec<JobOut> = vec![];
  for (i, job) in sc.jobs.iter().enumerate() {
    let start = sc.deps(i).iter().map(|d| jobs[*d].end).max().unwrap_or(origin);
    if let Some(on) = &job.on {
      if !matches(sc, on) {
        jobs.push(JobOut {
          skipped: true,
          start,
          end: start,
          state: WorkflowState::Skipped,
          steps: vec![],
          cancelled_at: None,
        });
        continue;
      }
    }
    let mut out = run_job(sc, job, start, None);
    // the first cancellation that falls inside the job's life; what happens
    // before it is what happens without it
    let timed = cancels
      .iter()
      .enumerate()
      .filter(|(_, c)| c.job as usize % sc.jobs.len() == i)
      .map(|(n, c)| (when(c), n))
      .find(|(t, _)| *t > start && *t < out.end);
    let hooked = sc
      .hook_cancels
      .iter()
      .filter(|h| h.job as usize % sc.jobs.len() == i)
      .filter_map(|h| hook_instant(&out, &h.at))
      .min();
    match (timed, hooked) {
      (Some((t, n)), h) if h.map_or(true, |h| t < h) => {
        accepted[n] = true;
        out = run_job(sc, job, start, Some(t));
      }
      (_, Some(h)) => out = run_job(sc, job, start, Some(h)),
      _ => {}
    }
    jobs.push(out);
  }
  let end = jobs.iter().map(|j| j.end).max().unwrap_or(origin);
  Expected {
    skipped: false,
    jobs,
    cancels: accepted,
    end,
  }
}

// ------------------------------------------------------------------ conditions

/// Does the condition let the element run?
pub fn matches(sc: &Scenario, cond: &CondSpec) -> bool {
  match payload(&sc.gh) {
    None => true, // nothing known about the trigger: fail open
    Some((kind, branch, files)) => cond_matches(cond, &kind, &branch, &files),
  }
}

/// What GitHub says about the trigger; None when it cannot be determined.
pub fn payload(gh: &GhSpec) -> Option<(String, String, Vec<String>)> {
  let event = gh.event.as_ref()?;
  if !std::matches!(gh.auth, Auth::Token | Auth::App) {
    return None;
  }
  let mut files = event.files.clone()?;
  match event.kind.as_str() {
    "push" => {
      if event.no_files_field {
        files = vec![];
      }
    }
    "pull_request" => {
      event.pr_number?;
    }
    _ => return None,
  }
  Some((event.kind.clone(), event.branch.clone(), files))
}

pub fn cond_matches(cond: &CondSpec, kind: &str, branch: &str, files: &[String]) -> bool {
  match cond {
    CondSpec::Events(events) => events.iter().any(|e| e == kind),
    CondSpec::Config { push, pull_request } => {
      let filter = match kind {
        "push" => push,
        "pull_request" => pull_request,
        _ => return false,
      };
      match filter {
        None => false,
        Some(f) => {
          let branch_ok = f
            .branches
            .as_ref()
            .map(|b| b.iter().any(|p| glob(p, branch)))
            .unwrap_or(true);
          let paths_ok = f
            .paths
            .as_ref()
            .map(|ps| files.iter().any(|f| ps.iter().any(|p| glob(p, f))))
            .unwrap_or(true);
          branch_ok && paths_ok
        }
      }
    }
  }
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
  Lit(char),
  Any,
  Star,
  Class(bool, Vec<(char, char)>),
  /// `**` as a whole component, with the slash that follows it (if any)
  Deep,
}

fn tokens(pattern: &str) -> Vec<Tok> {
  let c: Vec<char> = pattern.chars().collect();
  let mut out = vec![];
  let mut i = 0;
  while i < c.len() {
    match c[i] {
      '?' => {
        out.push(Tok::Any);
        i += 1;
      }
      '*' => {
        if i + 1 < c.len() && c[i + 1] == '*' {
          i += 2;
          if i < c.len() && c[i] == '/' {
            out.push(Tok::Deep);
            i += 1;
          } else {
            out.push(Tok::Star);
          }
        } else {
          out.push(Tok::Star);
          i += 1;
        }
      }
      '[' => {
        let mut j = i + 1;
        let neg = j < c.len() && c[j] == '!';
        if neg {
          j += 1;
        }
        let mut set = vec![];
        let first = j;
        while j < c.len() && (c[j] != ']' || j == first) {
          if j + 2 < c.len() && c[j + 1] == '-' && c[j + 2] != ']' {
            set.push((c[j], c[j + 2]));
            j += 3;
          } else {
            set.push((c[j], c[j]));
            j += 1;
          }
        }
        out.push(Tok::Class(neg, set));
        i = j + 1;
      }
      x => {
        out.push(Tok::Lit(x));
        i += 1;
      }
    }
  }
  out
}

/// Reference glob matcher: `*` and `?` match any characters (also `/`), `**/`
/// matches any number of leading components.
pub fn glob(pattern: &str, value: &str) -> bool {
  let toks = tokens(pattern);
  let v: Vec<char> = value.chars().collect();
  // reach[j]: the tokens so far can consume v[..j]
  let mut reach = vec![false; v.len() + 1];
  reach[0] = true;
  for t in &toks {
    let mut next = vec![false; v.len() + 1];
    for j in 0..=v.len() {
      if !reach[j] {
        continue;
      }
      match t {
        Tok::Lit(x) => {
          if j < v.len() && v[j] == *x {
            next[j + 1] = true;
          }
        }
        Tok::Any => {
          if j < v.len() {
            next[j + 1] = true;
          }
        }
        Tok::Class(neg, set) => {
          if j < v.len() {
            let inside = set.iter().any(|(a, b)| *a <= v[j] && v[j] <= *b);
            if inside != *neg {
              next[j + 1] = true;
            }
          }
        }
        Tok::Star => {
          for n in next.iter_mut().skip(j) {
            *n = true;
          }
        }
        Tok::Deep => {
          next[j] = true;
          for k in j..v.len() {
            if v[k] == '/' {
              next[k + 1] = true;
            }
          }
        }
      }
    }
    reach = next;
  }
  reach[v.len()]
}
