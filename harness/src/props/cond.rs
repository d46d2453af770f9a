//! C10, C11: conditions.

use super::config::cond_json;
use super::oracle;
use super::Property;
use crate::engine::{CaseOk, CaseResult, Part};
use crate::ensure;
use crate::model;
use crate::spec::*;
use crate::world;
use astro_run::{Condition, ConditionPayload, WorkflowState};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MatchCase {
  pub cond: CondSpec,
  pub kind: String,
  pub branch: String,
  pub files: Vec<String>,
}

fn match_case() -> BoxedStrategy<MatchCase> {
  let some_branch = prop_oneof![14 => branch(), 1 => Just(String::new())];
  let file = || prop_oneof![24 => path(), 1 => Just(String::new())];
  let crowd = || prop_oneof![150 => Just(0u16), 1 => 20u16..400];
  (cond(), event_kind(), some_branch, list(file, 6, 14), crowd(), crowd(), any::<bool>())
    .prop_map(|(mut cond, kind, branch, files, crowd, patterns, front)| {
      // what matters may be far down a long list
      let join = |filler: Vec<String>, few: Vec<String>| -> Vec<String> {
        if front {
          few.into_iter().chain(filler).collect()
        } else {
          filler.into_iter().chain(few).collect()
        }
      };
      if patterns > 0 {
        match &mut cond {
          CondSpec::Events(e) => *e = join((0..patterns).map(|i| format!("event{}", i)).collect(), e.clone()),
          CondSpec::Config { push, pull_request } => {
            for f in [push, pull_request].into_iter().flatten() {
              for l in [&mut f.branches, &mut f.paths].into_iter().flatten() {
                *l = join((0..patterns).map(|i| format!("gen/p{}/*.x", i)).collect(), l.clone());
              }
            }
          }
        }
      }
      MatchCase {
        cond,
        kind,
        branch,
        files: join((0..crowd).map(|i| format!("gen/q{}.md", i)).collect(), files),
      }
    })
    .boxed()
}

fn c10_check(c: &MatchCase) -> CaseResult {
  // through its serialized form, the way a configuration is read
  let yaml = serde_yaml::to_string(&c.cond.yaml()).unwrap();
  let cond: Condition = match serde_yaml::from_str(&yaml) {
    Ok(c) => c,
    Err(e) => return Err(format!("condition {:?} does not parse: {}", yaml, e).into()),
  };
  let shape = serde_json::to_value(&cond).unwrap();
  ensure!(
    shape == cond_json(&c.cond),
    "condition {} was read as {}",
    cond_json(&c.cond),
    shape
  );
  let payload = ConditionPayload {
    event: c.kind.clone(),
    branch: c.branch.clone(),
    paths: c.files.clone(),
  };
  let got = cond.is_match(&payload);
  let want = model::cond_matches(&c.cond, &c.kind, &c.branch, &c.files);
  ensure!(
    got == want,
    "{} {} event {:?} on branch {:?} with files {:?}",
    cond_json(&c.cond),
    if got { "matched" } else { "did not match" },
    c.kind,
    c.branch,
    c.files
  );
  let filtered = match (&c.cond, c.kind.as_str()) {
    (CondSpec::Config { push: Some(f), .. }, "push")
    | (CondSpec::Config { pull_request: Some(f), .. }, "pull_request") => {
      f.branches.is_some() || f.paths.is_some()
    }
    _ => false,
  };
  Ok(
    CaseOk::new(filtered)
      .tag(filtered && got, "filter-matched")
      .tag(filtered && !got, "filter-rejected"),
  )
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GlobCase {
  pub patterns: Vec<String>,
  pub value: String,
}

fn c10_glob(c: &GlobCase) -> CaseResult {
  let spec = CondSpec::Config {
    push: Some(FilterSpec {
      branches: None,
      paths: Some(c.patterns.clone()),
    }),
    pull_request: None,
  };
  let cond: Condition = serde_json::from_value(cond_json(&spec)).map_err(|e| e.to_string())?;
  let payload = ConditionPayload {
    event: "push".into(),
    branch: "main".into(),
    paths: vec![c.value.clone()],
  };
  let got = cond.is_match(&payload);
  let want = c.patterns.iter().any(|p| model::glob(p, &c.value));
  ensure!(
    got == want,
    "patterns {:?} {} {:?}",
    c.patterns,
    if got { "match" } else { "do not match" },
    c.value
  );
  Ok(
    CaseOk::new(c.patterns.iter().any(|p| p.contains(['*', '?', '['])))
      .tag(got, "match")
      .tag(!got, "no-match"),
  )
}

pub fn c10() -> Property {
  (
    "property-based testing: conditions and glob patterns against an independent matcher",
    vec!["glob patterns are generated from the documented grammar; malformed patterns are out of scope"],
    vec![
      Part::new(
        "conditions",
        "cases: random event lists and push/pull_request filters against random events, branches and changed files over a small alphabet; non-trivial: a branch or path filter applies to the event; distinct by case",
        400_000,
        20_000_000,
        match_case,
        c10_check,
      )
      .boxed(),
      Part::new(
        "globs",
        "cases: 1-3 random glob patterns (literals, *, ?, classes, **) against a random path; non-trivial: a pattern has a wildcard; distinct by case",
        600_000,
        30_000_000,
        || {
          (vec(pattern(), 1..4), path())
            .prop_map(|(patterns, value)| GlobCase { patterns, value })
            .boxed()
        },
        c10_glob,
      )
      .boxed(),
    ],
  )
}

fn c11_strategy() -> BoxedStrategy<Scenario> {
  scenario(Shape {
    max_jobs: 4,
    max_steps: 4,
    max_logs: 1,
    failures: 1,
    plugins: 1,
    conditions: true,
    density: 4,
    ..Shape::base()
  })
}

fn c11_check(sc: &Scenario) -> CaseResult {
  let tr = world::run(sc)?;
  let ex = model::simulate(sc);
  oracle::results(sc, &tr, &ex)?;
  // skipping costs nothing and delays nobody
  if !ex.skipped {
    oracle::dag(sc, &tr)?;
  }
  let known = model::payload(&sc.gh).is_some();
  let conds = sc.on.is_some() as usize
    + sc
      .jobs
      .iter()
      .map(|j| j.on.is_some() as usize + j.steps.iter().filter(|s| s.on.is_some()).count())
      .sum::<usize>();
  if conds == 0 {
    ensure!(
      tr.github.is_empty(),
      "GitHub was asked {:?} although nothing is conditional",
      tr.github
    );
  }
  let long = sc
    .gh
    .event
    .as_ref()
    .and_then(|e| e.files.as_ref())
    .map(|f| f.len() > 30)
    .unwrap_or(false);
  let skipped = ex.skipped
    || ex.jobs.iter().any(|j| j.skipped)
    || sc.jobs.iter().zip(&ex.jobs).any(|(s, j)| {
      s.steps.iter().zip(&j.steps).any(|(s, o)| s.on.is_some() && o.skipped)
    });
  Ok(
    CaseOk::new(conds > 0 && known)
      .tag(ex.skipped, "workflow-skipped")
      .tag(skipped, "something-skipped-by-condition")
      .tag(conds > 0 && !known, "trigger-unknown-fails-open")
      .tag(known && long, "more-than-30-changed-files")
      .tag(
        known && matches!(sc.gh.auth, Auth::App) && !tr.github.is_empty(),
        "through-a-github-app",
      )
      .tag(
        tr.result.as_ref().map(|r| r.state != WorkflowState::Skipped).unwrap_or(false),
        "workflow-ran",
      ),
  )
}

pub fn c11() -> Property {
  (
    "property-based testing: generated triggers, conditions and GitHub contents against a reference gate",
    vec![
      "the GitHub client crate is replaced by a stand-in that answers from a generated fake GitHub (commits, pull requests, installations, paging rules, credentials)",
    ],
    vec![Part::new(
      "gating",
      "cases: random workflows with conditions on workflow, jobs and steps, random trigger events, credentials (token, app, wrong ones, none), existing and missing commits and pull requests with 0-260 changed files; non-trivial: at least one condition and a determinable trigger; distinct by case",
      40_000,
      1_500_000,
      c11_strategy,
      c11_check,
    )
    .boxed()],
  )
}
