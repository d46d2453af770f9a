//! The property-based testing engine: generation with proptest strategies,
//! sharding over threads with a fixed amount of work, shrinking, replay files
//! and evidence.

use crate::{det, watch};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case that satisfied the property reports about itself.
#[derive(Default, Debug, Clone)]
pub struct CaseOk {
  pub nontrivial: bool,
  pub tags: Vec<String>,
}

impl CaseOk {
  pub fn new(nontrivial: bool) -> Self {
    Self {
      nontrivial,
      tags: vec![],
    }
  }
  pub fn tag(mut self, cond: bool, tag: &str) -> Self {
    if cond {
      self.tags.push(tag.to_string());
    }
    self
  }
}

#[derive(Debug, Clone)]
pub struct Fail {
  pub msg: String,
  /// Stable signature of what fails, matched against the known findings.
  pub sig: String,
}

impl From<String> for Fail {
  fn from(msg: String) -> Self {
    Fail {
      msg,
      sig: String::new(),
    }
  }
}

impl From<&str> for Fail {
  fn from(msg: &str) -> Self {
    msg.to_string().into()
  }
}

pub type CaseResult = Result<CaseOk, Fail>;

#[macro_export]
macro_rules! ensure {
  ($cond:expr, $($arg:tt)*) => {
    if !$cond {
      return Err($crate::engine::Fail::from(format!($($arg)*)));
    }
  };
}

pub struct Env {
  pub property: String,
  pub seed: u64,
  pub thorough: bool,
  pub known: Vec<KnownFinding>,
}

#[derive(Debug, Clone)]
pub struct KnownFinding {
  pub property: String,
  pub sig: String,
  pub text: String,
}

pub struct Violation {
  pub part: String,
  pub case: Value,
  pub msg: String,
}

#[derive(Default)]
pub struct Report {
  pub evaluations: u64,
  pub distinct: u64,
  pub parts: BTreeMap<String, Value>,
  pub samples: Vec<Value>,
  pub known_hits: BTreeMap<String, u64>,
  pub rules: Vec<String>,
}

pub trait DynPart: Send + Sync {
  fn name(&self) -> &str;
  fn run(&self, env: &Env, report: &mut Report) -> Result<(), Violation>;
  fn replay(&self, case: &Value) -> Result<CaseResult, String>;
}

pub struct Part<C> {
  pub name: &'static str,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub shards: usize,
  pub strategy: fn() -> BoxedStrategy<C>,
  pub check: fn(&C) -> CaseResult,
  /// Hand-written cases, always run first (regressions, boundary cases).
  pub fixed: Vec<C>,
  /// At most this many shrink steps / this long.
  pub shrink_steps: u32,
  pub shrink_time: Duration,
}

impl<C> Part<C> {
  pub fn new(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C) -> CaseResult,
  ) -> Self {
    Part {
      name,
      rule,
      quick,
      thorough,
      shards: 8,
      strategy,
      check,
      fixed: vec![],
      shrink_steps: 2000,
      shrink_time: Duration::from_secs(std::env::var("PBT_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(60)),
    }
  }

  pub fn fixed(mut self, cases: Vec<C>) -> Self {
    self.fixed = cases;
    self
  }

  pub fn shards(mut self, n: usize) -> Self {
    self.shards = n;
    self
  }

  pub fn boxed(self) -> Box<dyn DynPart>
  where
    C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
  {
    Box::new(self)
  }
}

fn guarded<C: Serialize>(part: &str, check: fn(&C) -> CaseResult, case: &C) -> CaseResult {
  watch::begin(part, case);
  let r = guarded_check(check, case);
  watch::end();
  r
}

fn guarded_check<C>(check: fn(&C) -> CaseResult, case: &C) -> CaseResult {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(case))) {
    Ok(r) => {
      det::take_panics();
      r
    }
    Err(_) => Err(format!("panicked: {}", det::take_panics().join(" | ")).into()),
  }
}

impl<C> DynPart for Part<C>
where
  C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
{
  fn name(&self) -> &str {
    self.name
  }

  fn replay(&self, case: &Value) -> Result<CaseResult, String> {
    let case: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
    Ok(guarded(self.name, self.check, &case))
  }

  fn run(&self, env: &Env, report: &mut Report) -> Result<(), Violation> {
    let started = Instant::now();
    let total = if env.thorough {
      self.thorough
    } else {
      self.quick
    };
    // development aid: a different number of cases
    let total = std::env::var("PBT_CASES")
      .ok()
      .and_then(|n| n.parse().ok())
      .unwrap_or(total);
    let stop = AtomicBool::new(false);
    let evaluations = AtomicU64::new(0);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let tags: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<(usize, u64), Value>> = Mutex::new(BTreeMap::new());
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let violation: Mutex<Option<(usize, Violation)>> = Mutex::new(None);

    let is_known = |f: &Fail| -> Option<String> {
      if f.sig.is_empty() {
        return None;
      }
      env
        .known
        .iter()
        .find(|k| k.property == env.property && k.sig == f.sig)
        .map(|k| k.text.clone())
    };

    let account = |case: &C, ok: &CaseOk, shard: usize, n: u64| {
      evaluations.fetch_add(1, Ordering::Relaxed);
      {
        let mut t = tags.lock().unwrap();
        for tag in &ok.tags {
          *t.entry(tag.clone()).or_insert(0) += 1;
        }
      }
      if ok.nontrivial {
        let text = serde_json::to_string(case).unwrap_or_default();
        let fresh = distinct.lock().unwrap().insert(det::hash_str(&text));
        if fresh && n > 8 {
          let mut s = samples.lock().unwrap();
          if s.keys().filter(|(sh, _)| *sh == shard).count() < 1 && text.len() < 6000 {
            s.insert((shard, n), serde_json::to_value(case).unwrap_or(Value::Null));
          }
        }
      }
    };

    // Fixed cases first.
    for case in &self.fixed {
      match guarded(self.name, self.check, case) {
        Ok(ok) => account(case, &ok, usize::MAX, 0),
        Err(f) => match is_known(&f) {
          Some(text) => {
            *known_hits.lock().unwrap().entry(text).or_insert(0) += 1;
            evaluations.fetch_add(1, Ordering::Relaxed);
          }
          None => {
            return Err(Violation {
              part: self.name.to_string(),
              case: serde_json::to_value(case).unwrap(),
              msg: f.msg,
            })
          }
        },
      }
    }

    let shards = self.shards.max(1);
    std::thread::scope(|scope| {
      for shard in 0..shards {
        let share = total / shards as u64
          + if (shard as u64) < total % shards as u64 {
            1
          } else {
            0
          };
        let (stop, known_hits, violation, evaluations) =
          (&stop, &known_hits, &violation, &evaluations);
        let (account, is_known) = (&account, &is_known);
        std::thread::Builder::new()
          .stack_size(16 << 20)
          .spawn_scoped(scope, move || {
            let mut runner = runner_for(env, self.name, shard);
            let strategy = (self.strategy)();
            for n in 0..share {
              if stop.load(Ordering::Relaxed) {
                return;
              }
              let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                  println!("ERROR: generator of {} rejected: {}", self.name, e);
                  std::process::exit(4);
                }
              };
              let case = tree.current();
              match guarded(self.name, self.check, &case) {
                Ok(ok) => account(&case, &ok, shard, n),
                Err(f) => {
                  if let Some(text) = is_known(&f) {
                    *known_hits.lock().unwrap().entry(text).or_insert(0) += 1;
                    evaluations.fetch_add(1, Ordering::Relaxed);
                    continue;
                  }
                  if stop.swap(true, Ordering::SeqCst) {
                    // another shard is already shrinking a failure
                    return;
                  }
                  let (case, msg) = self.shrink(&mut tree, f, is_known);
                  *violation.lock().unwrap() = Some((
                    shard,
                    Violation {
                      part: self.name.to_string(),
                      case: serde_json::to_value(&case).unwrap(),
                      msg,
                    },
                  ));
                  return;
                }
              }
            }
          })
          .expect("spawn shard");
      }
    });

    let evaluations = evaluations.into_inner();
    let distinct = distinct.into_inner().unwrap().len() as u64;
    report.evaluations += evaluations;
    report.distinct += distinct;
    report.rules.push(format!("[{}] {}", self.name, self.rule));
    report.parts.insert(
      self.name.to_string(),
      json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "classes": tags.into_inner().unwrap(),
        "wall_s": started.elapsed().as_secs_f64(),
      }),
    );
    for (_, s) in samples.into_inner().unwrap().into_iter().take(2) {
      report.samples.push(json!({"part": self.name, "case": s}));
    }
    for (k, v) in known_hits.into_inner().unwrap() {
      *report.known_hits.entry(k).or_insert(0) += v;
    }

    match violation.into_inner().unwrap() {
      Some((_, v)) => Err(v),
      None => Ok(()),
    }
  }
}

impl<C> Part<C>
where
  C: Serialize + Clone + Debug,
{
  fn shrink<T: ValueTree<Value = C>>(
    &self,
    tree: &mut T,
    first: Fail,
    is_known: &dyn Fn(&Fail) -> Option<String>,
  ) -> (C, String) {
    let deadline = Instant::now() + self.shrink_time;
    let mut best = tree.current();
    let mut msg = first.msg;
    let mut steps = 0;
    'outer: while tree.simplify() {
      loop {
        steps += 1;
        if steps > self.shrink_steps || Instant::now() > deadline {
          break 'outer;
        }
        let case = tree.current();
        match guarded(self.name, self.check, &case) {
          Err(f) if is_known(&f).is_none() => {
            best = case;
            msg = f.msg;
            break;
          }
          _ => {
            if !tree.complicate() {
              break 'outer;
            }
          }
        }
      }
    }
    // A shrunk case must fail when run again, or the replay would be useless:
    // fall back on reporting it all the same, but say so.
    if guarded(self.name, self.check, &best).is_ok() {
      msg = format!("{} (did not fail again when re-run: schedule dependent)", msg);
    }
    (best, msg)
  }
}

fn runner_for(env: &Env, part: &str, shard: usize) -> TestRunner {
  let mut seed = [0u8; 32];
  let h = det::hash_str(&format!("{}/{}", env.property, part));
  seed[..8].copy_from_slice(&env.seed.to_le_bytes());
  seed[8..16].copy_from_slice(&h.to_le_bytes());
  seed[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
  let config = Config {
    failure_persistence: None,
    max_local_rejects: 1_000_000,
    max_global_rejects: 1_000_000,
    ..Config::default()
  };
  TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

pub fn load_known(path: &str) -> Vec<KnownFinding> {
  // "finding: property=C01 sig=<signature> <what fails>"
  let Ok(text) = std::fs::read_to_string(path) else {
    return vec![];
  };
  let mut out = vec![];
  for line in text.lines() {
    let Some(rest) = line.strip_prefix("finding: ") else {
      continue;
    };
    let mut property = String::new();
    let mut sig = String::new();
    let mut words = vec![];
    for w in rest.split_whitespace() {
      if let Some(p) = w.strip_prefix("property=") {
        property = p.to_string();
      } else if let Some(s) = w.strip_prefix("sig=") {
        sig = s.to_string();
      } else {
        words.push(w);
      }
    }
    out.push(KnownFinding {
      property,
      sig,
      text: words.join(" "),
    });
  }
  out
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
  S: Strategy + 'static,
{
  s.boxed()
}
