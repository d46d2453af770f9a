//! C13 (identifiers and values as text), C15 (the signal), and the parts of
//! C04 that look at the stream itself.

use super::Property;
use crate::engine::{CaseOk, CaseResult, DynPart, Fail, Part};
use crate::ensure;
use astro_run::{
  AstroRunSignal, Command, Condition, ContainerOptions, EnvironmentVariable, JobId, JobRunResult,
  Log, RunResult, Signal, SignalManager, Step, StepId, StepRunResult, Stream, StreamReceiver,
  TriggerEvent, WorkflowId, WorkflowLog, WorkflowLogType, WorkflowRunResult, WorkflowState,
  WorkflowStateEvent,
};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

// --------------------------------------------------------------------- wakers

#[derive(Default)]
pub struct CountingWaker(pub AtomicUsize);

impl Wake for CountingWaker {
  fn wake(self: Arc<Self>) {
    self.0.fetch_add(1, Ordering::SeqCst);
  }
}

impl CountingWaker {
  pub fn count(&self) -> usize {
    self.0.load(Ordering::SeqCst)
  }
}

/// Wakes a thread that blocks on `wait`; `wait` also reports a lost wake-up:
/// everybody who could wake it is done and nobody has.
#[derive(Default)]
struct Parker {
  state: Mutex<(bool, bool)>,
  cond: Condvar,
}

impl Wake for Parker {
  fn wake(self: Arc<Self>) {
    self.state.lock().unwrap().0 = true;
    self.cond.notify_all();
  }
}

impl Parker {
  /// Nobody will call wake any more.
  fn close(&self) {
    self.state.lock().unwrap().1 = true;
    self.cond.notify_all();
  }

  /// true: woken; false: closed without having been woken.
  fn wait(&self) -> bool {
    let mut s = self.state.lock().unwrap();
    loop {
      if s.0 {
        s.0 = false;
        return true;
      }
      if s.1 {
        return false;
      }
      s = self.cond.wait(s).unwrap();
    }
  }
}

// ------------------------------------------------------- C04: the stream alone

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum StreamOp {
  Log(bool, String),
  /// 0 succeeded(), 1 cancelled(), 2 failed(code), 3 timeout(), 4.. end(..)
  End(u8, i32),
  /// poll with waker number
  Poll(u8),
  Result,
  IsEnded,
  /// continue with a clone of the sender, dropping (or keeping) the old one
  Clone(bool),
  DropSender,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StreamCase {
  pub ops: Vec<StreamOp>,
}

fn stream_case() -> BoxedStrategy<StreamCase> {
  let op = prop_oneof![
    6 => (any::<bool>(), crate::spec::msg()).prop_map(|(e, m)| StreamOp::Log(e, m)),
    1 => (0u8..7, any::<i32>()).prop_map(|(k, c)| StreamOp::End(k, c)),
    8 => (0u8..3).prop_map(StreamOp::Poll),
    1 => Just(StreamOp::Result),
    1 => Just(StreamOp::IsEnded),
    1 => any::<bool>().prop_map(StreamOp::Clone),
    1 => Just(StreamOp::DropSender),
  ];
  let one = vec(op, 0..40).prop_map(|ops| StreamCase { ops });
  // a long backlog: up to thousands of lines nobody has read yet
  let backlog = (prop_oneof![8 => 40usize..400, 1 => 400usize..6000], one.clone(), one.clone())
    .prop_map(|(n, before, after)| StreamCase {
      ops: before
        .ops
        .into_iter()
        .filter(|o| !matches!(o, StreamOp::End(..)))
        .chain((0..n).map(|i| StreamOp::Log(i % 7 == 3, format!("{}", i / 2))))
        .chain(after.ops)
        .collect(),
    });
  prop_oneof![300 => one, 1 => backlog].boxed()
}

fn end_result(kind: u8, code: i32) -> RunResult {
  match kind {
    0 | 4 => RunResult::Succeeded,
    1 | 5 => RunResult::Cancelled,
    3 => RunResult::Failed { exit_code: 123 },
    _ => RunResult::Failed { exit_code: code },
  }
}

fn do_end(tx: &astro_run::StreamSender, kind: u8, code: i32) {
  match kind {
    0 => tx.succeeded(),
    1 => tx.cancelled(),
    2 => tx.failed(code),
    3 => tx.timeout(),
    _ => tx.end(end_result(kind, code)),
  }
}

fn poll_stream(rx: &mut StreamReceiver, w: &Waker) -> Poll<Option<Log>> {
  let mut cx = Context::from_waker(w);
  Pin::new(rx).poll_next(&mut cx)
}

fn stream_check(c: &StreamCase) -> CaseResult {
  let (tx, mut rx) = astro_run::stream();
  let mut tx = Some(tx);
  let mut keep = vec![];
  let wakers: Vec<Arc<CountingWaker>> = (0..3).map(|_| Default::default()).collect();
  let mut written: Vec<(bool, String)> = vec![];
  let mut read = 0;
  let mut result: Option<RunResult> = None;
  // the waker of the poll that returned Pending last, and its count then
  let mut waiting: Option<(usize, usize)> = None;
  let (mut polls, mut woken) = (0, 0);

  for (n, op) in c.ops.iter().enumerate() {
    match op {
      StreamOp::Log(error, m) => {
        // what a runner writes after the end is its own business
        if let (Some(tx), None) = (&tx, &result) {
          if *error {
            tx.error(m.clone());
          } else {
            tx.log(m.clone());
          }
          written.push((*error, m.clone()));
        } else {
          continue;
        }
      }
      StreamOp::End(kind, code) => {
        if let Some(tx) = &tx {
          do_end(tx, *kind, *code);
          if result.is_none() {
            result = Some(end_result(*kind, *code));
          } else {
            continue;
          }
        } else {
          continue;
        }
      }
      StreamOp::Poll(w) => {
        let w = *w as usize % wakers.len();
        let waker = Waker::from(wakers[w].clone());
        let before = wakers[w].count();
        let got = poll_stream(&mut rx, &waker);
        polls += 1;
        waiting = None;
        match got {
          Poll::Ready(Some(l)) => {
            ensure!(
              read < written.len(),
              "op {}: the stream produced {:?}, which was not written",
              n,
              l
            );
            let (e, m) = &written[read];
            ensure!(
              l.is_error() == *e && l.message == *m,
              "op {}: line {} was written as {:?} and read as {:?}",
              n,
              read,
              written[read],
              l
            );
            read += 1;
          }
          Poll::Ready(None) => {
            ensure!(
              read == written.len(),
              "op {}: the stream ended after {} of {} lines",
              n,
              read,
              written.len()
            );
            ensure!(result.is_some(), "op {}: the stream ended before its end was set", n);
          }
          Poll::Pending => {
            ensure!(
              read == written.len() && result.is_none(),
              "op {}: the stream is pending although {} of {} lines are read and the result is {:?}",
              n,
              read,
              written.len(),
              result
            );
            waiting = Some((w, before));
          }
        }
        continue;
      }
      StreamOp::Result => {
        ensure!(
          rx.result() == result,
          "op {}: result is {:?}, first one set is {:?}",
          n,
          rx.result(),
          result
        );
        continue;
      }
      StreamOp::IsEnded => {
        if let Some(tx) = &tx {
          ensure!(tx.is_ended() == result.is_some(), "op {}: is_ended is {}", n, tx.is_ended());
        }
        continue;
      }
      StreamOp::Clone(keep_old) => {
        if let Some(t) = tx.take() {
          tx = Some(t.clone());
          if *keep_old {
            keep.push(t);
          }
        }
        continue;
      }
      StreamOp::DropSender => {
        // other clones may still write
        if let Some(t) = keep.pop() {
          tx = Some(t);
        }
        continue;
      }
    }
    // something became available: whoever waited must have been woken
    if let Some((w, before)) = waiting.take() {
      ensure!(
        wakers[w].count() > before,
        "op {}: the consumer waits, {:?} was not announced to it (lost wake-up)",
        n,
        op
      );
      woken += 1;
    }
  }
  // the rest comes out
  if let (Some(tx), None) = (&tx, &result) {
    tx.end(RunResult::Succeeded);
    result = Some(RunResult::Succeeded);
  }
  let waker = Waker::from(wakers[0].clone());
  let mut rest = vec![];
  for _ in 0..=written.len() {
    match poll_stream(&mut rx, &waker) {
      Poll::Ready(Some(l)) => rest.push((l.is_error(), l.message)),
      Poll::Ready(None) => break,
      Poll::Pending => return Err("an ended stream is pending".into()),
    }
  }
  ensure!(
    rest == written[read..],
    "after the end {:?} was read, {:?} remained",
    rest,
    &written[read..]
  );
  ensure!(rx.result() == result, "the final result is {:?}, it was set to {:?}", rx.result(), result);
  Ok(CaseOk::new(polls > 0 && written.len() >= 2).tag(woken > 0, "waiting-consumer-woken"))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct StreamThreads {
  /// lines written by each producer
  pub producers: Vec<u8>,
  /// results set by threads racing after all lines are written
  pub enders: Vec<i32>,
  /// how often the whole thing is done
  pub rounds: u8,
  /// spin iterations between two lines
  pub spin: u8,
}

fn stream_threads() -> BoxedStrategy<StreamThreads> {
  (vec(0u8..12, 1..4), vec(0i32..100, 1..4), Just(6u8), prop_oneof![2 => Just(0u8), 1 => any::<u8>()])
    .prop_map(|(producers, enders, rounds, spin)| StreamThreads {
      producers,
      enders,
      rounds,
      spin,
    })
    .boxed()
}

fn stream_threads_check(c: &StreamThreads) -> CaseResult {
  for _ in 0..c.rounds.max(1) {
    stream_round(c)?;
  }
  Ok(
    CaseOk::new(c.producers.len() + c.enders.len() > 2)
      .tag(c.enders.len() > 1, "racing-results")
      .tag(c.producers.len() > 1, "several-producers"),
  )
}

fn stream_round(c: &StreamThreads) -> Result<(), Fail> {
  let (tx, mut rx) = astro_run::stream();
  let parker: Arc<Parker> = Default::default();
  let parties = c.producers.len().max(c.enders.len());
  let start = Barrier::new(parties + 1);
  let ends = Barrier::new(parties);
  let observed: Mutex<Vec<RunResult>> = Default::default();
  std::thread::scope(|s| {
    let mut handles = vec![];
    let rx_result = Arc::new(Mutex::new(None::<RunResult>));
    for p in 0..parties {
      let tx = tx.clone();
      let (start, ends) = (&start, &ends);
      handles.push(s.spawn(move || {
        start.wait();
        for i in 0..c.producers.get(p).copied().unwrap_or(0) {
          for _ in 0..c.spin {
            std::hint::spin_loop();
          }
          if i % 2 == 0 {
            tx.log(format!("{}:{}", p, i));
          } else {
            tx.error(format!("{}:{}", p, i));
          }
        }
        ends.wait();
        if let Some(code) = c.enders.get(p) {
          tx.end(RunResult::Failed { exit_code: *code });
          assert!(tx.is_ended());
        }
      }));
    }
    let consumer = {
      let (parker, start, observed, rx_result) = (parker.clone(), &start, &observed, rx_result);
      let rx = &mut rx;
      s.spawn(move || -> Result<Vec<(bool, String)>, String> {
        let waker = Waker::from(parker.clone());
        start.wait();
        let mut out = vec![];
        loop {
          match poll_stream(rx, &waker) {
            Poll::Ready(Some(l)) => out.push((l.is_error(), l.message)),
            Poll::Ready(None) => break,
            Poll::Pending => {
              if !parker.wait() {
                // all producers are done; one more look tells a lost wake-up
                // from a stream that has no end
                return Err(format!(
                  "the consumer was never woken although everything had been written (poll now: {:?})",
                  poll_stream(rx, &waker)
                ));
              }
            }
          }
          // nothing else: result() is only meaningful once ended
        }
        // what the consumer sees at the end of the stream is final
        for _ in 0..50 {
          match rx.result() {
            Some(r) => observed.lock().unwrap().push(r),
            None => return Err("the stream ended without a result".into()),
          }
          std::hint::spin_loop();
        }
        *rx_result.lock().unwrap() = rx.result();
        Ok(out)
      })
    };
    for h in handles {
      h.join().map_err(|_| "a producer panicked".to_string())?;
    }
    parker.close();
    let got = consumer.join().map_err(|_| "the consumer panicked".to_string())??;
    for (p, n) in c.producers.iter().enumerate() {
      let mine: Vec<&(bool, String)> =
        got.iter().filter(|l| l.1.starts_with(&format!("{}:", p))).collect();
      let want: Vec<(bool, String)> =
        (0..*n).map(|i| (i % 2 == 1, format!("{}:{}", p, i))).collect();
      ensure!(
        mine.len() == want.len() && mine.iter().zip(&want).all(|(a, b)| *a == b),
        "producer {} wrote {:?}, delivered was {:?}",
        p,
        want,
        mine
      );
    }
    let total: usize = c.producers.iter().map(|n| *n as usize).sum();
    ensure!(got.len() == total, "{} lines were written, {} delivered", total, got.len());
    Ok::<(), Fail>(())
  })?;
  let last = rx.result();
  let seen = observed.into_inner().unwrap();
  ensure!(
    seen.iter().all(|r| Some(r.clone()) == last),
    "the result was {:?} when the stream ended and is now {:?}",
    seen.iter().find(|r| Some((*r).clone()) != last),
    last
  );
  Ok(())
}

pub fn c04_parts() -> Vec<Box<dyn DynPart>> {
  vec![
    Part::new(
      "stream-ops",
      "cases: random sequences of writes, ends, polls (with changing wakers), result queries and sender clones on one stream against a sequential reference; non-trivial: at least one poll and two lines; distinct by case",
      200_000,
      10_000_000,
      stream_case,
      stream_check,
    )
    .boxed(),
    Part::new(
      "stream-threads",
      "cases: 1-3 producer threads and 1-3 threads racing to set the result, against a consumer thread that sleeps until woken, each repeated 6 times; non-trivial: more than one producer or ender; distinct by case",
      3_000,
      150_000,
      stream_threads,
      stream_threads_check,
    )
    .shards(2)
    .boxed(),
  ]
}

// ------------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum SignalOp {
  Cancel,
  Timeout,
  /// through a clone of the signal
  CloneCancel,
  /// poll the receiver with waker number
  Poll(u8),
  NewReceiver,
  Query,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SignalCase {
  pub ops: Vec<SignalOp>,
}

fn signal_case() -> BoxedStrategy<SignalCase> {
  let op = prop_oneof![
    1 => Just(SignalOp::Cancel),
    1 => Just(SignalOp::Timeout),
    1 => Just(SignalOp::CloneCancel),
    5 => (0u8..3).prop_map(SignalOp::Poll),
    1 => Just(SignalOp::NewReceiver),
    2 => Just(SignalOp::Query),
  ];
  vec(op, 0..20).prop_map(|ops| SignalCase { ops }).boxed()
}

fn signal_check(c: &SignalCase) -> CaseResult {
  let signal = AstroRunSignal::new();
  let other = signal.clone();
  let wakers: Vec<Arc<CountingWaker>> = (0..3).map(|_| Default::default()).collect();
  let mut set: Option<Signal> = None;
  let mut delivered = false;
  let mut waiting: Option<(usize, usize)> = None;
  let mut woken = false;
  let mut recv = signal.recv();
  for (n, op) in c.ops.iter().enumerate() {
    let attempt = match op {
      SignalOp::Cancel => Some((Signal::Cancel, signal.cancel())),
      SignalOp::Timeout => Some((Signal::Timeout, other.timeout())),
      SignalOp::CloneCancel => Some((Signal::Cancel, other.clone().cancel())),
      _ => None,
    };
    if let Some((s, r)) = attempt {
      ensure!(
        r.is_ok() == set.is_none(),
        "op {}: setting {} returned {:?}, set before: {:?}",
        n,
        s,
        r,
        set
      );
      if set.is_none() {
        set = Some(s);
        if let Some((w, before)) = waiting.take() {
          ensure!(
            wakers[w].count() > before,
            "op {}: the waiting receiver was not woken by {}",
            n,
            s
          );
          woken = true;
        }
      }
    }
    match op {
      SignalOp::Poll(w) => {
        let w = *w as usize % wakers.len();
        let before = wakers[w].count();
        let waker = Waker::from(wakers[w].clone());
        let got = Pin::new(&mut recv).poll(&mut Context::from_waker(&waker));
        waiting = None;
        let want = match set {
          Some(s) if !delivered => Poll::Ready(s),
          _ => Poll::Pending,
        };
        ensure!(
          got == want,
          "op {}: the receiver got {:?}, expected {:?} (set: {:?}, delivered: {})",
          n,
          got,
          want,
          set,
          delivered
        );
        if got.is_ready() {
          delivered = true;
          recv = signal.recv();
        } else if set.is_none() {
          waiting = Some((w, before));
        }
      }
      SignalOp::NewReceiver => {
        recv = signal.recv();
        waiting = None;
      }
      _ => {}
    }
    ensure!(
      signal.is_cancelled() == (set == Some(Signal::Cancel))
        && other.is_timeout() == (set == Some(Signal::Timeout)),
      "op {}: is_cancelled is {} and is_timeout {}, set was {:?}",
      n,
      signal.is_cancelled(),
      other.is_timeout(),
      set
    );
  }
  Ok(
    CaseOk::new(set.is_some() && c.ops.iter().any(|o| matches!(o, SignalOp::Poll(_))))
      .tag(woken, "waiting-receiver-woken")
      .tag(delivered, "delivered"),
  )
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SignalThreads {
  /// true: cancel, false: timeout
  pub setters: Vec<bool>,
  pub rounds: u8,
  pub spin: u8,
}

fn signal_threads() -> BoxedStrategy<SignalThreads> {
  (vec(any::<bool>(), 1..5), Just(6u8), any::<u8>())
    .prop_map(|(setters, rounds, spin)| SignalThreads {
      setters,
      rounds,
      spin,
    })
    .boxed()
}

fn signal_threads_check(c: &SignalThreads) -> CaseResult {
  for _ in 0..c.rounds.max(1) {
    let signal = AstroRunSignal::new();
    let parker: Arc<Parker> = Default::default();
    let start = Barrier::new(c.setters.len() + 1);
    let accepted = Mutex::new(vec![]);
    let got = std::thread::scope(|s| {
      let handles: Vec<_> = c
        .setters
        .iter()
        .map(|cancel| {
          let signal = signal.clone();
          let (start, accepted) = (&start, &accepted);
          s.spawn(move || {
            start.wait();
            for _ in 0..c.spin {
              std::hint::spin_loop();
            }
            let r = if *cancel {
              signal.cancel()
            } else {
              signal.timeout()
            };
            if r.is_ok() {
              accepted.lock().unwrap().push(*cancel);
            }
          })
        })
        .collect();
      let consumer = {
        let (signal, parker, start) = (signal.clone(), parker.clone(), &start);
        s.spawn(move || -> Result<Signal, String> {
          let waker = Waker::from(parker.clone());
          start.wait();
          let mut recv = signal.recv();
          loop {
            match Pin::new(&mut recv).poll(&mut Context::from_waker(&waker)) {
              Poll::Ready(x) => return Ok(x),
              Poll::Pending => {
                if !parker.wait() {
                  return Err("the receiver was never woken although the signal was set".into());
                }
              }
            }
          }
        })
      };
      for h in handles {
        let _ = h.join();
      }
      parker.close();
      consumer.join().map_err(|_| "the receiver panicked".to_string())?
    })
    .map_err(Fail::from)?;
    let accepted = accepted.into_inner().unwrap();
    ensure!(
      accepted.len() == 1,
      "{} concurrent attempts, {} accepted",
      c.setters.len(),
      accepted.len()
    );
    let want = if accepted[0] {
      Signal::Cancel
    } else {
      Signal::Timeout
    };
    ensure!(got == want, "{} was accepted, {} delivered", want, got);
    ensure!(
      signal.is_cancelled() == accepted[0] && signal.is_timeout() != accepted[0],
      "the accepted signal is not the stored one"
    );
  }
  Ok(CaseOk::new(c.setters.len() > 1))
}

/// The registry of running jobs against a map.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ManagerOp {
  Register(u16),
  Unregister(u16),
  Cancel(u16),
  Timeout(u16),
  Get(u16),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ManagerCase {
  pub ops: Vec<ManagerOp>,
}

fn manager_case() -> BoxedStrategy<ManagerCase> {
  let id = || 0u16..6;
  let op = |id: BoxedStrategy<u16>| {
    prop_oneof![
      3 => id.clone().prop_map(ManagerOp::Register),
      1 => id.clone().prop_map(ManagerOp::Unregister),
      3 => id.clone().prop_map(ManagerOp::Cancel),
      1 => id.clone().prop_map(ManagerOp::Timeout),
      2 => id.prop_map(ManagerOp::Get),
    ]
    .boxed()
  };
  let one = vec(op(id().boxed()), 0..25).prop_map(|ops| ManagerCase { ops });
  // many jobs at once
  let crowd = (prop_oneof![6 => 10u16..150, 1 => 150u16..1500]).prop_flat_map(move |n| {
    vec(op((0..n).boxed()), 10..60).prop_map(move |later| ManagerCase {
      ops: (0..n).map(ManagerOp::Register).chain(later).collect(),
    })
  });
  prop_oneof![500 => one, 1 => crowd].boxed()
}

/// Ids that only differ in where the text is split, or in case.
fn manager_id(k: u16) -> JobId {
  match k {
    6.. => JobId::new("w", &format!("job-{}", k)),
    0 => JobId::new("w", "a"),
    1 => JobId::new("w", "b"),
    2 => JobId::new("wa", ""),
    3 => JobId::new("", "wa"),
    4 => JobId::new("v", "a"),
    _ => JobId::new("w", "A"),
  }
}

fn manager_check(c: &ManagerCase) -> CaseResult {
  let manager = SignalManager::new();
  let other = manager.clone();
  let mut model: HashMap<u16, Option<Signal>> = HashMap::new();
  let mut handles: HashMap<u16, AstroRunSignal> = HashMap::new();
  // every signal there ever was, with what it must say
  let mut all: Vec<(AstroRunSignal, Option<Signal>)> = vec![];
  let mut last: HashMap<u16, usize> = HashMap::new();
  let mut ok = 0;
  for (n, op) in c.ops.iter().enumerate() {
    match op {
      ManagerOp::Register(k) => {
        let s = AstroRunSignal::new();
        manager.register_signal(manager_id(*k), s.clone());
        last.insert(*k, all.len());
        all.push((s.clone(), None));
        handles.insert(*k, s);
        model.insert(*k, None);
      }
      ManagerOp::Unregister(k) => {
        other.unregister_signal(&manager_id(*k));
        model.remove(k);
      }
      ManagerOp::Cancel(k) => {
        let r = other.cancel_job(&manager_id(*k));
        let want = matches!(model.get(k), Some(None));
        ensure!(
          r.is_ok() == want,
          "op {}: cancel_job({}) returned {:?}, expected success: {}",
          n,
          manager_id(*k),
          r,
          want
        );
        if want {
          ok += 1;
          model.insert(*k, Some(Signal::Cancel));
          all[last[k]].1 = Some(Signal::Cancel);
        }
      }
      ManagerOp::Timeout(k) => {
        if let Some(s) = handles.get(k) {
          let said = s.timeout().is_ok();
          let want = all[last[k]].1.is_none();
          ensure!(said == want, "op {}: timeout() of the signal of {} was {}accepted", n, manager_id(*k), if said { "" } else { "not " });
          if said {
            all[last[k]].1 = Some(Signal::Timeout);
            if model.contains_key(k) {
              model.insert(*k, Some(Signal::Timeout));
            }
          }
        }
      }
      ManagerOp::Get(k) => {
        let got = manager.get_signal(&manager_id(*k)).map(|s| {
          if s.is_cancelled() {
            Some(Signal::Cancel)
          } else if s.is_timeout() {
            Some(Signal::Timeout)
          } else {
            None
          }
        });
        ensure!(
          got == model.get(k).copied(),
          "op {}: get_signal({}) gives {:?}, expected {:?}",
          n,
          manager_id(*k),
          got,
          model.get(k)
        );
      }
    }
    for (i, (s, want)) in all.iter().enumerate() {
      ensure!(
        (s.is_cancelled(), s.is_timeout()) == (*want == Some(Signal::Cancel), *want == Some(Signal::Timeout)),
        "op {} ({:?}): signal {} is cancelled: {}, timed out: {}; expected {:?}",
        n,
        op,
        i,
        s.is_cancelled(),
        s.is_timeout(),
        want
      );
    }
  }
  Ok(CaseOk::new(ok > 0))
}

pub fn c15() -> Property {
  (
    "property-based testing: operation sequences against a reference signal, and racing threads with wake-up accounting",
    vec![
      "one receiver waits at a time, as in astro-run itself",
      "thread schedules are those the machine produces while racing from a barrier",
    ],
    vec![
      Part::new(
        "signal-ops",
        "cases: random sequences of cancel/timeout (through clones), polls with changing wakers and queries against a reference; non-trivial: the signal is set and polled; distinct by case",
        200_000,
        10_000_000,
        signal_case,
        signal_check,
      )
      .boxed(),
      Part::new(
        "registry-ops",
        "cases: random sequences of register/unregister/cancel/get on a SignalManager with look-alike job ids against a map; non-trivial: at least one accepted cancellation; distinct by case",
        200_000,
        10_000_000,
        manager_case,
        manager_check,
      )
      .boxed(),
      Part::new(
        "signal-threads",
        "cases: 1-4 threads racing to set the signal against one waiting receiver, each repeated 6 times; non-trivial: more than one setter; distinct by case",
        3_000,
        150_000,
        signal_threads,
        signal_threads_check,
      )
      .shards(2)
      .boxed(),
    ],
  )
}

// ------------------------------------------------------------------------ C13

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IdCase {
  pub workflow: String,
  pub job: String,
  pub step: usize,
}

fn id_part() -> BoxedStrategy<String> {
  prop_oneof![
    4 => "[a-zA-Z0-9_.-]{1,10}",
    2 => "[^/]{1,10}",
    1 => Just(" ".to_string()),
    1 => Just("..".to_string()),
    1 => Just("\\".to_string()),
    1 => Just("％2F".to_string()),
    1 => Just("1".to_string()),
  ]
  .boxed()
}

fn id_case() -> BoxedStrategy<IdCase> {
  (id_part(), id_part(), prop_oneof![3 => 0usize..20, 1 => any::<usize>(), 1 => Just(usize::MAX)])
    .prop_map(|(workflow, job, step)| IdCase { workflow, job, step })
    .boxed()
}

fn id_check(c: &IdCase) -> CaseResult {
  let w = WorkflowId::new(c.workflow.clone());
  let j = JobId::new(c.workflow.clone(), c.job.clone());
  let s = StepId::new(c.workflow.clone(), c.job.clone(), c.step);
  ensure!(w.inner() == c.workflow, "WorkflowId::inner is {:?}", w.inner());
  ensure!(
    j.workflow_id() == w && j.job_key() == c.job,
    "the parts of {:?} are {:?} and {:?}",
    j,
    j.workflow_id(),
    j.job_key()
  );
  ensure!(
    s.workflow_id() == w && s.job_id() == j && s.job_key() == c.job && s.step_number() == c.step,
    "the parts of {:?} are {:?}, {:?}, {:?}, {}",
    s,
    s.workflow_id(),
    s.job_id(),
    s.job_key(),
    s.step_number()
  );
  let back = WorkflowId::try_from(w.to_string().as_str());
  ensure!(back.as_ref() == Ok(&w), "{:?} reads back as {:?}", w, back);
  let back = JobId::try_from(j.to_string().as_str());
  ensure!(back.as_ref() == Ok(&j), "{:?} reads back as {:?}", j, back);
  let back = StepId::try_from(s.to_string().as_str());
  ensure!(back.as_ref() == Ok(&s), "{:?} reads back as {:?}", s, back);
  // one kind of id is never taken for another
  ensure!(
    JobId::try_from(s.to_string().as_str()).is_err()
      && JobId::try_from(w.to_string().as_str()).is_err()
      && StepId::try_from(j.to_string().as_str()).is_err()
      && StepId::try_from(w.to_string().as_str()).is_err(),
    "an id of {:?} was read as an id of another kind",
    c
  );
  for (a, b) in [(json_round(&w)?, true), (json_round(&j)?, true), (json_round(&s)?, true)] {
    ensure!(a == b, "ids do not survive JSON: {:?}", c);
  }
  Ok(CaseOk::new(true).tag(c.workflow == c.job, "equal-parts"))
}

fn json_round<T: Serialize + DeserializeOwned + PartialEq>(x: &T) -> Result<bool, Fail> {
  let text = serde_json::to_string(x).map_err(|e| Fail::from(e.to_string()))?;
  let back: T = serde_json::from_str(&text).map_err(|e| Fail::from(format!("{}: {}", text, e)))?;
  Ok(back == *x)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IdText {
  pub text: String,
}

fn id_text() -> BoxedStrategy<IdText> {
  let piece = prop_oneof![
    6 => "[a-z0-9]{0,3}",
    5 => Just("/".to_string()),
    1 => Just("-1".to_string()),
    1 => Just("007".to_string()),
    1 => Just("1.5".to_string()),
    1 => Just("99999999999999999999999".to_string()),
    1 => Just(" 1".to_string()),
    1 => "\\PC{0,2}",
  ];
  vec(piece, 0..8).prop_map(|p| IdText { text: p.concat() }).boxed()
}

fn id_text_check(c: &IdText) -> CaseResult {
  let t = c.text.as_str();
  let parts: Vec<&str> = t.split('/').collect();
  let w = WorkflowId::try_from(t);
  match &w {
    Ok(w) => ensure!(!t.is_empty() && w.inner() == t, "{:?} was read as {:?}", t, w),
    Err(_) => ensure!(t.is_empty(), "workflow id {:?} was rejected", t),
  }
  let j = JobId::try_from(t);
  match &j {
    Ok(j) => ensure!(
      parts.len() == 2 && j.workflow_id().inner() == parts[0] && j.job_key() == parts[1],
      "{:?} was read as {:?}",
      t,
      j
    ),
    Err(_) => ensure!(
      parts.len() != 2 || parts.iter().any(|p| p.is_empty()),
      "job id {:?} was rejected",
      t
    ),
  }
  let s = StepId::try_from(t);
  match &s {
    Ok(s) => ensure!(
      parts.len() == 3
        && s.workflow_id().inner() == parts[0]
        && s.job_key() == parts[1]
        && parts[2].parse::<usize>() == Ok(s.step_number()),
      "{:?} was read as {:?}",
      t,
      s
    ),
    Err(_) => ensure!(
      parts.len() != 3
        || parts[0].is_empty()
        || parts[1].is_empty()
        || parts[2].is_empty()
        || !parts[2].chars().all(|c| c.is_ascii_digit())
        || parts[2].parse::<usize>().is_err(),
      "step id {:?} was rejected",
      t
    ),
  }
  Ok(
    CaseOk::new(parts.len() == 2 || parts.len() == 3)
      .tag(j.is_ok(), "job-id")
      .tag(s.is_ok(), "step-id"),
  )
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ValueCase {
  pub id: IdCase,
  pub texts: Vec<String>,
  pub state: u8,
  pub numbers: (i32, i64, u64, u32),
  pub opts: u16,
  pub cond: Option<crate::spec::CondSpec>,
  pub env: Vec<(String, super::config::EnvVal)>,
}

pub fn value_case() -> BoxedStrategy<ValueCase> {
  (
    id_case(),
    vec(super::config::text(), 6),
    0u8..7,
    (any::<i32>(), any::<i64>(), any::<u64>(), 0u32..1_000_000_000),
    any::<u16>(),
    option::of(crate::spec::cond()),
    super::config::env(),
  )
    .prop_map(|(id, texts, state, numbers, opts, cond, env)| ValueCase {
      id,
      texts,
      state,
      numbers,
      opts,
      cond,
      env,
    })
    .boxed()
}

pub const STATES: [(WorkflowState, &str); 7] = [
  (WorkflowState::Pending, "pending"),
  (WorkflowState::Queued, "queued"),
  (WorkflowState::InProgress, "in_progress"),
  (WorkflowState::Succeeded, "succeeded"),
  (WorkflowState::Failed, "failed"),
  (WorkflowState::Cancelled, "cancelled"),
  (WorkflowState::Skipped, "skipped"),
];

/// serialize -> deserialize -> serialize gives the same document, which
/// contains every value that was put in.
fn stable<T: Serialize + DeserializeOwned>(what: &str, x: &T, want: Value) -> Result<T, Fail> {
  let text = serde_json::to_string(x).map_err(|e| Fail::from(format!("{}: {}", what, e)))?;
  let back: T =
    serde_json::from_str(&text).map_err(|e| Fail::from(format!("{}: {}: {}", what, text, e)))?;
  let a: Value = serde_json::from_str(&text).unwrap();
  let b = serde_json::to_value(&back).unwrap();
  ensure!(a == b, "{} changes when read back:\n{}\n{}", what, a, b);
  ensure!(a == want, "{} is written as\n{}\nexpected\n{}", what, a, want);
  Ok(back)
}

fn value_check(c: &ValueCase) -> CaseResult {
  let (state, name) = STATES[c.state as usize % 7].clone();
  stable("a state", &state, json!(name))?;
  let terminal = matches!(name, "succeeded" | "failed" | "cancelled" | "skipped");
  ensure!(
    state.is_terminal() == terminal
      && state.is_in_progress() == (name == "in_progress")
      && state.is_queued() == (name == "queued"),
    "{:?} is classified wrongly",
    state
  );
  let sid = StepId::new(c.id.workflow.clone(), c.id.job.clone(), c.id.step);
  let opt = |bit: u32| c.opts & (1 << bit) != 0;
  let t = |i: usize| c.texts[i % c.texts.len()].clone();
  let o = |bit: u32, i: usize| opt(bit).then(|| t(i));
  let timeout = Duration::new(c.numbers.2, c.numbers.3);
  let environments: HashMap<String, EnvironmentVariable> =
    c.env.iter().map(|(k, v)| (k.clone(), v.expect())).collect();
  let container = opt(0).then(|| ContainerOptions {
    name: t(0),
    volumes: opt(1).then(|| vec![t(1), t(2)]),
    security_opts: opt(2).then(|| vec![t(3)]),
  });
  let cjson = |c: &Option<ContainerOptions>| match c {
    None => Value::Null,
    Some(c) => json!({"name": c.name, "volumes": c.volumes, "security-opts": c.security_opts}),
  };
  let env_json: Value = c
    .env
    .iter()
    .map(|(k, v)| (k.clone(), v.json()))
    .collect::<serde_json::Map<_, _>>()
    .into();
  let on: Option<Condition> = c
    .cond
    .as_ref()
    .map(|c| serde_json::from_value(super::config::cond_json(c)))
    .transpose()
    .map_err(|e| Fail::from(format!("a condition does not parse: {}", e)))?;
  let step = Step {
    id: sid.clone(),
    name: o(3, 4),
    on,
    container: container.clone(),
    run: t(5),
    continue_on_error: opt(4),
    environments,
    secrets: vec![t(1), t(4)],
    timeout,
  };
  let command = json!({
    "id": [c.id.workflow, c.id.job, c.id.step],
    "name": o(3, 4),
    "container": cjson(&container),
    "run": t(5),
    "continue_on_error": opt(4),
    "environments": env_json,
    "secrets": [t(1), t(4)],
    "timeout": {"secs": c.numbers.2, "nanos": c.numbers.3},
  });
  let mut want = command.clone();
  want["on"] = c.cond.as_ref().map(super::config::cond_json).unwrap_or(Value::Null);
  let back = stable("a step", &step, want)?;
  ensure!(back.environments == step.environments, "environments change type: {:?}", c.env);
  let cmd: Command = step.into();
  stable("a command", &cmd, command.clone())?;
  let again: Step = cmd.into();
  let cmd: Command = again.into();
  stable("a command made from a step", &cmd, command.clone())?;

  let trigger = TriggerEvent {
    event: t(0),
    repo_owner: t(1),
    repo_name: t(2),
    pr_number: opt(5).then_some(c.numbers.1),
    sha: t(3),
    branch: t(4),
    ref_name: t(5),
  };
  let trigger_json = json!({
    "event": t(0), "repo_owner": t(1), "repo_name": t(2),
    "pr_number": opt(5).then_some(c.numbers.1), "sha": t(3), "branch": t(4), "ref_name": t(5),
  });
  stable("a trigger event", &trigger, trigger_json.clone())?;
  let ctx = astro_run::Context {
    id: sid.clone(),
    signal: AstroRunSignal::new(),
    command: cmd,
    event: opt(6).then_some(trigger),
    payload: o(7, 0),
  };
  stable(
    "a context",
    &ctx,
    json!({
      "id": [c.id.workflow, c.id.job, c.id.step],
      "command": command,
      "event": if opt(6) { trigger_json } else { Value::Null },
      "payload": o(7, 0),
    }),
  )?;

  let time = |bit: u32, d: i64| {
    opt(bit).then(|| {
      chrono::DateTime::<chrono::Utc>::from_timestamp(1_600_000_000 + d + (c.numbers.0 as i64), c.numbers.3)
        .unwrap()
    })
  };
  let (a, b) = (time(8, 0), time(9, 5));
  let exit_code = opt(10).then_some(c.numbers.0);
  let step_result = StepRunResult {
    id: sid.clone(),
    state: state.clone(),
    exit_code,
    started_at: a,
    completed_at: b,
  };
  let step_json = json!({
    "id": [c.id.workflow, c.id.job, c.id.step], "state": name, "exit_code": exit_code,
    "started_at": a, "completed_at": b,
  });
  let r = stable("a step result", &step_result, step_json.clone())?;
  ensure!(r.started_at == a && r.completed_at == b, "times change when read back");
  let job_result = JobRunResult {
    id: sid.job_id(),
    state: state.clone(),
    started_at: b,
    completed_at: a,
    steps: vec![step_result.clone(), step_result],
  };
  let job_json = json!({
    "id": [c.id.workflow, c.id.job], "state": name, "started_at": b, "completed_at": a,
    "steps": [step_json, step_json],
  });
  stable("a job result", &job_result, job_json.clone())?;
  let wf_result = WorkflowRunResult {
    id: sid.workflow_id(),
    state: state.clone(),
    started_at: a,
    completed_at: b,
    jobs: HashMap::from([(c.id.job.clone(), job_result)]),
  };
  stable(
    "a workflow result",
    &wf_result,
    json!({
      "id": c.id.workflow, "state": name, "started_at": a, "completed_at": b,
      "jobs": {c.id.job.clone(): job_json},
    }),
  )?;
  let ev = match c.opts % 3 {
    0 => (
      WorkflowStateEvent::WorkflowStateUpdated { id: sid.workflow_id(), state },
      json!({"WorkflowStateUpdated": {"id": c.id.workflow, "state": name}}),
    ),
    1 => (
      WorkflowStateEvent::JobStateUpdated { id: sid.job_id(), state },
      json!({"JobStateUpdated": {"id": [c.id.workflow, c.id.job], "state": name}}),
    ),
    _ => (
      WorkflowStateEvent::StepStateUpdated { id: sid.clone(), state },
      json!({"StepStateUpdated": {"id": [c.id.workflow, c.id.job, c.id.step], "state": name}}),
    ),
  };
  stable("a state event", &ev.0, ev.1)?;
  let log = WorkflowLog {
    step_id: sid,
    log_type: if opt(11) {
      WorkflowLogType::Error
    } else {
      WorkflowLogType::Log
    },
    message: t(2),
    time: time(8, 9).unwrap_or_default(),
  };
  ensure!(log.is_error() == opt(11), "a log line's type is misreported");
  stable(
    "a log line",
    &log,
    json!({
      "step_id": [c.id.workflow, c.id.job, c.id.step],
      "log_type": if opt(11) { "error" } else { "log" },
      "message": t(2),
      "time": time(8, 9).unwrap_or_default(),
    }),
  )?;
  ensure!(
    WorkflowLogType::from(log.log_type.to_string()) == log.log_type,
    "a log type changes as text"
  );
  for s in [Signal::Cancel, Signal::Timeout] {
    ensure!(Signal::from(s.to_string().as_str()) == s && json_round(&s)?, "{} changes as text", s);
  }
  for r in [
    RunResult::Succeeded,
    RunResult::Cancelled,
    RunResult::Failed { exit_code: c.numbers.0 },
  ] {
    ensure!(json_round(&r)?, "{:?} changes as text", r);
  }
  Ok(CaseOk::new(true).tag(c.cond.is_some(), "with-condition").tag(!c.env.is_empty(), "with-env"))
}

pub fn c13() -> Property {
  (
    "property-based testing: round trips of generated identifiers and values through text and JSON",
    vec!["identifier parts contain no '/' (the separator), numbers in environments are finite"],
    vec![
      Part::new(
        "ids",
        "cases: random workflow/job/step id parts (unicode, blanks, dots, equal parts, extreme step numbers), written, read back and cross-read; non-trivial: all; distinct by case",
        200_000,
        5_000_000,
        id_case,
        id_check,
      )
      .boxed(),
      Part::new(
        "id-texts",
        "cases: random texts of fragments and separators offered to every id parser, against splitting by hand; non-trivial: the text has 2 or 3 parts; distinct by text",
        300_000,
        10_000_000,
        id_text,
        id_text_check,
      )
      .boxed(),
      Part::new(
        "values",
        "cases: random steps, commands, contexts, trigger events, results, state events and log lines, compared with the expected document and read back; non-trivial: all; distinct by case",
        60_000,
        2_000_000,
        value_case,
        value_check,
      )
      .boxed(),
    ],
  )
}
