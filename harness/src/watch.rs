//! Cases that take the whole process with them.
//!
//! The checks run in a child process. If it dies (stack overflow, abort,
//! memory) or one case does not come to an end, the parent runs the cases that
//! were being decided once more, each in a process of its own. Only a case
//! that crashes or fails to end again, alone, is a violation; otherwise the
//! check could not be run and says so.

use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

const SLOTS: &str = "PBT_SLOTS";
/// No case takes remotely as long.
const LIMIT: Duration = Duration::from_secs(120);
/// Longer than a replay may wait for anything by itself.
const REPLAY_LIMIT: Duration = Duration::from_secs(150);
const REPLAY_MEMORY: u64 = 12 << 30;

static RUNNING: Mutex<Vec<Option<Instant>>> = Mutex::new(vec![]);
static DIR: OnceLock<Option<PathBuf>> = OnceLock::new();

struct Slot {
  n: usize,
  file: Option<File>,
}

thread_local! {
  static SLOT: RefCell<Option<Slot>> = const { RefCell::new(None) };
}

fn dir() -> Option<&'static PathBuf> {
  DIR.get_or_init(|| std::env::var(SLOTS).ok().map(PathBuf::from)).as_ref()
}

/// Notes that this thread decides this case now.
pub fn begin<C: Serialize>(part: &str, case: &C) {
  let Some(dir) = dir() else { return };
  SLOT.with(|s| {
    let mut s = s.borrow_mut();
    let slot = s.get_or_insert_with(|| {
      let mut r = RUNNING.lock().unwrap();
      r.push(None);
      let n = r.len() - 1;
      Slot {
        n,
        file: File::create(dir.join(n.to_string())).ok(),
      }
    });
    if let Some(f) = &slot.file {
      let text = json!({"part": part, "case": case}).to_string();
      let _ = f.set_len(0);
      let _ = f.write_all_at(text.as_bytes(), 0);
    }
    RUNNING.lock().unwrap()[slot.n] = Some(Instant::now());
  });
}

pub fn end() {
  if dir().is_none() {
    return;
  }
  SLOT.with(|s| {
    if let Some(slot) = s.borrow().as_ref() {
      RUNNING.lock().unwrap()[slot.n] = None;
    }
  });
}

/// In the child: ends the process when a case does not end.
pub fn guard() {
  let Some(dir) = dir() else { return };
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_secs(2));
    let late: Vec<String> = RUNNING
      .lock()
      .unwrap()
      .iter()
      .enumerate()
      .filter(|(_, t)| t.map(|t| t.elapsed() > LIMIT).unwrap_or(false))
      .map(|(n, _)| n.to_string())
      .collect();
    if !late.is_empty() {
      println!("a case did not come to an end within {:?}", LIMIT);
      let _ = std::fs::write(dir.join("late"), late.join("\n"));
      crate::props::finish();
      std::process::exit(3);
    }
  });
}

fn gone(s: &ExitStatus) -> bool {
  s.signal().is_some() || s.code() == Some(3) || s.code() == Some(134) || s.code() == Some(137)
}

/// In the parent: None means that this process is to do the work itself.
pub fn supervise(property: &str, args: &[String], root: &str, seed: u64) -> Option<i32> {
  if std::env::var(SLOTS).is_ok() || std::env::var("PBT_DIRECT").is_ok() {
    return None;
  }
  let dir = PathBuf::from(format!("/tmp/astro-pbt-slots-{}", std::process::id()));
  if std::fs::create_dir(&dir).is_err() {
    return None;
  }
  let exe = std::env::current_exe().ok()?;
  let mut cmd = Command::new(&exe);
  cmd.args(args).env(SLOTS, &dir);
  unsafe {
    cmd.pre_exec(|| {
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
  let mut pid = 0;
  let status = cmd.spawn().and_then(|mut c| {
    pid = c.id();
    c.wait()
  });
  let code = match status {
    Ok(s) if !gone(&s) => s.code().unwrap_or(3),
    Ok(s) => {
      println!("the check ended with {}", s);
      clear(pid);
      autopsy(property, &exe, &dir, root, seed)
    }
    Err(e) => {
      println!("ERROR: cannot start the check: {}", e);
      3
    }
  };
  let _ = std::fs::remove_dir_all(&dir);
  Some(code)
}

/// The scratch directory of a check that could not remove it.
fn clear(pid: u32) {
  let dir = format!("/tmp/astro-pbt-{}", pid);
  for _ in 0..50 {
    if !Path::new(&dir).exists() || std::fs::remove_dir_all(&dir).is_ok() {
      break;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
}

fn alone(exe: &Path, property: &str, file: &Path) -> Option<String> {
  let mut cmd = Command::new(exe);
  cmd
    .arg(property)
    .arg("--replay")
    .arg(file)
    .stdout(Stdio::null())
    .stderr(Stdio::null())
    .process_group(0);
  unsafe {
    cmd.pre_exec(|| {
      let l = libc::rlimit {
        rlim_cur: REPLAY_MEMORY,
        rlim_max: REPLAY_MEMORY,
      };
      libc::setrlimit(libc::RLIMIT_AS, &l);
      Ok(())
    });
  }
  let mut child = cmd.spawn().ok()?;
  let pid = child.id();
  let start = Instant::now();
  loop {
    match child.try_wait() {
      Ok(Some(s)) if s.code() == Some(1) => return Some("fails when it is run alone".into()),
      Ok(Some(s)) if gone(&s) => {
        clear(pid);
        return Some(format!("ends the process when it is run alone ({})", s));
      }
      Ok(Some(_)) => return None,
      Ok(None) if start.elapsed() > REPLAY_LIMIT => {
        unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
        let _ = child.wait();
        clear(pid);
        return Some(format!("does not end within {:?} when it is run alone", REPLAY_LIMIT));
      }
      Ok(None) => std::thread::sleep(Duration::from_millis(20)),
      Err(_) => return None,
    }
  }
}

fn autopsy(property: &str, exe: &Path, dir: &Path, root: &str, seed: u64) -> i32 {
  let late = std::fs::read_to_string(dir.join("late")).unwrap_or_default();
  let mut slots: Vec<PathBuf> = if late.is_empty() {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
      .map(|d| d.flatten().map(|e| e.path()).collect())
      .unwrap_or_default();
    v.sort();
    v
  } else {
    late.lines().map(|n| dir.join(n)).collect()
  };
  // half of them may share one cause
  slots.truncate(16);
  let verdicts: Mutex<Vec<(PathBuf, String)>> = Mutex::new(vec![]);
  std::thread::scope(|s| {
    for slot in &slots {
      let verdicts = &verdicts;
      s.spawn(move || {
        if let Some(why) = alone(exe, property, slot) {
          verdicts.lock().unwrap().push((slot.clone(), why));
        }
      });
    }
  });
  let verdicts = verdicts.into_inner().unwrap();
  let Some((slot, why)) = verdicts.iter().min_by_key(|(s, _)| std::fs::metadata(s).map(|m| m.len()).unwrap_or(0)) else {
    println!("ERROR: the check ended early, and none of its cases does so alone");
    return 3;
  };
  let Some(v) = std::fs::read_to_string(slot).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
    return 3;
  };
  let name = v["part"].as_str().unwrap_or("").to_string();
  let _ = std::fs::create_dir_all(format!("{}/replays", root));
  let path = format!("{}/replays/{}-{}-seed{}.json", root, property, name, seed);
  let body = json!({
    "property": property,
    "part": name,
    "seed": seed,
    "message": format!("this case {}", why),
    "case": v["case"],
  });
  if std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).is_err() {
    return 3;
  }
  println!("a case {}", why);
  println!("VIOLATION property={} replay={}", property, path);
  1
}
