//! Worker processes for the checks of the host and docker runner.
//!
//! That runner executes shell commands and removes directories whose paths
//! are computed by the code under test. It therefore only ever runs in worker
//! processes that belong to an unprivileged user and own nothing but a
//! scratch directory; "docker" is a stand-in on their PATH (this program under
//! another name), which records how it was called and runs the entrypoint as
//! an ordinary child process.

use crate::det;
use crate::engine::{CaseOk, CaseResult, Fail};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::OnceLock;
use std::time::Duration;

const NOBODY: u32 = 65534;
/// Far beyond anything a case may take: not a verdict.
const LIMIT: Duration = Duration::from_secs(100);

#[derive(Serialize, Deserialize)]
struct Answer {
  nontrivial: bool,
  tags: Vec<String>,
  fail: Option<String>,
}

struct Base(PathBuf);

static BASE: OnceLock<Base> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn base() -> &'static Path {
  &BASE
    .get_or_init(|| {
      let dir = PathBuf::from(format!("/tmp/astro-pbt-{}", std::process::id()));
      std::fs::create_dir(&dir).expect("create scratch directory");
      std::fs::set_permissions(&dir, PermissionsExt::from_mode(0o755)).unwrap();
      std::fs::create_dir(dir.join("bin")).unwrap();
      let exe = std::env::current_exe().expect("own path");
      std::fs::copy(exe, dir.join("pbt")).expect("copy the harness");
      std::fs::set_permissions(dir.join("pbt"), PermissionsExt::from_mode(0o755)).unwrap();
      std::os::unix::fs::symlink(dir.join("pbt"), dir.join("bin/docker")).unwrap();
      Base(dir)
    })
    .0
}

/// Removes the scratch directory; every worker must be gone.
pub fn finish() {
  let _ = WORKER.try_with(|w| w.borrow_mut().take());
  if let Some(b) = BASE.get() {
    for _ in 0..50 {
      if std::fs::remove_dir_all(&b.0).is_ok() || !b.0.exists() {
        break;
      }
      std::thread::sleep(Duration::from_millis(20));
    }
  }
}

struct Worker {
  child: Child,
  stdin: ChildStdin,
  answers: Receiver<String>,
  dir: PathBuf,
}

impl Worker {
  fn start(kind: &str) -> Self {
    let dir = base().join(format!("w{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir(&dir).expect("worker directory");
    let root = unsafe { libc::geteuid() } == 0;
    let mut cmd = Command::new(base().join("pbt"));
    cmd
      .args(["--worker", kind])
      .arg(&dir)
      .env_clear()
      .env("PATH", format!("{}:/usr/bin:/bin", base().join("bin").display()))
      .env("HOME", dir.join("home"))
      .env("LC_ALL", "C.UTF-8")
      .current_dir(&dir)
      .stdin(Stdio::piped())
      .stdout(Stdio::piped())
      .process_group(0);
    if root {
      let p = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
      unsafe { libc::chown(p.as_ptr(), NOBODY, NOBODY) };
      cmd.uid(NOBODY).gid(NOBODY);
    }
    // no worker outlives this thread
    unsafe {
      cmd.pre_exec(|| {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        Ok(())
      });
    }
    let mut child = cmd.spawn().expect("start worker");
    let stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, answers) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
      for line in BufReader::new(stdout).lines().map_while(Result::ok) {
        if tx.send(line).is_err() {
          break;
        }
      }
    });
    Worker {
      child,
      stdin,
      answers,
      dir,
    }
  }

  fn ask(&mut self, line: &str) -> Result<Answer, String> {
    self
      .stdin
      .write_all(format!("{}\n", line).as_bytes())
      .and_then(|_| self.stdin.flush())
      .map_err(|e| format!("a worker is gone: {}", e))?;
    match self.answers.recv_timeout(LIMIT) {
      Ok(a) => serde_json::from_str(&a).map_err(|e| format!("a worker answered {:?}: {}", a, e)),
      Err(RecvTimeoutError::Timeout) => Err(format!("a case took longer than {:?}", LIMIT)),
      Err(RecvTimeoutError::Disconnected) => {
        Err(format!("a worker died: {:?}", self.child.wait()))
      }
    }
  }
}

impl Drop for Worker {
  fn drop(&mut self) {
    // the worker leads a process group of its own; so do stand-in containers,
    // which the worker removes itself
    unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
    let _ = self.child.wait();
    for _ in 0..50 {
      if std::fs::remove_dir_all(&self.dir).is_ok() || !self.dir.exists() {
        break;
      }
      std::thread::sleep(Duration::from_millis(20));
    }
  }
}

thread_local! {
  static WORKER: RefCell<Option<(String, Worker)>> = const { RefCell::new(None) };
}

/// Decides a case in this thread's worker.
pub fn decide<C: Serialize>(kind: &str, case: &C) -> CaseResult {
  let line = serde_json::to_string(case).expect("serializable case");
  WORKER.with(|w| {
    let mut w = w.borrow_mut();
    if w.as_ref().map(|(k, _)| k != kind).unwrap_or(true) {
      *w = Some((kind.to_string(), Worker::start(kind)));
    }
    match w.as_mut().unwrap().1.ask(&line) {
      Ok(Answer { fail: Some(f), .. }) => Err(f.into()),
      Ok(a) => Ok(CaseOk {
        nontrivial: a.nontrivial,
        tags: a.tags,
      }),
      Err(e) => {
        println!("ERROR: {}; the case was {}", e, line);
        *w = None;
        drop(w);
        finish();
        std::process::exit(3);
      }
    }
  })
}

/// The worker's side: reads cases, answers with verdicts.
pub fn serve<C: DeserializeOwned>(dir: &str, check: fn(&C, &Path) -> CaseResult) -> i32 {
  det::install_panic_hook(std::env::var("PBT_VERBOSE").is_ok());
  let dir = PathBuf::from(dir);
  let _ = std::fs::create_dir_all(dir.join("home"));
  let stdin = std::io::stdin();
  for (n, line) in stdin.lock().lines().map_while(Result::ok).enumerate() {
    let v: Value = match serde_json::from_str(&line) {
      Ok(v) => v,
      Err(_) => return 2,
    };
    let Ok(case) = serde_json::from_value::<C>(v) else {
      return 2;
    };
    let scratch = dir.join(format!("c{}", n));
    std::fs::create_dir(&scratch).expect("case directory");
    det::take_panics();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&case, &scratch)));
    let panics = det::take_panics();
    remove(&scratch);
    let res: CaseResult = match res {
      _ if !panics.is_empty() => Err(Fail::from(format!("panicked: {}", panics.join(" | ")))),
      Ok(r) => r,
      Err(_) => Err("panicked".into()),
    };
    let a = match res {
      Ok(ok) => Answer {
        nontrivial: ok.nontrivial,
        tags: ok.tags,
        fail: None,
      },
      Err(f) => Answer {
        nontrivial: false,
        tags: vec![],
        fail: Some(f.msg),
      },
    };
    let mut out = std::io::stdout().lock();
    if writeln!(out, "{}", serde_json::to_string(&a).unwrap()).and_then(|_| out.flush()).is_err() {
      return 0;
    }
  }
  0
}

/// Removes a scratch directory of this worker.
pub fn remove(dir: &Path) {
  for _ in 0..20 {
    if std::fs::remove_dir_all(dir).is_ok() || !dir.exists() {
      return;
    }
    std::thread::sleep(Duration::from_millis(5));
  }
}

// ------------------------------------------------------------ docker stand-in

/// One call of the stand-in, as it recorded it.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DockerCall {
  pub args: Vec<String>,
  /// what the entrypoint consisted of when the container started
  pub entrypoint: Option<Vec<u8>>,
  pub executable: bool,
  /// could it be started?
  pub error: Option<String>,
  /// the container name was in use
  pub conflict: bool,
}

/// How the stand-in (and the checks) read `docker run`.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RunArgs {
  pub image: String,
  pub command: Vec<String>,
  pub name: Option<String>,
  pub workdir: Option<String>,
  pub entrypoint: Option<String>,
  pub volumes: Vec<String>,
  pub env: Vec<String>,
  pub security: Vec<String>,
  pub rm: bool,
}

const FLAGS: [&str; 10] = [
  "--tty", "-t", "--rm", "--interactive", "-i", "-it", "-ti", "--init", "--privileged", "--detach",
];

pub fn parse_run(args: &[String]) -> Result<RunArgs, String> {
  let mut r = RunArgs::default();
  let mut i = 0;
  while i < args.len() {
    let a = &args[i];
    if !a.starts_with('-') {
      r.image = a.clone();
      r.command = args[i + 1..].to_vec();
      return Ok(r);
    }
    if FLAGS.contains(&a.as_str()) {
      r.rm |= a == "--rm";
      i += 1;
      continue;
    }
    let (key, value) = match a.split_once('=') {
      Some((k, v)) if a.starts_with("--") => (k.to_string(), Some(v.to_string())),
      _ => (a.clone(), None),
    };
    let value = match value {
      Some(v) => v,
      None => {
        i += 1;
        args.get(i).cloned().ok_or_else(|| format!("flag needs an argument: {}", key))?
      }
    };
    i += 1;
    match key.as_str() {
      "-v" | "--volume" => r.volumes.push(value),
      "-e" | "--env" => r.env.push(value),
      "-w" | "--workdir" => r.workdir = Some(value),
      "--entrypoint" => r.entrypoint = Some(value),
      "--name" => r.name = Some(value),
      "--security-opt" => r.security.push(value),
      "--rm" => r.rm = value == "true",
      "--tty" | "--init" => {}
      _ => return Err(format!("unknown flag: {}", key)),
    }
  }
  Err("no image".into())
}

/// `host:container[:mode]`
pub fn split_volume(v: &str) -> (String, String, String) {
  let mut p = v.splitn(3, ':');
  let mut next = || p.next().unwrap_or("").to_string();
  (next(), next(), next())
}

pub fn docker_main() -> i32 {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let Ok(dir) = std::env::var("PBT_DOCKER") else {
    eprintln!("docker stand-in: not set up");
    return 125;
  };
  let dir = PathBuf::from(dir);
  let mut call = DockerCall {
    args: args.clone(),
    entrypoint: None,
    executable: false,
    error: None,
    conflict: false,
  };
  let at = std::time::SystemTime::now()
    .duration_since(std::time::UNIX_EPOCH)
    .unwrap()
    .as_nanos();
  // recording once more replaces what was recorded
  let record = |call: &DockerCall| {
    let tmp = dir.join(format!("tmp-{}", std::process::id()));
    let _ = std::fs::write(&tmp, serde_json::to_vec(call).unwrap());
    let _ = std::fs::rename(&tmp, dir.join("calls").join(format!("{:030}-{}", at, std::process::id())));
  };
  match args.first().map(|s| s.as_str()) {
    Some("kill") => {
      let name = args.last().cloned().unwrap_or_default();
      record(&call);
      let file = dir.join("containers").join(&name);
      // On a busy machine the runner may get here before the `docker run` that
      // it began has got anywhere, which is no concern of these checks.
      for _ in 0..2000 {
        if std::fs::read_to_string(&file).map(|s| !s.is_empty()).unwrap_or(false) {
          break;
        }
        std::thread::sleep(Duration::from_millis(2));
      }
      match std::fs::read_to_string(&file).ok().and_then(|p| p.parse::<i32>().ok()) {
        Some(pid) if pid > 1 => {
          unsafe { libc::kill(-pid, libc::SIGKILL) };
          // the name is free again when the container has been killed
          for _ in 0..500 {
            if !file.exists() {
              break;
            }
            std::thread::sleep(Duration::from_millis(2));
          }
          println!("{}", name);
          0
        }
        _ => {
          eprintln!("Error response from daemon: No such container: {}", name);
          1
        }
      }
    }
    Some("run") => {
      let r = match parse_run(&args[1..]) {
        Ok(r) => r,
        Err(e) => {
          call.error = Some(e.clone());
          record(&call);
          eprintln!("docker: {}", e);
          return 125;
        }
      };
      let name = r.name.clone().unwrap_or_else(|| format!("anon-{}", std::process::id()));
      let file = dir.join("containers").join(&name);
      if std::fs::OpenOptions::new().write(true).create_new(true).open(&file).is_err() {
        call.conflict = true;
        record(&call);
        eprintln!("docker: Error: the container name {:?} is already in use", name);
        return 125;
      }
      let mut mounts = vec![];
      for v in &r.volumes {
        let (host, inner, _) = split_volume(v);
        // the daemon creates missing host directories
        if host.starts_with('/') && !Path::new(&host).exists() {
          let _ = std::fs::create_dir_all(&host);
        }
        mounts.push((host, inner));
      }
      let host_of = |p: &str| mounts.iter().find(|(_, c)| c == p).map(|(h, _)| h.clone());
      let entry = r.entrypoint.as_deref().and_then(host_of).unwrap_or_default();
      let cwd = r.workdir.as_deref().and_then(host_of);
      call.entrypoint = std::fs::read(&entry).ok();
      call.executable = std::fs::metadata(&entry)
        .map(|m| m.permissions().mode() & 0o111 != 0)
        .unwrap_or(false);
      let mut cmd = Command::new(&entry);
      cmd.args(&r.command).env_clear().env("PATH", "/usr/bin:/bin");
      for e in &r.env {
        if let Some((k, v)) = e.split_once('=') {
          cmd.env(k, v);
        }
      }
      if let Some(c) = host_of("/home/work/caches") {
        cmd.env("PBT_CACHES", c);
      }
      if let Some(d) = &cwd {
        cmd.current_dir(d);
      }
      cmd.process_group(0);
      // before the container can do anything that is noticed
      record(&call);
      // A process that the runner forks for another step holds the script open
      // until it executes its own program; docker takes longer than that.
      let mut spawned = cmd.spawn();
      for _ in 0..400 {
        match &spawned {
          Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) => {
            std::thread::sleep(Duration::from_millis(5));
            spawned = cmd.spawn();
          }
          _ => break,
        }
      }
      let out = match spawned {
        Ok(mut child) => {
          let _ = std::fs::write(&file, child.id().to_string());
          match child.wait() {
            Ok(s) => s.code().unwrap_or(137),
            Err(_) => 125,
          }
        }
        Err(e) => {
          call.error = Some(e.to_string());
          record(&call);
          eprintln!("docker: cannot start {:?}: {}", entry, e);
          126
        }
      };
      let _ = std::fs::remove_file(&file);
      out
    }
    _ => {
      record(&call);
      0
    }
  }
}

/// A place for the stand-in's records; PBT_DOCKER must point here.
pub struct DockerLog(pub PathBuf);

impl DockerLog {
  pub fn new(scratch: &Path) -> Self {
    let dir = scratch.join("docker");
    std::fs::create_dir_all(dir.join("calls")).unwrap();
    std::fs::create_dir_all(dir.join("containers")).unwrap();
    std::env::set_var("PBT_DOCKER", &dir);
    DockerLog(dir)
  }

  /// In the order of their start.
  pub fn calls(&self) -> Vec<DockerCall> {
    let mut names: Vec<_> = std::fs::read_dir(self.0.join("calls"))
      .map(|d| d.flatten().map(|e| e.path()).collect())
      .unwrap_or_default();
    names.sort();
    names
      .iter()
      .filter_map(|p| serde_json::from_slice(&std::fs::read(p).ok()?).ok())
      .collect()
  }

  pub fn running(&self) -> Vec<(String, i32)> {
    std::fs::read_dir(self.0.join("containers"))
      .map(|d| {
        d.flatten()
          .map(|e| {
            (
              e.file_name().to_string_lossy().to_string(),
              std::fs::read_to_string(e.path()).ok().and_then(|p| p.parse().ok()).unwrap_or(0),
            )
          })
          .collect()
      })
      .unwrap_or_default()
  }
}

impl Drop for DockerLog {
  /// No container outlives its case.
  fn drop(&mut self) {
    for _ in 0..200 {
      let running = self.running();
      if running.is_empty() {
        break;
      }
      for (_, pid) in running {
        if pid > 1 {
          unsafe { libc::kill(-pid, libc::SIGKILL) };
        }
      }
      std::thread::sleep(Duration::from_millis(5));
    }
  }
}
