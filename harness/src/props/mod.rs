pub mod cond;
pub mod config;
pub mod core;
#[cfg(feature = "logger")]
pub mod logger;
pub mod oracle;
pub mod plug;
pub mod prim;
#[cfg(feature = "runner")]
pub mod runner;
#[cfg(feature = "sched")]
pub mod sched;
#[cfg(feature = "remote")]
pub mod faults;
#[cfg(feature = "remote")]
pub mod remote;
#[cfg(feature = "remote")]
pub mod signals;
#[cfg(feature = "remote")]
pub mod wire;

use crate::engine::DynPart;

pub type Property = (&'static str, Vec<&'static str>, Vec<Box<dyn DynPart>>);

/// What this program is besides a checker: a worker, or a stand-in.
pub fn special(_args: &[String]) -> Option<i32> {
  #[cfg(feature = "logger")]
  if _args.first().map(|a| a == "--logger") == Some(true) {
    return Some(logger::child());
  }
  #[cfg(feature = "runner")]
  {
    let name = std::env::args().next().unwrap_or_default();
    if name.ends_with("docker") {
      return Some(crate::worker::docker_main());
    }
    if let [flag, kind, dir] = _args {
      if flag == "--worker" {
        return Some(runner::serve(kind, dir));
      }
    }
  }
  None
}

pub fn finish() {
  #[cfg(feature = "runner")]
  crate::worker::finish();
}

pub fn parts(id: &str) -> Option<Property> {
  let p = match id {
    "C01" => core::c01(),
    "C02" => core::c02(),
    "C03" => core::c03(),
    "C04" => core::c04(),
    "C05" => core::c05(),
    "C06" => core::c06(),
    "C07" => config::c07(),
    "C08" => config::c08(),
    "C09" => config::c09(),
    "C10" => cond::c10(),
    "C11" => cond::c11(),
    "C12" => plug::c12(),
    "C13" => prim::c13(),
    "C14" => plug::c14(),
    "C15" => prim::c15(),
    #[cfg(feature = "sched")]
    "C16" => sched::c16(),
    #[cfg(feature = "remote")]
    "C17" => wire::c17(),
    #[cfg(feature = "remote")]
    "C18" => remote::c18(),
    #[cfg(feature = "remote")]
    "C19" => faults::c19(),
    #[cfg(feature = "remote")]
    "C20" => remote::c20(),
    #[cfg(feature = "remote")]
    "C21" => signals::c21(),
    #[cfg(feature = "remote")]
    "C22" => remote::c22(),
    #[cfg(feature = "remote")]
    "C29" => signals::c29(),
    #[cfg(feature = "runner")]
    "C23" => runner::c23(),
    #[cfg(feature = "runner")]
    "C24" => runner::c24(),
    #[cfg(feature = "runner")]
    "C25" => runner::c25(),
    #[cfg(feature = "runner")]
    "C26" => runner::c26(),
    #[cfg(all(feature = "runner", feature = "remote"))]
    "C28" => runner::c28(),
    #[cfg(feature = "logger")]
    "C27" => logger::c27(),
    _ => return None,
  };
  Some(p)
}
