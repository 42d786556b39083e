#![feature(rustc_private)]
//! Fork server: one JSON request per line on stdin, one JSON answer per line on stdout.
//! Every request runs in a forked child, exactly as the driver would run in its own process.

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;

use std::{
  fs,
  io::{BufRead, Write},
  os::fd::AsRawFd,
  path::{Path, PathBuf},
};

use aquascope_front::{plugin::AquascopePluginArgs, AquascopePlugin};
use clap::Parser;
use rustc_plugin::RustcPlugin;
use serde_json::{json, Value};

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn strings(v: &Value) -> Vec<String> {
  v.as_array()
    .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
    .unwrap_or_default()
}

fn redirect(path: &Path, fd: i32) {
  let f = fs::File::create(path).unwrap();
  unsafe { libc::dup2(f.as_raw_fd(), fd) };
}

fn child(req: &Value, dir: &Path, sysroot: &str) -> i32 {
  let src = dir.join("src/main.rs");
  fs::write(&src, req["code"].as_str().unwrap()).unwrap();
  let mut args: Vec<String> = [
    "rustc",
    src.to_str().unwrap(),
    "--crate-name=example",
    "--edition=2021",
    "--crate-type=bin",
    "--emit=metadata",
    "-Cembed-bitcode=no",
    "--sysroot",
    sysroot,
    "--out-dir",
    dir.to_str().unwrap(),
  ]
  .iter()
  .map(|s| s.to_string())
  .collect();
  args.extend(strings(&req["rustc_args"]));
  match req["cmd"].as_str().unwrap() {
    // The product: what `cargo aquascope <args>` runs on the crate.
    "plugin" => {
      let mut cli = vec!["cargo-aquascope".to_string()];
      cli.extend(strings(&req["args"]));
      let plugin_args = match AquascopePluginArgs::try_parse_from(&cli) {
        Ok(a) => a,
        Err(e) => {
          eprintln!("bad arguments: {e}");
          return 97;
        }
      };
      match AquascopePlugin.run(args, plugin_args) {
        Ok(()) => 0,
        Err(_) => 1,
      }
    }
    // The oracle: the compiler of the same toolchain, with nothing overridden.
    "rustc" => {
      args.push("--error-format=json".into());
      args.push("-Awarnings".into());
      rustc_driver::catch_with_exit_code(|| {
        rustc_driver::RunCompiler::new(&args, &mut Plain).run();
        Ok(())
      })
    }
    other => {
      eprintln!("unknown command {other}");
      97
    }
  }
}

fn main() {
  let sysroot = std::env::var("VH_SYSROOT").expect("VH_SYSROOT");
  let base = PathBuf::from(std::env::var("VH_DIR").expect("VH_DIR"));
  let stdin = std::io::stdin();
  let mut line = String::new();
  loop {
    line.clear();
    if stdin.lock().read_line(&mut line).unwrap() == 0 {
      break;
    }
    let req: Value = serde_json::from_str(&line).unwrap();
    let dir = base.clone();
    fs::create_dir_all(dir.join("src")).unwrap();
    let (out, err) = (dir.join("stdout"), dir.join("stderr"));
    let pid = unsafe { libc::fork() };
    if pid == 0 {
      redirect(&out, 1);
      redirect(&err, 2);
      unsafe {
        let cpu = req["cpu"].as_u64().unwrap_or(60);
        let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
      }
      let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        child(&req, &dir, &sysroot)
      }))
      .unwrap_or(101);
      std::io::stdout().flush().ok();
      unsafe { libc::_exit(rc) };
    }
    assert!(pid > 0, "fork failed");
    let mut st: i32 = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let (status, signal) = if libc::WIFEXITED(st) {
      (libc::WEXITSTATUS(st), 0)
    } else {
      (-1, libc::WTERMSIG(st))
    };
    let read = |p: &Path| {
      String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).into_owned()
    };
    let errtext = read(&err);
    // The product logs MIR on stderr: keep it only when asked for, or on a failure.
    let errtext = if req["stderr"].as_bool().unwrap_or(false) || status != 0 {
      let n = errtext.len();
      let mut k = n.saturating_sub(20000);
      if req["cmd"] == "rustc" {
        k = 0;
      }
      while !errtext.is_char_boundary(k) {
        k += 1;
      }
      errtext[k ..].to_string()
    } else {
      String::new()
    };
    let ans = json!({"status": status, "signal": signal, "stdout": read(&out), "stderr": errtext});
    let mut o = std::io::stdout().lock();
    writeln!(o, "{ans}").unwrap();
    o.flush().unwrap();
  }
}
