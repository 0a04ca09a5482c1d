//! MIR fact extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`
//! and writes, per workspace library crate, the resolved program (MIR with resolved
//! callees, type table, ADT/trait/impl tables, evaluated constants) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
mod facts;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
    fx: facts::Fx,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // Coroutine bodies are dumped before the state transform (mir_promoted is
        // stolen later), so collect them first.
        self.fx.collect(tcx);
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let s = self.fx.finish(tcx);
        let path = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("OTEL_FACTS_OUT").ok();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let crate_name = get("--crate-name");
    let crate_type = get("--crate-type");
    let want = match (&out, &crate_name) {
        (Some(_), Some(n)) => n != "build_script_build" && n != "___" && crate_type.as_deref() != Some("bin") && !args.iter().any(|a| a == "--test"),
        _ => false,
    };
    rustc_driver_impl::catch_with_exit_code(|| {
        if want {
            let mut cb = Cb { out: out.unwrap(), fx: facts::Fx::default() };
            rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
        } else {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
