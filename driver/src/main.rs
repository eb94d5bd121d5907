//! Fact extractor: a rustc driver that is injected as RUSTC_WORKSPACE_WRAPPER
//! under `cargo check` of /repo.  It lets rustc type-check and build MIR for
//! the crate `hexodsp` and writes what it sees as JSON lines:
//!   * the MIR of every local function/closure/promoted (callees resolved)
//!   * the layout of local ADTs, trait impls, inherent methods
//!   * the monomorphised call graph from the audio-thread roots, through all
//!     dependencies (which are built with -Zalways-encode-mir)
//! It never executes any code of the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod json;
mod mono;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.active {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.always_encode_mir = true;
        }
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.active {
            let out = std::env::var("HX_FACTS_OUT").expect("HX_FACTS_OUT");
            facts::dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: [driver, rustc, args...] when used as a wrapper
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib")
        || args.iter().any(|a| a == "--crate-type=lib");
    let is_test = args.iter().any(|a| a == "--test");
    let target = std::env::var("HX_CRATE").unwrap_or_else(|_| "hexodsp".to_string());
    let active = name == target && is_lib && !is_test && std::env::var("HX_FACTS_OUT").is_ok();
    let mut cb = Cb { active };
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
