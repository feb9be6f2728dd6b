//! rustc driver that dumps the type-checked, borrow-checked MIR of a crate, and of the generic
//! library functions it instantiates, as JSON. It runs nothing of the crate.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(path) = std::env::var("NRBF_DUMP") {
            if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == "nrbf" {
                let j = rustc_middle::ty::print::with_no_trimmed_paths!(dump::dump(tcx));
                let mut s = String::new();
                j.write(&mut s);
                std::fs::write(&path, s).expect("cannot write the dump");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
