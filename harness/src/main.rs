//! Scenario executor: drives the real FilterRoot / KuadrantFilter (compiled from /repo's tree)
//! against a simulated Envoy host, and writes down what the host could observe.
#![allow(dead_code)]
#[path = "/repo/crates/wasm-shim/src/filter/mod.rs"]
mod filter;
#[path = "/repo/crates/wasm-shim/src/wasm_host.rs"]
mod wasm_host;
pub(crate) const WASM_SHIM_VERSION: &str = "0";
pub(crate) const WASM_SHIM_PROFILE: &str = "verif";
pub(crate) const WASM_SHIM_FEATURES: &str = "[]";
pub(crate) const WASM_SHIM_GIT_HASH: &str = "0";

mod codec;
mod host;
mod run;

struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        false
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}

use std::io::{BufRead, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: vharness SCENARIOS.jsonl OUT.jsonl");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    // the proxy-wasm SDK installs its logger first, which keeps tracing-log from installing one
    let _ = log::set_logger(&NullLog);
    log::set_max_level(log::LevelFilter::Off);
    kuadrant_filter::metrics::register_backend(Box::new(wasm_host::WasmMetricsBackend));
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("scenarios"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    for line in inp.lines() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let sc: serde_json::Value = serde_json::from_str(&line).expect("scenario json");
        // a fresh thread per scenario: thread-local state (entered spans, host) starts clean
        let res = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || run::run_scenario(&sc))
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| serde_json::json!({"fatal": "harness panic"}));
        kuadrant_filter::tracing::get_span_processor().clear();
        writeln!(out, "{}", res).expect("write");
    }
    out.flush().expect("flush");
}
