//! Stand-in for the proxy-wasm SDK (the Kuadrant fork's API: trait helpers return `Result`),
//! whose hostcalls go to a host object installed by the harness.
pub mod hostcalls;
pub mod traits;
pub mod types;

pub use hostcalls::{install_host, HostApi};

pub fn set_log_level(_level: types::LogLevel) {}
pub fn set_root_context(_f: fn(u32) -> Box<dyn traits::RootContext>) {}
pub fn set_http_context(_f: fn(u32, u32) -> Box<dyn traits::HttpContext>) {}
