use crate::types::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// What the simulated Envoy has to answer.
pub trait HostApi {
    fn log(&self, level: LogLevel, msg: &str);
    fn log_level(&self) -> LogLevel;
    fn set_tick_period(&self, p: Duration) -> Result<(), Status>;
    fn get_buffer(&self, t: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status>;
    fn get_map(&self, t: MapType) -> Result<Vec<(String, Bytes)>, Status>;
    fn set_map(&self, t: MapType, m: Vec<(String, Bytes)>) -> Result<(), Status>;
    fn get_property(&self, path: &[&str]) -> Result<Option<Bytes>, Status>;
    fn set_property(&self, path: &[&str], v: Option<&[u8]>) -> Result<(), Status>;
    fn resume(&self, response: bool) -> Result<(), Status>;
    fn send_http_response(&self, status: u32, headers: Vec<(String, String)>, body: Option<&[u8]>) -> Result<(), Status>;
    fn dispatch_grpc_call(&self, upstream: &str, service: &str, method: &str, md: Vec<(String, Bytes)>, msg: Option<&[u8]>, timeout: Duration) -> Result<u32, Status>;
    fn define_metric(&self, t: MetricType, name: &str) -> Result<u32, Status>;
    fn increment_metric(&self, id: u32, off: i64) -> Result<(), Status>;
    fn cancel_grpc_call(&self, token: u32) -> Result<(), Status>;
}

thread_local! { static HOST: RefCell<Option<Rc<dyn HostApi>>> = const { RefCell::new(None) }; }

pub fn install_host(h: Rc<dyn HostApi>) { HOST.with(|c| *c.borrow_mut() = Some(h)); }
fn host() -> Option<Rc<dyn HostApi>> { HOST.try_with(|c| c.try_borrow().ok().and_then(|h| h.clone())).ok().flatten() }
macro_rules! h { () => { host().ok_or(Status::InternalFailure)? }; }

fn to_s(v: Bytes) -> String { String::from_utf8_lossy(&v).into_owned() }

pub fn log(level: LogLevel, message: &str) -> Result<(), Status> { h!().log(level, message); Ok(()) }
pub fn get_log_level() -> Result<LogLevel, Status> { Ok(h!().log_level()) }
pub fn get_current_time() -> Result<std::time::SystemTime, Status> { Ok(std::time::SystemTime::now()) }
pub fn set_tick_period(period: Duration) -> Result<(), Status> { h!().set_tick_period(period) }
pub fn get_buffer(t: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> { h!().get_buffer(t, start, max) }
pub fn get_map(t: MapType) -> Result<Vec<(String, String)>, Status> { Ok(h!().get_map(t)?.into_iter().map(|(k, v)| (k, to_s(v))).collect()) }
pub fn get_map_bytes(t: MapType) -> Result<Vec<(String, Bytes)>, Status> { h!().get_map(t) }
pub fn set_map(t: MapType, map: Vec<(&str, &str)>) -> Result<(), Status> { h!().set_map(t, map.into_iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect()) }
pub fn set_map_bytes(t: MapType, map: Vec<(&str, &[u8])>) -> Result<(), Status> { h!().set_map(t, map.into_iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect()) }
pub fn get_map_value_bytes(t: MapType, key: &str) -> Result<Option<Bytes>, Status> {
    Ok(h!().get_map(t)?.into_iter().find(|(k, _)| k.eq_ignore_ascii_case(key)).map(|(_, v)| v))
}
pub fn get_map_value(t: MapType, key: &str) -> Result<Option<String>, Status> { Ok(get_map_value_bytes(t, key)?.map(to_s)) }
pub fn remove_map_value(t: MapType, key: &str) -> Result<(), Status> {
    let hh = h!();
    let m = hh.get_map(t)?.into_iter().filter(|(k, _)| !k.eq_ignore_ascii_case(key)).collect();
    hh.set_map(t, m)
}
pub fn set_map_value(t: MapType, key: &str, value: Option<&str>) -> Result<(), Status> { set_map_value_bytes(t, key, value.map(|v| v.as_bytes())) }
pub fn set_map_value_bytes(t: MapType, key: &str, value: Option<&[u8]>) -> Result<(), Status> {
    let hh = h!();
    let mut m: Vec<(String, Bytes)> = hh.get_map(t)?.into_iter().filter(|(k, _)| !k.eq_ignore_ascii_case(key)).collect();
    if let Some(v) = value { m.push((key.to_string(), v.to_vec())); }
    hh.set_map(t, m)
}
pub fn add_map_value(t: MapType, key: &str, value: &str) -> Result<(), Status> { add_map_value_bytes(t, key, value.as_bytes()) }
pub fn add_map_value_bytes(t: MapType, key: &str, value: &[u8]) -> Result<(), Status> {
    let hh = h!();
    let mut m = hh.get_map(t)?;
    m.push((key.to_string(), value.to_vec()));
    hh.set_map(t, m)
}
pub fn get_property(path: Vec<&str>) -> Result<Option<Bytes>, Status> { h!().get_property(&path) }
pub fn set_property(path: Vec<&str>, value: Option<&[u8]>) -> Result<(), Status> { h!().set_property(&path, value) }
pub fn resume_http_request() -> Result<(), Status> { h!().resume(false) }
pub fn resume_http_response() -> Result<(), Status> { h!().resume(true) }
pub fn send_http_response(status_code: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status> {
    h!().send_http_response(status_code, headers.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body)
}
pub fn dispatch_grpc_call(upstream: &str, service: &str, method: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, timeout: Duration) -> Result<u32, Status> {
    h!().dispatch_grpc_call(upstream, service, method, md.into_iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect(), msg, timeout)
}
pub fn cancel_grpc_call(token: u32) -> Result<(), Status> { h!().cancel_grpc_call(token) }
pub fn define_metric(t: MetricType, name: &str) -> Result<u32, Status> { h!().define_metric(t, name) }
pub fn increment_metric(id: u32, off: i64) -> Result<(), Status> { h!().increment_metric(id, off) }
