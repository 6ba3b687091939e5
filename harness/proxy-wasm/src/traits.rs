use crate::hostcalls;
use crate::types::*;
use std::time::Duration;

pub trait Context {
    fn get_property(&self, path: Vec<&str>) -> Result<Option<Bytes>, Status> { hostcalls::get_property(path) }
    fn set_property(&self, path: Vec<&str>, value: Option<&[u8]>) -> Result<(), Status> { hostcalls::set_property(path, value) }
    fn dispatch_grpc_call(&self, u: &str, s: &str, m: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, t: Duration) -> Result<u32, Status> { hostcalls::dispatch_grpc_call(u, s, m, md, msg, t) }
    fn on_grpc_call_response(&mut self, _token_id: u32, _status_code: u32, _response_size: usize) {}
    fn get_grpc_call_response_body(&self, start: usize, max: usize) -> Result<Option<Bytes>, Status> { hostcalls::get_buffer(BufferType::GrpcReceiveBuffer, start, max) }
    fn cancel_grpc_call(&self, token: u32) -> Result<(), Status> { hostcalls::cancel_grpc_call(token) }
    fn on_done(&mut self) -> bool { true }
}

pub trait RootContext: Context {
    fn on_vm_start(&mut self, _n: usize) -> bool { true }
    fn get_vm_configuration(&self) -> Result<Option<Bytes>, Status> { hostcalls::get_buffer(BufferType::VmConfiguration, 0, usize::MAX) }
    fn on_configure(&mut self, _n: usize) -> bool { true }
    fn get_plugin_configuration(&self) -> Result<Option<Bytes>, Status> { hostcalls::get_buffer(BufferType::PluginConfiguration, 0, usize::MAX) }
    fn set_tick_period(&self, period: Duration) -> Result<(), Status> { hostcalls::set_tick_period(period) }
    fn on_tick(&mut self) {}
    fn on_queue_ready(&mut self, _q: u32) {}
    fn on_log(&mut self) {}
    fn create_http_context(&self, _id: u32) -> Option<Box<dyn HttpContext>> { None }
    fn get_type(&self) -> Option<ContextType> { None }
}

pub trait HttpContext: Context {
    fn on_http_request_headers(&mut self, _n: usize, _eos: bool) -> Action { Action::Continue }
    fn get_http_request_headers(&self) -> Result<Vec<(String, String)>, Status> { hostcalls::get_map(MapType::HttpRequestHeaders) }
    fn set_http_request_headers(&self, m: Vec<(&str, &str)>) -> Result<(), Status> { hostcalls::set_map(MapType::HttpRequestHeaders, m) }
    fn get_http_request_header(&self, k: &str) -> Result<Option<String>, Status> { hostcalls::get_map_value(MapType::HttpRequestHeaders, k) }
    fn set_http_request_header(&self, k: &str, v: Option<&str>) -> Result<(), Status> { hostcalls::set_map_value(MapType::HttpRequestHeaders, k, v) }
    fn add_http_request_header(&self, k: &str, v: &str) -> Result<(), Status> { hostcalls::add_map_value(MapType::HttpRequestHeaders, k, v) }
    fn on_http_request_body(&mut self, _n: usize, _eos: bool) -> Action { Action::Continue }
    fn get_http_request_body(&self, s: usize, n: usize) -> Result<Option<Bytes>, Status> { hostcalls::get_buffer(BufferType::HttpRequestBody, s, n) }
    fn on_http_request_trailers(&mut self, _n: usize) -> Action { Action::Continue }
    fn resume_http_request(&self) -> Result<(), Status> { hostcalls::resume_http_request() }
    fn on_http_response_headers(&mut self, _n: usize, _eos: bool) -> Action { Action::Continue }
    fn get_http_response_headers(&self) -> Result<Vec<(String, String)>, Status> { hostcalls::get_map(MapType::HttpResponseHeaders) }
    fn set_http_response_headers(&self, m: Vec<(&str, &str)>) -> Result<(), Status> { hostcalls::set_map(MapType::HttpResponseHeaders, m) }
    fn get_http_response_header(&self, k: &str) -> Result<Option<String>, Status> { hostcalls::get_map_value(MapType::HttpResponseHeaders, k) }
    fn set_http_response_header(&self, k: &str, v: Option<&str>) -> Result<(), Status> { hostcalls::set_map_value(MapType::HttpResponseHeaders, k, v) }
    fn add_http_response_header(&self, k: &str, v: &str) -> Result<(), Status> { hostcalls::add_map_value(MapType::HttpResponseHeaders, k, v) }
    fn on_http_response_body(&mut self, _n: usize, _eos: bool) -> Action { Action::Continue }
    fn get_http_response_body(&self, s: usize, n: usize) -> Result<Option<Bytes>, Status> { hostcalls::get_buffer(BufferType::HttpResponseBody, s, n) }
    fn on_http_response_trailers(&mut self, _n: usize) -> Action { Action::Continue }
    fn resume_http_response(&self) -> Result<(), Status> { hostcalls::resume_http_response() }
    fn send_http_response(&self, c: u32, h: Vec<(&str, &str)>, b: Option<&[u8]>) -> Result<(), Status> { hostcalls::send_http_response(c, h, b) }
    fn on_log(&mut self) {}
}
