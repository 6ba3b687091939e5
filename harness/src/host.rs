//! The simulated Envoy: header maps, properties, buffers, gRPC tokens, local replies.
use crate::codec::{shown_value, Codec};
use proxy_wasm::types::*;
use proxy_wasm::HostApi;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;

static METRIC_NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());

#[derive(Clone, Debug)]
pub enum Prop {
    Val(Vec<u8>),
    Bad,
    Err,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub ctx: u32,
    pub service: String,
    pub method: String,
}

#[derive(Default)]
pub struct CtxHost {
    pub own_token: Option<u32>,
    pub req_headers: Vec<(String, Bytes)>,
    pub resp_headers: Vec<(String, Bytes)>,
    pub props: BTreeMap<Vec<String>, Prop>,
    pub req_headers_seen: bool,
    pub resp_headers_seen: bool,
    pub req_eos: bool,
    pub resp_eos: bool,
    /// paused at: 0 none, 1 headers, 2 body
    pub req_paused: u8,
    pub resp_paused: u8,
    pub req_buf: Option<Vec<u8>>,
    pub resp_buf: Option<Vec<u8>>,
    pub local_reply: bool,
    pub reply_in_response: bool,
    pub fail_dispatch: BTreeSet<String>,
    pub fail_set_req: bool,
    pub fail_set_resp: bool,
    pub fail_set_prop: bool,
    pub fail_get_body: bool,
    pub done: bool,
    /// bodies to come, for steps that ask for the next chunk
    pub req_chunks: Vec<(Vec<u8>, bool)>,
    pub resp_chunks: Vec<(Vec<u8>, bool)>,
    pub req_pos: usize,
    pub resp_pos: usize,
}

#[derive(Default)]
pub struct Obs {
    pub calls: Vec<Value>,
    pub replies: Vec<Value>,
    pub resumes: Vec<String>,
    pub set_props: Vec<Value>,
    pub metrics: Vec<String>,
    pub ticks: Vec<u64>,
    pub seq: Vec<String>,
    pub cancels: Vec<u32>,
    pub hdr_sets: Vec<Value>,
}

pub struct SimHost {
    pub codec: &'static Codec,
    pub cur: Cell<u32>,
    pub ctxs: RefCell<BTreeMap<u32, CtxHost>>,
    pub next_token: Cell<u32>,
    pub outstanding: RefCell<BTreeMap<u32, Call>>,
    pub all_calls: RefCell<BTreeMap<u32, Call>>,
    pub grpc_buf: RefCell<Option<Vec<u8>>>,
    pub plugin_cfg: RefCell<Option<Vec<u8>>>,
    pub obs: RefCell<Obs>,
    pub fail_tick: Cell<bool>,
    pub log_level: Cell<u8>,
    pub token_stride: Cell<u32>,
}

fn shared_codec() -> &'static Codec {
    static CODEC: std::sync::OnceLock<Codec> = std::sync::OnceLock::new();
    CODEC.get_or_init(Codec::new)
}

impl SimHost {
    pub fn new() -> Self {
        let mut ctxs = BTreeMap::new();
        ctxs.insert(0, CtxHost::default());
        Self {
            codec: shared_codec(),
            cur: Cell::new(0),
            ctxs: RefCell::new(ctxs),
            next_token: Cell::new(1),
            outstanding: Default::default(),
            all_calls: Default::default(),
            grpc_buf: Default::default(),
            plugin_cfg: Default::default(),
            obs: Default::default(),
            fail_tick: Cell::new(false),
            log_level: Cell::new(3),
            token_stride: Cell::new(1),
        }
    }
    fn with<R>(&self, f: impl FnOnce(&mut CtxHost) -> R) -> R {
        let mut c = self.ctxs.borrow_mut();
        f(c.entry(self.cur.get()).or_default())
    }
}

pub fn st(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
pub fn hdrs(v: &[(String, Bytes)]) -> Value {
    Value::Array(v.iter().map(|(k, b)| json!([k, st(b)])).collect())
}

impl HostApi for SimHost {
    fn log(&self, _level: LogLevel, _msg: &str) {}
    fn log_level(&self) -> LogLevel {
        match self.log_level.get() {
            0 => LogLevel::Trace,
            1 => LogLevel::Debug,
            2 => LogLevel::Info,
            3 => LogLevel::Warn,
            _ => LogLevel::Error,
        }
    }
    fn set_tick_period(&self, p: Duration) -> Result<(), Status> {
        if self.fail_tick.get() {
            return Err(Status::InternalFailure);
        }
        self.obs.borrow_mut().ticks.push(p.as_millis() as u64);
        Ok(())
    }
    fn get_buffer(&self, t: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
        let full = match t {
            BufferType::PluginConfiguration => self.plugin_cfg.borrow().clone(),
            BufferType::GrpcReceiveBuffer => self.grpc_buf.borrow().clone(),
            BufferType::HttpRequestBody => {
                if self.with(|c| c.fail_get_body) {
                    return Err(Status::InternalFailure);
                }
                self.with(|c| c.req_buf.clone())
            }
            BufferType::HttpResponseBody => {
                if self.with(|c| c.fail_get_body) {
                    return Err(Status::InternalFailure);
                }
                self.with(|c| c.resp_buf.clone())
            }
            _ => None,
        };
        Ok(full.and_then(|b| {
            let s = start.min(b.len());
            let e = s.saturating_add(max).min(b.len());
            let r = b[s..e].to_vec();
            if r.is_empty() {
                None
            } else {
                Some(r)
            }
        }))
    }
    fn get_map(&self, t: MapType) -> Result<Vec<(String, Bytes)>, Status> {
        Ok(self.with(|c| match t {
            MapType::HttpRequestHeaders => c.req_headers.clone(),
            MapType::HttpResponseHeaders if c.resp_headers_seen => c.resp_headers.clone(),
            _ => vec![],
        }))
    }
    fn set_map(&self, t: MapType, m: Vec<(String, Bytes)>) -> Result<(), Status> {
        // header names are lower case in Envoy
        let m: Vec<(String, Bytes)> = m.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
        let shown = hdrs(&m);
        let r = self.with(|c| match t {
            MapType::HttpRequestHeaders => {
                if c.fail_set_req {
                    return Err(Status::InternalFailure);
                }
                c.req_headers = m;
                Ok("req")
            }
            MapType::HttpResponseHeaders => {
                if !c.resp_headers_seen {
                    return Err(Status::BadArgument);
                }
                if c.fail_set_resp {
                    return Err(Status::InternalFailure);
                }
                c.resp_headers = m;
                Ok("resp")
            }
            _ => Err(Status::BadArgument),
        })?;
        self.obs.borrow_mut().hdr_sets.push(json!([r, shown]));
        self.obs.borrow_mut().seq.push(format!("hdr:{r}"));
        Ok(())
    }
    fn get_property(&self, path: &[&str]) -> Result<Option<Bytes>, Status> {
        let k: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        match self.with(|c| c.props.get(&k).cloned()) {
            Some(Prop::Val(v)) => Ok(Some(v)),
            Some(Prop::Bad) => Err(Status::BadArgument),
            Some(Prop::Err) => Err(Status::InternalFailure),
            None => Ok(None),
        }
    }
    fn set_property(&self, path: &[&str], v: Option<&[u8]>) -> Result<(), Status> {
        let k: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        if self.with(|c| c.fail_set_prop) {
            return Err(Status::InternalFailure);
        }
        self.obs.borrow_mut().set_props.push(json!([k.clone(), v.map(st), v.map(shown_value), v.map(crate::codec::hex)]));
        self.obs.borrow_mut().seq.push("prop".into());
        // the host keeps what a wasm module sets under its own filter-state namespace
        let stored = vec!["filter_state".to_string(), format!("wasm.{}", k.join("."))];
        let b = v.map(|b| b.to_vec()).unwrap_or_default();
        self.with(|c| {
            c.props.insert(stored, Prop::Val(b.clone()));
            c.props.insert(k, Prop::Val(b));
        });
        Ok(())
    }
    fn resume(&self, response: bool) -> Result<(), Status> {
        let n = if response { "resp" } else { "req" };
        let mut o = self.obs.borrow_mut();
        o.resumes.push(n.to_string());
        o.seq.push(format!("resume:{n}"));
        drop(o);
        self.with(|c| {
            if response {
                c.resp_paused = 0;
                c.resp_buf = None;
            } else {
                c.req_paused = 0;
                c.req_buf = None;
            }
        });
        Ok(())
    }
    fn send_http_response(&self, status: u32, headers: Vec<(String, String)>, body: Option<&[u8]>) -> Result<(), Status> {
        let mut o = self.obs.borrow_mut();
        o.replies.push(json!({"status": status, "headers": headers, "body": body.map(st)}));
        o.seq.push("reply".into());
        drop(o);
        self.with(|c| {
            if !c.local_reply {
                c.local_reply = true;
                c.reply_in_response = c.resp_headers_seen;
            }
        });
        Ok(())
    }
    fn dispatch_grpc_call(&self, upstream: &str, service: &str, method: &str, md: Vec<(String, Bytes)>, msg: Option<&[u8]>, timeout: Duration) -> Result<u32, Status> {
        let body = msg.unwrap_or(&[]);
        let decoded = self.codec.decode_request(service, method, body);
        let fail = self.with(|c| c.fail_dispatch.contains(upstream));
        let own = self.with(|c| c.own_token);
        let tok = own.unwrap_or(self.next_token.get());
        let mut o = self.obs.borrow_mut();
        o.calls.push(json!({
            "tok": if fail { Value::Null } else { json!(tok) }, "cluster": upstream, "service": service, "method": method,
            "timeout": timeout.as_millis() as u64, "md": hdrs(&md), "msg": decoded, "fail": fail,
        }));
        if fail {
            o.seq.push("callfail".into());
            return Err(Status::BadArgument);
        }
        o.seq.push(format!("call:{tok}"));
        drop(o);
        match own {
            Some(_) => self.with(|c| c.own_token = Some(tok + 1)),
            None => self.next_token.set(tok + self.token_stride.get()),
        }
        let c = Call { ctx: self.cur.get(), service: service.into(), method: method.into() };
        self.all_calls.borrow_mut().insert(tok, c.clone());
        self.outstanding.borrow_mut().insert(tok, c);
        Ok(tok)
    }
    fn define_metric(&self, _t: MetricType, name: &str) -> Result<u32, Status> {
        let mut m = METRIC_NAMES.lock().unwrap_or_else(|e| e.into_inner());
        m.push(name.to_string());
        Ok(m.len() as u32)
    }
    fn increment_metric(&self, id: u32, off: i64) -> Result<(), Status> {
        let name = METRIC_NAMES
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .get((id as usize).wrapping_sub(1))
            .cloned()
            .unwrap_or_else(|| format!("metric#{id}"));
        let mut o = self.obs.borrow_mut();
        o.metrics.push(if off == 1 { name } else { format!("{name}*{off}") });
        Ok(())
    }
    fn cancel_grpc_call(&self, token: u32) -> Result<(), Status> {
        self.obs.borrow_mut().cancels.push(token);
        self.outstanding.borrow_mut().remove(&token);
        Ok(())
    }
}
