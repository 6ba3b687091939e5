use crate::codec::{fds_bytes, unhex};
use crate::filter::FilterRoot;
use crate::host::{hdrs, CtxHost, Obs, Prop, SimHost};
use proxy_wasm::traits::{Context, HttpContext, RootContext};
use proxy_wasm::types::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn hdr_list(v: &Value) -> Vec<(String, Bytes)> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().unwrap_or("").as_bytes().to_vec()))
                .collect()
        })
        .unwrap_or_default()
}

fn prop_val(v: &Value) -> Prop {
    if v.as_str().is_some() {
        return Prop::Val(v.as_str().unwrap_or("").as_bytes().to_vec());
    }
    if let Some(i) = v.as_i64() {
        return Prop::Val(i.to_le_bytes().to_vec());
    }
    if let Some(b) = v.as_bool() {
        return Prop::Val(vec![b as u8]);
    }
    if let Some(h) = v["hex"].as_str() {
        return Prop::Val(unhex(h));
    }
    if v["bad"].as_bool() == Some(true) {
        return Prop::Bad;
    }
    Prop::Err
}

fn set_props(c: &mut CtxHost, v: &Value) {
    if let Some(a) = v.as_array() {
        for p in a {
            let k: Vec<String> = p[0]
                .as_array()
                .map(|t| t.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
                .unwrap_or_default();
            if p[1].is_null() {
                c.props.remove(&k);
            } else {
                c.props.insert(k, prop_val(&p[1]));
            }
        }
    }
}

fn chunks(v: &Value) -> Vec<(Vec<u8>, bool)> {
    v.as_array()
        .map(|a| a.iter().map(|c| (bytes_of(&c["data"]), c["eos"].as_bool().unwrap_or(false))).collect())
        .unwrap_or_default()
}

fn bytes_of(v: &Value) -> Vec<u8> {
    match v.as_str() {
        Some(s) => s.as_bytes().to_vec(),
        None => v["hex"].as_str().map(unhex).unwrap_or_default(),
    }
}

fn act(a: Action) -> Value {
    match a {
        Action::Continue => json!("Continue"),
        Action::Pause => json!("Pause"),
        _ => json!("Other"),
    }
}

pub fn run_scenario(sc: &Value) -> Value {
    let host = Rc::new(SimHost::new());
    proxy_wasm::install_host(host.clone());
    if let Some(s) = sc["token_start"].as_u64() {
        host.next_token.set(s as u32);
    }
    if let Some(l) = sc["log_level"].as_u64() {
        host.log_level.set(l as u8);
    }
    let mut root = FilterRoot::new(1);
    root.on_vm_start(0);
    let mut filters: BTreeMap<u32, Box<dyn HttpContext>> = BTreeMap::new();
    let mut out: Vec<Value> = vec![];
    let empty = vec![];
    let mut dead = false;
    for (i, s) in sc["steps"].as_array().unwrap_or(&empty).iter().enumerate() {
        if dead {
            break;
        }
        *host.obs.borrow_mut() = Obs::default();
        let before: BTreeMap<u32, (Value, Value)> = host
            .ctxs
            .borrow()
            .iter()
            .map(|(k, c)| (*k, (hdrs(&c.req_headers), hdrs(&c.resp_headers))))
            .collect();
        let res = catch_unwind(AssertUnwindSafe(|| step(&host, &mut root, &mut filters, s)));
        let o = std::mem::take(&mut *host.obs.borrow_mut());
        let cur = host.cur.get();
        let (rq, rs) = {
            let c = host.ctxs.borrow();
            c.get(&cur)
                .map(|c| (hdrs(&c.req_headers), hdrs(&c.resp_headers)))
                .unwrap_or((Value::Null, Value::Null))
        };
        let changed = |n: Value, b: Option<&Value>| if Some(&n) == b { Value::Null } else { n };
        let bef = before.get(&cur);
        let (ret, skipped, panicked) = match res {
            Ok(Ok(v)) => (v, Value::Null, false),
            Ok(Err(e)) => (Value::Null, json!(e), false),
            Err(p) => {
                dead = true;
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                (json!({ "panic": m }), Value::Null, true)
            }
        };
        let pend: Vec<u32> = host.outstanding.borrow().iter().filter(|(_, c)| c.ctx == cur).map(|(t, _)| *t).collect();
        let mut r = json!({
            "i": i, "ev": s["ev"], "ctx": cur, "ret": ret, "calls": o.calls, "reply": o.replies, "resume": o.resumes,
            "props": o.set_props, "metrics": o.metrics, "ticks": o.ticks, "seq": o.seq, "hdr_sets": o.hdr_sets, "outstanding": pend,
            "req_headers": changed(rq, bef.map(|b| &b.0)), "resp_headers": changed(rs, bef.map(|b| &b.1)),
        });
        if !skipped.is_null() {
            r["skipped"] = skipped;
        }
        if panicked {
            r["panicked"] = json!(true);
        }
        if !o.cancels.is_empty() {
            r["cancels"] = json!(o.cancels);
        }
        out.push(r);
    }
    // drop filters under catch_unwind too: a panic in drop is an observation
    let d = catch_unwind(AssertUnwindSafe(move || drop(filters)));
    json!({ "id": sc["id"], "obs": out, "drop_panic": d.is_err() })
}

type Filters = BTreeMap<u32, Box<dyn HttpContext>>;

fn step(host: &Rc<SimHost>, root: &mut FilterRoot, filters: &mut Filters, s: &Value) -> Result<Value, String> {
    let ev = s["ev"].as_str().unwrap_or("");
    let id = s["ctx"].as_u64().unwrap_or(0) as u32;
    host.cur.set(id);
    let skip = |m: &str| -> Result<Value, String> { Err(m.to_string()) };
    macro_rules! c {
        () => {
            host.ctxs.borrow_mut().entry(id).or_default()
        };
    }
    match ev {
        "configure" => {
            host.cur.set(0);
            let raw = match s["raw"].as_str() {
                Some(r) => Some(r.as_bytes().to_vec()),
                None if s["config"].is_null() => None,
                None => Some(s["config"].to_string().into_bytes()),
            };
            host.ctxs.borrow_mut().entry(0).or_default().fail_dispatch = fails(&s["fail_dispatch"]);
            host.fail_tick.set(s["fail_tick"].as_bool().unwrap_or(false));
            let n = raw.as_ref().map(|r| r.len()).unwrap_or(0);
            *host.plugin_cfg.borrow_mut() = raw;
            Ok(json!(root.on_configure(n)))
        }
        "tick" => {
            host.cur.set(0);
            host.ctxs.borrow_mut().entry(0).or_default().fail_dispatch = fails(&s["fail_dispatch"]);
            root.on_tick();
            Ok(Value::Null)
        }
        "ctx_new" => {
            host.cur.set(id);
            if let Some(t) = s["next_token"].as_u64() {
                host.next_token.set(t as u32);
            }
            let mut c = CtxHost::default();
            c.own_token = s["own_token"].as_u64().map(|t| t as u32);
            c.fail_dispatch = fails(&s["fail_dispatch"]);
            c.fail_set_req = s["fail_set_req"].as_bool().unwrap_or(false);
            c.fail_set_resp = s["fail_set_resp"].as_bool().unwrap_or(false);
            c.fail_set_prop = s["fail_set_prop"].as_bool().unwrap_or(false);
            c.fail_get_body = s["fail_get_body"].as_bool().unwrap_or(false);
            c.req_chunks = chunks(&s["req_chunks"]);
            c.resp_chunks = chunks(&s["resp_chunks"]);
            host.ctxs.borrow_mut().insert(id, c);
            match root.create_http_context(id) {
                Some(f) => {
                    filters.insert(id, f);
                    Ok(json!(true))
                }
                None => Ok(json!(false)),
            }
        }
        "ctx_drop" => {
            host.cur.set(id);
            c!().done = true;
            filters.remove(&id);
            host.outstanding.borrow_mut().retain(|_, c| c.ctx != id);
            Ok(Value::Null)
        }
        "log_level" => {
            host.log_level.set(s["level"].as_u64().unwrap_or(3) as u8);
            Ok(Value::Null)
        }
        "set_props" => {
            set_props(c!(), &s["props"]);
            Ok(Value::Null)
        }
        "req_headers" => {
            if filters.get(&id).is_none() {
                return skip("no ctx");
            }
            if c!().req_headers_seen {
                return skip("already");
            }
            let eos = s["eos"].as_bool().unwrap_or(false);
            let n = {
                let mut b = host.ctxs.borrow_mut();
                let c = b.entry(id).or_default();
                c.req_headers = hdr_list(&s["headers"]);
                set_props(c, &s["props"]);
                c.req_headers_seen = true;
                c.req_eos = eos;
                c.req_headers.len()
            };
            let f = filters.get_mut(&id).ok_or("no ctx")?;
            let a = f.on_http_request_headers(n, eos);
            if a == Action::Pause && !c!().local_reply {
                c!().req_paused = 1;
            }
            Ok(act(a))
        }
        "req_body" => {
            let eos = {
                let mut b = host.ctxs.borrow_mut();
                let c = b.entry(id).or_default();
                if !c.req_headers_seen || c.req_eos || c.local_reply || c.resp_headers_seen {
                    return skip("request body not possible");
                }
                if c.req_paused == 1 {
                    return skip("paused at headers");
                }
                let (data, eos) = if s["next"].as_bool() == Some(true) {
                    match c.req_chunks.get(c.req_pos).cloned() {
                        Some(x) => {
                            c.req_pos += 1;
                            x
                        }
                        None => return skip("no more chunks"),
                    }
                } else {
                    (bytes_of(&s["data"]), s["eos"].as_bool().unwrap_or(false))
                };
                if c.req_paused == 2 {
                    c.req_buf.get_or_insert_with(Vec::new).extend(data);
                } else {
                    c.req_buf = Some(data);
                }
                c.req_eos = eos;
                eos
            };
            let n = c!().req_buf.as_ref().map(|b| b.len()).unwrap_or(0);
            let f = filters.get_mut(&id).ok_or("no ctx")?;
            let a = f.on_http_request_body(n, eos);
            let c = &mut *host.ctxs.borrow_mut();
            let c = c.entry(id).or_default();
            if a == Action::Pause {
                c.req_paused = 2;
            } else {
                c.req_paused = 0;
                c.req_buf = None;
            }
            Ok(act(a))
        }
        "resp_headers" => {
            let eos = s["eos"].as_bool().unwrap_or(false);
            let n = {
                let mut b = host.ctxs.borrow_mut();
                let c = b.entry(id).or_default();
                if !c.req_headers_seen || c.resp_headers_seen {
                    return skip("response headers not possible");
                }
                if c.local_reply && c.reply_in_response {
                    return skip("closed");
                }
                if !c.local_reply && c.req_paused != 0 {
                    return skip("request paused");
                }
                c.resp_headers = hdr_list(&s["headers"]);
                set_props(c, &s["props"]);
                c.resp_headers_seen = true;
                c.resp_eos = eos;
                c.resp_headers.len()
            };
            let f = filters.get_mut(&id).ok_or("no ctx")?;
            let a = f.on_http_response_headers(n, eos);
            if a == Action::Pause {
                c!().resp_paused = 1;
            }
            Ok(act(a))
        }
        "resp_body" => {
            let eos = {
                let mut b = host.ctxs.borrow_mut();
                let c = b.entry(id).or_default();
                if !c.resp_headers_seen || c.resp_eos || (c.local_reply && c.reply_in_response) {
                    return skip("response body not possible");
                }
                if c.resp_paused == 1 {
                    return skip("paused at headers");
                }
                let (data, eos) = if s["next"].as_bool() == Some(true) {
                    match c.resp_chunks.get(c.resp_pos).cloned() {
                        Some(x) => {
                            c.resp_pos += 1;
                            x
                        }
                        None => return skip("no more chunks"),
                    }
                } else {
                    (bytes_of(&s["data"]), s["eos"].as_bool().unwrap_or(false))
                };
                if c.resp_paused == 2 {
                    c.resp_buf.get_or_insert_with(Vec::new).extend(data);
                } else {
                    c.resp_buf = Some(data);
                }
                c.resp_eos = eos;
                eos
            };
            let n = c!().resp_buf.as_ref().map(|b| b.len()).unwrap_or(0);
            let f = filters.get_mut(&id).ok_or("no ctx")?;
            let a = f.on_http_response_body(n, eos);
            let c = &mut *host.ctxs.borrow_mut();
            let c = c.entry(id).or_default();
            if a == Action::Pause {
                c.resp_paused = 2;
            } else {
                c.resp_paused = 0;
                c.resp_buf = None;
            }
            Ok(act(a))
        }
        "grpc" | "root_grpc" => {
            let root_ev = ev == "root_grpc";
            let id = if root_ev { 0 } else { id };
            host.cur.set(id);
            let (tok, known) = if let Some(t) = s["tok"].as_u64() {
                (t as u32, host.outstanding.borrow().get(&(t as u32)).is_some_and(|c| c.ctx == id))
            } else {
                let o = host.outstanding.borrow();
                let mine: Vec<u32> = o.iter().filter(|(_, c)| c.ctx == id).map(|(t, _)| *t).collect();
                if mine.is_empty() {
                    return skip("nothing outstanding");
                }
                (mine[(s["nth"].as_u64().unwrap_or(0) as usize) % mine.len()], true)
            };
            if !known && s["force"].as_bool() != Some(true) {
                return skip("token not outstanding");
            }
            let call = host.all_calls.borrow().get(&tok).cloned();
            // the answer can depend on what is being called; "$TOK" in it is the token of the call
            let by = match (&call, s["by"].is_object()) {
                (Some(c), true) => {
                    let t = s["by"][&c.service].to_string().replace("$TOK", &tok.to_string());
                    serde_json::from_str(&t).map_err(|e| e.to_string())?
                }
                _ => Value::Null,
            };
            let res = by["res"].clone();
            let s = if by.is_null() { s } else { &by };
            let status = s["status"].as_u64().unwrap_or(0) as u32;
            let bytes = if let Some(h) = s["raw"].as_str() {
                unhex(h)
            } else if s["json"].is_null() {
                vec![]
            } else {
                match &call {
                    Some(c) => host.codec.encode_response(&c.service, &c.method, &s["json"])?,
                    None => vec![],
                }
            };
            if known {
                host.outstanding.borrow_mut().remove(&tok);
            }
            let n = bytes.len();
            *host.grpc_buf.borrow_mut() = if bytes.is_empty() { None } else { Some(bytes) };
            if root_ev {
                root.on_grpc_call_response(tok, status, n);
            } else {
                let f = filters.get_mut(&id).ok_or("no ctx")?;
                f.on_grpc_call_response(tok, status, n);
            }
            *host.grpc_buf.borrow_mut() = None;
            Ok(json!({ "tok": tok, "res": res }))
        }
        "fds_probe" => Ok(json!(fds_bytes(&s["fds"]).len())),
        _ => skip("unknown event"),
    }
}

fn fails(v: &Value) -> std::collections::BTreeSet<String> {
    v.as_array()
        .map(|a| a.iter().filter_map(|s| s.as_str()).map(|s| s.to_string()).collect())
        .unwrap_or_default()
}
