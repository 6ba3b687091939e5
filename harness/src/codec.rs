//! Encoding and decoding of the messages that cross the host boundary, independent of the filter.
use kuadrant_filter::filter::{DescriptorKey, DescriptorManager};
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, MethodDescriptor, SerializeOptions};
use prost_types::{
    field_descriptor_proto::{Label, Type},
    DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet,
    MethodDescriptorProto, ServiceDescriptorProto,
};
use serde_json::{json, Value};

pub const EMBEDDED: [&str; 3] = [
    "envoy.service.ratelimit.v3.RateLimitService",
    "kuadrant.service.ratelimit.v1.RateLimitService",
    "envoy.service.auth.v3.Authorization",
];

#[derive(Clone, PartialEq, prost::Message)]
pub struct ServiceRef {
    #[prost(string, tag = "1")]
    pub cluster_name: String,
    #[prost(string, tag = "2")]
    pub service: String,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct GetReq {
    #[prost(message, repeated, tag = "1")]
    pub services: Vec<ServiceRef>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ServiceDescriptorMsg {
    #[prost(string, tag = "1")]
    pub cluster_name: String,
    #[prost(string, tag = "2")]
    pub service: String,
    #[prost(bytes = "vec", tag = "3")]
    pub file_descriptor_set: Vec<u8>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct GetResp {
    #[prost(message, repeated, tag = "1")]
    pub descriptors: Vec<ServiceDescriptorMsg>,
}

fn field(name: &str, n: i32, t: Type, label: Label, tn: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        r#type: Some(t.into()),
        label: Some(label.into()),
        type_name: tn.map(|s| s.into()),
        json_name: Some(name.into()),
        ..Default::default()
    }
}

/// dyn.v1: services S1..S4 with method M(Req) -> Resp. `ver` names the version of the schema:
/// version 2 has one more request field.
pub fn dyn_fds(services: &[String], ver: i64) -> FileDescriptorSet {
    let mut req = vec![
        field("id", 1, Type::String, Label::Optional, None),
        field("n", 2, Type::Int64, Label::Optional, None),
        field("flag", 3, Type::Bool, Label::Optional, None),
        field("items", 4, Type::String, Label::Repeated, None),
    ];
    if ver >= 2 {
        req.push(field("extra", 5, Type::String, Label::Optional, None));
    }
    let f = FileDescriptorProto {
        name: Some("dyn.proto".into()),
        package: Some("dyn.v1".into()),
        syntax: Some("proto3".into()),
        message_type: vec![
            DescriptorProto { name: Some("Req".into()), field: req, ..Default::default() },
            DescriptorProto {
                name: Some("Resp".into()),
                field: vec![
                    field("code", 1, Type::Int64, Label::Optional, None),
                    field("text", 2, Type::String, Label::Optional, None),
                    field("items", 3, Type::String, Label::Repeated, None),
                ],
                ..Default::default()
            },
        ],
        service: services
            .iter()
            .map(|s| ServiceDescriptorProto {
                name: Some(s.clone()),
                method: vec![MethodDescriptorProto {
                    name: Some("M".into()),
                    input_type: Some(".dyn.v1.Req".into()),
                    output_type: Some(".dyn.v1.Resp".into()),
                    ..Default::default()
                }],
                ..Default::default()
            })
            .collect(),
        ..Default::default()
    };
    FileDescriptorSet { file: vec![f] }
}

pub fn fds_bytes(spec: &Value) -> Vec<u8> {
    if spec.as_str() == Some("garbage") {
        return vec![0xff, 0xff, 0xff, 0x01];
    }
    if spec.as_str() == Some("empty") {
        return vec![];
    }
    if let Some(h) = spec["hex"].as_str() {
        return (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
    }
    if let Some(full) = spec["fake"].as_str() {
        // a valid set that has the service, with methods and messages of its own
        let (pkg, name) = full.rsplit_once('.').unwrap_or(("", full));
        let mut fds = dyn_fds(&[name.to_string()], 1);
        fds.file[0].package = Some(pkg.into());
        fds.file[0].service[0].method = ["M", "ShouldRateLimit", "CheckRateLimit", "Report", "Check"]
            .iter()
            .map(|m| MethodDescriptorProto {
                name: Some(m.to_string()),
                input_type: Some(format!(".{pkg}.Req")),
                output_type: Some(format!(".{pkg}.Resp")),
                ..Default::default()
            })
            .collect();
        return fds.encode_to_vec();
    }
    let svcs: Vec<String> = spec["services"]
        .as_array()
        .map(|a| a.iter().filter_map(|s| s.as_str()).map(|s| s.to_string()).collect())
        .unwrap_or_default();
    let mut b = dyn_fds(&svcs, spec["ver"].as_i64().unwrap_or(1)).encode_to_vec();
    if spec["broken"].as_bool() == Some(true) {
        // a set whose message types do not resolve
        let mut fds = dyn_fds(&svcs, 1);
        fds.file[0].message_type.clear();
        b = fds.encode_to_vec();
    }
    b
}

pub struct Codec {
    mgr: DescriptorManager,
    dynp: DescriptorPool,
}

impl Codec {
    pub fn new() -> Self {
        let mgr = DescriptorManager::default();
        for s in EMBEDDED {
            mgr.add_expected(DescriptorKey::new("x".into(), s.into()));
        }
        let all: Vec<String> = ["S1", "S2", "S3", "S4"].iter().map(|s| s.to_string()).collect();
        let dynp = DescriptorPool::from_file_descriptor_set(dyn_fds(&all, 2)).expect("dyn pool");
        Self { mgr, dynp }
    }
    pub fn method(&self, service: &str, method: &str) -> Option<MethodDescriptor> {
        let sd = if service.starts_with("dyn.v1.") {
            self.dynp.get_service_by_name(service)?
        } else {
            self.mgr.get_pool("x", service).ok()?.get_service_by_name(service)?
        };
        let m = sd.methods().find(|m| m.name() == method);
        m
    }
    pub fn decode_request(&self, service: &str, method: &str, bytes: &[u8]) -> Value {
        if service == "kuadrant.v1.DescriptorService" {
            return match GetReq::decode(bytes) {
                Ok(r) => {
                    let mut v: Vec<(String, String)> =
                        r.services.into_iter().map(|s| (s.cluster_name, s.service)).collect();
                    v.sort();
                    json!({ "services": v })
                }
                Err(e) => json!({ "undecodable": e.to_string() }),
            };
        }
        if service == "opentelemetry.proto.collector.trace.v1.TraceService" {
            return decode_traces(bytes);
        }
        if service.starts_with("conv.v1.") {
            return json!({ "hex": hex(bytes) });
        }
        match self.method(service, method) {
            Some(m) => match DynamicMessage::decode(m.input(), bytes) {
                Ok(d) => {
                    let opts = SerializeOptions::new().skip_default_fields(true).use_proto_field_name(true);
                    d.serialize_with_options(serde_json::value::Serializer, &opts)
                        .unwrap_or_else(|e| json!({ "unserialisable": e.to_string() }))
                }
                Err(e) => json!({ "undecodable": e.to_string() }),
            },
            None => json!({ "unknown_method": format!("{service}/{method}") }),
        }
    }
    pub fn encode_response(&self, service: &str, method: &str, v: &Value) -> Result<Vec<u8>, String> {
        if service == "kuadrant.v1.DescriptorService" {
            let ds = v["descriptors"].as_array().cloned().unwrap_or_default();
            let r = GetResp {
                descriptors: ds
                    .iter()
                    .map(|d| ServiceDescriptorMsg {
                        cluster_name: d["cluster"].as_str().unwrap_or("").into(),
                        service: d["service"].as_str().unwrap_or("").into(),
                        file_descriptor_set: fds_bytes(&d["fds"]),
                    })
                    .collect(),
            };
            return Ok(r.encode_to_vec());
        }
        if service == "opentelemetry.proto.collector.trace.v1.TraceService" {
            return Ok(vec![]);
        }
        let m = self.method(service, method).ok_or_else(|| format!("no method {service}/{method}"))?;
        DynamicMessage::deserialize(m.output(), v.clone())
            .map(|d| d.encode_to_vec())
            .map_err(|e| e.to_string())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn decode_traces(bytes: &[u8]) -> Value {
    use opentelemetry_proto::tonic::collector::trace::v1::ExportTraceServiceRequest;
    match ExportTraceServiceRequest::decode(bytes) {
        Ok(r) => {
            let mut spans = vec![];
            for rs in &r.resource_spans {
                for ss in &rs.scope_spans {
                    for s in &ss.spans {
                        let attrs: Vec<Value> = s
                            .attributes
                            .iter()
                            .map(|kv| {
                                let v = kv.value.as_ref().and_then(|v| v.value.as_ref()).map(|v| {
                                    use opentelemetry_proto::tonic::common::v1::any_value::Value as V;
                                    match v {
                                        V::StringValue(s) => s.clone(),
                                        V::IntValue(i) => i.to_string(),
                                        V::BoolValue(b) => b.to_string(),
                                        V::DoubleValue(d) => d.to_string(),
                                        _ => "?".into(),
                                    }
                                });
                                json!([kv.key, v])
                            })
                            .collect();
                        spans.push(json!({
                            "name": s.name, "trace": hex(&s.trace_id), "span": hex(&s.span_id),
                            "parent": hex(&s.parent_span_id),
                            "status": s.status.as_ref().map(|s| s.code).unwrap_or(0),
                            "attrs": attrs,
                        }));
                    }
                }
            }
            let res: Vec<Value> = r
                .resource_spans
                .iter()
                .map(|rs| json!(rs.resource.as_ref().map(|r| r.attributes.iter().map(|a| a.key.clone()).collect::<Vec<_>>())))
                .collect();
            json!({ "spans": spans, "resources": res })
        }
        Err(e) => json!({ "undecodable": e.to_string() }),
    }
}

/// An exported value, in a form that tells the kinds apart.
pub fn shown_value(b: &[u8]) -> Value {
    fn show(v: &prost_types::Value) -> Value {
        use prost_types::value::Kind as K;
        match &v.kind {
            None => json!(["none"]),
            Some(K::NullValue(_)) => json!(["null"]),
            Some(K::NumberValue(n)) => json!(["num", n.to_string()]),
            Some(K::StringValue(s)) => json!(["str", s]),
            Some(K::BoolValue(x)) => json!(["bool", x]),
            Some(K::StructValue(s)) => json!(["struct", s.fields.len()]),
            Some(K::ListValue(l)) => json!(["list", l.values.iter().map(show).collect::<Vec<_>>()]),
        }
    }
    match prost_types::Value::decode(b) {
        Ok(v) => show(&v),
        Err(e) => json!(["undecodable", e.to_string()]),
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
