"""Source of properties.jsonl and MANIFEST.json: python3 meta/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "crates/kuadrant-filter/src/"
W = "crates/wasm-shim/src/"
EXEC = K + "kuadrant/pipeline/executor.rs"
FILT = W + "filter/kuadrant_filter.rs"
DYN = K + "kuadrant/pipeline/tasks/dynamic.rs"
FM = K + "kuadrant/pipeline/tasks/failure_mode.rs"
BP = K + "kuadrant/pipeline/blueprint.rs"
P = []
SHIM_NOTE = ("spec/Shim.tla models the whole life of a request; TLC explores every order of host events for the generated small "
             "programs and checks the property's monitor and invariants, the behaviours are replayed into the real filter, and random "
             "larger runs recorded from the real filter are checked step by step against the specification. Assumes the simulated host "
             "follows the proxy-wasm/Envoy rules; programs and schedules are sampled, histories of each small program are exhaustive.")
SHIM_TECH = "TLA+ spec of the request life cycle (TLC), behaviours replayed into the code and recorded runs checked against it"


def prop(id, title, statement, over, text, tests, files, mech, tech=SHIM_TECH, note=SHIM_NOTE, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=tech, _n=note, _l=level))


prop("C02", "A guard call without a reply holds the stream",
     "While the call of an action marked as a guard has no reply, or a guard action has not called yet because an action it must follow is "
     "waiting for a reply, the filter answers every stream callback with a pause and resumes nothing, so nothing it is holding reaches the "
     "upstream or the client. The reply after which no guard is in that situation resumes the stream. Calls of actions that are not guards "
     "never hold the stream, except that the end of a response body is held until all outstanding calls are answered.",
     ["schedules", "programs"], "every configuration of guard and other actions, every order in which bodies, headers and replies arrive",
     "unit tests drive a few tasks with hand-picked replies; the interleavings of several guards, nested calls and body callbacks are not sampled",
     [EXEC, FILT, DYN, K + "kuadrant/context.rs"], [("barrier raised by guard calls", K + "kuadrant/context.rs"), ("pause decision of the pipeline", EXEC), ("callbacks", FILT)])
prop("C03", "A failing service that fails closed answers the request with 500",
     "When the call of an action whose service has failure mode deny cannot be made (its predicate or message cannot be evaluated or encoded, "
     "or the host refuses it), is answered with a non-zero status or with a reply that cannot be decoded, or an action run on its reply fails, "
     "the client gets a 500 reply in that very step and no later action of the request takes effect. This holds whenever the failure happens: "
     "at once, after waiting for a body or a stored value, or on a reply in any later phase.",
     ["fault_sequences", "schedules", "programs"], "every configuration, every point at which a call or its reply fails",
     "tests fail one call of one action; failures after requeueing, in nested calls, in the response phase or combined with other calls are not covered",
     [FM, DYN, EXEC], [("failure mode wrapper", FM), ("outcome of calls and replies", DYN), ("termination", EXEC)])
prop("C04", "A failing service that fails open leaves the rest of the request alone",
     "When the call of an action whose service has failure mode allow fails in any of those ways, no reply is sent because of it, the actions "
     "of its reply do not run, and every other action, including those that must follow it, runs exactly as if it had finished. The failure is "
     "counted as an error, and a stream held for the call is released.",
     ["fault_sequences", "schedules", "programs"], "every configuration, every point at which a call or its reply fails",
     "tests check the outcome value of one task, not that the rest of the pipeline still runs for every failure point",
     [FM, DYN, EXEC], [("failure mode wrapper", FM), ("completion of failed tasks", EXEC)])
prop("C05", "A terminal decision is final",
     "Once a terminal action (or a failure that fails closed) has answered the request, no action of that request takes effect any more: no "
     "call other than the export of its trace, no change of headers, no stored or exported value, no second reply. Replies to calls made before "
     "are consumed without effect, and a request answered before its response never resumes towards the upstream.",
     ["schedules", "histories", "programs"], "every configuration, every later event of the stream and every late reply",
     "tests stop at the first reply; what late replies and later body callbacks do in all orders is not sampled",
     [EXEC, K + "kuadrant/pipeline/tasks/send_reply.rs", FILT], [("termination clears the queue", EXEC), ("late replies are consumed", EXEC), ("resume decision", FILT)])
prop("C06", "Sequential actions wait, parallel actions do not",
     "A top level action marked sequential takes effect only after every action back to and including the previous sequential one has finished, "
     "that is has run, been skipped, failed open or had its call answered; any other action waits only for the last sequential action before it. "
     "Actions that need not wait for one another are started in the order of the configuration, without waiting for each other's replies.",
     ["schedules", "programs"], "every list of actions of any kind, every order of replies and body chunks",
     "tests fix a handful of dependency graphs and reply orders",
     [BP, EXEC, K + "kuadrant/pipeline/tasks/ordered.rs"], [("dependencies computed from execution modes", BP), ("dependency check before each run", EXEC)])
prop("C07", "Each call is made once and each reply reaches its own action",
     "An action makes at most one call per request, and a reply is handed only to the action whose call it answers, whatever the order in which "
     "replies arrive. A reply that answers no outstanding call of the request changes nothing beyond letting waiting actions be retried.",
     ["schedules", "histories"], "every set of concurrent calls, every order of replies, duplicates and unknown tokens",
     "tests answer calls in the order they were made", [EXEC, DYN], [("calls waiting for replies, by token", EXEC), ("reply processing", DYN)])
prop("C08", "A request is never held for ever",
     "The filter never pauses the request or the response unless a call is outstanding whose reply can release it. Once every call it made has "
     "been answered, the stream is running again or the request has been answered, whatever the replies were and whichever actions failed, "
     "waited for bodies or were cut off by a terminal action.",
     ["schedules", "fault_sequences", "programs"], "every configuration, every order of events and every outcome of every call",
     "a stuck stream needs a particular combination of pending tasks, phases and reply outcomes; tests check single callbacks",
     [FILT, EXEC], [("pause and resume decisions", FILT), ("pipeline completion", EXEC)])
prop("C09", "Actions on a reply see that reply and nothing else does",
     "The actions configured on the reply of a call run after that reply arrived and was decoded, in their order and before other waiting "
     "actions, and their expressions see the reply under the variable of that call; variables of enclosing calls are visible too, those of any "
     "other call are not. If the call was skipped or failed they never run.",
     ["programs", "schedules"], "every nesting of calls and actions, every order of replies",
     "tests cover one level of nesting with one reply", [DYN, K + "kuadrant/context.rs", BP], [("scoped bindings", K + "kuadrant/context.rs"), ("children queued on reply", EXEC)])
prop("C15", "An action waits for the stored values it reads",
     "An expression that names a value which some action of the request still has to store is not evaluated until that value is stored or that "
     "action has ended without storing it; from then on every expression sees the value stored last under that path. A value configured to be "
     "exported is handed to the host with the same content, once, when it is stored.",
     ["programs", "schedules"], "every arrangement of storing and reading actions, every order of body chunks and replies",
     "tests store and read in one fixed order", [K + "kuadrant/context.rs", K + "kuadrant/pipeline/tasks/store.rs", K + "data/cel.rs"],
     [("path reservations", K + "kuadrant/context.rs"), ("pending expressions", K + "data/cel.rs"), ("store action", K + "kuadrant/pipeline/tasks/store.rs")])
prop("C16", "Header changes reach the message they are for, once",
     "A header action for the response whose turn comes before the response headers have arrived is held back and applied once they have, "
     "before the response headers are released; one for the request is applied when its turn comes. Each is applied at most once, and one whose "
     "predicate is false, or whose request was answered before, is not applied at all.",
     ["schedules", "programs"], "every arrangement of header actions, every phase in which their turn can come, host failures included",
     "tests apply one header task in one phase", [K + "kuadrant/pipeline/tasks/headers.rs", K + "data/headers.rs"], [("header action", K + "kuadrant/pipeline/tasks/headers.rs")])
prop("C22", "Metrics count what happened",
     "For every request that matches an action set, hits is incremented once when its headers arrive; denied once for each reply the filter "
     "sends to the client, and errors once for each service call that fails and once for each failing terminal action that ran. Allowed is "
     "incremented once when response headers pass through the filter of such a request.",
     ["histories", "programs", "fault_sequences"], "every configuration and history of events and failures",
     "tests do not read the counters over whole requests", [K + "metrics/mod.rs", FM, FILT], [("counters", K + "metrics/mod.rs")])
FAC = K + "kuadrant/pipeline/factory.rs"
ROOT = W + "filter/root_context.rs"
ROUT_NOTE = ("spec/Routing.tla models selection and reloads; TLC explores every order of reloads, new streams and requests (depth 5) of generated "
             "small configurations against a declarative statement of the most specific host name, the behaviours are replayed into the real "
             "filter, and recorded longer random runs are checked against the specification. Configurations are sampled.")
ROUT_TECH = "TLA+ spec of routing and reloads (TLC), behaviours replayed into the code and recorded runs checked against it"
prop("C01", "Each request is governed by the action set of its most specific host name",
     "A request is governed by the first action set, in the order of the configuration, that is attached to the most specific host name "
     "matching the request's host and whose route predicates all hold for the request; no other action set takes effect. An exact name matches "
     "only that host and is more specific than a wildcard, a wildcard matches any host with at least one more label in front, and longer "
     "wildcards are more specific; letter case and the port of the request's host make no difference. If no name matches, or no action set "
     "of the most specific name applies, the request passes untouched and counts as a miss; if the host is unknown or a route "
     "predicate cannot be evaluated before one applies, the request is answered with 500 and counts as an error.",
     ["inputs", "programs"], "every set of host names and predicates, every request",
     "tests look up a few names; nesting of wildcards, exact names and ordered candidates over all hosts is not sampled",
     [FAC], [("host name index and selection", FAC), ("route predicates", K + "data/cel.rs")], ROUT_TECH, ROUT_NOTE)
prop("C14", "A configuration is applied as a whole or not at all",
     "A configuration that cannot be read or compiled is rejected and changes nothing: requests go on being governed by the last accepted one. "
     "An accepted one governs every request whose stream is created afterwards and no other; a request already on its way is carried to its "
     "end under the configuration it started with. Each attempt is counted once.",
     ["histories", "schedules", "programs"], "every sequence of valid and invalid configurations, interleaved with requests in every state",
     "tests compile single configurations; reloads in the middle of requests are not exercised",
     [ROOT, FAC], [("configuration processing", ROOT), ("factory bound to each stream", FILT)], ROUT_TECH,
     ROUT_NOTE + " Whole requests are also run under reloads and checked against spec/Shim.tla.")
prop("C20", "Requests handled at the same time do not affect one another",
     "Whatever other requests the same filter handles in between, and in whatever order their events arrive, each request makes exactly the "
     "calls, replies, header changes, stored values and pauses it would make alone.",
     ["schedules", "histories"], "every interleaving of the events of concurrent requests",
     "tests handle one request at a time",
     [FILT, EXEC, K + "kuadrant/context.rs", BP], [("per stream state", FILT), ("tasks made per request", BP)],
     "TLA+ spec of the request life cycle (TLC): recorded interleavings of several requests checked, request by request, against it",
     "Interleavings of 5 requests over one filter are sampled at random, each request's share checked step by step against spec/Shim.tla.")
LEG = K + "configuration/legacy_translation.rs"
LEG_TECH = ("TLA+ spec of the legacy configuration format (Legacy.tla gives a program its meaning in Shim.tla), checked with TLC; behaviours "
            "replayed into the code and recorded runs checked against it")
LEG_NOTE = ("spec/Legacy.tla defines what an action of the legacy format means; every history of small generated configurations is explored "
            "with TLC and replayed, and random larger ones are recorded and checked step by step, the text of every message included. "
            "Configurations, schedules and replies are sampled. Known findings are probed on their own (KNOWN_FINDINGS.txt).")
prop("C10", "An auth action asks the authorization service and does what it says",
     "An auth action whose predicates hold sends one Check with the scope as host in the context extensions, the attributes and current headers "
     "of the request, and the request data under io.kuadrant[.domain] in the metadata context; nothing that follows it acts before the reply. "
     "A denied reply is sent to the client with its status (403 when none), headers and body, for good. An OK reply sets its headers on the "
     "request and publishes its dynamic metadata as auth. Neither, or an OK reply asking for what is not supported, is refused with 500.",
     ["inputs", "schedules", "programs"], "every legacy configuration, request, reply and order of events",
     "unit tests compare generated expression texts and run a few fixed requests and replies",
     [LEG, DYN, K + "kuadrant/pipeline/tasks/send_reply.rs"], [("translation of auth actions", LEG)], LEG_TECH, LEG_NOTE)
prop("C11", "A rate limit action sends the descriptors of what applies and enforces the answer",
     "A ratelimit or ratelimit-check action calls its service when its predicates hold and, if it has conditional data, some block of it holds. "
     "The call carries the scope (or ratelimit.domain) as domain, the hits addend (1 unless ratelimit.hits_addend is given), and one descriptor "
     "entry for each datum of each block that holds, in order, plus the request data. OVER_LIMIT answers the client with 429 and the headers of "
     "the reply, for good; OK adds the headers of the reply to the response; UNKNOWN is refused with 500.",
     ["inputs", "schedules", "programs"], "every legacy configuration, request, reply and order of events",
     "unit tests compare generated expression texts and run a few fixed requests and replies",
     [LEG, DYN, K + "kuadrant/pipeline/tasks/headers.rs"], [("translation of rate limit actions", LEG)], LEG_TECH, LEG_NOTE)
prop("C12", "A report is made once its data is there and never decides",
     "A ratelimit-report action waits for the response data it mentions, then makes one Report call with the same domain, hits and descriptors a "
     "check would have, response data included. It does not hold the stream, and whatever is answered, over limit included, changes neither the "
     "reply nor the headers of the request.",
     ["inputs", "schedules", "programs"], "every legacy configuration, request, response body, reply and order of events",
     "unit tests compare generated expression texts and run a few fixed requests and replies",
     [LEG, DYN], [("translation of report actions", LEG)], LEG_TECH, LEG_NOTE)
DM = K + "filter/descriptor_manager.rs"
prop("C13", "The message types of every configured service are learnt, and only what was learnt is used",
     "The filter asks the configured descriptor service, in one call, for exactly the services of its configurations whose types it neither "
     "brings with it nor has been given nor is already asking for: when a configuration is accepted and at every tick. What an answer leaves "
     "out, or a failed, refused or unusable answer, is asked again at the next tick, for as long as it takes. A service is called only with the "
     "types given for it, by cluster and name; if there are none the call fails by the service's failure mode. Types the filter brings are "
     "never replaced, and one bad entry of an answer does not spoil the others.",
     ["histories", "fault_sequences", "schedules"], "every history of configurations, ticks, refused calls, partial, late, repeated and broken answers, and requests",
     "tests resolve one service with one well formed answer; histories of partial answers, retries, reloads and requests are not sampled",
     [DM, ROOT, K + "services/dynamic.rs"], [("state of each service", DM), ("ticks, answers and reloads", ROOT), ("use of the types", K + "services/dynamic.rs")],
     "TLA+ spec of descriptor discovery (TLC), behaviours replayed into the code and recorded runs checked against it",
     "spec/Descriptors.tla; TLC explores every history of 6 events of generated small programs against a monitor that sees only events and "
     "effects, samples of those behaviours are replayed into the real filter, and longer random runs are checked step by step. Programs sampled.")
STO = K + "kuadrant/pipeline/tasks/store"
BODY_TECH = "TLA+ spec of reading bodies piece by piece (TLC), behaviours replayed into the code and recorded runs checked against it"
prop("C17", "What is read from a JSON body is what the document holds, however it is cut",
     "Actions that store values of a JSON request or response body store exactly what the document has at those pointers: the character content "
     "of strings (escapes decoded, still strings), numbers, booleans and null, in the expression's own types. How the body is cut into chunks, "
     "whether the host keeps earlier chunks or not while the stream is held, white space, and whatever surrounds the values make no difference; a value is used "
     "as soon as it has been read. If a pointer leads to nothing or to an object or array, or the body breaks before all values were read, "
     "nothing is stored. A call that needs response body values is sent when the body has ended, with those values. "
     "(Objects that repeat a key are left out: JSON gives them no meaning.)",
     ["inputs", "schedules"], "every document, set of pointers, cutting into chunks (within characters and escapes too) and pause of the stream",
     "tests use ASCII documents of a few fields, cut at a few places, and one pointer",
     [STO + "/json_body_parser.rs", STO + "/body_parser.rs", STO + ".rs", K + "kuadrant/cache.rs", FILT],
     [("incremental reader", STO + "/json_body_parser.rs"), ("task that feeds it", STO + ".rs"), ("position in the body", STO + "/body_parser.rs")], BODY_TECH,
     "spec/Body.tla reads documents token by token and states what a pointer means for the document as a whole; TLC checks both agree for every "
     "cut of generated small documents into up to three chunks; those behaviours and larger random ones are run in the real filter and checked. "
     "Documents and pointers are sampled. Two inputs known to fail are listed in KNOWN_FINDINGS.txt.")
prop("C18", "From an event stream the values come from the event before the last, however it is cut",
     "For a response with content type text/event-stream, values are taken from the JSON document carried by the next to last event that has "
     "data, when the body has ended. Lines end with CR, LF or CRLF, the data lines of one event are joined, comments, other fields and events "
     "without data do not count, an unfinished event at the end is dropped, a byte order mark at the start is ignored. How the stream is cut "
     "into chunks, within a line end or a character too, makes no difference. If that event is no JSON document, or has no value at a pointer, "
     "nothing is stored and a call that needs it fails by its failure mode.",
     ["inputs", "schedules"], "every event stream and every cutting into chunks",
     "tests feed a few well formed streams, cut at event boundaries",
     [STO + "/sse_body_parser.rs", STO + "/sse_body_parser/sse_line_parser.rs", STO + ".rs"],
     [("events", STO + "/sse_body_parser.rs"), ("lines", STO + "/sse_body_parser/sse_line_parser.rs")], BODY_TECH,
     "spec/Stream.tla models streams symbol by symbol: TLC checks every cutting of every stream of up to 5 (thorough: 6) symbols of six kinds, and "
     "every such stream is run in the real filter with random cuts; spec/Body.tla adds documents, pointers, character content, mixed line ends "
     "and calls that use the values, on random streams.")
CTX = K + "kuadrant/context.rs"
HDRS = K + "kuadrant/pipeline/tasks/headers.rs"
ATTR_TECH = "TLA+ spec of attributes and headers (TLC), behaviours replayed into the code and recorded runs checked against it"
ATTR_NOTE = ("spec/Attrs.tla; TLC explores every history of generated small programs, the values of the host changing under way, against "
             "invariants over effects only; samples of those behaviours and longer random runs are run in the real filter and checked step by "
             "step. Programs, values and expressions are sampled.")
prop("C19", "A header modification replaces what the client or upstream sent, and nothing else",
     "A header action replaces every occurrence of each header it names, in whatever case either is written, by its own value; all other "
     "headers, repeated ones and their order included, stay as they were; pairs whose value is no text are left out. A modification is applied "
     "exactly once, in the order of the actions, to the headers as the actions before it left them, and later expressions of the request see "
     "its result under the lower case name. A modification the host refuses changes nothing, and is not seen by later expressions.",
     ["inputs", "histories", "fault_sequences"], "every list of headers, every sequence of modifications of request and response headers, host refusals",
     "tests set one header on a list of a few; repeated headers, mixed case, several modifications with reads in between and refusals are not sampled",
     [K + "data/headers.rs", HDRS, CTX, K + "kuadrant/cache.rs", K + "data/cel.rs"],
     [("replacing headers", K + "data/headers.rs"), ("header action", HDRS), ("what later expressions see", CTX)], ATTR_TECH, ATTR_NOTE)
prop("C24", "Expressions see the attributes of the request, each with one value for the whole request",
     "An expression has the value of each attribute it names as the host gave it when the request first asked for it, in the attribute's own "
     "type: texts, numbers, truth values, times, and addresses without their port where only the address is asked for (IPv4 and IPv6). Every "
     "later expression of the request has that same value, whatever the host has changed in between. An attribute the host does not have is "
     "null; one that is not there yet makes the action wait until it is; one the host fails on, or gives in another type, makes only the "
     "expressions that name it fail. What an expression asks for does not depend on where in the expression the attribute is named.",
     ["inputs", "histories", "fault_sequences"], "every set of attributes, host answers (values, none, not yet, failures, malformed), changes of them under way, and placement in expressions",
     "tests give attributes one valid value each in a mock; changing values, late values, failures and malformed bytes are not sampled",
     [K + "data/cel.rs", K + "data/attribute.rs", K + "kuadrant/cache.rs", CTX, W + "wasm_host.rs"],
     [("attributes named by an expression", K + "data/cel.rs"), ("values kept for the request", K + "kuadrant/cache.rs"), ("decoding", K + "data/attribute.rs")],
     ATTR_TECH, ATTR_NOTE)
prop("C26", "The functions on texts count characters and agree with one another",
     "indexOf, lastIndexOf, charAt, substring, split, replace, join, trim, lowerAscii and upperAscii work on the characters of a text, however "
     "many bytes each takes: positions count characters and are integers that other expressions can use, indexOf finds the first occurrence "
     "from a position on and lastIndexOf the last one up to it (-1 if there is none), substring and charAt take what lies at those positions, "
     "split and join invert each other, replace replaces from the left at most as often as asked, and only ASCII letters change case. "
     "A position outside the text is an error of the expression, or -1 for the searches, never a crash.",
     ["inputs"], "every text, sought text, position and count",
     "tests call each function on one or two ASCII texts",
     [K + "data/cel/strings.rs"], [("text functions", K + "data/cel/strings.rs")],
     "TLA+ spec of the text functions, its laws checked with TLC, and their answers in the real filter checked against it",
     "spec/Strings.tla; TLC checks the laws between the functions for every text of up to 3 characters (thorough: 4), every sought text of up to 2 and "
     "every position; the code is asked every function on every text of up to 3 of three characters (one of several bytes), and random "
     "longer texts, through expressions of real actions on headers and literals. Longer texts are sampled.")
OUT_TECH = "TLA+ spec of calls, contexts and spans (TLC), behaviours replayed into the code and recorded runs checked against it"
OUT_NOTE = ("spec/Out.tla over spec/Shim.tla; TLC explores every history of one or two small requests that share a filter, its buffer of spans and "
            "changes of the level, against invariants over spans and calls only; samples of those behaviours and longer random runs (several "
            "configurations, up to 22 requests, rejected configurations, changes of what is logged, failing exporter) are run in the real filter "
            "and every call, reply, header and exported span is compared. Programs and configurations are sampled.")
EXP = K + "kuadrant/pipeline/tasks/export_traces.rs"
DECO = K + "kuadrant/pipeline/tasks/tracing_decorator.rs"
PROC = K + "tracing/processor.rs"
prop("C21", "The trace of a request is complete, continues the client's, and leaves the filter once",
     "With a tracing service configured and a level of INFO or below, every request that is sampled gets exactly one root span, named after its "
     "action set, host name and request id, that continues the trace context the client sent (or starts a trace when it sent none, or a "
     "malformed one), and one span below it for every top level call that was tried; at DEBUG every call and reply, header change and store "
     "has a span below the call it belongs to, a failed reply marked as such. Every call to a service carries a trace context: of the innermost "
     "of these spans, or the client's own when nothing is recorded. Every span that ended is exported exactly once, by the first request to "
     "finish after it, as far as the buffer reaches; a request whose client opted out of sampling, or that is handled without tracing or at "
     "a level above INFO, exports none. What is logged, and configurations that are rejected, make no difference.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every program, interleaving of requests, level and change of it, client context, stream drop and exporter failure",
     "tests export one trace of one request with one call",
     [DECO, EXP, PROC, K + "tracing/mod.rs", K + "services/tracing.rs", K + "kuadrant/pipeline/factory.rs", K + "kuadrant/context.rs"],
     [("spans of calls", DECO), ("export", EXP), ("buffer of ended spans", PROC), ("level and filter", K + "tracing/mod.rs"),
      ("root span", K + "kuadrant/pipeline/factory.rs")], OUT_TECH, OUT_NOTE)
prop("C23", "Calls go to the configured cluster, service and method, with the configured timeout",
     "Every call an action makes, whatever became of the calls before it, goes to the cluster its service names, to the gRPC service and method "
     "of the service's type (or those it names itself, for a dynamic one), with the timeout it gives, or 20 ms if it gives none; the export of "
     "a trace goes to the tracing service in the same way. No call goes anywhere else.",
     ["inputs", "histories"], "every mix of service types, clusters, timeouts, and histories of calls and replies",
     "tests use one cluster and the default timeout with a service or two",
     [W + "wasm_host.rs", K + "services/mod.rs", K + "services/tracing.rs",
      K + "services/dynamic.rs", K + "configuration.rs", K + "kuadrant/pipeline/factory.rs"],
     [("services of a configuration", K + "kuadrant/pipeline/factory.rs"), ("dispatch", K + "services/mod.rs"), ("timeouts", K + "configuration.rs")],
     OUT_TECH, OUT_NOTE)
prop("C25", "One request id identifies a request everywhere",
     "With a debug header configured, the response of every request, be it the upstream's or a local reply, carries that header with the id of "
     "the request: the x-request-id the client sent, character for character, or one made up for it when it sent none, different from that of "
     "every other request. Every call the request makes carries the same id in x-request-id, and so does its root span. Without a debug "
     "header, responses are not touched.",
     ["inputs", "histories", "schedules"], "every id, program and interleaving of requests",
     "tests use one plain id, and look at one of the places it must appear",
     [K + "kuadrant/context.rs", K + "kuadrant/pipeline/factory.rs", K + "kuadrant/pipeline/blueprint.rs",
      K + "kuadrant/pipeline/tasks/send_reply.rs", HDRS, K + "services/mod.rs"],
     [("request id", K + "kuadrant/context.rs"), ("identifier on responses", K + "kuadrant/pipeline/factory.rs"),
      ("identifier on local replies", K + "kuadrant/pipeline/tasks/send_reply.rs")], OUT_TECH, OUT_NOTE)
CONV_TECH = ("TLA+ model checking (TLC) of spec/ConvertMC.tla, values crossing every border by every type of field, against invariants over the "
             "ends only (what went on the wire reads back as what was given; nothing arrives that was not given); trace validation: every type and "
             "cardinality of field with every kind and boundary of value, and random messages, run in the real filter with descriptors built for them; "
             "the bytes it sends, stores, adds and answers with are decoded by a codec of our own and compared by TLC with spec/ConvertTrace.tla")
CONV_NOTE = ("4242 single field cases are exhaustive over (type, cardinality) x (kind and boundary of value) in both directions; messages of several "
             "fields, and expressions that build, pick apart, rebuild and pass on messages are random. Text of numbers and rounding to single precision "
             "are computed outside the specification. Not generated: a reply that is itself a Struct, integers above 2^53 and undecodable text in "
             "an exported value.")
CONVS = K + "services/dynamic/converters.rs"
DYNS = K + "services/dynamic.rs"
SEND = K + "kuadrant/pipeline/tasks/send_reply.rs"
prop("C27", "A call carries exactly the values its message was built from, or is not made",
     "A message an expression builds goes into the call as it was built: every field set arrives with the value given, whatever its type "
     "(numbers of every width, text, bytes, enumerations, timestamps, lists, maps, messages, wrappers of free form values), fields not set "
     "are absent. What does not fit the field - another type, a number out of its range, a value the enumeration does not have, another "
     "message, two alternatives of the same choice - fails the action as a call that could not be made; no call with something else goes out.",
     ["inputs"], "every descriptor and every value",
     "tests build a handful of messages with a string, or a number that fits",
     [CONVS, DYNS, DYN], [("message of a call", CONVS), ("dynamic call", DYNS)], CONV_TECH, CONV_NOTE)
prop("C28", "Expressions see exactly what a reply held",
     "The children of a call see the fields of its reply as they were sent: with the value sent, or absent (has() is false) or at their default "
     "exactly where the message definition says an unsent field is, enumerations as numbers, timestamps as timestamps, free form values as the "
     "values they hold. A message taken from a reply and passed on arrives unchanged. A reply that cannot be decoded, or holds a timestamp that "
     "is none, fails the action; it is never read as something else.",
     ["inputs"], "every descriptor and every reply",
     "tests read a boolean, a string and an integer of a reply",
     [CONVS, DYNS, DYN], [("message of a reply", CONVS), ("reply", DYN)], CONV_TECH, CONV_NOTE)
prop("C29", "What is stored, set and answered is what was computed, or nothing",
     "An attribute stored for the proxy, the header pairs of a headers action and the status, body and headers of a deny action are those the "
     "expression evaluated to: every pair in order with its text unchanged, the status as given if it can be one, stored values readable "
     "as what they were. Whatever is not of the form needed is reported as a failure (or, for entries that are no pair of texts, left out), "
     "and never turned into another value.",
     ["inputs"], "every value of every type, in every position",
     "tests use one header or two, one status and one stored string",
     [SEND, HDRS, STO, CONVS], [("deny", SEND), ("headers", HDRS), ("store", STO)], CONV_TECH, CONV_NOTE)
#MORE

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3 lib/setup.py",
             checks=[dict(property=p["id"], quick_cmd="python3 lib/check.py %s quick" % p["id"],
                          thorough_cmd="python3 lib/check.py %s thorough" % p["id"], technique=p["_t"], level=p["_l"],
                          level_note=p["_n"]) for p in P if p["id"] not in na],
             not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
