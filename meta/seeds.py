"""Source of the planted bugs under seeded/: python3 meta/seeds.py ID... (re)creates them.

Each entry: property, edits of /repo [(file, old, new)], what it needs, what it breaks, the demonstration (abstract
program and events, or concrete steps) and a judge over what the host saw."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, mkseed, shim
K = "crates/kuadrant-filter/src/"
PT = K + "kuadrant/pipeline/tasks/"
EXEC = K + "kuadrant/pipeline/executor.rs"
FILT = "crates/wasm-shim/src/filter/kuadrant_filter.rs"
C = lambda f="x": dict(k="C", f=f, w="x")
E = lambda k, f="", w="": dict(k=k, f=f, w=w)
T = E("T")


def act(kind, *reply, pred=T, val=C(), term=False, guard=False, seq=False, mode="deny", fault="none", tgt="", path="", export=False):
    return dict(kind=kind, pred=pred, val=val, term=term, guard=guard, par=not seq, mode=mode if kind == "grpc" else "none",
                fault=fault, kids=list(reply), tgt=tgt, path=path, export=export)


def prog(*top, track=False, trace=False, fail=()):
    acts = {}

    def put(a, aid, parent):
        kids = a.pop("kids")
        a["parent"] = parent
        a["reply"] = ["%s.%d" % (aid, i) for i in range(len(kids))]
        acts[aid] = a
        for i, k in enumerate(kids):
            put(k, "%s.%d" % (aid, i), aid)
    for i, a in enumerate(top):
        put(a, str(i), "")
    return dict(top=[str(i) for i in range(len(top))], acts=acts, track=track, trace=trace, tok0=2, fail=list(fail), root=gen.ROOT)


H, HE = dict(ev="reqh", eos=False), dict(ev="reqh", eos=True)
RH, RHE = dict(ev="resph", eos=False), dict(ev="resph", eos=True)
QB, RB = dict(ev="reqb"), dict(ev="respb")


def R(tok, res="ok", **k):
    return dict(ev="grpc", tok=tok, res=res, **k)


def ch(data, eos=False):
    return dict(data=data, n=len(data), set={}, bad=False, close=False, eos=eos)


def sc(p, events, req=(), resp=()):
    s = dict(prog=p, req=list(req), resp=list(resp), events=events)
    return [dict(ev="configure", config=shim.config(p))] + shim.steps(s) + [dict(ev="ctx_drop", ctx=2)]


# in judges: o[0] configure, o[1] ctx_new, o[2] first event
PRE = '''
o = out[0]["obs"]
def calls(i): return [c["msg"].get("domain") or c["msg"].get("id") if isinstance(c["msg"], dict) else c["msg"] for c in o[i]["calls"]]
def ret(i): return o[i]["ret"]
def resumed(i): return bool(o[i]["resume"])
def reply(i): return [r["status"] for r in (o[i]["reply"] if isinstance(o[i]["reply"], list) else [o[i]["reply"]] if o[i]["reply"] else [])]
def sets(i): return [h for side, l in o[i]["hdr_sets"] for h in l]
'''
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, scenario, judge):
    SEEDS[sid] = dict(prop=prop, edits=edits, d=dict(needs=needs, breaks=breaks, scenario=scenario, judge=PRE + judge))


seed("b01", "C02", [(PT + "dynamic.rs", """        if is_guard {
            ctx.barrier.raise();
        }
""", """        // the stream is already held while another guard waits
        let is_guard = is_guard && !ctx.barrier.is_tripped();
        if is_guard {
            ctx.barrier.raise();
        }
""")], "two guard calls outstanding at once, the one made first answered first",
     "the stream resumes while the second guard has no reply",
     sc(prog(act("grpc", guard=True), act("grpc", guard=True)), [HE, R(2), R(3), RHE]),
     '''
if ret(2) != "Pause" or len(calls(2)) != 2: fail("setup %s" % o[2])
if resumed(3): fail("resumed while a guard is waiting")
if not resumed(4): fail("never resumed")
''')
seed("b02", "C03", [(PT + "dynamic.rs", """                        && ctx.request_body.is_end_of_stream())
                        || (self.message_builder.has_response_body_deps()
                            && ctx.response_body.is_end_of_stream())
                    {
                        TaskOutcome::Failed
""", """                        && ctx.request_body.is_end_of_stream())
                        || (self.message_builder.has_response_body_deps()
                            && ctx.response_body.is_end_of_stream())
                    {
                        // nothing to send, the body had no such value
                        TaskOutcome::Done
""")], "a call whose message needs a value of the request body, and a body that ends without it",
     "the request goes through without the call although its service fails closed",
     sc(prog(act("grpc", val=E("RQB", "f"), guard=True)), [H, QB], req=[ch('{"g":1}', True)]),
     '''
if 500 not in reply(3): fail("no 500 for a call that could not be made")
''')
seed("b03", "C04", [(PT + "dynamic.rs", """            error!("Failed to get response CEL value: {e}");
            return TaskOutcome::Failed;
""", """            error!("Failed to get response CEL value: {e}");
            return TaskOutcome::Terminate(Box::new(
                crate::kuadrant::pipeline::tasks::SendReplyTask::default(),
            ));
""")], "a service that fails open answers with status 0 and bytes that are not its reply message, to an action with onReply",
     "the client gets a 500 although the service fails open",
     sc(prog(act("grpc", act("headers", tgt="req"), mode="allow", guard=True)), [HE, R(2, "garbage"), RHE]),
     '''
if reply(3): fail("a reply %s for a service that fails open" % reply(3))
if not resumed(3): fail("still held")
''')
seed("b04", "C05", [(EXEC, """        let deferred = std::mem::take(&mut self.deferred_tasks);
        self.deferred_tasks = deferred
            .into_iter()
            .map(|(token_id, task)| {
""", """        let deferred = std::mem::take(&mut self.deferred_tasks);
        self.deferred_tasks = deferred
            .into_iter()
            .map(|(token_id, task)| {
                if !task.is_guard() {
                    // fire-and-forget calls do not hold the stream, let them run to their end
                    return (token_id, task);
                }
""")], "a call that is not a guard is outstanding when another action answers the request, and its reply arrives late",
     "actions on the late reply run for an answered request",
     sc(prog(act("grpc", act("grpc")), act("deny", term=True)), [HE, R(2)]),
     '''
if reply(2) != [402] and not reply(2): fail("setup")
if calls(3): fail("a call after the request was answered: %s" % calls(3))
''')
seed("b05", "C06", [(K + "kuadrant/pipeline/blueprint.rs", """                        let deps = last_fence.clone();
                        pending_parallel.push(id);
""", """                        let deps = last_fence.clone();
                        // only calls take time, anything else has run by the time a fence is reached
                        if matches!(typed.operation, configuration::Operation::Grpc(_)) {
                            pending_parallel.push(id);
                        }
""")], "a parallel action that is not a call waits for a body or for the response, followed by a sequential action",
     "the sequential action runs before the parallel one has finished",
     sc(prog(act("store", val=E("RQB", "f"), path="sc"), act("headers", tgt="req", seq=True)), [H, QB], req=[ch('{"f":"v"}', True)]),
     '''
if sets(2): fail("headers changed before the value was stored")
if not sets(3): fail("headers never changed")
''')
seed("b06", "C07", [(EXEC, """        if let Some(pending) = self.deferred_tasks.remove(&token_id) {
""", """        // with a single call outstanding the reply can only be for that one
        let pending = match self.deferred_tasks.remove(&token_id) {
            None if self.deferred_tasks.len() == 1 => {
                self.deferred_tasks.pop_first().map(|(_, task)| task)
            }
            pending => pending,
        };
        if let Some(pending) = pending {
""")], "a reply under a token that is not outstanding while one call is",
     "the action of the outstanding call gets the reply of another call, and its own reply is lost",
     sc(prog(act("grpc", act("headers", tgt="req", val=E("VAR", "0")), guard=True)), [HE, R(9, "over", force=True), R(2, "ok")]),
     '''
if sets(3) or resumed(3): fail("a stray reply was taken for the outstanding call's")
if not sets(4) or not resumed(4): fail("the call's own reply was ignored")
''')
seed("b09", "C09", [(K + "kuadrant/context.rs", """    task_id == scope_id || task_id.starts_with(&format!("{}.", scope_id))
""", """    task_id.starts_with(scope_id)
""")], "more than ten top level actions: action 10 or later follows a reply of action 1 and names its variable",
     "the variable of action 1 is visible to action 10, which never waited for nor belongs to that reply",
     sc(prog(*([act("grpc", act("headers", tgt="req"), mode="allow")] * 0),
             act("fail"), act("grpc", act("headers", tgt="req"), mode="allow"), *[act("fail") for _ in range(8)],
             act("headers", tgt="req", val=E("VAR", "1"), seq=True)), [HE, R(2, "ok")]),
     '''
if any(n == "x-a10" for n, v in sets(3)): fail("action 10 saw the variable of action 1")
if not any(n == "x-a1-0" for n, v in sets(3)): fail("setup")
''')
seed("b16", "C16", [(PT + "headers.rs", """                    Ok(AttributeState::Pending) => TaskOutcome::Requeued(vec![self]),
                    Err(e) => {
                        error!("Failed to set attribute map: {e:?}");
""", """                    Ok(AttributeState::Pending) => TaskOutcome::Requeued(vec![self]),
                    Err(e) if self.terminal => {
                        error!("Failed to set attribute map, trying again later: {e:?}");
                        TaskOutcome::Requeued(vec![self])
                    }
                    Err(e) => {
                        error!("Failed to set attribute map: {e:?}");
""")], "a terminal header action on the reply of a call, whose header change the host refuses",
     "the failed change is retried for ever instead of failing the call's action",
     sc(prog(act("grpc", act("headers", tgt="req", term=True), mode="deny", guard=True), fail=["setreq"]), [HE, R(2, "ok")]),
     '''
if 500 not in reply(3): fail("the failure had no consequence: %s" % o[3])
''')
seed("b22", "C22", [(PT + "failure_mode.rs", """            TaskOutcome::Failed => {
                METRICS.errors().increment();
                if self.abort {
""", """            TaskOutcome::Failed => {
                if self.abort {
                    METRICS.errors().increment();
""")], "a service that fails open fails", "the failure is not counted",
     sc(prog(act("grpc", mode="allow", guard=True)), [HE, R(2, "status")]),
     '''
if not any("errors" in str(m) for m in o[3]["metrics"]): fail("no error counted")
''')


def main(ids):
    for sid in ids or SEEDS:
        s = SEEDS[sid]
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        try:
            for f, a, b in s["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                assert t.count(a) == 1, (sid, f, t.count(a))
                open(p, "w").write(t.replace(a, b))
            mkseed.main(sid, s["prop"], s["d"])
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


main(sys.argv[1:])
