"""Building the harness, running scenarios and TLC."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TGT = os.path.join(BUILD, "tgt")
BIN = os.path.join(TGT, "debug", "vharness")
SPEC = os.path.join(VERIF, "spec")
NPROC = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    cmd = '. /opt/vp/env.sh; cd %s/harness && CARGO_TARGET_DIR=%s $CARGO build --offline' % (VERIF, TGT)
    p = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(BIN):
        sys.stderr.write(p.stdout[-2000:] + p.stderr[-6000:])
        raise ToolError("the harness does not build against /repo")


def workdir(name):
    d = os.path.join(BUILD, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_scenarios(scs, wd, name="sc"):
    """Run scenarios (dicts with id, steps) in parallel processes; results in order."""
    n = max(1, min(NPROC, len(scs)))
    procs = []
    for k in range(n):
        f = os.path.join(wd, "%s%d.jsonl" % (name, k))
        with open(f, "w") as h:
            for s in scs[k::n]:
                h.write(json.dumps(s) + "\n")
        o = os.path.join(wd, "%s%d.out" % (name, k))
        procs.append((k, o, subprocess.Popen([BIN, f, o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = [None] * len(scs)
    for k, o, p in procs:
        try:
            _, err = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            err = b"timeout"
        lines = open(o).read().split("\n")[:-1] if os.path.exists(o) else []
        mine = list(range(k, len(scs), n))
        for i, l in zip(mine, lines):
            try:
                res[i] = json.loads(l)
            except ValueError:
                pass
        if p.returncode != 0:
            # the code under test aborted the process, or never returned: the first missing scenario did it
            for i in mine:
                if res[i] is None:
                    res[i] = {"id": scs[i].get("id"), "fatal": "aborted or hung (%s)" % p.returncode, "obs": []}
                    rest = [j for j in mine if res[j] is None]
                    if rest:
                        sub = run_scenarios([scs[j] for j in rest], wd, name + "r%d_" % k)
                        for j, r in zip(rest, sub):
                            res[j] = r
                    break
    return res


def tlc(module, wd, env=None, cfg=None, workers=None, extra=(), timeout=800, heap="6g"):
    """Run TLC on spec/<module>.tla; returns its output. Raises ToolError unless it ran to an end."""
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
    meta = os.path.join(wd, "meta-" + module + str(time.time_ns()))
    cmd = ["tlc", "-workers", str(workers or NPROC), "-metadir", meta, "-noGenerateSpecTE", "-config",
           cfg or os.path.join(SPEC, module + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=wd)
    shutil.rmtree(meta, ignore_errors=True)
    if "Parsing or semantic analysis failed" in p.stdout:
        raise ToolError("TLC: " + p.stdout[-3000:])
    return p.returncode, p.stdout + p.stderr


def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def unquote(s):
    """A string as TLC prints it."""
    return s.replace('\\"', '"').replace("\\\\", "\\")
