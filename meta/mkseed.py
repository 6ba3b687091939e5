"""mkseed.py ID PROPERTY: turn the working-tree change of /repo into seeded/ID (patch, demo, meta) and undo it.

The demo is read from stdin: a JSON object {needs, breaks, scenario: [steps...] or [scenarios...], judge: python source}.
The judge gets `out`, the list of recorded scenarios, and must `fail(msg)` when the property is broken.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(sid, prop, d):
    t = os.path.join(V, "seeded", sid)
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    assert diff.strip(), "no change in /repo"
    open(os.path.join(t, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(t, "meta.json"), "w"), indent=1)
    scs = d["scenario"]
    if scs and "ev" in scs[0]:
        scs = [dict(id="0", steps=scs)]
    with open(os.path.join(t, "scenario.jsonl"), "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    with open(os.path.join(t, "judge.py"), "w") as f:
        f.write('''import json, sys
out = [json.loads(l) for l in open(sys.argv[1])]


def fail(m):
    print("BROKEN:", m)
    sys.exit(1)


for o in out:
    if o.get("fatal") or o.get("drop_panic") or any(x.get("panicked") for x in o["obs"]):
        fail("the filter panicked")
''' + d["judge"] + '\nprint("ok")\n')
    shutil.copytree(os.path.join(V, "harness"), os.path.join(t, "harness"), ignore=shutil.ignore_patterns("target"))
    with open(os.path.join(t, "demo.sh"), "w") as f:
        f.write('''#!/bin/bash
# Drives the real filter (compiled from /repo) with scenario.jsonl; judge.py looks at what the host saw.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
cp -r "$here/harness" "$w/harness"
cd "$w/harness" || exit 3
CARGO_TARGET_DIR="$w/t" $CARGO build --offline >"$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
"$w/t/debug/vharness" "$here/scenario.jsonl" "$w/out.jsonl" || exit 4
python3 "$here/judge.py" "$w/out.jsonl"
''')
    os.chmod(os.path.join(t, "demo.sh"), 0o755)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], json.loads(sys.stdin.read()))
