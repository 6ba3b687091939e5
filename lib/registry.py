"""Which parts decide which property, and with which scenario families."""
import attrs, body, convert, descriptors, findings, out, routing, shimcheck, texts

HOST = ["a simulated Envoy delivers callbacks by the rules of proxy-wasm (see DESIGN.md)"]


def shim(*profiles, mc=(500, 8000), rnd=(2500, 40000), beh=(3000, 60000)):
    def part(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        return shimcheck.run(prop, profiles, mc[i], rnd[i], beh[i], seed, cov), []
    return part


def many(reconf, *profiles, n=(4000, 60000)):
    def part(prop, tier, seed, cov):
        return shimcheck.interleaved(prop, profiles, n[0 if tier == "quick" else 1], seed, cov, reconf), []
    return part


def legacy(*profiles, mc=(120, 1500), rnd=(3000, 40000), beh=(2000, 40000)):
    def part(prop, tier, seed, cov):
        i = 0 if tier == "quick" else 1
        return shimcheck.run_legacy(prop, profiles, mc[i], rnd[i], beh[i], seed, cov), []
    return part


T = dict(T=20, F=0.5, ERR=0.2, BAD=0.2, X=3)
GUARDS = dict(guard=0.85, kinds=dict(grpc=9, deny=1, headers=1.5, store=1, fail=0.3), preds=T, par=0.5, track=0.05,
              trace=0.05)
NOGUARD = dict(guard=0.1, kinds=dict(grpc=8), preds=T)
FAILS = dict(kinds=dict(grpc=9, deny=0.7, headers=2, store=1, fail=0.5), faults=dict(none=7, dispatch=2, nodesc=2),
             res=dict(ok=6, over=2, status=5, garbage=4, empty=1), preds=dict(T=12, ERR=1.5, BAD=1.5, F=0.5, X=4),
             exprs=dict(C=10, ERR=1.5, BAD=1, RQB=1, RSB=1, VAR=3), hostfail=0.15)
DENY = dict(FAILS, deny=1.0)
ALLOW = dict(FAILS, deny=0.0)
TERM = dict(kinds=dict(grpc=6, deny=5, headers=2, store=2, fail=3), term=0.7, preds=dict(T=12, F=1, X=6))
ORDER = dict(ntop=(3, 6), depth=1, nested=0.25, par=0.5, preds=T, kinds=dict(grpc=7, headers=4, store=2, deny=0.7, fail=0.5),
             res=dict(ok=14, over=3, status=1, garbage=0.7, empty=0.2), faults=dict(none=20, dispatch=0.5, nodesc=0.5), body=0.4)
CALLS = dict(ntop=(2, 5), kinds=dict(grpc=12, headers=2, store=0.5, deny=0.4, fail=0.2), par=0.8, preds=T,
             exprs=dict(VAR=5), nested=0.6, force=0.08, res=dict(ok=10, over=6, status=1.5, garbage=0.5, empty=0.3))
NEST = dict(kinds=dict(grpc=7, headers=4, deny=1, store=2, fail=0.6), nested=0.95, exprs=dict(VAR=9, C=6), preds=dict(T=8, X=9),
            ntop=(1, 3), res=dict(ok=10, over=7, status=1, garbage=0.7, empty=0.3))
WIDE = dict(NEST, ntop=(11, 13), wide=True, foreign=0.6, kinds=dict(grpc=2, headers=6, deny=0.1, store=1, fail=2), depth=1, par=0.75,
            nested=0.5, term=0.02, deny=0.1, preds=dict(T=20, X=2, F=0.5, ERR=0.2, BAD=0.2), hostfail=0.02,
            exprs=dict(C=10, VAR=4, ST=0.2, RQB=0.2, RSB=0.2, ERR=0.1, BAD=0.1), faults=dict(none=20), res=dict(ok=10, over=6, status=1, garbage=0.3, empty=0.1))
STORES = dict(kinds=dict(grpc=4, store=7, headers=4, deny=1.5, fail=0.7), exprs=dict(ST=12, C=6, RQB=2, RSB=2, VAR=2), export=0.5,
              preds=dict(T=8, X=9), ntop=(2, 5), term=0.15)
HEADERS = dict(kinds=dict(grpc=5, headers=9, store=1, deny=0.7, fail=0.4), resptgt=0.75, hostfail=0.12, term=0.2, ntop=(1, 5),
               preds=dict(T=14, X=5), exprs=dict(C=10, RSB=2, ST=2, VAR=3))
BODIES = dict(kinds=dict(grpc=5, store=5, headers=4, deny=1.5, fail=1), exprs=dict(RQB=9, RSB=9, C=3, ST=3), preds=dict(T=8, X=8),
              body=0.95, force=0)

AUTH = dict(svc=dict(auth=8, rl=1, check=1, report=1), rdata=0.6)
RATE = dict(svc=dict(auth=1.5, rl=5, check=5, report=0.7), nblock=(0, 1, 1, 2, 3), rdata=0.6)
REPORT = dict(svc=dict(auth=2, rl=0.7, check=2, report=6), rdata=0.8, vx=dict(RSB=4, RQB=1), px=dict(RSB=1.5), nblock=(0, 1, 1, 2))

CHECKS = {
    "C10": dict(parts=[findings.probe, legacy((3, AUTH), (1, dict(AUTH, px=dict(AU=8), hostfail=0.1)))]),
    "C11": dict(parts=[findings.probe, legacy((3, RATE), (1, {}))]),
    "C12": dict(parts=[legacy((3, REPORT), (1, {}))]),
    "C01": dict(parts=[routing.part()]),
    "C14": dict(parts=[routing.part(), many(True, (1, {}), (1, GUARDS), (1, NEST), (1, STORES))]),
    "C13": dict(parts=[descriptors.part()]),
    "C17": dict(parts=[findings.probe, body.part(False)]),
    "C18": dict(parts=[body.stream_part(), body.part(True, n_rnd=(4000, 60000))]),
    "C19": dict(parts=[attrs.part(0.7)]),
    "C24": dict(parts=[attrs.part(0.25)]),
    "C26": dict(parts=[texts.part()]),
    "C20": dict(parts=[many(False, (1, {}), (1, FAILS), (1, NEST), (1, STORES), (1, BODIES), (1, GUARDS))]),
    "C02": dict(parts=[shim((3, GUARDS), (1, NOGUARD), (1, {}))]),
    "C03": dict(parts=[shim((3, DENY), (1, FAILS))]),
    "C04": dict(parts=[shim((3, ALLOW), (1, FAILS))]),
    "C05": dict(parts=[shim((3, TERM), (1, FAILS))]),
    "C06": dict(parts=[shim((3, ORDER), (1, dict(ORDER, guard=0.9)))]),
    "C07": dict(parts=[shim((3, CALLS), (1, NEST))]),
    "C08": dict(parts=[shim((1, GUARDS), (1, FAILS), (1, TERM), (1, BODIES), (1, ORDER))]),
    "C09": dict(parts=[shim((3, NEST), (1, dict(NEST, **{k: FAILS[k] for k in ("faults", "res")})), (1.5, WIDE))]),
    "C15": dict(parts=[shim((3, STORES), (1, {}))]),
    "C16": dict(parts=[shim((3, HEADERS), (1, {}))]),
    "C21": dict(parts=[out.part()]),
    "C23": dict(parts=[out.part(n_mc=(16, 60), n_rnd=(1200, 30000))]),
    "C25": dict(parts=[out.part(n_mc=(16, 60), n_rnd=(1200, 30000))]),
    "C27": dict(parts=[convert.part(0.8)]),
    "C28": dict(parts=[convert.part(0.2)]),
    "C29": dict(parts=[convert.part(0.1)]),
    "C22": dict(parts=[shim((1, FAILS), (1, TERM), (1, {}))]),
}
for c in CHECKS.values():
    c.setdefault("assumptions", HOST)
