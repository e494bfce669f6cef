"""Runs the rule of one property, prints the verdict and writes the evidence file."""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

from .common import REPO, Report
from .engine import Incomplete

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["rules_wire", "rules_ser", "rules_session", "rules_dealer", "rules_broker", "rules_auth", "rules_join", "rules_prim", "rules_misc",
           "rules_values", "rules_handling"]


def rules():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("vlib." + m)
        except ModuleNotFoundError as e:
            if e.name == "vlib." + m:
                continue
            raise
        out.update(mod.RULES)
    return out


def known(pid):
    """(known findings, fixed entries) of this property."""
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    kn = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                kn.append(line.split(" ", 2)[2])
    return kn


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    rs = rules()
    if a.list:
        print("\n".join(sorted(rs)))
        return 0
    pid = a.property
    if pid not in rs:
        print(f"unknown property {pid}")
        return 2
    sys.setrecursionlimit(20000)
    t = time.time()
    rep = Report(pid)
    status = None
    try:
        rs[pid](rep, a.tier)
    except Incomplete as e:
        rep.open("analysis completes", "-", f"{type(e).__name__}: {e}")
    except RecursionError:
        rep.open("analysis completes", "-", "recursion limit")
    except Exception as e:  # a defect of the analyser is no verdict about the code
        traceback.print_exc()
        rep.open("analysis completes", "-", f"internal error: {type(e).__name__}: {e}")
    return finish(rep, a, time.time() - t)


def finish(rep, a, secs):
    kn = known(rep.pid)
    viol, found = [], []
    for o in rep.obs:
        if o["status"] != "violated":
            continue
        hit = [k for k in kn if k == o["name"]]
        (found if hit else viol).append(o)
    opens = [o for o in rep.obs if o["status"] == "open"]
    for e in rep.engines:
        for u in sorted(e.unsupported):
            opens.append({"status": "open", "name": "construct supported", "where": str(u), "detail": "", "n": 1})
    n_ok = rep.count("ok")
    if not viol and n_ok == 0 and not opens:
        opens.append({"status": "open", "name": "obligations found", "where": "-", "detail": "nothing was analysed", "n": 1})
    verdict = "violation" if viol else "incomplete" if opens else "holds"
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    funcs, calls = set(), set()
    for e in rep.engines:
        funcs |= set(e.visited)
        calls |= {str(c) for c in e.callsites}
    if rep.engines:
        stats = rep.engines[0].src.stats()
        digest = rep.engines[0].src.digest.hexdigest()
    else:
        stats, digest = {}, ""
    for o in found:
        print(f"KNOWN-FINDING: property={rep.pid} {o['name']} at {o['where']}")
    report = None
    if viol:
        report = os.path.join(ev_dir, f"{rep.pid}.violation.txt")
        with open(report, "w") as fh:
            for o in viol:
                fh.write(f"property {rep.pid} is violated\n  obligation: {o['name']}\n  construct:  {o['where']}\n"
                         f"  detail:     {o['detail']}\n  paths:      {o['n']}\n\n")
    write_evidence(rep, a, verdict, secs, funcs, calls, stats, digest, viol, opens, found, ev_dir)
    print(f"{rep.pid}: {n_ok} obligations discharged, {sum(o['n'] for o in viol)} violated, "
          f"{sum(o['n'] for o in opens)} open; {len(rep.ops)} operations, {rep.paths} paths, {len(funcs)} functions, "
          f"{len(calls)} call sites; {secs:.1f}s")
    for o in (viol + opens)[: (200 if a.verbose else 12)]:
        print(f"  {o['status'].upper()} {o['name']} @ {o['where']} x{o['n']}: {o['detail'][:600]}")
    if viol:
        print(f"VIOLATION property={rep.pid} replay={report}")
        return 1
    if opens:
        # "held on everything explored": what could not be decided is reported here and in the evidence, it is not an alarm
        print(f"INCOMPLETE property={rep.pid} undecided={sum(o['n'] for o in opens)}")
        return 0 if n_ok else 2
    return 0


def write_evidence(rep, a, verdict, secs, funcs, calls, stats, digest, viol, opens, found, ev_dir):
    names = {}
    for o in rep.obs:
        if o["status"] == "ok":
            names[o["name"]] = names.get(o["name"], 0) + o["n"]
    ops = {}
    for n, k in rep.ops:
        ops[n] = ops.get(n, 0) + k
    discharged = rep.count("ok")
    total = sum(o["n"] for o in rep.obs)

    def short(os_):
        return [{"obligation": o["name"], "construct": o["where"], "detail": o["detail"][:400], "paths": o["n"]} for o in os_[:25]]

    ev = {
        "property": rep.pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source (abstract interpretation over the syntax tree; nothing is "
                           "executed). Every path of each operation below was summarised from an arbitrary abstract "
                           "pre-state and the rule checked on each path.",
            "rule": rep.rules,
            "verdict": verdict,
            "obligations": total,
            "discharged": discharged,
            "operations_analysed": dict(list(ops.items())[:150]),
            "paths_analysed": rep.paths,
            "functions_analysed": len(funcs),
            "call_sites_resolved": len(calls),
            "functions_sample": sorted(funcs)[:120],
            "obligations_sample": dict(list(sorted(names.items()))[:150]),
            "distinct_obligations": len(names),
            "abstract_states": sum(e.nstates for e in rep.engines),
            "source": stats,
            "source_sha256": digest,
            "violated": short(viol),
            "open": short(opens),
            "known_findings": short(found),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(secs, 3),
        "violations": len(viol),
    }
    with open(os.path.join(ev_dir, rep.pid + ".json"), "w") as fh:
        fh.write(json.dumps(ev, indent=1)[:64000] if len(json.dumps(ev, indent=1)) <= 64000 else json.dumps(slim(ev), indent=1))
        fh.write("\n")


def slim(ev):
    c = ev["coverage"]
    for k in ("functions_sample", "obligations_sample", "operations_analysed"):
        v = c[k]
        c[k] = v[:40] if isinstance(v, list) else dict(list(v.items())[:40])
    return ev


ASSUMPTIONS = [
    "The models of Python built-ins and of json, cbor2, msgpack, hmac, hashlib, nacl, secrets and random in vlib/models.py "
    "describe what those libraries do.",
    "No monkey-patching, reflection on private state or subclass overrides from outside the package.",
    "Operations run one at a time on one object (the library is single-threaded by design).",
    "Iterations of a loop over a collection of unknown size only interact through the loop-carried locals and containers that "
    "the analysis tracks.",
]
