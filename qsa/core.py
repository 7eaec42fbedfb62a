"""Obligation bookkeeping, known findings, evidence and the command-line driver."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from .absint import Budget, Interp, Policy
from .model import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QSA_REPO", "/repo")


class Ob:
    __slots__ = ("rule", "construct", "ok", "detail", "loc")

    def __init__(self, rule, construct, ok, detail="", loc=""):
        self.rule, self.construct, self.ok, self.detail, self.loc = rule, construct, ok, detail, loc


class Ctx:
    def __init__(self, prop: str, prog: Program, tier: str):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.obs: list[Ob] = []
        self.stats: dict = {}
        self.rules: dict[str, str] = {}
        self.floors: dict[str, int] = {}
        self.assumptions: list[str] = []
        self.visited: set = set()

    def rule(self, rid: str, text: str, floor: int = 1):
        """declare a rule; `floor` = least number of instances on a healthy tree (vacuity guard)"""
        self.rules[rid] = text
        self.floors[rid] = floor

    def ob(self, rule, construct, ok, detail="", loc=""):
        """ok: True discharged, False violated, None undecided (quiet)."""
        assert rule in self.rules, rule
        self.obs.append(Ob(rule, str(construct), ok, str(detail), loc))
        return ok

    def interp(self, **kw) -> Interp:
        I = Interp(self.prog, kw.pop("policy", None) or Policy(**{k: kw.pop(k) for k in list(kw) if k in ("opaque", "depth", "inline", "only", "ctor_fields", "rec", "obj", "strict", "unroll")}), **kw)
        I.visited = self.visited
        return I

    def fn(self, q):
        f = self.prog.fn(q)
        if f is None:
            self.stats.setdefault("anchors_missing", []).append(q)
        return f

    def cls(self, q):
        c = self.prog.cls(q)
        if c is None:
            self.stats.setdefault("anchors_missing", []).append(q)
        return c

    def guard(self, rule, construct, thunk):
        """run one obligation's analysis; an analysis failure is undecided, never an alarm"""
        try:
            return thunk()
        except Budget:
            self.ob(rule, construct, None, "analysis budget exhausted")
        except RecursionError:
            self.ob(rule, construct, None, "recursion limit")
        except Exception as e:  # robustness on rewritten code
            if os.environ.get("QSA_DEBUG"):
                tb = traceback.extract_tb(e.__traceback__)[-1]
                key = (tb.filename, tb.lineno)
                if key not in self.stats.setdefault("_tb", set()):
                    self.stats["_tb"].add(key)
                    print(f"DEBUG {construct}: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")
            self.ob(rule, construct, None, f"analysis could not follow this shape: {type(e).__name__}: {e}")


def load_known():
    """`known: property=P | rule=R | construct=C | what` lines; `fixed:` lines suppress nothing."""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = [x.strip() for x in line[len("known:"):].split(" | ")]
            d = {}
            for x in parts[:3]:
                k, _, v = x.partition("=")
                d[k.strip()] = v.strip()
            d["what"] = parts[3] if len(parts) > 3 else ""
            out.append(d)
    return out


def run(prop: str, module: str, tier: str) -> int:
    t0 = time.time()
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prog = Program(REPO)
    ctx = Ctx(prop, prog, tier)
    mod = importlib.import_module(f"qsa.checks.{module}")
    getattr(mod, "check")(ctx)
    known = [k for k in load_known() if k.get("property") == prop]
    kset = {(k["rule"], k["construct"]): k for k in known}
    viol, kn, und, okc = [], [], [], 0
    for o in ctx.obs:
        if o.ok is True:
            okc += 1
        elif o.ok is False:
            (kn if (o.rule, o.construct) in kset else viol).append(o)
        else:
            und.append(o)
    counts: dict = {}
    for o in ctx.obs:
        d = counts.setdefault(o.rule, {"instances": 0, "held": 0, "violated": 0, "undecided": 0})
        d["instances"] += 1
        d["held" if o.ok is True else "violated" if o.ok is False else "undecided"] += 1
    seen = set()
    for o in kn:
        if (o.rule, o.construct) in seen:
            continue
        seen.add((o.rule, o.construct))
        print(f"KNOWN-FINDING: property={prop} rule={o.rule} {o.construct}: {kset[(o.rule, o.construct)]['what'] or o.detail[:300]}")
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, f"{prop}.violation.json")
    vs = []
    for o in viol:
        vs.append({"rule": o.rule, "rule_text": ctx.rules[o.rule], "construct": o.construct, "where": o.loc, "detail": o.detail})
    if vs:
        with open(replay, "w") as fh:
            json.dump({"property": prop, "violations": vs, "rerun": f"python3 -m qsa {prop}"}, fh, indent=1)
    elif os.path.exists(replay):
        os.unlink(replay)
    low = {r: (counts.get(r, {}).get("instances", 0), n) for r, n in ctx.floors.items() if counts.get(r, {}).get("instances", 0) < n}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo's current source; no code of the repository is executed",
            "technique": (mod.__doc__ or "").strip().split("\n\n")[0],
            "modules_parsed": len(prog.modules),
            "lines_parsed": prog.n_lines,
            "functions_in_program": sum(1 for _ in prog.functions()),
            "functions_analysed": len(ctx.visited),
            "rules": ctx.rules,
            "instances_per_rule": counts,
            "obligations": len(ctx.obs),
            "discharged": okc,
            "undecided": [f"{o.rule} {o.construct}: {o.detail[:200]}" for o in und][:300],
            "known_findings": [f"{o.rule} {o.construct}" for o in kn],
            "below_floor": {k: f"{a} < {b}" for k, (a, b) in low.items()},
            "samples": [f"{o.rule} {o.construct} {o.loc}" for o in ctx.obs[:60]],
            **{k: v for k, v in ctx.stats.items() if not k.startswith("_")},
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": ctx.assumptions,
        "violations": [f"{v['rule']} {v['construct']} ({v['where']}): {v['detail']}" for v in vs],
    }
    with open(os.path.join(outdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop}: {len(ctx.obs)} obligations, {okc} discharged, {len(und)} undecided, {len(kn)} known, {len(viol)} violated "
          f"({len(ctx.visited)} functions analysed, {time.time()-t0:.1f}s)")
    for r, (a, b) in low.items():
        print(f"NOTE: rule {r} has {a} instances, fewer than the {b} expected (code moved?)")
    if viol:
        for o in viol:
            print(f"  [{o.rule}] {o.construct} at {o.loc}: {o.detail[:600]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if ctx.obs == [] or okc == 0:
        print(f"ERROR: no obligation could be decided for {prop}; the code this check anchors on is gone")
        return 2
    return 0
