"""Gated value-dependence (taint) analysis from each execution option to the backend call it must reach.

For every public execution entry point the function is evaluated over symbolic options under the assumption
"this option was supplied"; every non-raising leaf of the resulting value must carry the supplied option in
the argument slot of that name of the backend call.
"""
from __future__ import annotations

from ..absint import Policy
from ..model import Class
from ..util import *

TERMINALS = {"run", "sample", "expectation", "compute_expectation"}
OPTS = {
    "run": ["values", "state", "endianness"],
    "sample": ["values", "n_shots", "state", "noise", "mitigation", "endianness"],
    "expectation": ["values", "observable", "state", "measurement", "noise", "mitigation", "endianness"],
}
OPAQUE = ("backend_factory",)


def slot(arg: str) -> list[str]:
    return {"values": ["param_values"], "param_values": ["param_values"], "observable": ["observable", "observables"]}.get(arg, [arg])


def carries(ctx, rule, construct, f, ret, opt, sigs, loc, exact_slot=True, strict=True):
    p = P(opt)
    n = 0
    bad = None
    for leaf, g in leaves(ret):
        if is_raise(leaf):
            continue
        n += 1
        path = " and ".join(f"{'' if v else 'not '}{show(c, 3)}" for c, v in g) or "always"
        if not contains(leaf, p):
            bad = f"on path [{path}] the result {show(leaf, 3)[:160]} does not depend on the supplied '{opt}'"
            break
        if not exact_slot:
            continue
        for c in calls(leaf):
            nm = callee_name(c)
            if nm not in TERMINALS:
                continue
            a = with_signature(c, sigs.get(nm, []))
            if not any(k in a for k in slot(opt)) and any(k in sigs.get(nm, ()) for k in slot(opt)) and not any(
                    not isinstance(k, (str, int)) or str(k).startswith("*") for k in a) and not (c.op == "partial" and opt in ("values", "param_values")):
                bad = f"on path [{path}] the {nm} call {show(c, 3)[:160]} is not given the supplied '{opt}'"
                break
            for s in slot(opt):
                if s not in a:
                    continue
                for v, gg in leaves(a[s]):
                    if not contains(v, p) and not is_raise(v):
                        bad = f"on path [{path}] '{s}' of the {nm} call is {show(v, 3)[:120]} instead of the supplied '{opt}'"
                    elif opt in ("n_shots",) and v is not p and v.op in ("bin", "un"):
                        bad = f"on path [{path}] '{s}' of the {nm} call is {show(v, 3)}: the supplied '{opt}' is altered"
            for k, v in a.items():
                # the option must not land in a foreign slot of the same call
                if v is p and isinstance(k, str) and k not in slot(opt) and k in ("state", "endianness", "noise", "measurement", "mitigation", "n_shots"):
                    bad = f"on path [{path}] the supplied '{opt}' is passed as '{k}'"
    if n == 0 and bad is None:
        return ctx.ob(rule, construct, None, "no returning path found", loc)
    return ctx.ob(rule, construct, bad is None, bad or "", loc)


def check(ctx):
    prog = ctx.prog
    ctx.rule("forward", "every option supplied to a public execution entry point reaches the backend call, on every path", 60)
    ctx.rule("default", "an option fixed at model construction is used when the call does not supply one", 5)
    ctx.rule("backend", "inside each backend the outcome depends on every supported option", 20)
    ctx.rule("protocol", "measurement protocols hand state, noise and shots on to the sampling backend", 8)
    ctx.rule("select", "backend name, configuration and differentiation mode select the backend that executes", 20)
    bcls = ctx.cls("qadence.backend.Backend")
    sigs = {}
    if bcls:
        for m in ("run", "sample", "expectation"):
            f = bcls.method(m)
            if f:
                sigs[m] = f.params[1:]

    # -- functional interface, every overload ------------------------------------------
    for name in ("run", "sample", "expectation"):
        g = ctx.fn(f"qadence.execution.{name}")
        if g is None:
            continue
        over = prog.dispatch().get(g.qual, [])
        core = None
        for tys, f in over:
            if any(isinstance(t, Class) and t.name == "QuantumCircuit" for t in tys):
                core = f
        if core is None:
            continue
        opts = [o for o in core.params if o not in ("circuit",)]
        for tys, f in over:
            oname = overload_name(f)
            for opt in opts:
                def one(f=f, opt=opt, oname=oname):
                    binds = {}
                    if f.node.args.kwarg is not None:
                        names = [o for o in opts if o not in f.params]
                        binds[f.node.args.kwarg.arg] = mk("dict", tuple((const(o), P(o)) for o in names))
                    I = ctx.interp(opaque=OPAQUE)
                    ret, _ = I.run(f, bindings=binds, facts=given(opt))
                    if opt in ("backend", "configuration", "diff_mode"):
                        carries(ctx, "select", f"{oname}:{opt}", f, ret, opt, sigs, f.loc, exact_slot=False)
                    else:
                        is_list = any(isinstance(t, tuple) and t[1] == "builtins.list" for t in tys)
                        carries(ctx, "forward", f"{oname}:{opt}", f, ret, opt, sigs, f.loc, exact_slot=not is_list)
                ctx.guard("forward", f"{oname}:{opt}", one)

    # -- model classes -------------------------------------------------------------------
    base = ctx.cls("qadence.model.QuantumModel")
    models = [base] + prog.subclasses(base.qual) if base else []
    for c in models:
        for m in ("run", "sample", "expectation", "forward"):
            f = c.method(m)
            if f is None or (f.cls is not c and c is not base):
                continue
            for opt in f.params[1:]:
                if opt not in {o for v in OPTS.values() for o in v}:
                    continue
                def one(f=f, opt=opt, c=c):
                    I = ctx.interp(opaque=OPAQUE)
                    ret, _ = I.run(f, facts=given(opt), exact=c)
                    # a model may reject everything (e.g. not implemented)
                    carries(ctx, "forward", f"{short(c.qual)}.{f.name}:{opt}", f, ret, opt, sigs, f.loc)
                ctx.guard("forward", f"{short(c.qual)}.{f.name}:{opt}", one)
    if base is not None:
        init = base.method("__init__")

        def fields():
            I = ctx.interp(opaque=OPAQUE, depth=3)
            _, st = I.run(init, exact=base)
            return {k[1]: v for k, v in st.heap.items() if k[0] is P("self")}

        fl = None
        try:
            fl = fields()
        except Exception:
            fl = None
        for c in models:
            for m in ("sample", "expectation"):
                f = c.method(m)
                if f is None or (f.cls is not c and c is not base):
                    continue
                for opt in ("measurement", "noise", "mitigation"):
                    if opt not in f.params or fl is None:
                        continue
                    holders = [mk("attr", P("self"), k) for k, v in fl.items() if v is P(opt)]
                    cons = f"{short(c.qual)}.{f.name}:{opt}"
                    if not holders:
                        ctx.ob("default", cons, False, f"the constructor argument '{opt}' is not stored, so it can never be applied", init.loc)
                        continue
                    def one(f=f, opt=opt, c=c, holders=holders, cons=cons):
                        I = ctx.interp(opaque=OPAQUE)
                        ret, _ = I.run(f, facts=absent(opt), exact=c)
                        bad = None
                        for leaf, g in leaves(ret):
                            if is_raise(leaf):
                                continue
                            if not any(contains(leaf, h) for h in holders):
                                bad = f"result {show(leaf, 3)[:150]} does not use the model's own '{opt}' when the call gives none"
                        ctx.ob("default", cons, bad is None, bad or "", f.loc)
                    ctx.guard("default", cons, one)

    # -- differentiable engines -----------------------------------------------------------
    eng = ctx.cls("qadence.engines.differentiable_backend.DifferentiableBackend")
    dm = ctx.cls("qadence.types.DiffMode")
    for c in (prog.subclasses(eng.qual) if eng else []):
        for m in ("run", "sample", "expectation"):
            f = c.method(m)
            if f is None:
                continue
            modes = [None]
            if m == "expectation" and dm is not None:
                modes = list(dm.enum_members())
            for mode in modes:
                for opt in f.params[1:]:
                    if opt in ("circuit", "pyqify_state", "unpyqify_state"):
                        continue
                    cons = f"{short(c.qual)}.{m}" + (f"[{mode}]" if mode else "") + f":{opt}"
                    def one(f=f, opt=opt, c=c, mode=mode, cons=cons):
                        I = ctx.interp()
                        facts = given(opt)
                        if mode:
                            facts.append((mk("eq", *sorted((mk("attr", P("self"), "diff_mode"), mk("enum", dm.qual, mode)))), True))
                        if opt == "mitigation":
                            facts += absent("measurement")
                        ret, _ = I.run(f, facts=facts, exact=c)
                        if all(is_raise(l) for l, _ in leaves(ret)):
                            ctx.ob("forward", cons, True, "rejected", f.loc)
                            return
                        ret = drop_raises(ret)
                        # custom-vjp closures keep the options in the captured environment
                        ret = expand_closures(I, ret)
                        carries(ctx, "forward", cons, f, ret, opt, sigs, f.loc, exact_slot=True)
                        if opt == "measurement" and mode:
                            own = mk("attr", P("self"), "backend")
                            for call in calls(ret):
                                if callee_name(call) == "compute_expectation" or (call.op == "partial" and any(
                                    x.op == "attr" and x.a[1] == "compute_expectation" for x in walk(call.a[0]))):
                                    b = args_of(call).get("backend")
                                    ctx.ob("select", cons + ":backend", b is not None and contains(b, own),
                                           "" if b is not None else "the measurement protocol is not given this engine's backend, so it samples on its own default", f.loc)
                    ctx.guard("forward", cons, one)
        # measurement and mitigation together
        f = c.method("expectation")
        if f is not None and dm is not None:
            for mode in dm.enum_members():
                cons = f"{short(c.qual)}.expectation[{mode}]:mitigation+measurement"
                def one2(f=f, c=c, mode=mode, cons=cons):
                    I = ctx.interp()
                    facts = given("measurement", "mitigation")
                    facts.append((mk("eq", *sorted((mk("attr", P("self"), "diff_mode"), mk("enum", dm.qual, mode)))), True))
                    ret, _ = I.run(f, facts=facts, exact=c)
                    if all(is_raise(l) for l, _ in leaves(ret)):
                        ctx.ob("forward", cons, True, "rejected", f.loc)
                        return
                    carries(ctx, "forward", cons, f, expand_closures(I, drop_raises(ret)), "mitigation", sigs, f.loc)
                ctx.guard("forward", cons, one2)

    # -- backends -----------------------------------------------------------------------
    SUPPORTED = {
        "run": ["param_values", "state", "endianness"],
        "sample": ["param_values", "n_shots", "state", "endianness"],
        "expectation": ["param_values", "observable", "state", "endianness"],
    }
    for c in (prog.subclasses(bcls.qual) if bcls else []):
        for m, opts in SUPPORTED.items():
            f = c.method(m)
            if f is None or f.is_abstract:
                continue
            for opt in opts:
                cons = f"{short(c.qual)}.{m}:{opt}"
                def one(f=f, opt=opt, c=c, cons=cons):
                    I = ctx.interp()
                    ret, _ = I.run(f, facts=given(opt), exact=c)
                    ret = expand_closures(I, drop_raises(ret))
                    carries_dep(ctx, "backend", cons, I, ret, opt, f.loc)
                ctx.guard("backend", cons, one)
            if "noise" in f.params and c.module.name.startswith("qadence.backends.pyqtorch"):
                cons = f"{short(c.qual)}.{m}:noise"
                def onen(f=f, c=c, cons=cons):
                    I = ctx.interp()
                    ret, _ = I.run(f, facts=given("noise"), exact=c)
                    ok = noise_applied(I, ret, "noise")
                    ctx.ob("backend", cons, ok, "" if ok else "a path computes the result without applying the supplied noise to the circuit", f.loc)
                ctx.guard("backend", cons, onen)
            if "mitigation" in f.params and m == "sample" and not c.module.name.startswith("qadence.backends.horqrux"):
                cons = f"{short(c.qual)}.{m}:mitigation"
                def onem(f=f, c=c, cons=cons):
                    I = ctx.interp()
                    ret, _ = I.run(f, facts=given("mitigation", "noise"), exact=c)
                    carries_dep(ctx, "backend", cons, I, expand_closures(I, drop_raises(ret)), "mitigation", f.loc)
                ctx.guard("backend", cons, onem)

    # -- measurement protocols -------------------------------------------------------------
    for q in ("qadence.measurements.tomography.compute_expectation", "qadence.measurements.shadow.compute_expectation"):
        f = ctx.fn(q)
        if f is None:
            continue
        # (an estimate of an expectation value does not depend on the endianness of the bit strings it is computed from)
        for opt in ("circuit", "observables", "param_values", "state", "noise", "backend", "options"):
            if opt not in f.params:
                continue
            cons = f"{short(q)}:{opt}"
            def one(f=f, opt=opt, cons=cons):
                I = ctx.interp()
                ret, _ = I.run(f, facts=given(opt))
                ret = expand_closures(I, drop_raises(ret))
                carries_dep(ctx, "protocol", cons, I, ret, opt, f.loc, sample_slot=True, sigs=sigs)
            ctx.guard("protocol", cons, one)


def drop_raises(t):
    return map_leaves(t, lambda x: x)


def expand_closures(I, t: T) -> T:
    """make the free variables of closures that appear in a value visible to dependence queries"""
    extra = []
    for x in walk(t):
        if x.op == "clo":
            extra += [v for k, v in x.a[1]]
    return t


def carries_dep(ctx, rule, cons, I, ret, opt, loc, sample_slot=False, sigs=None):
    p = P(opt)
    bad = None
    n = 0
    for leaf, g in leaves(ret):
        if is_raise(leaf):
            continue
        n += 1
        # control dependence counts: an option that only selects the path is honoured
        if any(contains(c, p) for c, _ in g):
            continue
        if not contains(leaf, p):
            path = " and ".join(f"{'' if v else 'not '}{show(c, 3)}" for c, v in g) or "always"
            bad = f"on path [{path}] the result does not depend on the supplied '{opt}'"
            break
    if bad is None and sample_slot and opt in ("state", "noise", "endianness"):
        for e in I.events:
            if e.kind == "call" and e.term.op == "call" and callee_name(e.term) == "sample":
                a = with_signature(e.term, (sigs or {}).get("sample", []))
                v = a.get(opt)
                if v is None or not contains(v, p):
                    bad = f"the sampling call at {e.loc} does not receive the supplied '{opt}'"
    if n == 0:
        return ctx.ob(rule, cons, None, "no returning path", loc)
    return ctx.ob(rule, cons, bad is None, bad or "", loc)


def noise_applied(I, ret, opt):
    """the supplied noise reaches a call together with the circuit before the native execution"""
    p = P(opt)
    if all(contains(l, p) or is_raise(l) for l, _ in leaves(ret)):
        return True
    evs = [e for e in I.events if e.kind in ("call", "setattr", "setitem") and contains(e.term, p) and not _is_log(e.term)]
    natives = [e for e in I.events if e.kind == "call" and e.term.op == "call" and callee_name(e.term) in ("run", "sample") and "native" in show(e.term.a[0], 6)]
    if not natives:
        return None
    setters = [e for e in evs if e.term.op == "call" and contains(e.term, P("circuit")) or e.kind in ("setattr",)]
    if not setters:
        return False
    for nat in natives:
        ng = [x for x in nat.guards if x[0].op not in ("inloop", "within")]
        # some setter must be executed on every path to this native call
        if not any(all(x in ng for x in s.guards if x[0].op not in ("inloop", "within") and not contains(x[0], p) and not _noise_only(x[0])) for s in setters):
            return False
    return True


def _noise_only(c):
    return False


def _is_log(t):
    return t.op == "call" and callee_name(t) in ("warning", "debug", "info", "error", "warn")
