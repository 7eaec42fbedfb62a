"""Abstract evaluation of the parameter embedding on a small abstract world (symbols, expressions and gates as distinct atoms).

The embedding, Backend.convert, ParamMap, Parameter and the block traversal are evaluated from source on opaque expressions; the
resulting dictionaries are compared entry by entry with the value each gate parameter has to receive.
"""
from __future__ import annotations

from ..util import *

U = "qadence.blocks.utils."
PA = "qadence.parameters."


def A(n):
    return mk("atom", n)


def D(**k):
    return mk("dict", tuple((const(a), b) for a, b in k.items()))


def L(*a):
    return mk("list", a)


SHAPES = {"reshape", "unsqueeze", "squeeze", "flatten", "view", "to", "as_tensor", "ravel", "expand", "repeat"}


def core(t):
    """the value below shape-only wrappers"""
    while True:
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in SHAPES and t.a[0].a[0].op != "ext":
            t = t.a[0].a[0]
        elif t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].split(".")[-1] in SHAPES and t.a[1]:
            t = t.a[1][0][1]
        elif t.op == "sub" and t.a[1] in (NONE,):
            t = t.a[0]
        elif t.op == "ite":
            a, b = core(t.a[1]), core(t.a[2])
            if a is not b:
                return t
            t = a
        else:
            return t


def is_eval_of(t, e, vals):
    """None unreadable, else bool: t is <callable built from e>(**vals)"""
    t = core(t)
    if t.op == "ite":
        rs = [is_eval_of(x, e, vals) for x, _ in leaves(t)]
        return False if False in rs else None if None in rs else True
    if t.op != "call" or not any(x is e for x in walk(t.a[0])):
        if t.op in ("call", "param", "const", "atom", "sub"):
            return False
        return None
    kw = {k: core(v) for k, v in t.a[1] if isinstance(k, str)}
    if any(k.startswith("*") for k in kw):
        return None
    return {k: v for k, v in kw.items()} == vals


def world():
    heap = {}
    x, th, t = A("x"), A("th"), A("t")
    for s, n, tr, ti in ((x, "x", False, False), (th, "th", True, False), (t, "t", False, True)):
        heap.update({(s, "name"): const(n), (s, "trainable"): const(tr), (s, "is_time"): const(ti), (s, "value"): P("v_" + n), (s, "is_number"): FALSE})
    e1, e2, e3, e4, m = A("e1"), A("e2"), A("e3"), A("e4"), A("m")
    for e, fs, num in ((e1, (x, th), False), (e2, (th,), False), (e3, (), True), (e4, (t, th), False), (m, (), False)):
        heap.update({(e, "free_symbols"): L(*fs), (e, "is_number"): const(num), (e, "name"): const(e.a[0])})
    return heap, (x, th, t), (e1, e2, e3, e4, m)


def setup(ctx, exprs, matrix):
    I = ctx.interp(opaque=(PA + "make_differentiable", PA + "evaluate"))
    I.models[U + "uuid_to_expression"] = lambda a, k, s: exprs
    I.models[PA + "stringify"] = lambda a, k, s: const("S_" + a[0].a[0]) if a and a[0].op == "atom" else None

    def orc(c, st):
        if c.op == "isinst":
            tys = show(c, 6)
            if c.a[0].op == "atom":
                return ("Array" in tys and c.a[0] is matrix) or any(k in tys for k in ("Basic", "Expr")) and c.a[0] is not matrix
            if is_const(c.a[0]):
                return "builtins.str" in tys and isinstance(cval(c.a[0]), str)
        return None

    I.oracle = orc
    return I


def check(ctx):
    prog = ctx.prog
    ctx.rule("value", "every gate parameter receives its own expression evaluated on the user's inputs first and the stored parameters second", 12)
    ctx.rule("missing", "a symbol without a value raises an error instead of taking a default", 2)
    ctx.rule("initial", "trainable symbols start from their own value and require gradients; constants hold their evaluated value and do not", 4)
    ctx.rule("collect", "the traversal reaches every parameter of every nested block", 9)
    ctx.rule("names", "parameters are referred to by uuid at gate level and by expression name otherwise, in the gate's own order", 2)
    ctx.rule("convert", "conversion merges the parameters of circuit and all observables and embeds each with its own function", 5)
    ctx.rule("parammap", "each gate parameter has a fresh identifier that both lookup tables agree on", 3)
    ctx.rule("parameter", "copying a parameter keeps its name, trainability, value and time flag; user settings override defaults", 8)
    ctx.rule("evaluate", "evaluating an expression prefers supplied values over the parameter's own", 2)
    ctx.assumptions.append("sympy expressions expose exactly their free symbols; sympytorch/sympy2jax evaluate an expression faithfully")

    values(ctx)
    collect(ctx)
    names(ctx)
    convert(ctx)
    parammap(ctx)
    parameter(ctx)
    evaluate(ctx)


def values(ctx):
    f = ctx.fn("qadence.blocks.embedding.embedding")
    if f is None:
        return
    heap, (x, th, t), (e1, e2, e3, e4, m) = world()
    exprs = D(u1=e1, u2=e2, u3=e1, u4=e3, u5=m)
    params = D(th=P("thp"), S_e3=P("c3"), S_m=P("cm"))
    for gate in (True, False):
        lvl = "gate" if gate else "expression"

        def one(gate=gate, lvl=lvl):
            I = setup(ctx, exprs, m)
            ret, _ = I.run(f, bindings={"to_gate_params": const(gate)}, heap=heap)
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                if leaf.op != "tuple" or len(leaf.a[0]) != 2 or leaf.a[0][1].op != "clo":
                    ctx.ob("value", f"embedding[{lvl}]", None, show(leaf, 3)[:150], f.loc)
                    continue
                if gate:
                    initial(ctx, f, leaf.a[0][0])
                clo = leaf.a[0][1]
                fn = I._clo[clo.a[0]]
                pn = fn.params
                for nm, inp, thv in (("input and stored", D(x=P("xi")), "thp"), ("input overrides", D(x=P("xi"), th=P("thi")), "thi"),
                                     ("separate", D(circuit=D(x=P("xi")), observables=D(th=P("thi"))), "thi"), ("stored input", None, "thp"), ("missing", D(), None)):
                    ps = params
                    if inp is None:
                        inp, ps = D(), D(th=P("thp"), S_e3=P("c3"), S_m=P("cm"), x=P("xi"))
                    r, _s = I.run(fn, captured=clo.a[1], heap=heap, bindings={pn[0]: ps, pn[1]: inp})
                    cons = f"embedding[{lvl}]:{nm}"
                    outs = list(leaves(r))
                    if nm == "missing":
                        ok = all(is_raise(y) for y, _ in outs)
                        ctx.ob("missing", cons, ok if ok or any(y.op == "dict" for y, _ in outs) else None, "a parameter without a value does not raise" if not ok else "", f.loc)
                        continue
                    for y, gg in outs:
                        if is_raise(y):
                            ctx.ob("value", cons, False, f"raises although every symbol has a value: {show(y, 3)[:120]}", f.loc)
                            continue
                        if y.op != "dict" or any(k.op == "spread" for k, _ in y.a[0]):
                            ctx.ob("value", cons, None, show(y, 3)[:150], f.loc)
                            continue
                        d = {cval(k) if is_const(k) else show(k): v for k, v in y.a[0]}
                        want1, want2 = {"x": P("xi"), "th": P(thv)}, {"th": P(thv)}
                        keys = {"u1": (e1, want1), "u2": (e2, want2), "u3": (e1, want1)} if gate else {"S_e1": (e1, want1), "S_e2": (e2, want2)}
                        for k, (e, w) in keys.items():
                            if k not in d:
                                ctx.ob("value", f"{cons}:{k}", False, f"no value for {k} in {sorted(map(str, d))}", f.loc)
                                continue
                            ok = is_eval_of(d[k], e, w)
                            ctx.ob("value", f"{cons}:{k}", ok, "" if ok else f"{k} receives {show(d[k], 5)[:200]}", f.loc)
                        for k, w in (("u4", P("c3")), ("u5", P("cm"))) if gate else (("S_e3", P("c3")), ("S_m", P("cm"))):
                            v = core(d[k]) if k in d else None
                            ctx.ob("value", f"{cons}:{k}", None if v is not None and v.op in ("ite", "loop", "dmap") else v is w, f"the constant {k} receives {show(v, 4)[:120] if v else 'nothing'}", f.loc)
                        if not gate:
                            for k in ("x", "th"):
                                w = {"x": P("xi"), "th": P(thv)}[k]
                                v = core(d[k]) if k in d else None
                                ctx.ob("value", f"{cons}:{k}", v is w, f"the user-facing value of {k} becomes {show(v, 4)[:120] if v else 'nothing'}", f.loc)
        ctx.guard("value", f"embedding[{lvl}]", one)

    def timed():
        I = setup(ctx, D(u1=e4), None)
        ret, _ = I.run(f, bindings={"to_gate_params": TRUE}, heap=heap)
        for leaf, g in leaves(ret):
            if leaf.op != "tuple" or leaf.a[0][1].op != "clo":
                continue
            clo = leaf.a[0][1]
            fn = I._clo[clo.a[0]]
            r, _s = I.run(fn, captured=clo.a[1], heap=heap, bindings={fn.params[0]: D(), fn.params[1]: D(t=P("ti"))})
            ok = all(is_raise(y) for y, _ in leaves(r))
            ctx.ob("missing", "embedding:time given, variational missing", ok, "a missing variational parameter does not raise", f.loc)
            r, _s = I.run(fn, captured=clo.a[1], heap=heap, bindings={fn.params[0]: D(th=P("thp")), fn.params[1]: D(t=P("ti"))})
            for y, _ in leaves(r):
                if y.op == "dict":
                    d = {cval(k): v for k, v in y.a[0] if is_const(k)}
                    ctx.ob("value", "embedding:time parameter", is_eval_of(d.get("u1", NONE), e4, {"t": P("ti"), "th": P("thp")}), f"u1 receives {show(d.get('u1', NONE), 4)[:150]}", f.loc)
    ctx.guard("value", "embedding:time", timed)


def initial(ctx, f, d):
    if d.op != "dict" or any(k.op == "spread" for k, _ in d.a[0]):
        return ctx.ob("initial", "embedding", None, show(d, 3)[:120], f.loc)
    dd = {cval(k): v for k, v in d.a[0] if is_const(k)}
    exp = {"th": "v_th", "S_e3": "e3", "S_m": "m"}
    for k in exp:
        if k not in dd:
            ctx.ob("initial", f"embedding:{k}", False, f"parameter {k} is not part of the initial parameters {sorted(dd)}", f.loc)
    for k in dd:
        if k not in exp:
            ctx.ob("initial", f"embedding:{k}", False, f"{k} is stored as an initial parameter although it is an input", f.loc)
    v = dd.get("th")
    if v is not None:
        ctx.ob("initial", "embedding:th value", contains(v, P("v_th")), show(v, 4)[:150], f.loc)
        for leaf, g in leaves(v):
            if leaf.op == "call" and callee_name(leaf) == "tensor":
                rg = args_of(leaf).get("requires_grad")
                ctx.ob("initial", "embedding:th trainable", None if rg is not None and not is_const(rg) else rg is TRUE, f"requires_grad={show(rg) if rg else 'missing'}", f.loc)
    v = dd.get("S_e3")
    if v is not None:
        ctx.ob("initial", "embedding:constant value", any(callee_name(x) == "evaluate" and contains(x, A("e3")) for x in calls(v)) or None, show(v, 4)[:150], f.loc)
        for leaf, g in leaves(v):
            if leaf.op == "call" and callee_name(leaf) == "tensor":
                rg = args_of(leaf).get("requires_grad", FALSE)
                ctx.ob("initial", "embedding:constant fixed", None if not is_const(rg) else rg is FALSE, f"requires_grad={show(rg)}", f.loc)
    v = dd.get("S_m")
    if v is not None:
        ctx.ob("initial", "embedding:matrix value", contains(v, A("m")), show(v, 4)[:150], f.loc)


def collect(ctx):
    prog = ctx.prog
    f = ctx.fn(U + "uuid_to_block")
    if f is None:
        return
    B, O = "qadence.blocks.", "qadence.operations."
    blk = P(f.params[0])
    kids = {"block": mk("attr", blk, "block"), "blocks": mk("attr", blk, "blocks"), "generator": mk("attr", blk, "generator")}
    cases = [(B + "primitive.ScaleBlock", ("block",), True), (B + "composite.ChainBlock", ("blocks",), False), (B + "composite.KronBlock", ("blocks",), False), (B + "composite.AddBlock", ("blocks",), False),
             (B + "analog.AnalogChain", ("blocks",), False), (B + "analog.AnalogKron", ("blocks",), False), (O + "RX", (), True), (O + "U", (), True), (O + "CRX", (), True), (O + "HamEvo", ("generator",), True),
             (B + "analog.ConstantAnalogRotation", (), True), (B + "analog.InteractionBlock", (), True)]
    for q, ch, own in cases:
        c = prog.cls(q)
        if c is None:
            continue
        cons = f"uuid_to_block({c.name})"

        def one(c=c, ch=ch, own=own, cons=cons):
            I = ctx.interp(opaque=(f.qual,))
            I.exact[blk] = c
            facts = []
            if "generator" in ch:
                facts = [(mk("isinst", kids["generator"], (mk("cls", "qadence.blocks.abstract.AbstractBlock"),)), True)]
                I.types[kids["generator"]] = (ast.Name("AbstractBlock", ast.Load()), prog.cls("qadence.blocks.abstract.AbstractBlock").module)
            ret, st = I.run(f, facts=facts)
            bad = []
            rec = [e.term for e in I.events if e.kind == "call" and e.term.op == "call" and callee_qual(e.term) == f.qual]
            und = None
            for k in ch:
                want = kids[k]
                hit = [r for r in rec if contains(args_of(r).get(f.params[0], NONE), want)]
                if not hit:
                    if not rec and not any(contains(e.term, want) for e in I.events if e.kind == "call"):
                        bad.append(f"the parameters below .{k} are never visited")
                    elif not rec:
                        und = "no recursion"
                    else:
                        bad.append(f"the parameters below .{k} are never visited")
                for r in hit:
                    d = args_of(r).get(f.params[1] if len(f.params) > 1 else "d")
                    el = args_of(r).get(f.params[0])
                    used = any(e.kind == "return" and contains(e.term, r) for e in I.events)
                    if (d is None or d is NONE) and not used:
                        bad.append(f"what is found below .{k} is thrown away")
                    if el.op == "sub" and is_const(el.a[1]) and el.a[0] is want and k == "blocks":
                        bad.append(f"only one of .{k} is visited")
                    if el.op == "elem" and el.a[0].op == "sub" and el.a[0].a[1].op == "slice":
                        bad.append(f"only part of .{k} is visited")
            if own:
                uu = any(x.op == "attr" and x.a[1] in ("_uuid_dict", "uuids", "_name_dict") and contains(x, mk("attr", blk, "parameters")) for x in walk(ret))
                if not uu:
                    sets = [e for e in I.events if e.kind == "setitem"]
                    bad.append("the block's own parameters are not collected") if not any(contains(e.term, blk) for e in sets) else None
            ctx.ob("collect", cons, False if bad else None if und else True, "; ".join(bad) or und or "", f.loc)
        ctx.guard("collect", cons, one)
    f2 = ctx.fn(U + "uuid_to_expression")
    if f2 is not None:
        def two():
            I = ctx.interp()
            b1 = A("b1")
            I.models[U + "uuid_to_block"] = lambda a, k, s: D(u1=b1, u2=b1)
            pm = A("pm")
            I.exact[pm] = prog.cls(PA + "ParamMap")
            heap = {(b1, "parameters"): pm, (pm, "_uuid_dict"): D(u1=P("e1"), u2=P("e2")), (pm, "_name_dict"): D(a=mk("tuple", (const("u1"), P("e1"))), b=mk("tuple", (const("u2"), P("e2"))))}
            ret, _ = I.run(f2, heap=heap)
            for leaf, g in leaves(ret):
                d = {cval(k): v for k, v in leaf.a[0] if is_const(k)} if leaf.op == "dict" else None
                ctx.ob("collect", "uuid_to_expression", None if d is None else d == {"u1": P("e1"), "u2": P("e2")}, show(leaf, 4)[:150], f2.loc)
        ctx.guard("collect", "uuid_to_expression", two)


def names(ctx):
    prog = ctx.prog
    f = ctx.fn("qadence.backend.BackendConfiguration.get_param_name")
    if f is None:
        return
    blk, pm = A("blk"), A("pm")
    for gate, want in ((True, ["u1", "u2", "u3"]), (False, ["S_e1", "S_e2", "S_e3"])):
        def one(gate=gate, want=want):
            I = ctx.interp()
            I.exact[blk] = prog.cls("qadence.operations.U")
            I.exact[pm] = prog.cls(PA + "ParamMap")
            es = {f"u{i}": A(f"e{i}") for i in (1, 2, 3)}
            heap = {(blk, "parameters"): pm, (pm, "_uuid_dict"): D(**es), (P("self"), "_use_gate_params"): const(gate),
                    (pm, "_name_dict"): D(phi=mk("tuple", (const("u1"), A("e1"))), theta=mk("tuple", (const("u2"), A("e2"))), omega=mk("tuple", (const("u3"), A("e3"))))}
            I.models[PA + "stringify"] = lambda a, k, s: const("S_" + a[0].a[0]) if a and a[0].op == "atom" else None
            ret, _ = I.run(f, heap=heap, bindings={f.params[1]: blk})
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                got = [cval(x) for x in leaf.a[0]] if leaf.op in ("tuple", "list") and all(is_const(x) for x in leaf.a[0]) else None
                ctx.ob("names", f"get_param_name[{'gate' if gate else 'expression'}]", None if got is None else got == want, f"returns {got or show(leaf, 4)[:120]} for parameters {want}", f.loc)
        ctx.guard("names", "get_param_name", one)


def convert(ctx):
    prog = ctx.prog
    f = ctx.fn("qadence.backend.Backend.convert")
    if f is None:
        return
    o1, o2 = A("o1"), A("o2")

    def one():
        I = ctx.interp(opaque=("qadence.blocks.utils.block_is_qubit_hamiltonian",))
        I.exact[o1], I.exact[o2] = prog.cls("qadence.blocks.composite.AddBlock"), prog.cls("qadence.blocks.primitive.ScaleBlock")
        tab = []

        def emb(a, k, s):
            tab.append((a, k))
            return mk("tuple", (mk("dict", ((const(f"p{len(tab)}"), P(f"v{len(tab)}")),)), A(f"emb{len(tab)}")))
        I.models["qadence.blocks.embedding.embedding"] = emb
        ret, _ = I.run(f, bindings={f.params[2]: L(o1, o2)})
        outs = [l for l, g in leaves(ret) if not is_raise(l)]
        if len(tab) != 3 or len(outs) != 1 or outs[0].op != "new":
            bad = [show(a[0], 4) for a, k in tab]
            return ctx.ob("convert", "Backend.convert", None if len(tab) >= 3 or len(tab) == 0 else False, f"{len(tab)} embeddings for a circuit and two observables: {bad}", f.loc)
        own = []
        for i, (a, k) in enumerate(tab):
            t = a[0]
            own.append("c" if any(x.op == "attr" and x.a[1] == "circuit" for x in walk(t)) and not contains(t, o1) and not contains(t, o2) else "o1" if contains(t, o1) else "o2" if contains(t, o2) else "?")
            ab = any(x.op == "attr" and x.a[1] == "abstract" for x in walk(t))
            ctx.ob("convert", f"Backend.convert:embeds the converted block of {own[-1]}", ab or None, show(t, 4)[:120], f.loc)
            rest = a[1:] + list(k.values())
            ug = any(x.op == "attr" and x.a[1] == "_use_gate_params" for r in rest for x in walk(r))
            en = any(x.op == "attr" and x.a[1] == "engine" for r in rest for x in walk(r))
            ctx.ob("convert", f"Backend.convert:level and engine of {own[-1]}", ug and en, f"embedding of {own[-1]} is built without the configured {'engine' if ug else 'parameter level'}", f.loc)
        a = args_of(outs[0])
        ps = a.get("params", NONE)
        got = {cval(k) for k, _ in ps.a[0] if is_const(k)} if ps.op == "dict" else None
        ctx.ob("convert", "Backend.convert:params", None if got is None else got == {"p1", "p2", "p3"}, f"the converted parameters are {show(ps, 4)[:150]}", f.loc)
        ob = a.get("observable", NONE)
        ctx.ob("convert", "Backend.convert:observables", None if ob.op != "list" else [1 if contains(x, o1) and not contains(x, o2) else 2 if contains(x, o2) else 0 for x in ob.a[0]] == [1, 2], f"observables {show(ob, 4)[:150]}", f.loc)
        fn_t = a.get("embedding_fn")
        if fn_t is None or fn_t.op != "clo":
            return ctx.ob("convert", "Backend.convert:embedding", None, "", f.loc)
        fn = I._clo[fn_t.a[0]]
        sep = D(circuit=D(x=P("xi")), observables=D(y=P("yi")))
        for nm, b in (("merged", D(x=P("xi"))), ("separate", sep)):
            r, _s = I.run(fn, captured=fn_t.a[1], bindings={fn.params[1]: b})
            for leaf, g in leaves(r):
                if is_raise(leaf):
                    continue
                if leaf.op != "dict":
                    ctx.ob("convert", f"Backend.convert:embedding[{nm}]", None, show(leaf, 3)[:120], f.loc)
                    continue

                def embs(t):
                    return [x.a[0].a[0] for x in walk(t) if x.op == "call" and x.a[0].op == "atom"]
                bad = None
                for x in walk(leaf):
                    if x.op == "call" and x.a[0].op == "atom":
                        av = [v for _, v in x.a[1]]
                        if len(av) != 2 or av[0] is not P(fn.params[0]) or not (av[1] is b or (nm == "separate" and contains(av[1], P("xi")) or contains(av[1], P("yi")))):
                            bad = f"{x.a[0].a[0]} is applied to {[show(y, 3) for y in av]}"
                c_, o_ = f"emb{own.index('c') + 1}", {f"emb{own.index('o1') + 1}", f"emb{own.index('o2') + 1}"}
                if nm == "separate":
                    d = {cval(k): v for k, v in leaf.a[0] if is_const(k)}
                    if set(embs(d.get("circuit", NONE))) != {c_}:
                        bad = bad or f"the circuit parameters come from {embs(d.get('circuit', NONE))}"
                    if set(embs(d.get("observables", NONE))) != o_:
                        bad = bad or f"the observable parameters come from {embs(d.get('observables', NONE))}"
                elif set(embs(leaf)) != {c_} | o_:
                    bad = bad or f"parameters are embedded by {sorted(set(embs(leaf)))} only"
                ctx.ob("convert", f"Backend.convert:embedding[{nm}]", bad is None, bad or "", f.loc)
    ctx.guard("convert", "Backend.convert", one)


def parammap(ctx):
    f = ctx.fn(PA + "ParamMap.__init__")
    if f is None:
        return

    def one():
        I = ctx.interp()
        n = [0]

        def fresh(a, k, s):
            n[0] += 1
            return A(f"uuid{n[0]}")
        for q in ("uuid.uuid4", "uuid.uuid1"):
            I.models[q] = fresh
        I.models["builtins.str"] = lambda a, k, s: a[0] if a and a[0].op == "atom" else None
        _, st = I.run(f, bindings={"kwargs": D(phi=P("a"), theta=P("b"))})
        h = obj_heap(st, P("self"))
        nd, ud = h.get("_name_dict"), h.get("_uuid_dict")
        if nd is None or ud is None or nd.op != "dict" or ud.op != "dict":
            return ctx.ob("parammap", "ParamMap", None, str(sorted(h)), f.loc)
        ids = [k for k, v in ud.a[0]]
        ctx.ob("parammap", "ParamMap:fresh identifiers", len(set(ids)) == 2 and all(k.op == "atom" for k in ids), f"identifiers {[show(k) for k in ids]}", f.loc)
        names = [cval(k) for k, _ in nd.a[0] if is_const(k)]
        ctx.ob("parammap", "ParamMap:every parameter named", names == ["phi", "theta"], str(names), f.loc)
        ok = True
        for (k, v), src in zip(nd.a[0], (P("a"), P("b"))):
            if v.op != "tuple" or len(v.a[0]) != 2:
                ok = None
                break
            u, e = v.a[0]
            u2 = dict(ud.a[0]).get(u)
            if u2 is not e or not contains(e, src):
                ok = False
        ctx.ob("parammap", "ParamMap:tables agree", ok, f"{show(nd, 5)[:150]} / {show(ud, 5)[:150]}", f.loc)
    ctx.guard("parammap", "ParamMap", one)


def parameter(ctx):
    prog = ctx.prog
    f = ctx.fn(PA + "Parameter.__new__")
    if f is None:
        return
    pc = prog.cls(PA + "Parameter")
    nm = P(f.params[1])

    def fields(st):
        out = {}
        for (o, a), v in st.heap.items():
            if a in ("trainable", "value", "is_time", "name") and o is not nm:
                out[a] = v
        return out

    def copy():
        I = ctx.interp()
        I.exact[nm] = pc
        ret, st = I.run(f)
        fl = fields(st)
        for a in ("trainable", "value", "is_time"):
            ctx.ob("parameter", f"Parameter(Parameter):{a}", fl.get(a) is mk("attr", nm, a) if a in fl or ret is not nm else True, f"{a} becomes {show(fl[a], 3) if a in fl else 'unset'}", f.loc)
        ok = any(contains(l, mk("attr", nm, "name")) or l is nm for l, _ in leaves(ret)) or fl.get("name") is mk("attr", nm, "name")
        ctx.ob("parameter", "Parameter(Parameter):name", ok, show(ret, 3)[:100], f.loc)
    ctx.guard("parameter", "copy", copy)
    for given_, exp in ((D(trainable=FALSE, value=P("v"), is_time=TRUE), {"trainable": FALSE, "value": P("v"), "is_time": TRUE}),
                        (D(), {"trainable": TRUE, "is_time": FALSE})):
        def one(given_=given_, exp=exp):
            I = ctx.interp()
            I.types[nm] = (ast.Name("str", ast.Load()), f.module)
            ret, st = I.run(f, bindings={"assumptions": given_, f.params[1]: const("theta")}, facts=[(mk("isnone", P("v")), False)])
            fl = fields(st)
            for a, w in exp.items():
                v = fl.get(a)
                ctx.ob("parameter", f"Parameter(str{', options' if given_.a[0] else ''}):{a}", None if v is None else v is w, f"{a} becomes {show(v, 3) if v else 'unset'} instead of {show(w)}", f.loc)
        ctx.guard("parameter", "str", one)
    for q, exp in (("FeatureParameter", {"trainable": FALSE}), ("VariationalParameter", {"trainable": TRUE}), ("TimeParameter", {"trainable": FALSE, "is_time": TRUE})):
        g = ctx.fn(PA + q)
        if g is None:
            continue

        def three(g=g, q=q, exp=exp):
            I = ctx.interp(opaque=(PA + "Parameter.__new__",))
            ret, _ = I.run(g)
            for leaf, _g in leaves(ret):
                a = args_of(leaf) if leaf.op in ("call", "new") else {}
                for k, w in exp.items():
                    ctx.ob("parameter", f"{q}:{k}", None if not a else a.get(k) is w, show(leaf, 3)[:100], g.loc)
        ctx.guard("parameter", q, three)


def evaluate(ctx):
    f = ctx.fn(PA + "evaluate")
    if f is None:
        return
    e, s = A("e"), A("s")
    for nm, vals, want in (("given", D(s=P("sv")), P("sv")), ("own", D(), P("s_value"))):
        def one(nm=nm, vals=vals, want=want):
            I = ctx.interp(opaque=(PA + "make_differentiable", PA + "sympy_to_numeric"))
            I.oracle = lambda c, st: (False if c.op == "isinst" and c.a[0] is e else True if c.op == "hasattr" and c.a[0] is s else None)
            ret, _ = I.run(f, bindings={"expr": e, "values": vals}, heap={(e, "free_symbols"): L(s), (e, "is_number"): FALSE, (s, "name"): const("s"), (s, "value"): P("s_value")})
            other = P("s_value") if want is P("sv") else P("sv")
            bad, n = None, 0
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    bad = "raises"
                    continue
                n += 1
                if not contains(leaf, want) or (other is P("s_value") and contains(leaf, other)):
                    bad = f"evaluates with {show(leaf, 5)[:150]}"
            ctx.ob("evaluate", f"evaluate:{nm}", bad is None if n or bad else None, bad or "", f.loc)
        ctx.guard("evaluate", nm, one)
