"""Abstract evaluation of each backend's block conversion on every gate class and block kind, compared with the native operation it has to become.

For every operation class the conversion function is evaluated with symbolic qubits, parameter names and noise; the native
constructor call it returns is compared with a specification of the native gate set (class, control/target order, parameter, noise).
"""
from __future__ import annotations

from ..util import *

PY = "qadence.backends.pyqtorch.convert_ops."
HQ = "qadence.backends.horqrux.convert_ops."
O = "qadence.operations."
B = "qadence.blocks."


def A(n):
    return mk("atom", n)


def tup(*a):
    return mk("tuple", a)


Q = [const(7), const(3), const(5), const(2)]
ONE_Q = ["X", "Y", "Z", "H", "I", "S", "SDagger", "T"]
ROT = ["RX", "RY", "RZ", "PHASE"]
CTRL = {"CNOT": "CNOT", "CZ": "CZ"}
CROT = {"CRX": "CRX", "CRY": "CRY", "CRZ": "CRZ", "CPHASE": "CPHASE"}
MC = {"MCZ": ("CZ",), "Toffoli": ("Toffoli", "CNOT")}
MCROT = {"MCRX": "CRX", "MCRY": "CRY", "MCRZ": "CRZ", "MCPHASE": "CPHASE"}
SYMPY = {"Pow": {"pow"}, "cos": {"cos"}, "Add": {"add"}, "Mul": {"mul", "multiply"}, "sin": {"sin"}, "log": {"log"}, "tan": {"tan"}, "tanh": {"tanh"}, "Heaviside": {"hs"}, "Abs": {"abs", "absolute"},
         "exp": {"exp"}, "acos": {"acos", "arccos"}, "asin": {"asin", "arcsin"}, "atan": {"atan", "arctan"}, "sinh": {"sinh"}, "cosh": {"cosh"}, "acosh": {"acosh"}, "asinh": {"asinh"}, "atanh": {"atanh"},
         "sqrt": {"sqrt"}, "sign": {"sign"}}


def qset(t):
    """qubits of a native argument: (tuple of ints, readable)"""
    if is_const(t) and isinstance(cval(t), int):
        return (cval(t),)
    if t.op in ("tuple", "list") and all(is_const(x) for x in t.a[0]):
        return tuple(cval(x) for x in t.a[0])
    return None


def spec():
    """class -> (native names, #qubits, formals, {formal: expected})"""
    out = {}
    for g in ONE_Q:
        out[g] = ((g,), 1, ["target", "noise"], {"target": (7,), "noise": "noise"})
    for g in ROT:
        out[g] = ((g,), 1, ["target", "param_name", "noise"], {"target": (7,), "param_name": 0, "noise": "noise"})
    out["U"] = (("U",), 1, ["target", "phi", "theta", "omega", "noise"], {"target": (7,), "phi": 0, "theta": 1, "omega": 2, "noise": "noise"})
    for g, n in CTRL.items():
        out[g] = ((n,), 2, ["control", "target", "noise"], {"control": (7,), "target": (3,), "noise": "noise"})
    for g, n in CROT.items():
        out[g] = ((n,), 2, ["control", "target", "param_name", "noise"], {"control": (7,), "target": (3,), "param_name": 0, "noise": "noise"})
    out["SWAP"] = (("SWAP",), 2, ["i", "j", "noise"], {"i": {7, 3}, "j": {7, 3}, "noise": "noise"})
    for g, n in MC.items():
        out[g] = (n, 4, ["control", "target", "noise"], {"control": {7, 3, 5}, "target": (2,), "noise": "noise"})
    for g, n in MCROT.items():
        out[g] = ((n,), 4, ["control", "target", "param_name", "noise"], {"control": {7, 3, 5}, "target": (2,), "param_name": 0, "noise": "noise"})
    out["CSWAP"] = (("CSWAP",), 3, ["control", "target", "noise"], {"control": (7,), "target": {3, 5}, "noise": "noise"})
    return out


def check(ctx):
    ctx.rule("gate", "each gate class becomes the native gate of the same operator on the same control and target qubits", 40)
    ctx.rule("param", "a native gate reads the gate's own parameter: its name when parametric, its value when constant", 15)
    ctx.rule("noise", "the gate's digital noise is attached to the native gate", 15)
    ctx.rule("supported", "every gate a backend declares as supported is converted, every other gate is rejected with an error", 30)
    ctx.rule("composite", "composite blocks keep all children in order: chain and kron as sequence, add as sum, scale applied once", 10)
    ctx.rule("evolution", "Hamiltonian evolution keeps generator, time, duration, qubits, solver settings and noise operators", 8)
    ctx.rule("expression", "symbolic scale expressions are translated function by function, keeping all arguments in order", 10)
    ctx.rule("backend", "the native circuit and observable are built from the complete transpiled block on the circuit's qubits", 6)
    ctx.rule("channel", "each noise protocol becomes the native channel with its own options", 5)
    ctx.assumptions.append("pyqtorch and horqrux gate classes implement the operators of their names with the constructor signatures of the installed versions")
    pyq(ctx)
    horq(ctx)
    expression(ctx)
    backends(ctx)
    channels(ctx)


# ---------------------------------------------------------------------------------------------
def setup(ctx, mod, cls, nq, parametric, noisy=True, f=None, extra=None):
    prog = ctx.prog
    I = ctx.interp(opaque=(mod + "convert_block",))
    blk = A("block")
    I.exact[blk] = cls
    cfg = A("config")
    cc = prog.cls(mod.replace("convert_ops.", "config.Configuration"))
    if cc is not None:
        I.exact[cfg] = cc
    pm = A("pmap")
    pc = prog.cls("qadence.parameters.ParamMap")
    I.exact[pm] = pc
    prm = A("expr0")
    heap = {(blk, "qubit_support"): tup(*Q[:nq]), (blk, "_qubit_support"): tup(*Q[:nq]), (blk, "is_parametric"): const(parametric), (blk, "noise"): A("noise") if noisy else NONE,
            (blk, "_noise"): A("noise") if noisy else NONE, (blk, "parameters"): pm, (pm, "parameter"): prm, (pm, "scale"): prm, (blk, "block"): A("inner"), (blk, "n_qubits"): const(nq), (blk, "n_supports"): const(nq),
            (pm, "_uuid_dict"): mk("dict", ((const("u0"), prm),)), (prm, "is_number"): const(not parametric)}
    heap.update(extra or {})

    def gp(a, k, s):
        if any(x is blk for x in list(a) + list(k.values())):
            return tup(A("pn0"), A("pn1"), A("pn2"))
        return None
    I.models["qadence.backend.BackendConfiguration.get_param_name"] = gp
    I.models[PY + "convert_digital_noise"] = lambda a, k, s: A("native_noise") if any(x is A("noise") for x in list(a) + list(k.values())) else None
    facts = given(A("noise"), A("native_noise")) + [(mk("isnone", cfg), False), (mk("truthy", cfg), True), (mk("isnone", blk), False)]

    def orc(c, st):
        if c.op == "isinst" and c.a[0].op == "atom" and c.a[0] not in I.exact:
            return False if c.a[0].a[0] in ("noise", "native_noise") else None
        if c.op == "hasattr" and c.a[0] is blk:
            return True if (blk, c.a[1]) in heap else None
        return None
    I.oracle = orc
    I.block_heap = heap
    return I, blk, cfg, heap, facts


def evaluate(ctx, mod, I, blk, cfg, heap, facts, nq=8):
    f = ctx.prog.fn(mod + "convert_block")
    b = {f.params[0]: blk, f.params[1]: const(nq)}
    if len(f.params) > 2:
        b[f.params[2]] = cfg
    I2 = I
    I2.policy_self = f
    return I2.run(f, bindings=b, heap=heap, facts=facts)


def outcomes(ret):
    return list(leaves(ret))


def unwrap(leaf):
    """the single native op of a returned sequence"""
    if leaf.op in ("list", "tuple") and len(leaf.a[0]) == 1 and leaf.a[0][0].op != "star":
        return leaf.a[0][0]
    return None


def ops_in(leaf):
    op = unwrap(leaf)
    if op is None:
        return None
    return [(x, g) for x, g in leaves(op)]


def param_ok(v, i, parametric):
    """v is the native parameter argument; expected parameter i"""
    if parametric:
        names = [A("pn0"), A("pn1"), A("pn2")]
        bad = [x for x, _ in leaves(v) if x is not names[i]]
        if not bad:
            return True
        return False if all(x in names or x.op in ("const", "atom") or (x.op == "call" and not any(contains(x, n) for n in names)) for x in bad) else None
    rs = []
    for x, g in leaves(v):
        if x in (A("pn0"), A("pn1"), A("pn2")):
            rs.append(x is (A("pn0"), A("pn1"), A("pn2"))[i])
            continue
        inner = x
        while True:
            if inner.op == "call" and callee_name(inner) in ("tensor", "as_tensor", "float", "complex", "evaluate", "sympy_to_numeric", "to", "array", "asarray") and inner.a[1]:
                first = inner.a[1][0][1] if callee_name(inner) != "to" else inner.a[0].a[0]
                named = args_of(inner)
                inner = named.get(0, named.get("expr", first))
            elif inner.op in ("list", "tuple") and len(inner.a[0]) == 1:
                inner = inner.a[0][0]
            else:
                break
        if inner is A("expr0"):
            # a real dtype may only be used when the value is real
            if x.op == "call" and callee_name(x) == "tensor":
                dt = args_of(x).get("dtype")
                if dt is not None and dt.op == "ext" and "complex" not in dt.a[0] and "cdouble" not in dt.a[0]:
                    if not any(any(y.op == "attr" and y.a[1] in ("imag", "is_real") or y.op == "ext" and y.a[0].endswith(("is_complex", "isreal", "iscomplex")) for y in walk(c)) for c, _ in g):
                        rs.append(False)
                        continue
                if dt is not None and dt.op == "ext" and any(z in dt.a[0] for z in ("int", "half", "float16", "bool", "long", "float32")) and "cdouble" not in dt.a[0]:
                    rs.append(False)
                    continue
            rs.append(True)
        elif contains(inner, A("expr0")):
            rs.append(None if inner.op in ("call", "attr", "sub") else False)
        else:
            rs.append(False)
    return False if False in rs else None if None in rs else True


def native_name(op):
    if op.op == "call" and op.a[0].op == "ext" and op.a[0].a[0].split(".")[0] in ("pyqtorch", "horqrux"):
        return op.a[0].a[0].split(".")[-1]
    if op.op == "call" and op.a[0].op == "partial":
        return None
    return None


def compare(ctx, lab, op, names, formals, exp, parametric, loc, noise=True):
    n = native_name(op)
    if n is None:
        ctx.ob("gate", lab, None, show(op, 4)[:150], loc)
        return
    if n not in names:
        ctx.ob("gate", lab, False, f"becomes the native operation {n} instead of {names[0]}", loc)
        return
    a = with_signature(op, formals)
    if any(isinstance(k, str) and k.startswith("*") for k in a):
        st = a.get("*")
        if st is not None and st.op in ("tuple", "list"):
            # *names after the positional arguments
            i = 0
            for k, _ in list(args_of(op).items()):
                if isinstance(k, int):
                    i = max(i, k + 1)
            for j, v in enumerate(st.a[0]):
                if i + j < len(formals):
                    a[formals[i + j]] = v
            a.pop("*")
        else:
            ctx.ob("gate", lab, None, "argument unpacking", loc)
            return
    bad, und = [], []
    for k, w in exp.items():
        v = a.get(k)
        if k == "noise":
            if not noise:
                continue
            if v is None:
                ctx.ob("noise", lab, False, "the gate's noise is not handed to the native gate", loc)
            else:
                ls = [x for x, _ in leaves(v)]
                ctx.ob("noise", lab, True if all(x is A("native_noise") for x in ls) else False if any(x is NONE or is_const(x) for x in ls) else None, f"noise={show(v, 4)[:100]}", loc)
            continue
        if isinstance(w, int):
            if v is None:
                ctx.ob("param", f"{lab}:{k}", False, "the native gate gets no parameter", loc)
            else:
                ok = param_ok(v, w, parametric)
                ctx.ob("param", f"{lab}:{k}", ok, "" if ok else f"{k}={show(v, 6)[:200]}", loc)
            continue
        if v is None:
            bad.append(f"{k} missing")
            continue
        for x, _ in leaves(v):
            q = qset(x)
            if q is None:
                und.append(f"{k}={show(x, 3)}")
            elif isinstance(w, set):
                if not (set(q) == w or (len(q) == 1 and q[0] in w and k in ("i", "j"))):
                    bad.append(f"{k}={q}, expected {sorted(w)}")
            elif q != w:
                bad.append(f"{k}={q}, expected {w}")
    if n == "SWAP" and "i" in a and a.get("i") is a.get("j"):
        bad.append("both swap qubits are the same")
    ctx.ob("gate", lab, False if bad else None if und else True, "; ".join(bad or und), loc)


def pyq(ctx):
    prog = ctx.prog
    f = ctx.fn(PY + "convert_block")
    if f is None:
        return
    loc = f.loc
    sp = spec()
    for g, (names, nq, formals, exp) in sp.items():
        c = prog.cls(O + g)
        if c is None:
            continue
        pm = "param_name" in formals or g == "U"
        for par in ((True, False) if pm else (False,)):
            lab = f"pyqtorch:{g}{'' if not pm else '[parametric]' if par else '[constant]'}"

            def one(c=c, nq=nq, formals=formals, exp=exp, par=par, lab=lab, names=names):
                I, blk, cfg, heap, facts = setup(ctx, PY, c, nq, par)
                ret, _ = evaluate(ctx, PY, I, blk, cfg, heap, facts)
                alive = 0
                for leaf, gd in outcomes(ret):
                    if is_raise(leaf):
                        ctx.ob("supported", lab, False, f"raises {show(leaf, 3)[:100]}", loc)
                        continue
                    alive += 1
                    ops = ops_in(leaf)
                    if ops is None:
                        ctx.ob("gate", lab, None if leaf.op not in ("list", "tuple") else False, f"returns {show(leaf, 3)[:120]}", loc)
                        continue
                    for op, _g in ops:
                        compare(ctx, lab, op, names, formals, exp, par, loc)
                if alive:
                    ctx.ob("supported", lab, True, "", loc)
            ctx.guard("gate", lab, one)
    # projectors
    for g, state in (("Projector", None), ("N", "1"), ("N", "0")):
        c = prog.cls(O + g)
        if c is None:
            continue
        lab = f"pyqtorch:{g}{'' if state is None else '[' + state + ']'}"

        def prj(c=c, g=g, state=state, lab=lab):
            ket, bra = (A("ket"), A("bra")) if state is None else (const(state), const(state))
            I, blk, cfg, heap, facts = setup(ctx, PY, c, 1, False, extra={(A("block"), "ket"): ket, (A("block"), "bra"): bra})
            ret, _ = evaluate(ctx, PY, I, blk, cfg, heap, facts)
            for leaf, gd in outcomes(ret):
                if is_raise(leaf):
                    continue
                for op, _g in ops_in(leaf) or []:
                    n = native_name(op)
                    if n == "N":
                        compare(ctx, lab, op, ("N",), ["target", "noise"], {"target": (7,), "noise": "noise"}, False, loc)
                        ctx.ob("gate", lab + ":state", state == "1" if state else False, "the projector becomes |1><1| whatever its state", loc)
                    elif n == "Projector":
                        compare(ctx, lab, op, ("Projector",), ["qubit_support", "ket", "bra", "noise"], {"qubit_support": (7,), "noise": "noise"}, False, loc)
                        a = with_signature(op, ["qubit_support", "ket", "bra", "noise"])
                        ctx.ob("gate", lab + ":state", a.get("ket") is ket and a.get("bra") is bra, f"ket={show(a.get('ket', NONE))}, bra={show(a.get('bra', NONE))}", loc)
                    else:
                        ctx.ob("gate", lab, None if n is None else False, show(op, 3)[:100], loc)
        ctx.guard("gate", lab, prj)
    # matrix block
    c = prog.cls(B + "matrix.MatrixBlock")
    if c is not None:
        def mat():
            I, blk, cfg, heap, facts = setup(ctx, PY, c, 2, False, extra={(A("block"), "matrix"): A("matrix")})
            ret, _ = evaluate(ctx, PY, I, blk, cfg, heap, facts)
            for leaf, gd in outcomes(ret):
                for op, _g in ops_in(leaf) or []:
                    compare(ctx, "pyqtorch:MatrixBlock", op, ("Primitive",), ["operation", "qubit_support", "generator", "noise"], {"qubit_support": (7, 3), "noise": "noise"}, False, loc)
                    ctx.ob("gate", "pyqtorch:MatrixBlock:matrix", core_is(with_signature(op, ["operation"]).get("operation", NONE), A("matrix")), show(op, 3)[:120], loc)
        ctx.guard("gate", "pyqtorch:MatrixBlock", mat)
    # gates that are not supported
    c = prog.cls(O + "TDagger")
    if c is not None:
        def tdg():
            I, blk, cfg, heap, facts = setup(ctx, PY, c, 1, False)
            ret, _ = evaluate(ctx, PY, I, blk, cfg, heap, facts)
            for leaf, gd in outcomes(ret):
                ctx.ob("supported", "pyqtorch:TDagger", is_raise(leaf) or any(native_name(o) in ("TDagger", "T_dagger") for o, _ in ops_in(leaf) or []), f"an unsupported gate is converted to {show(leaf, 4)[:120]}", loc)
        ctx.guard("supported", "pyqtorch:TDagger", tdg)
    composite(ctx, PY, "pyqtorch", {"seq": ("Sequence",), "add": ("Add",), "scale": ("Scale",), "merge": ("Merge",)})
    evolution(ctx)


def core_is(t, w):
    while t is not w:
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("to", "clone", "contiguous", "type", "unsqueeze", "squeeze"):
            t = t.a[0].a[0]
        else:
            return False if not contains(t, w) else None
    return True


def composite(ctx, mod, be, nat):
    prog = ctx.prog
    f = ctx.fn(mod + "convert_block")
    if f is None:
        return
    def model(rec, cfg):
        def conv(a, k, s):
            al = dict(zip(f.params, a))
            al.update(k)
            x = al.get(f.params[0])
            if x is None or x.op != "atom":
                return None
            rec.append((x, al.get("config"), al.get("n_qubits")))
            return mk("list", (A("native_" + x.a[0]),))
        return conv
    Sc, U_, RX_, RZ_, Ch, CN = (prog.cls(q) for q in (B + "primitive.ScaleBlock", O + "U", O + "RX", O + "RZ", B + "composite.ChainBlock", O + "CNOT"))
    kinds = [("chain", "ChainBlock", "", (RX_, RZ_, RX_), 2), ("kron", "KronBlock", "", (RX_, RZ_, RX_), 3), ("add", "AddBlock", "", (RX_, RZ_, RX_), 2), ("chain", "ChainBlock", "[one qubit]", (RX_, RZ_, RX_), 1),
             ("chain", "ChainBlock", "[one qubit, scaled]", (RX_, Sc, RZ_), 1), ("chain", "ChainBlock", "[one qubit, U]", (RX_, U_, RZ_), 1), ("chain", "ChainBlock", "[one qubit, nested]", (RX_, Ch, RZ_), 1),
             ("add", "AddBlock", "[one qubit]", (RX_, RZ_, RX_), 1), ("chain", "ChainBlock", "[nested]", (CN, Ch, Sc), 2)]
    for kind, q, tag, cls, ns in kinds:
        c = prog.cls(B + "composite." + q)
        if c is None or any(x is None for x in cls):
            continue
        for comp in (True, False):
            lab = f"{be}:{q}{tag}{'[composition]' if comp else ''}"
            if comp and be != "pyqtorch":
                continue

            def one(c=c, kind=kind, lab=lab, cls=cls, ns=ns, comp=comp):
                kids = [A(f"k{i}") for i in range(3)]
                extra = {(A("block"), "blocks"): tup(*kids), (A("config"), "use_single_qubit_composition"): const(comp)}
                for i, kk in enumerate(kids):
                    sup = tup(Q[0]) if ns == 1 else tup(Q[i % ns]) if cls[i] is not CN else tup(Q[0], Q[1])
                    extra[(kk, "qubit_support")] = sup
                    extra[(kk, "_qubit_support")] = sup
                I, blk, cfg, heap, facts = setup(ctx, mod, c, ns, False, noisy=False, extra=extra)
                for kk, kc in zip(kids, cls):
                    I.exact[kk] = kc
                rec = []
                I.models[f.qual] = model(rec, cfg)
                ret, _ = evaluate(ctx, mod, I, blk, cfg, heap, facts)
                for x, cf, nqv in rec:
                    if cf is not cfg:
                        ctx.ob("composite", lab + ":configuration", False, "a child block is converted without the backend's configuration", f.loc)
                for leaf, gd in outcomes(ret):
                    if is_raise(leaf):
                        ctx.ob("composite", lab, False, "raises", f.loc)
                        continue
                    for op, g2 in ops_in(leaf) or [(leaf, ())]:
                        n = native_name(op)
                        if n is None:
                            ctx.ob("composite", lab, None, show(op, 3)[:120], f.loc)
                            continue
                        want = nat["add"] if kind == "add" else nat["seq"]
                        if kind == "chain" and ns == 1 and cls == (RX_, RZ_, RX_):
                            want = want + nat.get("merge", ())
                        ctx.ob("composite", lab + ":kind", n in want, f"{kind} becomes {n}", f.loc)
                        a = args_of(op)
                        v = a.get(0, a.get("operations", NONE))
                        for y, _ in leaves(v):
                            fin = [z.a[0] for z in y.a[0]] if y.op in ("list", "tuple") and all(z.op == "atom" for z in y.a[0]) else None
                            w = [f"native_k{i}" for i in range(3)]
                            ctx.ob("composite", lab + ":children", None if fin is None else fin == w or kind != "chain" and sorted(fin) == w, f"children {w} become {fin or show(y, 4)[:120]}", f.loc)
            ctx.guard("composite", lab, one)
    c = prog.cls(B + "primitive.ScaleBlock")
    if c is not None:
        for par, gate in ((True, True), (True, False), (False, True)):
            lab = f"{be}:ScaleBlock[{'constant' if not par else 'gate level' if gate else 'expression level'}]"

            def sc(par=par, gate=gate, lab=lab):
                I, blk, cfg, heap, facts = setup(ctx, mod, c, 2, par, noisy=False, extra={(A("config"), "_use_gate_params"): const(gate)})
                I.models[PY + "replace_underscore_floats"] = lambda a, k, s: a[0]
                I.models[PY + "sympy_to_pyq"] = lambda a, k, s: mk("native_expr", (list(a) + list(k.values()))[0])
                orc0 = I.oracle

                def orc(cn, st):
                    if cn.op == "isinst" and cn.a[0] in (A("pn0"), A("pn1")):
                        return "builtins.str" in show(cn, 6)
                    return orc0(cn, st)
                I.oracle = orc
                ret, _ = evaluate(ctx, mod, I, blk, cfg, heap, facts)
                for leaf, gd in outcomes(ret):
                    if is_raise(leaf):
                        ctx.ob("composite", lab, False, "raises", f.loc)
                        continue
                    for op, g2 in ops_in(leaf) or [(leaf, ())]:
                        n = native_name(op)
                        if n not in nat["scale"]:
                            ctx.ob("composite", lab, None if n is None else False, f"a scaled block becomes {show(op, 3)[:120]}", f.loc)
                            continue
                        a = with_signature(op, ["operations", "param_name"])
                        inner = a.get("operations", NONE)
                        cv = [x for x in walk(inner) if x.op == "call" and callee_qual(x) == f.qual]
                        if any(args_of(x).get("config") is not cfg for x in cv):
                            ctx.ob("composite", lab + ":configuration", False, "the scaled block is converted without the backend's configuration", f.loc)
                        ok = bool(cv) and all(args_of(x).get(f.params[0]) is A("inner") for x in cv)
                        ctx.ob("composite", lab + ":inner", ok, show(inner, 4)[:150], f.loc)
                        v = a.get("param_name", a.get("parameter_name", NONE))
                        if par and not gate:
                            ok = None
                            for x, _ in leaves(v):
                                if x.op == "native_expr":
                                    src = x.a[0]
                                    ok = True if src is A("expr0") else False if contains(src, A("pn0")) else None
                                    why = "the scale is rebuilt by parsing the text of its name, which turns parameters called like sympy objects (E, pi, beta, gamma) into those objects"
                                elif x is A("pn0"):
                                    ok, why = True, ""
                                else:
                                    ok, why = (None if contains(x, A("expr0")) or contains(x, A("pn0")) else False), show(x, 4)[:150]
                                ctx.ob("param", lab, ok, why, f.loc)
                        else:
                            ok = param_ok(v, 0, par) if be == "pyqtorch" or par else v is A("pn0") or param_ok(v, 0, par)
                            ctx.ob("param", lab, ok, f"scale={show(v, 5)[:150]}", f.loc)
            ctx.guard("composite", lab, sc)


def evolution(ctx):
    prog = ctx.prog
    f = ctx.fn(PY + "convert_block")
    c = prog.cls(O + "HamEvo")
    if f is None or c is None:
        return
    formals = ["generator", "time", "qubit_support", "cache_length", "duration", "steps", "solver", "use_sparse", "noise"]
    gen = A("gen")
    kinds = {"block": "qadence.blocks.composite.AddBlock", "tensor": None, "symbol": None, "time-dependent block": "qadence.blocks.composite.AddBlock"}
    for kind, gq in kinds.items():
        lab = f"pyqtorch:HamEvo[{kind} generator]"

        def one(kind=kind, gq=gq, lab=lab):
            td = kind.startswith("time")
            n1, n2 = A("noise1"), A("noise2")
            extra = {(A("block"), "generator"): gen, (A("block"), "duration"): A("duration"), (A("block"), "noise_operators"): mk("list", (n1, n2)), (gen, "is_time_dependent"): const(td), (gen, "qubit_support"): tup(*Q[:2])}
            I, blk, cfg, heap, facts = setup(ctx, PY, c, 2, False, noisy=False, extra=extra)
            if gq:
                I.exact[gen] = prog.cls(gq)
            orc0 = I.oracle

            def orc(cn, st):
                s = show(cn, 6)
                if cn.op == "hasattr" and cn.a[0] is gen:
                    return bool(gq) if cn.a[1] == "is_time_dependent" else None
                if cn.op == "isinst" and cn.a[0] is gen and not gq:
                    return ("torch.Tensor" in s) if kind == "tensor" else ("sympy" in s)
                if cn.op == "isinst" and cn.a[0] is blk:
                    return None
                return orc0(cn, st)
            I.oracle = orc
            ret, st = evaluate(ctx, PY, I, blk, cfg, heap, facts)
            for leaf, gd in outcomes(ret):
                if is_raise(leaf):
                    ctx.ob("evolution", lab, False, f"raises {show(leaf, 3)[:100]}", f.loc)
                    continue
                for op, g2 in ops_in(leaf) or [(leaf, ())]:
                    if native_name(op) != "HamiltonianEvolution":
                        ctx.ob("evolution", lab, None if native_name(op) is None else False, show(op, 3)[:120], f.loc)
                        continue
                    a = with_signature(op, formals)

                    def ob(k, ok, d=""):
                        ctx.ob("evolution", f"{lab}:{k}", ok, d or f"{k}={show(a.get(k, NONE), 5)[:150]}", f.loc)
                    g = a.get("generator", NONE)
                    if kind == "symbol":
                        ob("generator", True if g is A("pn1") else False if g in (A("pn0"), A("pn2")) else None)
                    elif kind == "tensor":
                        ob("generator", contains(g, gen) or False)
                        new = [x for x in walk(g) if x.op == "new" and x.a[0].endswith("MatrixBlock")]
                        for x in new:
                            ax = args_of(x)
                            q = qset(ax.get("qubit_support", NONE))
                            ob("generator qubits", None if q is None else q == (7, 3), f"the generator matrix acts on {q}")
                    else:
                        cv = [x for x in walk(g) if x.op == "call" and callee_qual(x) == f.qual]
                        ob("generator", bool(cv) and all(args_of(x).get(f.params[0]) is gen for x in cv) and (g.op != "sub" or g.a[1] is const(0)))
                        for x in cv:
                            ob("generator configuration", args_of(x).get("config") is cfg, "the generator is converted without the backend's configuration")
                    t = a.get("time", NONE)
                    ob("time", True if t is A("pn0") else False if t in (A("pn1"), A("pn2")) or is_const(t) else None)
                    d = a.get("duration")
                    ob("duration", (d is A("pn1") if td else d is A("duration")) if d is not None else False)
                    q = qset(a.get("qubit_support", NONE))
                    ob("qubit_support", None if q is None and a.get("qubit_support", NONE) is not NONE else q == (7, 3))
                    for k, fld in (("steps", "n_steps_hevo"), ("solver", "ode_solver")):
                        v = a.get(k)
                        ob(k, v is mk("attr", cfg, fld) or (v is not None and contains(v, mk("attr", cfg, fld)) or False))
                    nz = a.get("noise", NONE)
                    ok = []
                    for y, _ in leaves(nz):
                        if y is NONE:
                            ok.append(False)
                        elif y.op == "list":
                            src = [[z for z in (n1, n2) if contains(e, z)] for e in y.a[0]]
                            ok.append(src == [[n1], [n2]])
                        else:
                            ok.append(None)
                    ob("noise", False if False in ok else None if None in ok else True, "the noise operators of the evolution are lost" if False in ok else "")
                    for x in walk(nz):
                        if x.op == "call" and callee_name(x) == "tensor":
                            fs = args_of(x).get("full_support")
                            ob("noise support", fs is not None and qset(fs) == (7, 3), f"noise operators are built on {show(fs) if fs else 'their own'} qubits")
                            break
        ctx.guard("evolution", lab, one)


# ---------------------------------------------------------------------------------------------
def horq(ctx):
    prog = ctx.prog
    f = ctx.fn(HQ + "convert_block")
    if f is None:
        return
    loc = f.loc
    one = {"X": ("X", "NOT"), "Y": ("Y",), "Z": ("Z",), "H": ("H",), "I": ("I",)}
    form1, formp = ["target", "control", "noise"], ["param", "target", "control", "noise"]
    cases = {}
    for g, n in one.items():
        cases[g] = (n, 1, form1, {"target": (7,)})
    for g in ("RX", "RY", "RZ"):
        cases[g] = ((g,), 1, formp, {"param": 0, "target": (7,)})
        cases["C" + g] = ((g,), 2, formp, {"param": 0, "target": (3,), "control": (7,)})
        cases["MC" + g] = ((g,), 4, formp, {"param": 0, "target": (2,), "control": {7, 3, 5}})
    cases["CNOT"] = (("NOT", "X"), 2, form1, {"target": (3,), "control": (7,)})
    cases["CZ"] = (("Z",), 2, form1, {"target": (3,), "control": (7,)})
    cases["MCZ"] = (("Z",), 4, form1, {"target": (2,), "control": {7, 3, 5}})
    cases["SWAP"] = (("SWAP",), 2, form1, {"target": {7, 3}})
    for g in list(cases) + ["S", "SDagger", "T", "TDagger", "PHASE", "U", "CPHASE", "MCPHASE", "CSWAP", "Toffoli", "N", "Projector"]:
        c = prog.cls(O + g)
        if c is None:
            continue
        names, nq, formals, exp = cases.get(g, ((), {"CPHASE": 2, "CSWAP": 3, "MCPHASE": 4, "Toffoli": 4}.get(g, 1), [], {}))
        lab = f"horqrux:{g}"

        def run1(c=c, g=g, names=names, nq=nq, formals=formals, exp=exp, lab=lab):
            par = "param" in formals
            I, blk, cfg, heap, facts = setup(ctx, HQ, c, nq, par, noisy=False)
            ret, _ = evaluate(ctx, HQ, I, blk, cfg, heap, facts)
            alive = 0
            for leaf, gd in outcomes(ret):
                if is_raise(leaf):
                    if g in cases:
                        ctx.ob("supported", lab, False, f"raises {show(leaf, 3)[:100]}", loc)
                    else:
                        ctx.ob("supported", lab, True, "", loc)
                    continue
                alive += 1
                ops = ops_in(leaf)
                if ops is None:
                    ctx.ob("gate", lab, None if leaf.op not in ("list", "tuple") else False, f"returns {show(leaf, 3)[:120]}", loc)
                    continue
                for op, _g in ops:
                    if g not in cases:
                        # newly supported: must at least carry the gate's own name
                        n = native_name(op)
                        ctx.ob("supported", lab, True if n == g else None if n is None else False, f"converted to {show(op, 3)[:100]}", loc)
                        continue
                    nc = native_name(op)
                    ctl = with_signature(op, formals).get("control")
                    if "control" not in exp and ctl is not None and not (ctl.op == "tuple" and all(x is NONE for x in ctl.a[0])) and ctl is not NONE:
                        ctx.ob("gate", lab + ":control", False, f"an uncontrolled gate gets control {show(ctl)}", loc)
                    compare(ctx, lab, op, names, formals, exp, par, loc, noise=False)
            if g in cases and alive:
                ctx.ob("supported", lab, True, "", loc)
        ctx.guard("gate", lab, run1)
    composite(ctx, HQ, "horqrux", {"seq": ("OpSequence",), "add": ("Add",), "scale": ("Scale",)})
    # evolution
    c = prog.cls(O + "HamEvo")
    if c is not None:
        def he():
            I, blk, cfg, heap, facts = setup(ctx, HQ, c, 2, False, noisy=False)
            ret, _ = evaluate(ctx, HQ, I, blk, cfg, heap, facts)
            for leaf, gd in outcomes(ret):
                op = unwrap(leaf)
                if op is None or op.op != "new":
                    ctx.ob("evolution", "horqrux:HamEvo", False if is_raise(leaf) else None, show(leaf, 3)[:100], loc)
                    continue
                ctx.ob("evolution", "horqrux:HamEvo", contains(op, blk) and contains(op, cfg), show(op, 3)[:100], loc)
        ctx.guard("evolution", "horqrux:HamEvo", he)
    u = ctx.fn(HQ + "HorqHamiltonianEvolution._unitary")
    if u is not None:
        def un():
            I = ctx.interp()
            s = P("self")
            H, t = A("H"), A("t")
            I.models["._hamiltonian"] = lambda a, k, st: H
            I.models["._time_evolution"] = lambda a, k, st: t
            ret, _ = I.run(u, heap={(s, "_hamiltonian"): mk("ext", "stub.h"), (s, "_time_evolution"): mk("ext", "stub.t")})
            ok = None
            for leaf, _ in leaves(ret):
                if leaf.op == "call" and callee_name(leaf) == "expm":
                    arg = list(args_of(leaf).values())[0]
                    hs = [x for x in walk(arg) if x.op == "call" and x.a[0] is mk("ext", "stub.h")]
                    ts = [x for x in walk(arg) if x.op == "call" and x.a[0] is mk("ext", "stub.t")]
                    if len(hs) == 1 and len(ts) == 1:
                        from .matrices import J, spoly
                        p = spoly(subst(arg, {hs[0]: H, ts[0]: t}))
                        m = tuple(sorted([(J, 1), (H, 1), (t, 1)], key=lambda q: q[0].n))
                        got = {tuple(sorted(k, key=lambda q: q[0].n)): v for k, v in p.items()}
                        ok = got == {m: -1}
                ctx.ob("evolution", "horqrux:HamEvo:unitary", ok, f"the evolution operator is {show(leaf, 6)[:150]}", u.loc)
        ctx.guard("evolution", "horqrux:HamEvo:unitary", un)
    ini = ctx.fn(HQ + "HorqHamiltonianEvolution.__init__")
    if ini is not None:
        for par in (True, False):
            def init(par=par):
                I, blk, cfg, heap, facts = setup(ctx, HQ, prog.cls(O + "HamEvo"), 2, False, noisy=False)
                I.opaque_extra = None
                gen = A("gen")
                I.exact[gen] = prog.cls("qadence.blocks.composite.AddBlock")
                heap = dict(heap)
                heap.update({(blk, "generator"): gen, (gen, "is_parametric"): const(par)})
                I.models[ "qadence.backends.jax_utils.block_to_jax"] = lambda a, k, s: mk("jaxmat", tuple(a), tuple(sorted(k.items())))
                _, st = I.run(ini, bindings={ini.params[1]: blk, ini.params[2]: cfg}, heap=heap, facts=facts)
                h = obj_heap(st, P("self"))
                lab = f"horqrux:HamEvo:hamiltonian[{'parametric' if par else 'constant'}]"
                clo = h.get("_hamiltonian")
                if clo is None or clo.op != "clo":
                    return ctx.ob("evolution", lab, None, str(sorted(h)), ini.loc)
                fn = I._clo[clo.a[0]]
                b = {fn.params[-1]: A("values")}
                if len(fn.params) > 1:
                    b[fn.params[0]] = P("self")
                r, _s = I.run(fn, captured=clo.a[1], heap=st.heap, bindings=b)
                for leaf, _ in leaves(r):
                    if leaf.op != "jaxmat":
                        ctx.ob("evolution", lab, None, show(leaf, 3)[:100], ini.loc)
                        continue
                    kw = dict(leaf.a[1])
                    ok = (leaf.a[0][:1] == (gen,) or kw.get("block") is gen) and (not par or kw.get("values") is A("values") or A("values") in leaf.a[0])
                    ok = ok and qset(kw.get("qubit_support", NONE)) == (7, 3)
                    ctx.ob("evolution", lab, ok, f"the Hamiltonian is {show(leaf, 4)[:150]}", ini.loc)
                tc = h.get("_time_evolution")
                if tc is not None and tc.op == "clo":
                    fn = I._clo[tc.a[0]]
                    r, _s = I.run(fn, captured=tc.a[1], heap=st.heap, bindings={fn.params[-1]: A("values")})
                    for leaf, _ in leaves(r):
                        ctx.ob("evolution", lab + ":time", leaf is mk("sub", A("values"), A("pn0")) if leaf.op == "sub" else None, show(leaf, 3)[:100], ini.loc)
            ctx.guard("evolution", "horqrux:HamEvo:hamiltonian", init)


# ---------------------------------------------------------------------------------------------
def expression(ctx):
    f = ctx.fn(PY + "sympy_to_pyq")
    if f is None:
        return
    tab = f.module.assigns.get("SYMPY_TO_PYQ_MAPPING") if hasattr(f.module, "assigns") else None
    I = ctx.interp()
    t = I.eval_module_expr(ast.Name("SYMPY_TO_PYQ_MAPPING", ast.Load()), f.module, ("lowering", "tab"))
    if t.op == "dict":
        for k, v in t.a[0]:
            nm = k.a[0].split(".")[-1] if k.op in ("ext", "cls") else None
            if nm is None or not is_const(v):
                continue
            if nm in SYMPY:
                ctx.ob("expression", f"SYMPY_TO_PYQ_MAPPING[{nm}]", cval(v) in SYMPY[nm], f"sympy.{nm} is computed by {cval(v)}", f.loc)
    else:
        ctx.ob("expression", "SYMPY_TO_PYQ_MAPPING", None, show(t, 3)[:100], f.loc)
    for n in (1, 2, 3):
        def one(n=n):
            I = ctx.interp(opaque=())
            e = A("e")
            args = [A(f"a{i}") for i in range(n)]
            fnm = mk("ext", "sympy.Pow" if n == 2 else "sympy.cos" if n == 1 else "sympy.Add")
            heap = {(e, "args"): tup(*args), (e, "func"): fnm}
            calls_ = []
            for x in args:
                heap[(x, "args")] = tup()
            I.models["builtins.float"] = lambda a, k, s: mk("num", a[0]) if a and a[0].op == "atom" else None
            I.models["builtins.str"] = lambda a, k, s: mk("name", a[0]) if a and a[0].op == "atom" else None
            ret, _ = I.run(f, bindings={f.params[0]: e}, heap=heap)
            lab = f"sympy_to_pyq[{n} arguments]"
            for leaf, _ in leaves(ret):
                if is_raise(leaf):
                    continue
                order = []

                def rd(x, top=False):
                    if x.op == "call" and callee_name(x) == "ConcretizedCallable":
                        a = with_signature(x, ["call_name", "abstract_args"])
                        cn = a.get("call_name", NONE)
                        av = a.get("abstract_args", NONE)
                        if av.op not in ("list", "tuple"):
                            return False
                        want = {1: "cos", 2: "pow", 3: "add"}[n]
                        if not (is_const(cn) and cval(cn) == want):
                            order.append("?" if not is_const(cn) else "!" + str(cval(cn)))
                        return all(rd(y) for y in av.a[0])
                    if x.op == "reduce":
                        return False
                    hit = [y for y in args if contains(x, y)]
                    if len(hit) == 1:
                        order.append(hit[0].a[0])
                        return True
                    return False
                ok = rd(leaf, True)
                want = [x.a[0] for x in args]
                bad = [o for o in order if o.startswith("!")]
                if bad:
                    ctx.ob("expression", lab, False, f"the expression is computed with {bad[0][1:]}", f.loc)
                    continue
                ctx.ob("expression", lab, None if not ok or "?" in order else order == want or (n == 3 and sorted(order) == want), f"arguments {want} are used as {order}", f.loc)
        ctx.guard("expression", f"sympy_to_pyq[{n}]", one)


# ---------------------------------------------------------------------------------------------
def backends(ctx):
    prog = ctx.prog
    for be, mod in (("pyqtorch", "qadence.backends.pyqtorch."), ("horqrux", "qadence.backends.horqrux.")):
        f = ctx.fn(mod + "backend.Backend.circuit")
        if f is not None:
            def circ(f=f, be=be, mod=mod):
                conv = mod + "convert_ops.convert_block"
                I = ctx.interp(opaque=(conv, "qadence.transpile.transpile.transpile", "qadence.transpile.noise.set_noise"))
                tr = []
                I.models["qadence.transpile.transpile.transpile"] = lambda a, k, s: mk("xform", tuple(a))
                I.oracle = lambda c, st: True if c.op == "lt" and c.a[0] is const(0) else None
                ret, _ = I.run(f)
                seen = 0
                for leaf, gd in leaves(ret):
                    if is_raise(leaf):
                        continue
                    if leaf.op != "new":
                        ctx.ob("backend", f"{be}.circuit", None, show(leaf, 3)[:100], f.loc)
                        continue
                    a = args_of(leaf)
                    for nat, g2 in leaves(a.get("native", NONE)):
                        if nat.op != "call":
                            ctx.ob("backend", f"{be}.circuit", None, show(nat, 3)[:100], f.loc)
                            continue
                        sig = with_signature(nat, ["n_qubits", "operations", "readout_noise"])
                        ab = a.get("abstract", NONE)
                        for cv, _ in leaves(sig.get("operations", NONE)):
                            seen += 1
                            if cv.op != "call" or callee_qual(cv) != conv:
                                ctx.ob("backend", f"{be}.circuit:operations", None, show(cv, 3)[:100], f.loc)
                                continue
                            blk = args_of(cv).get("block", NONE)
                            okb = [x.op == "attr" and x.a[1] == "block" for x, _ in leaves(blk)]
                            src = {x.a[0] for x, _ in leaves(blk) if x.op == "attr"}
                            abl = {x for x, _ in leaves(ab)}
                            ctx.ob("backend", f"{be}.circuit:block", (all(okb) and src <= abl) if all(okb) else None, f"the native circuit is built from {show(blk, 4)[:120]}, the recorded circuit is {show(ab, 3)[:80]}", f.loc)
                            cf = args_of(cv).get("config")
                            ctx.ob("backend", f"{be}.circuit:config", cf is mk("attr", P("self"), "config"), f"config={show(cf) if cf else 'default'}", f.loc)
                            nqv = args_of(cv).get("n_qubits")
                            ctx.ob("backend", f"{be}.circuit:conversion width", nqv is not None and all(x.op == "attr" and x.a[1] == "n_qubits" for x, _ in leaves(nqv)) or nqv is None, f"n_qubits={show(nqv, 3) if nqv else ''}", f.loc)
                        nq = sig.get("n_qubits", NONE)
                        okn = [x.op == "attr" and x.a[1] == "n_qubits" for x, _ in leaves(nq)]
                        ctx.ob("backend", f"{be}.circuit:width", all(okn) or (None if not is_const(nq) else False), f"the native circuit has {show(nq, 3)[:80]} qubits", f.loc)
                    og = a.get("original", NONE)
                    ctx.ob("backend", f"{be}.circuit:original", og is P(f.params[1]), show(og, 3)[:80], f.loc)
            ctx.guard("backend", f"{be}.circuit", circ)
        f = ctx.fn(mod + "backend.Backend.observable")
        if f is not None:
            def obs(f=f, be=be, mod=mod):
                conv = mod + "convert_ops.convert_block"
                I = ctx.interp(opaque=(conv, "qadence.transpile.transpile.transpile"))
                ret, _ = I.run(f)
                for leaf, gd in leaves(ret):
                    if is_raise(leaf) or leaf.op != "new":
                        continue
                    a = args_of(leaf)
                    nat, ab = a.get("native", NONE), a.get("abstract", NONE)
                    cv = [x for x in walk(nat) if x.op == "call" and callee_qual(x) == conv]
                    if not cv:
                        ctx.ob("backend", f"{be}.observable", None, show(nat, 3)[:100], f.loc)
                        continue
                    for x in cv:
                        ax = args_of(x)
                        ctx.ob("backend", f"{be}.observable:block", ax.get("block") is ab and contains(ab, P(f.params[1])), f"the native observable is built from {show(ax.get('block', NONE), 4)[:100]}", f.loc)
                        ctx.ob("backend", f"{be}.observable:width", ax.get("n_qubits") is P(f.params[2]), f"n_qubits={show(ax.get('n_qubits', NONE), 3)}", f.loc)
                        ctx.ob("backend", f"{be}.observable:config", ax.get("config") is mk("attr", P("self"), "config"), "", f.loc)
            ctx.guard("backend", f"{be}.observable", obs)


def channels(ctx):
    f = ctx.fn(PY + "convert_digital_noise")
    NP = "qadence.noise.protocols.NoiseHandler.filter"
    if f is not None:
        def dig():
            I = ctx.interp()
            part = A("part")
            p1, p2, o1, o2 = A("p1"), A("p2"), A("o1"), A("o2")
            flt = []

            def fl(a, k, s):
                flt.append(list(a) + list(k.values()))
                return part
            I.models[".filter"] = fl
            I.models[NP] = fl
            I.models[".get"] = lambda a, k, s: None
            heap = {(part, "protocol"): mk("list", (p1, p2)), (part, "options"): mk("list", (mk("dict", ((const("error_probability"), A("q1")),)), mk("dict", ((const("error_probability"), A("q2")),))))}
            ret, _ = I.run(f, heap=heap, facts=given(part))
            for leaf, _ in leaves(ret):
                if leaf.op != "call" or callee_name(leaf) != "DigitalNoiseProtocol":
                    ctx.ob("channel", "digital noise", None if not is_const(leaf) else False, show(leaf, 4)[:120], f.loc)
                    continue
                inner = list(args_of(leaf).values())[0]
                if inner.op != "list":
                    ctx.ob("channel", "digital noise", None, show(inner, 4)[:120], f.loc)
                    continue
                got = []
                for x in inner.a[0]:
                    a = with_signature(x, ["protocol", "error_probability", "target"]) if x.op == "call" else {}
                    got.append((show(a.get("protocol", NONE)), show(a.get("error_probability", NONE))))
                ctx.ob("channel", "digital noise", got == [("atom(p1)", "atom(q1)"), ("atom(p2)", "atom(q2)")], f"channels {got}", f.loc)
            for a in flt:
                e = [x for x in a if x.op in ("enum", "ext", "attr", "cls")]
                s = show(e[-1]) if e else ""
                ctx.ob("channel", "digital filter", "DIGITAL" in s.upper() if s else None, f"digital noise is selected by {s}", f.loc)
        ctx.guard("channel", "digital noise", dig)
    f = ctx.fn(PY + "convert_readout_noise")
    if f is not None:
        for kind in ("INDEPENDENT", "CORRELATED"):
            def rd(kind=kind):
                I = ctx.interp()
                part = A("part")
                I.models[NP] = lambda a, k, s: part
                I.models[".filter"] = lambda a, k, s: part
                pr = mk("enum", "qadence.types.ReadoutNoise", kind)
                heap = {(part, "protocol"): mk("list", (pr,)), (part, "options"): mk("list", (A("opts"),))}
                ret, _ = I.run(f, heap=heap, facts=given(part))
                for leaf, _ in leaves(ret):
                    n = callee_name(leaf) if leaf.op == "call" else None
                    want = {"INDEPENDENT": "ReadoutNoise", "CORRELATED": "CorrelatedReadoutNoise"}[kind]
                    ctx.ob("channel", f"readout noise[{kind}]", None if n is None else n == want, f"{kind} readout noise becomes {show(leaf, 3)[:100]}", f.loc)
                    if n == "ReadoutNoise":
                        nq = with_signature(leaf, ["n_qubits"]).get("n_qubits")
                        ctx.ob("channel", "readout noise:qubits", True if nq is P(f.params[0]) else False if nq is None or is_const(nq) else None, f"n_qubits={show(nq) if nq else 'missing'}", f.loc)
                    if n:
                        ctx.ob("channel", f"readout noise[{kind}]:options", contains(leaf, A("opts")), show(leaf, 3)[:100], f.loc)
            ctx.guard("channel", f"readout noise[{kind}]", rd)
