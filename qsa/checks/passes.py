"""Denotation-preservation analysis of the circuit and block transformations.

Every transpilation pass is abstractly evaluated on block trees covering each parent/child combination of block kinds with opaque
leaves and symbolic scales; the operator denoted by the result (a non-commutative polynomial, normalised modulo commutation on disjoint
qubits) is compared with that of the input, and writes to the input objects are tracked.
"""
from __future__ import annotations

import itertools

from ..blk import *
from ..numfold import GATES, close, dag
from ..util import *

T_ = "qadence.transpile."


def shapes(w):
    L = w.leaf
    s, t = P("s"), P("t")
    a, a2, b, b2 = L("a", "X", (0,)), L("a2", "Y", (0,)), L("b", "RX", (1,)), L("b2", "H", (1,))
    c, d, e = L("c", "CNOT", (0, 1)), L("d", "Z", (2,)), L("e", "CRX", (2, 3))
    C, K, S, D = (lambda *x: w.comp("Chain", *x)), (lambda *x: w.comp("Kron", *x)), w.scale, (lambda *x: w.comp("Add", *x))
    out = {
        "leaf": a, "controlled": c,
        "chain": C(a, b, c), "kron": K(a, b, d), "add": D(a, b, c),
        "chain of chains": C(a, C(b, c), C(C(d, a2), b2)), "chain of chain in front": C(C(C(a), b), c),
        "kron of krons": K(a, K(b, d)), "add of adds": D(a, D(b, D(c, d)), a2),
        "chain of krons": C(K(a, b), K(a2, b2)), "chain of krons, other order": C(K(a, b), K(b2, a2)), "chain of krons on different qubits": C(K(a, b), K(b2, d)), "kron of chains": K(C(a, a2), C(b, b2)), "chain of mixed krons": C(K(a, b), c, K(K(a2, d), b2)),
        "chain of adds": C(D(a, a2), D(b, D(b2, c))), "add of chains": D(C(a, b), C(c, C(d, a2))), "add of krons": D(K(a, b), K(a2, K(b2, d))), "kron of adds": K(D(a, a2), D(b, b2)),
        "scaled leaf": S(s, a), "scaled chain": S(s, C(a, b)), "scaled kron": S(s, K(a, b)), "scaled add": S(s, D(a, b)), "scaled nested chain": S(s, C(a, C(b, c))),
        "scaled scale": S(s, S(t, a)), "scaled scaled add": S(s, S(t, D(a, b))), "scaled add of scales": S(s, D(S(t, a), b)), "scaled chain of scales": S(s, C(S(t, a), b)),
        "scaled chain starting with an add": S(s, C(D(a, b), c)), "scaled chain starting with a kron": S(s, C(K(a, b), D(a2, c))), "scaled kron of adds": S(s, K(D(a, a2), b)),
        "chain with scaled chain": C(a, S(s, C(b, C(c, d)))), "chain starting with scaled chain": C(S(s, C(b, c)), a), "add with scaled adds": D(a, S(s, D(b, D(c, d))), S(t, D(a2, b2))),
        "kron with scaled chain": K(S(s, C(a, a2)), S(t, b)), "deep": C(a, S(s, D(C(b, S(t, K(a, C(b2, b)))), c)), D(a2, C(C(c), b))),
        "same leaf twice": C(a, a, C(a, b)), "single": C(C(a)), "single add": D(D(a)),
    }
    return out


def read(w, ret, st, want, want_nf=None):
    """-> (ok, detail)"""
    bad = und = None
    n = 0
    for leaf, g in ret:
        if is_raise(leaf):
            und = und or "raises"
            if len(ret) == 1:
                return False, f"raises {show(leaf, 3)[:120]}"
            continue
        try:
            got = w.den(leaf, st.heap)
        except Bad as ex:
            bad = str(ex)
            continue
        except (NoDen, KeyError, ValueError) as ex:
            und = f"cannot read {show(leaf, 4)[:160]}: {ex}"
            continue
        n += 1
        if got != want:
            bad = f"denotes {word_str(got)[:200]} instead of {word_str(want)[:200]}"
    return (False, bad) if bad else (None, und or "no result") if und or not n else (True, "")


def tree(w, t, heap, seen=0):
    """(block, parent) pairs of a block term"""
    out = [(t, None)]
    todo = [t]
    while todo:
        x = todo.pop()
        ks = w.children(x, heap)
        if ks is None:
            if w.is_scale(x):
                b = heap.get((x, "block")) or (args_of(x).get("block") if x.op == "new" else None)
                ks = [b] if b is not None else []
            else:
                ks = []
        for k in ks:
            out.append((k, x))
            todo.append(k)
    return out


def check(ctx):
    ctx.rule("operator", "a transpilation pass returns a block denoting the same operator", 150)
    ctx.rule("form", "a pass establishes the form it exists for: flattened nesting, scales on primitive blocks only", 60)
    ctx.rule("pure", "a pass does not modify the block it is given", 150)
    ctx.rule("circuit", "the circuit version of a pass applies it once to the circuit's block and keeps the register", 6)
    ctx.rule("compose", "transpile composes passes right to left, applying each exactly once", 2)
    ctx.rule("apply", "apply_fn_to_blocks visits every leaf once and rebuilds the same tree; set_noise changes the noise of the selected leaves only", 20)
    ctx.rule("trainable", "set_as_variational/set_as_fixed change the trainability of exactly the selected symbols", 3)
    ctx.rule("decompose", "digital decompositions implement the exponential of each Pauli term and the Euler form of U", 8)
    block_passes(ctx)
    circuits(ctx)
    compose(ctx)
    leaf_fns(ctx)
    trainable(ctx)
    decompose(ctx)


def block_passes(ctx):
    prog = ctx.prog
    ch, kr, ad = (mk("cls", KIND[k]) for k in ("Chain", "Kron", "Add"))
    passes = []
    for r in range(1, 4):
        for ts in itertools.combinations((ch, kr, ad), r):
            passes.append(("flatten", T_ + "flatten.flatten", {"types": mk("list", ts)}, [x.a[0] for x in ts]))
    passes.append(("flatten reversed", T_ + "flatten.flatten", {"types": mk("list", (ad, kr, ch))}, [x.a[0] for x in (ad, kr, ch)]))
    passes.append(("scale_primitive_blocks_only", T_ + "block.scale_primitive_blocks_only", {}, None))
    passes.append(("chain_single_qubit_ops", T_ + "block.chain_single_qubit_ops", {}, None))
    passes.append(("fill_identities", T_ + "block.fill_identities", {"start": const(0), "stop": const(4)}, None))
    passes.append(("digitalize", T_ + "digitalize.digitalize", {"approximation": mk("enum", "qadence.types.LTSOrder", "BASIC")}, None))
    for name, q, extra, types in passes:
        f = ctx.fn(q)
        if f is None:
            continue
        labs = list(shapes(World(ctx)))
        for lab in labs:
            cons = f"{name}{'[' + ','.join(x.split('.')[-1] for x in types) + ']' if types else ''}({lab})"

            def one(name=name, f=f, extra=extra, types=types, lab=lab, cons=cons):
                w = World(ctx)
                t = shapes(w)[lab]
                want = w.den(t, w.heap)
                fr, st = call(w, f, t, extra)
                ok, det = read(w, fr, st, want)
                ctx.ob("operator", cons, ok, det, f.loc)
                wr = w.written(st)
                ctx.ob("pure", cons, not wr, "; ".join(f"writes {show(o)}.{a} = {show(v, 2)[:60]}" for o, a, v in wr[:3]), f.loc)
                if ok and name.startswith("flatten") and (len(types) > 1 or lab in ("chain of chains", "kron of krons", "add of adds")):
                    res = fr[0][0]
                    bad = None
                    for x, p in tree(w, res, st.heap):
                        if p is None:
                            continue
                        cx, cp = w.cls_of(x), w.cls_of(p)
                        if cx is cp and cx is not None and cx.qual in types:
                            bad = f"a {cx.name} remains nested directly in a {cp.name}"
                    ctx.ob("form", cons, bad is None, bad or "", f.loc)
                if ok and name.startswith("scale"):
                    res = fr[0][0]
                    bad = None
                    for x, p in tree(w, res, st.heap):
                        if w.is_scale(x):
                            b = st.heap.get((x, "block")) or args_of(x).get("block")
                            cb = w.cls_of(b)
                            if cb is None:
                                bad = bad or ""
                            elif cb.is_subclass("qadence.blocks.composite.CompositeBlock") or w.is_scale(b):
                                bad = f"the scale stays on a {cb.name}"
                    if any(x.op == "bin" for x, _ in tree(w, res, st.heap)):
                        for x in (y for y, _ in tree(w, res, st.heap) if y.op == "bin"):
                            for z in x.a[1:]:
                                cz = w.cls_of(z)
                                if cz is not None and (cz.is_subclass("qadence.blocks.composite.CompositeBlock") or w.is_scale(z)):
                                    bad = f"the scale stays on a {cz.name}"
                    ctx.ob("form", cons, bad is None, bad or "", f.loc)

            ctx.guard("operator", cons, one)


def call(w, f, t, extra):
    """evaluate the (dispatched) function on block t"""
    src = Func("qsa.call", "call", ast.parse("def call(f, x): return f(x, **kw)").body[0], f.module, None)
    from ..absint import Frame, State, add_fact
    st = State({}, dict(w.heap))
    for c, v in w.facts:
        add_fact(st.facts, c, v)
    w.I.stack = ("qsa.call",)
    try:
        r = Frame(w.I, src, f.module, None).apply(mk("fn", f.qual), [t], dict(extra), st, f.node)
    except AbsRaise as ex:
        r = ex.term
    return [(l, g) for l, g in leaves(r)], st



def circ(w, block, nq=5, name="circ"):
    t = A(name)
    w.I.exact[t] = w.prog.cls("qadence.circuit.QuantumCircuit")
    w.heap.update({(t, "block"): block, (t, "register"): A("reg"), (t, "n_qubits"): const(nq), (A("reg"), "n_qubits"): const(nq)})
    w.facts += [(mk("isnone", t), False), (mk("truthy", t), True)]
    return t


def circ_parts(leaf):
    """(support, block list) of a constructed circuit"""
    if leaf.op != "new" or not leaf.a[0].endswith("QuantumCircuit"):
        return None
    sup, bl = None, []
    for k, v in leaf.a[1]:
        if k in ("support", 0):
            sup = v
        elif k == "*":
            bl += list(v.a[0]) if v.op in ("tuple", "list") else [mk("star", v)]
        else:
            bl.append(v)
    return sup, bl


def circuits(ctx):
    for q in ("flatten.flatten", "digitalize.digitalize", "circuit.fill_identities"):
        f = ctx.fn(T_ + q)
        if f is None:
            continue
        for lab, kids in (("a wire without gates", ((0,), (2,))), ("all wires used", ((0,), (1,), (2,), (3,), (4,)))):
            cons = f"{f.name}[QuantumCircuit]({lab})"

            def one(f=f, q=q, kids=kids, cons=cons):
                w = World(ctx)
                b = w.comp("Chain", *(w.leaf(f"g{i}", "X", s) for i, s in enumerate(kids)))
                c = circ(w, b)
                n = []

                def md(a, k, s):
                    if a and a[0] is b:
                        n.append(1)
                        return b
                    return None
                if q != "circuit.fill_identities":
                    w.I.models[f.qual] = md
                ret, st = call(w, f, c, {})
                bad = und = None
                for leaf, g in ret:
                    if is_raise(leaf):
                        bad = "raises"
                        continue
                    if leaf is c:
                        if q != "circuit.fill_identities":
                            und = "returns the circuit itself"
                        continue
                    pr = circ_parts(leaf)
                    if pr is None:
                        und = show(leaf, 3)
                        continue
                    if pr[0] is not A("reg"):
                        bad = f"the circuit is rebuilt on {show(pr[0], 3)} instead of its register"
                    blk = pr[1][0] if len(pr[1]) == 1 else mk("new", KIND["Chain"], (("blocks", mk("tuple", tuple(pr[1]))),))
                    try:
                        if w.den(blk, st.heap) != w.den(b, w.heap):
                            bad = "the block denotes another operator"
                    except (NoDen, Bad) as ex:
                        und = str(ex)
                if q != "circuit.fill_identities" and len(n) != 1 and not bad and not und:
                    bad = f"the pass is applied {len(n)} times"
                ctx.ob("circuit", cons, False if bad else None if und else True, bad or und or "", f.loc)
            ctx.guard("circuit", cons, one)
    f = ctx.fn(T_ + "transpile.blockfn_to_circfn")
    if f is not None:
        def one():
            w = World(ctx)
            b = w.leaf("a", "X", (0,))
            c = circ(w, b)
            from ..absint import Frame, State, add_fact
            st = State({}, dict(w.heap))
            fr = Frame(w.I, f, f.module, None)
            w.I.stack = ("qsa",)
            clo = fr.apply(mk("fn", f.qual), [A("fn")], {}, st, f.node)
            r = fr.apply(clo, [c], {}, st, f.node)
            want = mk("call", A("fn"), ((0, b),))
            bad = und = None
            for leaf, g in leaves(r):
                pr = circ_parts(leaf)
                if pr is None:
                    und = show(leaf, 4)
                    continue
                if pr[0] is not A("reg"):
                    bad = f"the circuit is rebuilt on {show(pr[0], 3)} instead of its register"
                elif len(pr[1]) != 1 or pr[1][0] is not want:
                    bad = f"the block becomes {show(mk('tuple', tuple(pr[1])), 4)}"
            ctx.ob("circuit", "blockfn_to_circfn", False if bad else None if und else True, bad or und or "", f.loc)
        ctx.guard("circuit", "blockfn_to_circfn", one)


def compose(ctx):
    f = ctx.fn(T_ + "transpile.transpile")
    if f is None:
        return
    for n in (1, 2, 3):
        def one(n=n):
            from ..absint import Frame, State
            w = World(ctx)
            st = State({}, {})
            fr = Frame(w.I, f, f.module, None)
            w.I.stack = ("qsa",)
            fs = [A(f"f{i}") for i in range(n)]
            clo = fr.apply(mk("fn", f.qual), list(fs), {}, st, f.node)
            r = fr.apply(clo, [A("x")], {}, st, f.node)
            want = A("x")
            for g in reversed(fs):
                want = mk("call", g, ((0, want),))
            ok = r is want
            if not ok and not all(x.op in ("call", "atom", "const", "list", "tuple") for x in walk(r)):
                return ctx.ob("compose", f"transpile of {n}", None, show(r, 5), f.loc)
            ctx.ob("compose", f"transpile of {n}", ok, f"builds {show(r, 6)} instead of {show(want, 6)}", f.loc)
        ctx.guard("compose", f"transpile of {n}", one)


LEAFY = ("leaf", "chain", "kron", "add", "chain of chains", "kron of krons", "add of adds", "chain of krons", "add of chains", "chain of adds")


def leaf_fns(ctx):
    f = ctx.fn(T_ + "noise.set_noise")
    ap = ctx.fn(T_ + "apply_fn.apply_fn_to_blocks")
    if ap is not None:
        for lab in LEAFY:
            def one(lab=lab):
                w = World(ctx)
                t = shapes(w)[lab]
                want = w.den(t, w.heap)
                seen = []
                w.I.models["qsa.leaf_fn"] = lambda a, k, s: (seen.append((a[0], tuple(a[1:]), tuple(sorted(k.items(), key=lambda p: p[0])))), a[0])[1]
                from ..absint import Frame, State, add_fact
                st = State({}, dict(w.heap))
                for c, v in w.facts:
                    add_fact(st.facts, c, v)
                fr = Frame(w.I, ap, ap.module, None)
                w.I.stack = ("qsa",)
                r = fr.apply(mk("fn", ap.qual), [t, mk("ext", "qsa.leaf_fn"), A("arg")], {"opt": A("optv")}, st, ap.node)
                ok, det = read(w, [(l, g) for l, g in leaves(r)], st, want)
                if ok:
                    ls = [x for x, p in tree(w, t, w.heap) if w.children(x, w.heap) is None]
                    got = [x for x, _, _ in seen]
                    if sorted(map(str, got)) != sorted(map(str, ls)):
                        ok, det = False, f"applied to {[show(x) for x in got]}, the leaves are {[show(x) for x in ls]}"
                    elif any(a != (A("arg"),) or k != (("opt", A("optv")),) for _, a, k in seen):
                        ok, det = False, "the extra arguments do not reach the leaf function"
                ctx.ob("apply", f"apply_fn_to_blocks({lab})", ok, det, ap.loc)
            ctx.guard("apply", f"apply_fn_to_blocks({lab})", one)
    if f is None:
        return
    for lab in LEAFY:
        for kind in ("block", "circuit", "converted"):
            for target in (None, "X"):
                if kind != "block" and lab not in ("chain", "chain of krons"):
                    continue
                cons = f"set_noise({kind} {lab}{', only ' + target if target else ''})"

                def one(lab=lab, kind=kind, target=target, cons=cons):
                    w = World(ctx)
                    t = shapes(w)[lab]
                    ls = [x for x, p in tree(w, t, w.heap) if w.children(x, w.heap) is None]
                    for x in ls:
                        w.heap[(x, "_noise")] = A("old")
                    arg = t
                    if kind != "block":
                        arg = circ(w, t)
                    if kind == "converted":
                        cv = A("conv")
                        w.I.exact[cv] = w.prog.cls("qadence.backend.ConvertedCircuit")
                        w.heap[(cv, "abstract")] = arg
                        arg = cv
                    ex = {"noise": A("new")}
                    if target:
                        ex["target_class"] = mk("cls", "qadence.operations.primitive." + target if w.prog.cls("qadence.operations.primitive." + target) else OPS + target)
                        w.facts += [(mk("isnone", ex["target_class"]), False)]
                    ret, st = call(w, f, arg, ex)
                    bad = None
                    for x in ls:
                        hit = target is None or w.I.exact[x].name == target
                        v = st.heap.get((x, "_noise"))
                        if v is not (A("new") if hit else A("old")):
                            if v is not None and v.op == "ite":
                                return ctx.ob("apply", cons, None, show(v, 3), f.loc)
                            bad = f"leaf {show(x)} of class {w.I.exact[x].name} ends with noise {show(v, 3) if v is not None else None}"
                    for leaf, g in ret:
                        if leaf is not arg and not is_raise(leaf):
                            bad = bad or f"returns {show(leaf, 3)} instead of its argument"
                    ctx.ob("apply", cons, bad is None, bad or "", f.loc)
                ctx.guard("apply", cons, one)


def trainable(ctx):
    for fn, val in (("set_as_variational", True), ("set_as_fixed", False), ("set_trainable", None)):
        f = ctx.fn(T_ + "block." + fn)
        if f is None:
            continue
        for names in ((), ("p",)):
            for many in (False, True):
                for v in ((True, False) if val is None else (val,)):
                    cons = f"{fn}({'list' if many else 'block'}, names={list(names)}, {v})"

                    def one(f=f, names=names, many=many, v=v, val=val, cons=cons):
                        w = World(ctx)
                        b, b2 = w.leaf("blk", "RX", (0,)), w.leaf("blk2", "RX", (1,))
                        own = {b: [A("p"), A("q"), A("num")], b2: [A("r")]}
                        for x in ("p", "q", "r", "num"):
                            w.heap[(A(x), "is_number")] = const(x == "num")
                            w.heap[(A(x), "name")] = const(x)
                            w.heap[(A(x), "trainable")] = A("before")
                        w.I.models["qadence.blocks.utils.parameters"] = lambda a, k, s: mk("list", tuple(own[a[0]])) if a and a[0] in own else None
                        ex = {"restricted_names": mk("list", tuple(const(n) for n in names))}
                        if val is None:
                            ex["value"] = const(v)
                        ret, st = call(w, f, mk("list", (b, b2)) if many else b, ex)
                        bad = None
                        for x in ("p", "q", "num") + (("r",) if many else ()):
                            hit = x != "num" and (not names or x in names)
                            got = st.heap.get((A(x), "trainable"))
                            if got is not (const(v) if hit else A("before")):
                                bad = f"symbol {x} ends with trainable = {show(got, 3)}"
                        ctx.ob("trainable", cons, bad is None, bad or "", f.loc)
                    ctx.guard("trainable", cons, one)


# ---------------------------------------------------------------------------------------------
# digital decompositions


def hams(w):
    """label -> (block, [(pauli string {qubit: letter}, scale term)]) of Pauli Hamiltonians covering adjacency, order, repetition and scale placement"""
    L, s, u = w.leaf, P("s"), P("u")
    n = [0]

    def p(c, q):
        n[0] += 1
        return L(f"{c.lower()}{q}_{n[0]}", c, (q,))
    K, D, C, S = (lambda *x: w.comp("Kron", *x)), (lambda *x: w.comp("Add", *x)), (lambda *x: w.comp("Chain", *x)), w.scale
    one = const(1)
    return {
        "X": (p("X", 1), [({1: "X"}, one)]), "Y": (p("Y", 0), [({0: "Y"}, one)]), "Z": (p("Z", 2), [({2: "Z"}, one)]),
        "scaled Z": (S(s, p("Z", 0)), [({0: "Z"}, s)]),
        "ZZ": (K(p("Z", 0), p("Z", 1)), [({0: "Z", 1: "Z"}, one)]),
        "Z0 Z2 (gap)": (K(p("Z", 0), p("Z", 2)), [({0: "Z", 2: "Z"}, one)]),
        "scaled X2 Y0 (unsorted, gap)": (S(s, K(p("X", 2), p("Y", 0))), [({0: "Y", 2: "X"}, s)]),
        "Y3 X1 Z0 (unsorted)": (K(p("Y", 3), p("X", 1), p("Z", 0)), [({0: "Z", 1: "X", 3: "Y"}, one)]),
        "YYYY": (K(*(p("Y", i) for i in range(4))), [({i: "Y" for i in range(4)}, one)]),
        "sum": (D(S(s, K(p("X", 0), p("X", 1))), S(u, p("Z", 2)), p("Y", 1)), [({0: "X", 1: "X"}, s), ({2: "Z"}, u), ({1: "Y"}, one)]),
        "scaled sum": (S(s, D(K(p("Z", 0), p("Y", 2)), S(u, p("X", 1)))), [({0: "Z", 2: "Y"}, s), ({1: "X"}, mk("bin", "*", s, u))]),
        "nested sum": (D(p("X", 0), S(s, D(p("Z", 0), S(u, D(p("Z", 1), p("X", 1)))))), [({0: "X"}, one), ({0: "Z"}, s), ({1: "Z"}, mk("bin", "*", s, u)), ({1: "X"}, mk("bin", "*", s, u))]),
        "scale inside kron": (D(K(S(s, p("X", 0)), p("Z", 1)), p("Y", 2)), [({0: "X", 1: "Z"}, s), ({2: "Y"}, one)]),
        "scales inside kron": (S(u, K(S(s, p("X", 0)), S(s, p("Z", 2)))), [({0: "X", 2: "Z"}, mk("bin", "*", u, mk("bin", "*", s, s)))]),
        "chain of paulis": (S(s, C(p("X", 0), p("Z", 1))), [({0: "X", 1: "Z"}, s)]),
    }


PAULI = ("I", "X", "Y", "Z")


def pauli_string(m, n):
    """the signed Pauli string equal to matrix m, or None"""
    d = 2**n
    # x part from the non-zero column of row 0
    cols = [j for j in range(d) if abs(m[0][j]) > 1e-9]
    if len(cols) != 1:
        return None
    x = cols[0]
    for z in range(d):
        # P[i][i^x] = c * (-1)^{popcount(z & i)}
        c = m[0][x]
        ok = all(abs(m[i][i ^ x] - c * (-1) ** bin(z & (i ^ x) ).count("1") * (-1) ** bin(z & x).count("1")) < 1e-9 for i in range(d))
        if not ok:
            continue
        letters = {}
        base = [[1 + 0j]]
        from ..numfold import kron as kr
        for q in range(n):
            bx, bz = (x >> (n - 1 - q)) & 1, (z >> (n - 1 - q)) & 1
            l = "IXZY"[bx + 2 * bz]
            if l != "I":
                letters[q] = l
            base = kr(base, GATES[l])
        sg = m[0][x] / base[0][x]
        if abs(abs(sg) - 1) > 1e-6:
            return None
        return letters, sg
    return None


def gate_matrix(w, t, heap):
    """(matrix or (axis, angle term), qubits) of a constructed gate"""
    from ..numfold import NoFold, controlled, fold, rot
    c = w.cls_of(t)
    if c is None or t.op != "new":
        raise NoDen(show(t, 3))
    a = args_of(t)
    s = w.support(t, heap)
    if s is None:
        raise NoDen(f"support of {show(t, 3)}")
    n = c.name
    if n in ("RX", "RY", "RZ", "PHASE"):
        ang = a.get("parameter")
        while ang.op in ("new", "call") and callee_name(ang) in ("Parameter", "sympify") and ang.a[1]:
            ang = ang.a[1][0][1]
        try:
            v = fold(ang)
            if n != "PHASE":
                return rot(n[1], v.real), s
        except NoFold:
            pass
        if n == "PHASE":
            raise NoDen("PHASE")
        return (n[1], ang), s
    if n in GATES:
        return GATES[n], s
    if n in ("CNOT", "CY", "CZ"):
        return controlled(GATES[{"CNOT": "X", "CY": "Y", "CZ": "Z"}[n]]), s
    if n == "SWAP":
        return [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], s
    raise NoDen(n)


def rotations(w, gates, heap, n=4):
    """product of gates -> ([(pauli string, sign, angle poly)], total Clifford is the identity)"""
    from ..numfold import embed, smul
    d = 2**n
    idm = [[complex(i == j) for j in range(d)] for i in range(d)]
    key, C = (), idm
    out = []
    memo, eff = {(): idm}, {}
    mats = {}
    for g in gates:
        if g not in mats:
            mats[g] = gate_matrix(w, g, heap)
        m, s = mats[g]
        if isinstance(m, tuple):
            e = eff.get((key, m[0], s))
            if e is None:
                pm = embed(GATES[m[0]], s, n)
                e = eff[(key, m[0], s)] = pauli_string(smul(dag(C), smul(pm, C)), n)
            if e is None:
                raise NoDen("the rotation axis is not a Pauli string")
            out.append((tuple(sorted(e[0].items())), round(e[1].real), w.scalar(m[1])))
        else:
            key = key + (g,)
            if key not in memo:
                C = smul(embed(m, s, n), C)
                memo[key] = None if all(abs(C[i][j] - (i == j)) < 1e-9 for i in range(d) for j in range(d)) else C
            if memo[key] is None:
                key, C = (), idm
            else:
                C = memo[key]
    idn = all(abs(C[i][j] - (i == j)) < 1e-6 for i in range(d) for j in range(d))
    return out, idn


def approx_poly(p, q):
    ks = set(p) | set(q)
    return all(abs(float(p.get(k, 0)) - float(q.get(k, 0))) < 1e-9 for k in ks)


def pstring(ps):
    return " ".join(f"{l}{q}" for q, l in ps) or "1"


def decompose(ctx):
    unroll(ctx)
    trotter(ctx)
    ham_evo(ctx)
    commuting(ctx)
    disc(ctx)
    euler(ctx)


def unroll(ctx):
    f = ctx.fn("qadence.blocks.utils.unroll_block_with_scaling")
    if f is None:
        return
    for lab in list(hams(World(ctx))) + ["scaled kron of leaves", "scaled chain", "add of chains"]:
        cons = f"unroll_block_with_scaling({lab})"

        def one(lab=lab, cons=cons):
            w = World(ctx)
            hs = hams(w)
            t = hs[lab][0] if lab in hs else shapes(w)[{"scaled kron of leaves": "scaled kron"}.get(lab, lab)]
            want = w.den(t, w.heap)
            ret, st = call(w, f, t, {})
            for leaf, g in ret:
                if is_raise(leaf):
                    return ctx.ob("decompose", cons, False if len(ret) == 1 else None, "raises", f.loc)
                if leaf.op not in ("list", "tuple") or any(x.op not in ("tuple", "list") or len(x.a[0]) != 2 for x in leaf.a[0]):
                    return ctx.ob("decompose", cons, None, show(leaf, 4), f.loc)
                got = {}
                for x in leaf.a[0]:
                    sp = w.scalar(x.a[0][1])
                    got = add2(got, mul2({(): sp} if sp else {}, w.den(x.a[0][0], st.heap)))
                if norm(got) != want:
                    return ctx.ob("decompose", cons, False, f"the terms add up to {word_str(norm(got))[:160]} instead of {word_str(want)[:160]}", f.loc)
            ctx.ob("decompose", cons, True, "", f.loc)
        ctx.guard("decompose", cons, one)


def trotter(ctx):
    f = ctx.fn("qadence.decompose.lie_trotter_suzuki")
    if f is None:
        return
    for order in ("BASIC", "ST2", "ST4"):
        for lab in hams(World(ctx)):
            if order == "ST4" and ctx.tier == "quick" and lab not in ("sum", "scaled sum", "nested sum", "Z0 Z2 (gap)", "scale inside kron"):
                continue
            cons = f"lie_trotter_suzuki[{order}]({lab})"

            def one(order=order, lab=lab, cons=cons):
                w = World(ctx, max_steps=4_000_000)
                t, terms = hams(w)[lab]
                w.I.models["qadence.decompose.time_discretisation"] = lambda a, k, s: tup(mk("bin", "/", a[0] if a else k["parameter"], const(2)), const(2))
                ret, st = call(w, f, t, {"parameter": P("t"), "order": mk("enum", "qadence.types.LTSOrder", order)})
                if len(ret) != 1 or ret[0][0].op not in ("list", "tuple"):
                    bad = len(ret) == 1 and is_raise(ret[0][0])
                    return ctx.ob("decompose", cons, False if bad else None, show(ret[0][0], 5)[:200], f.loc)
                seq, idn = rotations(w, ret[0][0].a[0], st.heap)
                ctx.ob("decompose", cons, *judge(w, order, terms, seq, idn), f.loc)
            ctx.guard("decompose", cons, one)


def judge(w, order, terms, seq, idn):
    if not idn:
        return False, "the basis changes and CNOT ladders around the rotations do not cancel"
    want = {}
    for ps, sc in terms:
        k = tuple(sorted(ps.items()))
        want[k] = padd(want.get(k, {}), pmul(poly(mk("bin", "*", const(2), P("t"))), w.scalar(sc)))
    tot = {}
    for k, sg, ang in seq:
        tot[k] = padd(tot.get(k, {}), ang, sg)
    for k in set(want) | set(tot):
        if not approx_poly(want.get(k, {}), tot.get(k, {})):
            return False, f"exp(-i t c {pstring(k)}) gets the total angle {sp(tot.get(k, {}))} instead of {sp(want.get(k, {}))}"
    if order == "BASIC" or len(want) == 1:
        return True, ""
    m = []
    for k, sg, ang in seq:
        ang = {x: c * sg for x, c in ang.items()}
        if m and m[-1][0] == k:
            m[-1] = (k, padd(m[-1][1], ang))
        else:
            m.append((k, ang))
    for (k1, a1), (k2, a2) in zip(m, reversed(m)):
        if k1 != k2 or not approx_poly(a1, a2):
            return False, f"the {order} product is not symmetric: {pstring(k1)} by {sp(a1)} faces {pstring(k2)} by {sp(a2)}"
    if order == "ST4":
        # the cubes of the time fractions of the term applied once per second-order step cancel
        last = {}
        for k, a in m:
            last.setdefault(k, []).append(a)
        for k, xs in last.items():
            (mono, c), = list(want[k].items())[:1]
            fr = [float(x.get(mono, 0)) / float(c) for x in xs]
            if len(fr) == min(len(v) for v in last.values()):
                if abs(sum(y**3 for y in fr)) > 1e-6:
                    return False, f"the fractions {[round(y, 4) for y in fr[:5]]} of the fourth-order formula do not cancel the third-order error"
                return True, ""
    return True, ""


def sp(p):
    return "+".join(f"{float(c):.4g}{'*' if m else ''}{'*'.join(show(x, 3) for x, e in m)}" for m, c in p.items()) or "0"


def ham_evo(ctx):
    """HamEvo.digital_decomposition: the requested order reaches the product formula unless the terms commute"""
    f = ctx.fn("qadence.operations.ham_evo.HamEvo.digital_decomposition")
    dg = ctx.fn(T_ + "digitalize.digitalize")
    for lab, nc in (("sum", True), ("nested sum", True), ("ZZ", False), ("scaled sum", None)):
        for order in ("BASIC", "ST2", "ST4"):
            for via in ("method", "digitalize"):
                cons = f"HamEvo({lab}).{'digital_decomposition' if via == 'method' else 'digitalize'}[{order}]"

                def one(lab=lab, order=order, cons=cons, nc=nc, via=via):
                    w = World(ctx)
                    g, terms = hams(w)[lab]
                    h = w.leaf("hevo", "HamEvo", (0, 1, 2, 3), generator=g)
                    w.heap[(h, "parameters")] = w.params("hevo", parameter=P("t"))
                    seen = []
                    w.I.models["qadence.decompose.lie_trotter_suzuki"] = lambda a, k, s: (seen.append((list(a), dict(k))), mk("list", (w.leaf("gate1", "X", (0,)), w.leaf("gate2", "Z", (0,)))))[1]
                    e = mk("enum", "qadence.types.LTSOrder", order)
                    ret, st = call(w, f, h, {"approximation": e}) if via == "method" else call(w, dg, h, {"approximation": e})
                    if not seen:
                        return ctx.ob("decompose", cons, None, f"no product formula call: {show(ret[0][0], 3)}", f.loc)
                    for a, k in seen:
                        d = with_signature(mk("call", A("f"), tuple(list(enumerate(a)) + list(k.items()))), ["block", "parameter", "order"])
                        if d.get("block") is not g:
                            return ctx.ob("decompose", cons, False, f"decomposes {show(d.get('block'), 3)} instead of the generator", f.loc)
                        if d.get("parameter") is not P("t"):
                            return ctx.ob("decompose", cons, False, f"evolves for {show(d.get('parameter'), 3)} instead of the parameter", f.loc)
                        for o, _ in leaves(d["order"]) if "order" in d else []:
                            if o.op != "enum":
                                return ctx.ob("decompose", cons, None, f"order {show(o, 3)}", f.loc)
                            if o.a[1] != order and (nc or o.a[1] != "BASIC"):
                                return ctx.ob("decompose", cons, False, f"order {o.a[1]} is used{' for non-commuting terms' if nc else ''}", f.loc)
                    for leaf, gd in ret:
                        if is_raise(leaf) or [show(x) for x in (w.children(leaf, st.heap) or [])] != ["atom(gate1)", "atom(gate2)"]:
                            return ctx.ob("decompose", cons, False if is_raise(leaf) or w.children(leaf, st.heap) is not None else None, f"returns {show(leaf, 4)}", f.loc)
                    ctx.ob("decompose", cons, True, "", f.loc)
                if f is not None and dg is not None:
                    ctx.guard("decompose", cons, one)


def commuting(ctx):
    f = ctx.fn("qadence.blocks.utils.block_is_commuting_hamiltonian")
    if f is None:
        return
    for lab in hams(World(ctx)):
        def one(lab=lab):
            w = World(ctx)
            t, terms = hams(w)[lab]
            com = all(sum(1 for q in a if q in b and a[q] != b[q]) % 2 == 0 for (a, _), (b, _) in itertools.combinations(terms, 2))
            ret, st = call(w, f, t, {})
            vals = {cval(l) if is_const(l) else "raise" if is_raise(l) else None for l, _ in ret}
            if None in vals:
                return ctx.ob("decompose", f"block_is_commuting_hamiltonian({lab})", None, show(ret[0][0], 4)[:150], f.loc)
            bad = not com and True in vals
            ctx.ob("decompose", f"block_is_commuting_hamiltonian({lab})", not bad, "non-commuting terms are taken for commuting ones", f.loc)
        ctx.guard("decompose", f"block_is_commuting_hamiltonian({lab})", one)


def disc(ctx):
    f = ctx.fn("qadence.decompose.time_discretisation")
    if f is None:
        return

    def one():
        w = World(ctx)
        ret, st = call(w, f, P("t"), {"max_steps": const(7)})
        for leaf, g in ret:
            if leaf.op != "tuple" or len(leaf.a[0]) != 2:
                return ctx.ob("decompose", "time_discretisation", None, show(leaf, 4), f.loc)
            if poly(mk("bin", "*", *leaf.a[0])) != poly(P("t")):
                return ctx.ob("decompose", "time_discretisation", False, f"steps of {show(leaf.a[0][0], 4)}, {show(leaf.a[0][1], 3)} times, do not add up to the time", f.loc)
        ctx.ob("decompose", "time_discretisation", True, "", f.loc)
    ctx.guard("decompose", "time_discretisation", one)


def euler(ctx):
    f = ctx.fn("qadence.operations.parametric.U.digital_decomposition")
    if f is None:
        return

    def one():
        w = World(ctx)
        u = w.leaf("u", "U", (3,))
        w.heap[(u, "parameters")] = w.params("u", phi=P("phi"), theta=P("theta"), omega=P("omega"))
        ret, st = call(w, f, u, {})
        leaf = ret[0][0]
        ks = w.children(leaf, st.heap) if len(ret) == 1 else None
        if ks is None or any(k.op != "new" for k in ks):
            return ctx.ob("decompose", "U.digital_decomposition", None, show(leaf, 4), f.loc)
        got = [(w.cls_of(k).name, w.support(k, st.heap), poly(args_of(k).get("parameter"))) for k in ks]
        want = [("RZ", (3,), poly(P("phi"))), ("RY", (3,), poly(P("theta"))), ("RZ", (3,), poly(P("omega")))]
        ctx.ob("decompose", "U.digital_decomposition", got == want, f"{[(a, b, sp(c)) for a, b, c in got]} instead of RZ(phi), RY(theta), RZ(omega)", f.loc)
    ctx.guard("decompose", "U.digital_decomposition", one)
