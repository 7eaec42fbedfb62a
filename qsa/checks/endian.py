"""Constant propagation of the requested bit order through every backend, counting bit reversals on the data path.

Each run/sample is evaluated once with the native order and once with the other one; the number of reversal
operators on the data path of every returning leaf must be 0 and 1 respectively.  The reversal operators
themselves are checked structurally (complete domain, counts preserved, every qubit of every block remapped).
"""
from __future__ import annotations

from ..util import *

REV = mk("slice", NONE, NONE, const(-1))
E = "qadence.types.Endianness"


def is_rev(x: T) -> bool:
    if x.op == "call" and callee_name(x) == "invert_endianness":
        return True
    if x.op == "sub" and x.a[1] is REV:
        return True
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.reversed":
        return True
    return False


def revs(t: T):
    return [x for x in walk(t) if is_rev(x)]


def check(ctx):
    prog = ctx.prog
    ctx.rule("once", "run/sample of a backend reverse the bit order exactly once iff the requested order differs from the native one", 12)
    ctx.rule("helper", "the bit-order helpers reverse complete bitstrings/indices exactly once for the little-endian order only", 8)
    ctx.rule("invert", "inverting wavefunctions, counters, lists, blocks and circuits covers every entry and keeps counts and gates", 5)
    ctx.rule("remap", "reassigning qubits rewrites the support of every kind of block, including nested ones", 5)
    ctx.rule("kron", "matrix embedding orders the Kronecker factors by the requested endianness", 2)
    ec = ctx.cls(E)
    if ec is None:
        return
    members = list(ec.enum_members())
    bcls = ctx.cls("qadence.backend.Backend")
    for c in prog.subclasses(bcls.qual) if bcls else []:
        d = c.lookup("native_endianness")
        nat = None
        if d and d[0] == "attr":
            nat = ctx.interp().eval_module_expr(d[1], d[2].module, ("nat", c.qual))
        if nat is None or nat.op != "enum":
            continue
        for m in ("run", "sample"):
            f = c.method(m)
            if f is None or f.is_abstract:
                continue
            for e in members:
                cons = f"{short(c.qual)}.{m}[{e}]"
                def one(c=c, m=m, f=f, e=e, cons=cons, nat=nat):
                    I = ctx.interp(opaque=("invert_endianness",))
                    ret, _ = I.run(f, bindings={"endianness": mk("enum", E, e)}, exact=c, heap={(P("self"), "native_endianness"): nat})
                    want = 0 if e == nat.a[1] else 1
                    bad = None
                    n = 0
                    for leaf, g in leaves(ret):
                        if is_raise(leaf):
                            continue
                        n += 1
                        k = len(revs(leaf))
                        again = [x for x in revs(leaf) if x.op == "call" and loop_carried(leaf, x)]
                        if want and again:
                            bad = f"the accumulated results are reversed again in every iteration: {show(again[0], 3)[:160]}"
                        elif k != want:
                            bad = f"requested {e} with native {nat.a[1]}: {k} bit reversals instead of {want} in {show(leaf, 4)[:200]}"
                    ctx.ob("once", cons, None if n == 0 else bad is None, bad or "", f.loc)
                ctx.guard("once", cons, one)

    for q, arg in (("qadence.utils.basis_to_int", "basis"), ("qadence.utils.int_to_basis", "k"),
                   ("qadence.utils.nqubits_to_basis", "n_qubits"), ("qadence.utils.samples_to_integers", "samples")):
        f = ctx.fn(q)
        if f is None:
            continue
        for e in members:
            cons = f"{short(q)}[{e}]"
            def one(f=f, e=e, cons=cons, arg=arg):
                I = ctx.interp()
                ret, _ = I.run(f, bindings={"endianness": mk("enum", E, e)})
                want = 0 if e == "BIG" else 1
                bad = None
                for leaf, g in leaves(ret):
                    if is_raise(leaf) or leaf is NONE:
                        continue
                    k = len(revs(leaf))
                    if k != want:
                        bad = f"{k} reversals instead of {want}: {show(leaf, 5)[:200]}"
                    elif not contains(leaf, P(arg)):
                        bad = f"result does not depend on {arg}"
                    for x in calls(leaf):
                        if x.a[0] is mk("ext", "builtins.int") and len(x.a[1]) == 2 and is_const(x.a[1][1][1]) and cval(x.a[1][1][1]) != 2:
                            bad = "bitstrings are not read in base 2"
                ctx.ob("helper", cons, bad is None, bad or "", f.loc)
            ctx.guard("helper", cons, one)

    gen = ctx.fn("qadence.transpile.invert.invert_endianness")
    over = prog.dispatch().get(gen.qual, []) if gen else []
    for tys, f in over:
        cons = overload_name(f)
        x = P(f.params[0])
        names = [t[1] if isinstance(t, tuple) else t.name for t in tys]
        def one(f=f, cons=cons, x=x, names=names):
            nm = names[0] if names else ""
            if nm == "AbstractBlock":
                I = ctx.interp(opaque=("qadence.transpile.invert.reassign",))
                ret, _ = I.run(f)
                bad = "no remapping of the block found"
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        continue
                    bad = None
                    if not (leaf.op == "call" and callee_name(leaf) == "reassign"):
                        return ctx.ob("invert", cons, None, f"unexpected shape {show(leaf, 3)}", f.loc)
                    a = args_of(leaf)
                    if a.get("block") is not x:
                        bad = "the remapped block is not the given block"
                    ok = full_reversal(a.get("qubit_map"))
                    if ok is not True:
                        bad = f"qubit map {show(a.get('qubit_map'), 5)} is not i -> n-1-i" if ok is False else None
                return ctx.ob("invert", cons, bad is None, bad or "", f.loc)
            I = ctx.interp(opaque=("invert_endianness",))
            ret, _ = I.run(f)
            bad = None
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                k = len(revs(leaf))
                if nm.endswith("Tensor"):
                    if k != 1:
                        bad = f"{k} reversals"
                    if not contains(leaf, x):
                        bad = "result does not depend on the input"
                    # index domain: every index 0..2**n-1
                    maps = [y for y in walk(leaf) if y.op == "map" and revs(y.a[1])]
                    for y in maps:
                        dom = [z for z in walk(y.a[2]) if z.op == "bin" and z.a[0] == "**"]
                        if y.a[3] is not TRUE or not dom or any(z.a[1] is not const(2) for z in dom):
                            bad = "the permutation does not range over all 2**n basis states"
                        rng = [z for z in calls(y.a[2]) if callee_name(z) == "range"]
                        if rng and len(rng[0].a[1]) != 1:
                            bad = "the permutation does not start at basis state 0"
                elif nm.endswith("Counter"):
                    dm = [y for y in walk(leaf) if y.op == "dmap"]
                    if len(dm) == 1:
                        y = dm[0]
                        if len(revs(y.a[0])) != 1 or revs(y.a[1]):
                            bad = "keys are not reversed exactly once"
                        if y.a[1] is not mk("val", x):
                            bad = f"counts are changed: {show(y.a[1], 4)}"
                        if y.a[3] is not TRUE:
                            bad = "some bitstrings are dropped"
                elif nm.endswith("list"):
                    mp = [y for y in walk(leaf) if y.op == "map"]
                    if len(mp) == 1 and (mp[0].a[3] is not TRUE or k != 1):
                        bad = "not every entry of the list is inverted once"
                elif nm == "QuantumCircuit":
                    if k != 1 or not contains(revs(leaf)[0], mk("attr", x, "block")):
                        bad = "the circuit's block is not inverted exactly once"
                else:
                    if k != 1:
                        bad = f"{k} reversals"
            ctx.ob("invert", cons, bad is None, bad or "", f.loc)
        ctx.guard("invert", cons, one)

    f = ctx.fn("qadence.transpile.invert.reassign")
    if f is not None:
        for cn in ("qadence.operations.RX", "qadence.operations.X", "qadence.operations.CNOT", "qadence.operations.CRX",
                   "qadence.blocks.composite.ChainBlock", "qadence.blocks.composite.KronBlock", "qadence.blocks.composite.AddBlock",
                   "qadence.blocks.primitive.ScaleBlock", "qadence.operations.Toffoli", "qadence.operations.SWAP"):
            c = ctx.cls(cn)
            if c is None:
                continue
            cons = f"reassign({c.name})"
            def one(c=c, cons=cons):
                I = ctx.interp()
                I.exact[P("block")] = c
                ret, st = I.run(f)
                qm = P("qubit_map")
                bad = None
                prim = not (c.is_subclass("qadence.blocks.composite.CompositeBlock") or c.name == "ScaleBlock")
                ctrl = c.is_subclass("qadence.blocks.primitive.ControlBlock") or c.is_subclass("qadence.blocks.primitive.ParametricControlBlock")
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        continue
                    h = obj_heap(st, leaf)
                    if leaf is P("block"):
                        bad = "the input block itself is returned"
                        break
                    if prim:
                        v = h.get("_qubit_support")
                        if v is None:
                            bad = "the qubit support is not updated" if not contains(leaf, qm) else None
                        else:
                            ms = [y for y in walk(v) if y.op == "map"]
                            ok = any(y.a[3] is TRUE and y.a[1].op == "sub" and y.a[1].a[0] is qm for y in ms)
                            if not contains(v, qm) or (ms and not ok):
                                bad = f"new support is {show(v, 5)}"
                        if ctrl:
                            b = h.get("blocks")
                            if b is None or not contains(b, qm):
                                bad = "the controlled sub-block keeps its old support"
                    else:
                        allv = [leaf] + list(h.values())
                        if not any(contains(v, qm) or has_clo_call(v) for v in allv):
                            bad = "nested blocks are not remapped"
                ctx.ob("remap", cons, bad is None, bad or "", f.loc)
            ctx.guard("remap", cons, one)

    f = ctx.fn("qadence.blocks.block_to_tensor._fill_identities")
    if f is not None:
        for e in members:
            cons = f"block_to_tensor._fill_identities[{e}]"
            def one(e=e, cons=cons):
                I = ctx.interp()
                ret, _ = I.run(f, bindings={"endianness": mk("enum", E, e)})
                bad = None
                n = 0
                for x in walk(ret):
                    if x.op == "call" and callee_name(x) == "kron" and len(x.a[1]) == 2:
                        a, b = x.a[1][0][1], x.a[1][1][1]
                        pa, pb = has_op(a, "prev"), has_op(b, "prev")
                        if pa == pb:
                            continue
                        n += 1
                        if pa != (e == "BIG"):
                            bad = f"for {e} the factors are combined as {show(x, 3)}"
                ctx.ob("kron", cons, None if n == 0 else bad is None, bad or "", f.loc)
            ctx.guard("kron", cons, one)


def loop_carried(whole, x):
    """x is applied, inside a loop's update, to the value carried over from the previous iteration"""
    for lp in walk(whole):
        if lp.op == "loop" and contains(lp.a[1], x):
            for pv in walk(x):
                if pv.op == "prev" and pv.a[1] is lp.a[2] and not is_const(pv.a[1]):
                    return True
    return False


def has_clo_call(v):
    return any(x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "clo" for x in walk(v))


def full_reversal(m):
    if m is None:
        return None
    if m.op != "dmap":
        return None
    k, v, coll, cond = m.a
    if cond is not TRUE:
        return False
    rng = None
    if k.op in ("elem", "idx"):
        rng = k.a[0]
    def is_rev_elem(t):
        return t.op == "elem" and (is_rev(t.a[0]))
    if is_rev_elem(v) and not (k.op == "elem" and is_rev(k.a[0])):
        return True
    if is_rev_elem(k) and not is_rev_elem(v):
        return True
    # n - 1 - i
    p = poly(v)
    if p.get(((k, 1),)) == -1 and p.get(()) == -1 and len(p) == 3:
        return True
    if contains(v, k) or v.op == "elem":
        return False
    return None
