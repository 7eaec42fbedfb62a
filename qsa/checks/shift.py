"""Normal-form comparison of the differentiation rules with the parameter-shift formula.

The shift rules, the spectra of all gate generators, the assignment of a rule to every gate parameter and the backward pass are evaluated abstractly on symbolic
expectation values, gaps, shifts and upstream gradients; results are compared as rational functions with the (generalised) parameter-shift formula.
"""
from __future__ import annotations

import math
import re

from ..probe import *
from ..symten import NoSym, RF, Sym, Ten, fun
from ..absint import AbsRaise

PS = "qadence.backends.parameter_shift_rules."
TD = "qadence.engines.torch.differentiable_expectation."
JD = "qadence.engines.jax.differentiable_expectation."
PRE = """
from qadence import *
from qadence.operations import *
from qadence.blocks import *
from qadence.blocks.utils import *
from qadence.circuit import QuantumCircuit
from qadence.engines.torch.differentiable_expectation import DifferentiableExpectation, PSRExpectation
"""
D = lambda **k: mk("dict", tuple((const(a), b) for a, b in k.items()))
RND = [-1.0, 0.0, 0.5, 2.0]


def at(n):
    return RF.atom(n)


def check(ctx):
    ctx.rule("single", "the single-gap rule is gap (F(x+s) - F(x-s)) / (4 sin(gap s/2)), shifting the named parameter only", 2)
    ctx.rule("multi", "the multi-gap rule solves 4 sin(shift gap / 2) R = F(x+s) - F(x-s) and sums gap R, per batch element and observable", 2)
    ctx.rule("gaps", "the rule built for a spectrum uses exactly its distinct positive gaps, and the settings it is given", 10)
    ctx.rule("spectrum", "every parametric gate reports a generator spectrum with the gaps of the gate it denotes", 19)
    ctx.rule("assign", "every gate parameter gets the rule of its own gate", 8)
    ctx.rule("backward", "the gradient of each parameter is the upstream gradient times its own rule, summed over observables, in the order of the parameters", 6)
    ctx.rule("route", "each differentiation mode selects its own implementation with the user's settings", 3)
    ctx.rule("columns", "expectation values have one row per batch element and one column per observable", 2)
    ctx.rule("jax", "the JAX backward pass applies the shift formula to every gate parameter", 3)
    ctx.assumptions += ["torch.autograd and jax.custom_vjp compose the rules correctly", "pyqtorch's AdjointExpectation is taken as given"]
    for r, f in (("single", single), ("multi", multi), ("gaps", gaps), ("spectrum", spectrum), ("assign", assign), ("backward", backward), ("route", route), ("columns", columns), ("jax", jaxrule)):
        ctx.guard(r, f.__name__, lambda f=f: f(ctx))


def expectation_hook(ctx, names, shape, log, fterm):
    """F({..}) -> tensor of atoms keyed by the (normalised) values of the parameters"""
    def hook(t, ev):
        if t.op == "call" and t.a[0] is fterm:
            a = args_of(t)
            d = a.get(0, a.get("params", a.get("param_values", a.get("param_dict"))))
            if d is None or d.op != "dict" or len(a) != 1:
                raise NoSym("arguments of the expectation")
            items = {cval(k): ev(v) for k, v in d.a[0]}
            if set(items) != set(names):
                raise NoSym(f"expectation evaluated on parameters {sorted(items)}")
            key = ",".join(f"{k}={items[k].d[0].key()}" if len(items[k].d) == 1 else f"{k}={[x.key() for x in items[k].d]}" for k in sorted(items))
            log.append((key, items))
            return Ten(shape, [at(f"F[{key}][{i}]") for i in range(math.prod(shape))])
        return None
    return hook


def fkey(shift, i, names=("a", "b", "c"), at_="b"):
    v = {n: at(n) for n in names}
    v[at_] = v[at_] + shift
    return at("F[" + ",".join(f"{k}={v[k].key()}" for k in sorted(v)) + f"][{i}]")


def verdict(ctx, rule, name, ret, ev, want, loc):
    """compare every feasible leaf of a result with the wanted tensor (ignoring dimensions of size one)"""
    n = 0
    for l, g in leaves(ret):
        if any(ev.truth(c) is (not v) for c, v in g if c.op != "exc"):
            continue
        n += 1
        if l.op == "raise":
            ctx.ob(rule, name, False, f"raises {show(l, 3)}", loc)
            continue
        try:
            r = ev(l)
        except NoSym as e:
            ctx.ob(rule, name, None, str(e))
            continue
        ok = Ten([x for x in r.shape if x != 1], r.d).eq(Ten([x for x in want.shape if x != 1], want.d))
        ctx.ob(rule, name, ok, f"is {str(r)[:300]} instead of {str(want)[:300]}", loc)
    return n


PD = D(a=P("a"), b=P("b"), c=P("c"))


def single(ctx):
    f = ctx.fn(PS + "single_gap_psr")
    if f is None:
        return
    prm = f.params
    fn, pd, nm, gap, sh = (P(x) for x in prm[:5])
    for shape in ((1, 1), (2, 2)):
        I = ctx.interp()
        ret, st = I.run(f, bindings={prm[1]: PD, prm[2]: const("b")})
        env = {P(k): Ten((1,), [at(k)]) for k in "abc"}
        env[gap], env[sh] = Ten((1,), [at("g")]), Ten((1,), [at("s")])
        ev = Sym(env, expectation_hook(ctx, "abc", shape, [], fn))
        g, s = at("g"), at("s")
        den = RF.c(4) * fun("sin", g * s / RF.c(2))
        want = Ten(shape, [g * (fkey(s, i) - fkey(-s, i)) / den for i in range(math.prod(shape))])
        verdict(ctx, "single", f"single_gap_psr {shape}", ret, ev, want, f.loc if hasattr(f, "loc") else f.qual)


def multi(ctx):
    f = ctx.fn(PS + "multi_gap_psr")
    if f is None:
        return
    prm = f.params
    fn, gaps_, pre = P(prm[0]), P(prm[3]), P(prm[4])
    for k, shape in ((2, (1, 1)), (2, (3, 2)), (3, (1, 1))):
        for manual in (True, False):
            I = ctx.interp()
            I.models["builtins.len"] = lambda a, kw, s, k=k: const(k) if a and a[0] is gaps_ else None
            opt = []

            def optimal(a, kw, s, opt=opt):
                opt.append((list(a), dict(kw)))
                return P("optimal_shifts")
            I.models["qadence.backends.agpsr_utils.calculate_optimal_shifts"] = optimal
            facts = [(mk("isnone", pre), not manual), (mk("truthy", pre), manual)]
            ret, st = I.run(f, bindings={prm[1]: PD, prm[2]: const("b")}, facts=facts)
            env = {P(x): Ten((1,), [at(x)]) for x in "abc"}
            g = [at(f"g{i}") for i in range(k)]
            env[gaps_] = Ten((k,), g)
            env[pre] = Ten((), [at("prefac")])
            env[P("optimal_shifts")] = Ten((k,), [at(f"s{i}") for i in range(k)])
            log = []
            ev = Sym(env, expectation_hook(ctx, "abc", shape, log, fn))
            if manual:
                # any distinct shifts proportional to the prefactor are a valid choice: read them off the evaluations
                try:
                    vals = [ev(l) for l, gd in leaves(ret) if not any(ev.truth(c) is (not v) for c, v in gd if c.op != "exc")]
                except NoSym as e:
                    ctx.ob("multi", f"{k} gaps {shape} prefactor", None, str(e))
                    continue
                s = shifts_from(log, k)
                if s is None:
                    ctx.ob("multi", f"{k} gaps {shape} prefactor", False, f"the expectation is not evaluated at {k} symmetric pairs of shifts of the named parameter: {sorted({k for k, _ in log})[:6]}", f.qual)
                    continue
            else:
                s = [at(f"s{i}") for i in range(k)]
            ev2 = Sym()
            m = Ten((k, k), [RF.c(4) * fun("sin", s[i] * g[j] / RF.c(2)) for i in range(k) for j in range(k)])
            out = []
            for e in range(math.prod(shape)):
                fv = Ten((k, 1), [fkey(s[i], e) - fkey(-s[i], e) for i in range(k)])
                r = ev2.solve(m, fv)
                tot = RF.c(0)
                for j in range(k):
                    tot = tot + g[j] * r.d[j]
                out.append(tot)
            verdict(ctx, "multi", f"{k} gaps {shape} {'prefactor' if manual else 'optimised'}", ret, ev, Ten(shape, out), f.qual)
            if not manual:
                for a, kw in opt[:1]:
                    o = ctx.fn("qadence.backends.agpsr_utils.calculate_optimal_shifts")
                    b = dict(zip(o.params, a)) if o else {}
                    b.update(kw)
                    if o and len(o.params) == 4:
                        n, gp, lo, hi = (b.get(x) for x in o.params)
                        ctx.ob("multi", f"{k} gaps optimised: interval", lo is P("lb") and hi is P("ub") and gp is gaps_ and n is const(k), "the shift search does not get the gaps and bounds", f.qual)


def shifts_from(log, k):
    """the k shifts s with evaluations at b+s and b-s, in order of first use"""
    pos, neg = {}, {}
    for key, items in log:
        if any(len(x.d) != 1 for x in items.values()) or not items["a"].d[0].eq(at("a")) or not items["c"].d[0].eq(at("c")):
            return None
        d = items["b"].d[0] - at("b")
        if set(d.n) != {(("prefac", 1),)}:
            return None
        v = d.n[(("prefac", 1),)].real
        (pos if v > 0 else neg).setdefault(round(abs(v), 9), abs(v))
    if len(pos) != k or set(pos) != set(neg):
        return None
    return [RF({(("prefac", 1),): v}) for v in pos.values()]


def gaps(ctx):
    f = ctx.fn(PS + "general_psr")
    if f is None:
        return
    prm = f.params
    sp = P(prm[0])
    for vals in ((-1.0, 1.0), (0.0, 2.0), (-2.0, 0.0, 0.0, 0.0), (-1.0, 0.0, 0.0, 1.0), (1.0, -1.0, 3.0), (0.5, 0.5, -1.5, 4.0), (0.0, 1.0, 2.0, 3.0), (-0.25, 0.25), (1.0, 1.0, -1.0), (2.0, -3.0, -3.0), (0.0, 0.06, 1.0), (0.002, 0.0), (-0.01, 0.0, 0.5), (0.0, 3.25, 120.5), (-60.0, 60.0), (1.0, 1.004, 2.5, 2.503)):
        want = sorted({round(abs(a - b), 6) for a in vals for b in vals} - {0.0})
        I = ctx.interp()
        I.models["torch.vmap"] = lambda a, k, s: a[0] if a else None
        I.models["torch.func.vmap"] = I.models["torch.vmap"]
        ret, st = I.run(f, bindings={"n_eqs": NONE} if "n_eqs" in prm else {})
        env = {sp: Ten((len(vals),), [RF.c(v) for v in vals]), P("shift_prefac"): Ten((), [at("prefac")])}
        ev = Sym(env)
        name = f"spectrum {list(vals)}"
        n = 0
        for l, g in leaves(ret):
            if any(ev.truth(c) is (not v) for c, v in g):
                continue
            n += 1
            if l.op != "partial":
                ctx.ob("gaps", name, False if l.op == "raise" else None, f"returns {show(l, 3)}", f.qual)
                continue
            rule = l.a[0].a[0].split(".")[-1] if l.a[0].op in ("fn", "ext") else "?"
            a = args_of(l)
            try:
                key = "spectral_gap" if "spectral_gap" in a else "spectral_gaps"
                got = sorted(ev._real(x) for x in ev(a[key]).d) if False else sorted(x.const().real for x in ev(a[key]).d)
            except (NoSym, KeyError, AttributeError) as e:
                ctx.ob("gaps", name, None, f"{type(e).__name__} {e}")
                continue
            ctx.ob("gaps", name, len(got) == len(want) and all(abs(x - y) < 1e-6 for x, y in zip(got, want)), f"rule built for gaps {got}, the spectrum has {want}", f.qual)
            ctx.ob("gaps", name + ": rule", rule == ("single_gap_psr" if len(want) == 1 else "multi_gap_psr"), f"{rule} is built for {len(want)} gaps", f.qual)
            if rule == "single_gap_psr" and "shift" in a:
                try:
                    s = ev(a["shift"])
                    ctx.ob("gaps", name + ": shift", len(s.d) == 1 and bool(s.d[0].n) and all(m == (("prefac", 1),) for m in s.d[0].n), f"the shift is {s}, not proportional to the prefactor", f.qual)
                except NoSym as e:
                    ctx.ob("gaps", name + ": shift", None, str(e))
            elif rule == "multi_gap_psr":
                for k in ("shift_prefac", "lb", "ub"):
                    ctx.ob("gaps", f"{name}: {k}", a.get(k) is P(k), f"{k} is {show(a[k], 2) if k in a else 'not passed on'}", f.qual)
        if not n:
            ctx.ob("gaps", name, None, "no feasible result")
    # pseudo-gaps
    I = ctx.interp()
    I.models["torch.vmap"] = lambda a, k, s: a[0] if a else None
    ret, st = I.run(f, bindings={"n_eqs": const(3)})
    ev = Sym({sp: Ten((3,), [RF.c(v) for v in (0, 1, 5)]), P("gap_step"): Ten((), [at("step")])})
    for l, g in leaves(ret):
        if any(ev.truth(c) is (not v) for c, v in g) or l.op != "partial":
            continue
        a = args_of(l)
        try:
            v = ev(a["spectral_gaps"])
            ok = len(v.d) == 3 and not v.d[0].const() in (None, 0) and all(v.d[i].eq(RF.c(i) * at("step")) for i in (1, 2))
            ctx.ob("gaps", "approximate rule with 3 equations", ok, f"pseudo-gaps {v}", f.qual)
        except (NoSym, KeyError) as e:
            ctx.ob("gaps", "approximate rule with 3 equations", None, str(e))


ROT = [("RX(1, 'x')", {2}), ("RY(0, 'x')", {2}), ("RZ(2, 'x')", {2}), ("PHASE(1, 'x')", {2}), ("U(0, 'a', 'b', 'c')", {2}),
       ("CRX(0, 1, 'x')", {1, 2}), ("CRY(2, 0, 'x')", {1, 2}), ("CRZ(0, 1, 'x')", {1, 2}), ("CPHASE(0, 1, 'x')", {2}),
       ("MCRX((0, 1), 2, 'x')", {1, 2}), ("MCRY((3, 1), 2, 'x')", {1, 2}), ("MCRZ((0, 1, 3), 2, 'x')", {1, 2}), ("MCPHASE((0, 1), 2, 'x')", {2}), ("MCPHASE((4, 1, 3), 2, 'x')", {2}), ("MCRX((0,), 2, 'x')", {1, 2}), ("MCPHASE((1,), 0, 'x')", {2})]


def gapset(vals):
    return {round(abs(a - b), 6) for a in vals for b in vals} - {0.0}


def numbers(t, ev=None):
    return [x.const() for x in (ev or Sym())(t).d]


def spectrum(ctx):
    p = Probe(ctx, PRE, name="qadence._client11")
    for text, want in ROT:
        def one(text=text, want=want):
            for l, g in p.expr(f"({text}).eigenvalues_generator")[0]:
                if l.op == "raise":
                    ctx.ob("spectrum", text, False, f"raises {show(l, 3)}")
                    continue
                try:
                    v = numbers(l)
                except NoSym as e:
                    ctx.ob("spectrum", text, None, str(e))
                    continue
                if None in v:
                    ctx.ob("spectrum", text, None, show(l, 4))
                    continue
                got = gapset(v)
                ctx.ob("spectrum", text, got == want, f"generator eigenvalues {[complex(x).real for x in v]} have gaps {sorted(got)}, the gate has {sorted(want)}", text.split("(")[0])
        ctx.guard("spectrum", text, one)
    # evolutions: the spectrum of the generator's matrix
    use_spectra(p.I)
    for text, gen in (("HamEvo(X(0) + Z(1), 't')", "X(0) + Z(1)"), ("HamEvo(kron(N(2), Y(0)), 't')", "kron(N(2), Y(0))"), ("HamEvo(2 * Z(1), 't')", "2 * Z(1)")):
        def evo(text=text, gen=gen):
            ls, st = p.expr(f"(lambda h: (h.eigenvalues_generator, h.generator))({text})")
            for l, g in ls:
                if l.op != "tuple":
                    ctx.ob("spectrum", text, False if l.op == "raise" else None, show(l, 4))
                    continue
                try:
                    r = Sym({}, spectra_hook)(l.a[0][0])
                except NoSym as e:
                    ctx.ob("spectrum", text, None, str(e))
                    continue
                m = [x for x in walk(l.a[0][0]) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "matrix_of"]
                ok = r.eq(Ten((4,), [at(f"l{i}") for i in range(4)])) and len(m) == 1 and args_of(m[0])[0] is l.a[0][1]
                ctx.ob("spectrum", text, ok, f"{r} of {show(l, 5)} instead of all eigenvalues of the generator")
        ctx.guard("spectrum", text, evo)


def assign(ctx):
    p = Probe(ctx, PRE, name="qadence._client11b")
    RULE = P("RULE")
    p.facts = given(P("PRE"))
    use_spectra(p.I)
    progs = [("chain(RX(0, 'x'), CRY(0, 1, 'y'))", [((2,), 1), ((1, 2), 1)]), ("chain(kron(RZ(1, 'x'), PHASE(0, 'x')), CPHASE(1, 2, 'z'), RX(0, 'w'))", [((2,), 1), ((2,), 1), ((2,), 1), ((2,), 1)]),
             ("chain(U(0, 'a', 'b', 'c'), RX(0, 'x'))", [((2,), 1)] * 4), ("chain(H(0), MCRX((0, 1), 2, 'x'), CNOT(0, 1), RY(2, 'y'))", [((1, 2), 1), ((2,), 1)]),
             ("chain(RX(0, 'x'), chain(RX(1, 'x'), kron(CRX(0, 1, 'x'), RZ(2, 'x'))))", [((2,), 1), ((2,), 1), ((1, 2), 1), ((2,), 1)])]
    for text, want in progs:
        for args in ("", ", shift_prefac=PRE"):
            def one(text=text, want=want, args=args):
                bind = {"RULE": RULE, "PRE": P("PRE")}
                ls, st = p.expr(f"DifferentiableExpectation.construct_rules(QuantumCircuit(5, {text}), [], RULE{args})", bind)
                for l, g in ls:
                    nm = f"{text}{' prefactor' if args else ''}"
                    if l.op != "dict":
                        ctx.ob("assign", nm, False if l.op == "raise" else None, show(l, 3))
                        continue
                    got = []
                    for k, v in l.a[0]:
                        if v.op != "call" or v.a[0] is not RULE:
                            got = None
                            break
                        a = args_of(v)
                        got.append((tuple(sorted(gapset(numbers(a[0])))), a.get("shift_prefac")))
                    if got is None:
                        ctx.ob("assign", nm, None, show(l, 4))
                        continue
                    pf = P("PRE") if args else None
                    ctx.ob("assign", nm, [x for x, _ in got] == [w for w, _ in want] and all(s is pf for _, s in got), f"rules for gaps {[x for x, _ in got]} in order of the parameters, expected {[w for w, _ in want]}; settings {[show(s, 2) if s is not None else None for _, s in got]}")
            ctx.guard("assign", text, one)
    # evolutions: exp(-i H t) is the rotation convention with a doubled generator and half the shift
    for text in ("HamEvo(X(0) + Z(1), 't')", "chain(RX(0, 'x'), HamEvo(kron(X(0), Y(1)), 't'))"):
        for args in ("", ", shift_prefac=PRE"):
            def evo(text=text, args=args):
                ls, st = p.expr(f"DifferentiableExpectation.construct_rules(QuantumCircuit(5, {text}), [], RULE{args})", {"RULE": RULE, "PRE": P("PRE")})
                nm = f"{text}{' prefactor' if args else ''}"
                for l, g in ls:
                    v = l.a[0][-1][1] if l.op == "dict" and l.a[0] else l
                    if v.op != "call" or v.a[0] is not RULE:
                        ctx.ob("assign", nm, False if l.op == "raise" else None, show(l, 3))
                        continue
                    a = args_of(v)
                    try:
                        r = Sym({}, spectra_hook)(a[0])
                        pf = Sym({P("PRE"): Ten((), [at("pre")])})(a["shift_prefac"]) if "shift_prefac" in a else Ten.scalar(1)
                    except NoSym as e:
                        ctx.ob("assign", nm, None, str(e))
                        continue
                    ok = r.eq(Ten((4,), [RF.c(2) * at(f"l{i}") for i in range(4)]))
                    ctx.ob("assign", nm, ok, f"an evolution exp(-iHt) with eigenvalues l0.. is differentiated as a rotation with generator eigenvalues {r}", "uuid_to_eigen")
                    half = pf.eq(Ten.scalar(RF.c(0.5) * at("pre")) if args else Ten.scalar(0.5))
                    ctx.ob("assign", nm + ": shift", half, f"the doubled generator needs half the shift, the prefactor becomes {pf}", "construct_rules")
            ctx.guard("assign", text, evo)
    # a gate that occurs twice: both occurrences contribute
    def reuse():
        ls, st = p.expr("(lambda g: DifferentiableExpectation.construct_rules(QuantumCircuit(1, chain(g, g)), [], RULE))(RX(0, 'x'))", {"RULE": RULE})
        for l, g in ls:
            if l.op == "raise":
                ctx.ob("assign", "one gate object used twice", True)
            elif l.op == "dict" and len(l.a[0]) == 1 and l.a[0][0][1].op == "call":
                got = gapset(numbers(args_of(l.a[0][0][1])[0]))
                ctx.ob("assign", "one gate object used twice", got >= {2, 4}, f"the rule of the shared parameter uses gaps {sorted(got)}, the product of the two gates has {{2, 4}}", TD + "DifferentiableExpectation.construct_rules")
            else:
                ctx.ob("assign", "one gate object used twice", None, show(l, 4))
    ctx.guard("assign", "one gate object used twice", reuse)
    # parameters of observables are carried along
    def obs():
        ls, st = p.expr("DifferentiableExpectation.construct_rules(QuantumCircuit(1, RX(0, 'x')), [2 * Z(0), add(3 * X(0), Z(0))], RULE)", {"RULE": RULE})
        for l, g in ls:
            ctx.ob("assign", "constants of the observable are kept", (len(l.a[0]) == 3 if l.op == "dict" else False if l.op == "raise" else None), f"{show(l, 3)}: the expectation lacks the values of the observable's own parameters", TD + "DifferentiableExpectation.construct_rules")
    ctx.guard("assign", "observable", obs)


def spectra_hook(t, ev):
    """eigenvalues of a matrix: four atoms"""
    if t.op == "call" and callee_name(t) in ("eigvals", "eigvalsh"):
        return Ten((1, 4), [at(f"l{i}") for i in range(4)])
    return None


def use_spectra(I):
    I.models["qadence.blocks.block_to_tensor.block_to_tensor"] = lambda a, k, s: mk("call", mk("ext", "matrix_of"), ((0, a[0]),)) if a else None
    I.models["collections.OrderedDict"] = lambda a, k, s: mk("dict", ()) if not a and not k else None

    def orc(c, st):
        if any(x.op == "param" for x in walk(c)):
            return None
        return Sym({}, spectra_hook).truth(c)
    I.oracle = orc


def backward(ctx):
    f = ctx.fn(TD + "PSRExpectation.backward")
    if f is None:
        return
    keys, vals, psrs = ("a", "b", "c"), [P("va"), P("vb"), P("vc")], [P("ra"), P("rb"), P("rc")]
    for need in ((True, True, True), (False, True, True), (True, False, True), (False, False, True)):
        I = ctx.interp(obj=True)
        c = P(f.params[0])
        go = P(f.params[1])
        heap = {(c, "param_keys"): mk("list", tuple(const(k) for k in keys)), (c, "saved_tensors"): mk("tuple", tuple(vals)), (c, "param_psrs"): mk("list", tuple(psrs)),
                (c, "expectation_fn"): P("EF"), (c, "needs_input_grad"): mk("tuple", tuple(const(x) for x in (False, False, False) + need))}
        ret, st = I.run(f, heap=heap)
        name = f"backward needs {need}"
        for l, g in leaves(ret):
            if l.op not in ("tuple", "list") or any(x.op == "star" for x in l.a[0]):
                ctx.ob("backward", name, False if l.op == "raise" else None, show(l, 4), f.qual)
                continue
            items = list(l.a[0])
            if len(items) != 6:
                ctx.ob("backward", name, False, f"{len(items)} gradients for 6 inputs", f.qual)
                continue
            ctx.ob("backward", name + ": first three", all(x is NONE for x in items[:3]), "functions and keys get a gradient", f.qual)
            for i, x in enumerate(items[3:]):
                nm = f"{name}: {keys[i]}"
                if x is NONE:
                    ctx.ob("backward", nm, not need[i], "no gradient for a parameter that needs one", f.qual)
                    continue
                calls_ = [y for y in walk(x) if y.op == "call" and y.a[0] in psrs]
                if not calls_ or any(y.a[0] is not psrs[i] for y in calls_):
                    ctx.ob("backward", nm, False if calls_ else None, f"the gradient of {keys[i]} is computed with the rule of {show(calls_[0].a[0], 2) if calls_ else '?'}", f.qual)
                    continue
                a = args_of(calls_[0])
                pd, pn = a.get(1, a.get("param_dict")), a.get(2, a.get("param_name"))
                ctx.ob("backward", nm + ": arguments", (pn is const(keys[i]) and pd is not None and pd.op == "dict" and {cval(k): v for k, v in pd.a[0]} == dict(zip(keys, vals))) if pd is not None and (pd.op == "dict" or is_const(pd)) else None,
                       f"rule called for parameter {show(pn, 2) if pn is not None else None} with values {show(pd, 3) if pd is not None else None}", f.qual)
                # upstream gradient of shape (batch, observables) = (2, 3)
                G = Ten((2, 3), [at(f"G{j}") for j in range(6)])
                R = Ten((2, 3), [at(f"R{j}") for j in range(6)])
                ev = Sym({go: G, calls_[0]: R})
                want = Ten((2,), [sum((G.at((b, o)) * R.at((b, o)) for o in range(3)), RF.c(0)) for b in range(2)])
                try:
                    r = ev(x)
                    ctx.ob("backward", nm + ": value", Ten([n for n in r.shape if n != 1], r.d).eq(want), f"is {r}, expected the sum over observables of upstream gradient times derivative", f.qual)
                except NoSym as e:
                    ctx.ob("backward", nm + ": value", None, str(e))
                # the function handed to the rule evaluates the same expectation, differentiably
                fn = a.get(0, a.get("expectation_fn"))
                if i == 0 and fn is not None and all(need):
                    try:
                        r = I.apply_value(fn, [D(a=P("wa"), b=P("wb"), c=P("wc"))], {}, st, f)
                    except Exception:
                        r = None
                    if r is not None:
                        aa = [y for y in walk(r) if y.op == "call" and callee_name(y) == "apply"]
                        ctx.ob("backward", "nested expectation", (bool(aa) and contains(r, P("EF")) and all(contains(r, P(w)) for w in ("wa", "wb", "wc"))) if aa else None, show(r, 4), f.qual)
    # forward keeps what backward needs
    f = ctx.fn(TD + "PSRExpectation.forward")
    if f is not None:
        I = ctx.interp(obj=True)
        c = P(f.params[0])
        ret, st = I.run(f, bindings={f.params[2]: mk("list", tuple(psrs)), f.params[3]: mk("list", tuple(const(k) for k in keys)), f.node.args.vararg.arg if f.node.args.vararg else "param_values": mk("tuple", tuple(vals))})
        h = obj_heap(st, c)
        ctx.ob("backward", "forward: rules", (h.get("param_psrs") is mk("list", tuple(psrs))) if "param_psrs" in h else None, "rules not kept", f.qual)
        ctx.ob("backward", "forward: keys", (h.get("param_keys") is mk("list", tuple(const(k) for k in keys))) if "param_keys" in h else None, "keys not kept", f.qual)
        sv = [e.term for e in I.events if e.kind == "call" and e.term.op == "call" and callee_name(e.term) == "save_for_backward"]
        got = [[strip(v) for k, v in t.a[1]] for t in sv]
        ctx.ob("backward", "forward: values", got[0] == vals if got and not any(isinstance(k, str) for k, v in sv[0].a[1]) else None, f"saved {[show(t, 4) for t in sv]}", f.qual)
        ec = [e.term for e in I.events if e.kind == "call" and e.term.op == "call" and e.term.a[0] is P(f.params[1])]
        for t in ec[:1]:
            a = args_of(t)
            d = a.get("param_values", a.get(0))
            ctx.ob("backward", "forward: expectation", ({cval(k): strip(v) for k, v in d.a[0]} == dict(zip(keys, vals))) if d is not None and d.op == "dict" else None, f"evaluated on {show(t, 5)}", f.qual)
    # the selection of parameters and rules passed to apply
    f = ctx.fn(TD + "DifferentiableExpectation.psr")
    if f is not None:
        def sel():
            I = ctx.interp(obj=True)
            rules = D(u2=P("r2"), u1=P("r1"))
            I.models[TD + "DifferentiableExpectation.construct_rules"] = lambda a, k, s: rules
            s = P(f.params[0])
            heap = {(s, "param_values"): D(u0=P("w0"), u1=P("w1"), u2=P("w2"), u3=P("w3")), (s, "measurement"): NONE, (s, "observable"): mk("list", (P("o1"),))}
            ret, st = I.run(f, heap=heap)
            for l, g in leaves(ret):
                t = next((x for x in walk(l) if x.op == "call" and callee_name(x) == "apply"), None)
                if t is None:
                    ctx.ob("backward", "apply", None, show(l, 4))
                    continue
                a = args_of(t)
                pos = [a[i] for i in range(len(a)) if i in a]
                seqs = [seq_of(x) for x in pos[1:3]]
                vals_ = pos[3:]
                ok = None if None in seqs or any(isinstance(k, str) for k in a) else (seqs[0] == [P("r2"), P("r1")] and [cval(k) for k in seqs[1]] == ["u2", "u1"] and vals_ == [P("w2"), P("w1")]) or (seqs[0] == [P("r1"), P("r2")] and [cval(k) for k in seqs[1]] == ["u1", "u2"] and vals_ == [P("w1"), P("w2")])
                ctx.ob("backward", "apply", ok, f"rules, keys and values passed to the autograd function do not correspond: {show(t, 5)}", f.qual)
        ctx.guard("backward", "apply", sel)


def seq_of(t):
    if t.op in ("list", "tuple"):
        return list(t.a[0])
    if t.op == "call" and callee_name(t) in ("keys", "values", "list", "tuple"):
        b = t.a[0].a[0] if t.a[0].op == "attr" else args_of(t)[0]
        if b.op == "dict":
            return [k if callee_name(t) != "values" else v for k, v in b.a[0]]
        return seq_of(b)
    return None


def strip(t):
    while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("detach", "clone", "to", "requires_grad_"):
        t = t.a[0].a[0]
    return t


def route(ctx):
    f = ctx.fn("qadence.engines.torch.differentiable_backend.DifferentiableBackend.expectation")
    if f is None:
        return
    for mode, meth in (("AD", "ad"), ("ADJOINT", "adjoint"), ("GPSR", "psr")):
        def one(mode=mode, meth=meth):
            I = ctx.interp(obj=True)
            for m in ("ad", "adjoint", "psr"):
                I.models[TD + "DifferentiableExpectation." + m] = lambda a, k, s, m=m: mk("call", mk("ext", "impl." + m), tuple([(i, x) for i, x in enumerate(a[1:])] + sorted(k.items())))
            s = P(f.params[0])
            heap = {(s, "diff_mode"): mk("enum", "qadence.types.DiffMode", mode), (s, "psr_args"): D(shift_prefac=P("USERPREFAC"), n_eqs=P("USERN"))}
            ret, st = I.run(f, heap=heap)
            for l, g in leaves(ret):
                used = {x.a[0].a[0].split(".")[-1] for x in walk(l) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("impl.")}
                if not used:
                    ctx.ob("route", mode, False if is_raise(l) else None, show(l, 4), f.qual)
                    continue
                ctx.ob("route", mode, used == {meth}, f"mode {mode} uses {sorted(used)}", f.qual)
                if meth == "psr":
                    t = next(x for x in walk(l) if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "impl.psr")
                    a = args_of(t)
                    fn = a.get("psr_fn", a.get(0))
                    ctx.ob("route", "GPSR: settings", a.get("shift_prefac") is P("USERPREFAC") and a.get("n_eqs") is P("USERN"), f"{show(t, 3)}: the settings of the shift rule are not passed on", f.qual)
                    ctx.ob("route", "GPSR: rule", fn is not None and fn.op == "fn" and fn.a[0] == PS + "general_psr" if fn is not None and fn.op in ("fn", "ext") else None, show(fn, 3) if fn is not None else "none", f.qual)
        ctx.guard("route", mode, one)


def columns(ctx):
    f = ctx.fn(TD + "DifferentiableExpectation.adjoint")
    if f is None:
        return
    for B in (1, 2):
        for nobs in (1, 2, 3):
            def one(B=B, nobs=nobs):
                I = ctx.interp(obj=True, opaque=("qadence.backends.utils.infer_batchsize", "qadence.backends.utils.validate_state", "qadence.backends.utils.pyqify", "qadence.backends.utils.is_pyq_shape"))
                s = P(f.params[0])
                obs = [mk("atom", f"obs{i}") for i in range(nobs)]
                heap = {(s, "observable"): mk("list", tuple(obs)), (s, "state"): NONE, (s, "param_values"): D(a=P("va"), b=P("vb")), (s, "circuit"): P("circ")}
                for i, o in enumerate(obs):
                    heap[(o, "native")] = mk("atom", f"nat{i}")
                facts = [(mk("isinst", mk("list", tuple(obs)), mk("ext", "builtins.list")), True)]
                ret, st = I.run(f, heap=heap, facts=facts)

                def hook(t, ev):
                    if t.op == "call" and callee_name(t) == "apply":
                        i = next((i for i in range(nobs) if contains(t, mk("atom", f"nat{i}"))), None)
                        if i is None:
                            raise NoSym("observable")
                        if not (contains(t, P("va")) and contains(t, P("vb"))):
                            raise NoSym("values")
                        return Ten((B,), [at(f"E{i},{b}") for b in range(B)])
                    if t.op == "call" and callee_name(t) == "infer_batchsize":
                        return Ten.scalar(B)
                    if t.op == "call" and callee_name(t) == "size":
                        return Ten.scalar(B)
                    return None
                ev = Sym({}, hook)
                want = Ten((B, nobs), [at(f"E{i},{b}") for b in range(B) for i in range(nobs)])
                for l, g in leaves(ret):
                    if any(ev.truth(c) is (not v) for c, v in g if c.op != "exc"):
                        continue
                    try:
                        r = ev(l)
                    except NoSym as e:
                        ctx.ob("columns", f"adjoint batch {B} observables {nobs}", None, str(e))
                        continue
                    ctx.ob("columns", f"adjoint batch {B} observables {nobs}", r.eq(want), f"has shape {r.shape}, expected {want.shape} with one column per observable", f.qual)
            ctx.guard("columns", f"adjoint {B} {nobs}", one)


def jaxrule(ctx):
    f = ctx.fn(JD + "DifferentiableExpectation.psr")
    if f is None:
        return
    for nobs in (1, 2):
        def one(nobs=nobs):
            I = ctx.interp(obj=True)
            store, vm = {}, {}

            def dv(a, k, st):
                store["a"] = ([x for x in a if x.op == "clo"], dict(k))
                return NONE

            def vmap(a, k, st):
                vm[mk("atom", f"vmapped{len(vm)}")] = a[0]
                return list(vm)[-1]

            I.models[".defvjp"] = dv
            I.models["jax.custom_vjp"] = lambda a, k, st: a[0]
            I.models["jax.vmap"] = vmap
            I.models["qadence.blocks.utils.uuid_to_eigen"] = lambda a, k, st: D(u1=mk("tuple", (P("eig1"), const(1.0))), u2=mk("tuple", (P("eig2"), const(1.0))))
            s = P(f.params[0])
            heap = {(s, "observable"): mk("list", tuple(P(f"o{i}") for i in range(nobs))), (s, "param_values"): D(u1=P("w1"), u2=P("w2"), u3=P("w3"))}
            ret, st = I.run(f, heap=heap)
            if "a" not in store or not store["a"][0]:
                ctx.ob("jax", f"backward {nobs}", None, "no backward rule found")
                return
            b = store["a"][1].get("bwd", store["a"][0][-1])
            V, Q, G = D(u1=P("w1"), u2=P("w2"), u3=P("w3")), D(u1=P("w1"), u2=P("w2")), P("tangent")
            r = I.apply_value(b, [mk("tuple", (P("state"), V, Q)), G], {}, st, f)
            ls = [l for l, g in leaves(r)]
            if len(ls) != 1 or ls[0].op != "tuple" or len(ls[0].a[0]) != 3 or ls[0].a[0][2].op != "dict":
                return ctx.ob("jax", f"backward {nobs}", None, show(r, 5))
            grads = {cval(k): v for k, v in ls[0].a[0][2].a[0]}
            ctx.ob("jax", f"{nobs} observables: parameters", set(grads) == {"u1", "u2"}, f"gradients for {sorted(grads)}, the circuit has parameters u1 and u2", f.qual)
            shape = (2, nobs)

            def hook(t, ev):
                if t.op == "call" and t.a[0] in vm:
                    pts = args_of(t)[0]
                    while pts.op == "call" and callee_name(pts) in ("array", "stack", "asarray"):
                        pts = args_of(pts)[0]
                    if pts.op not in ("list", "tuple"):
                        raise NoSym("points")
                    from ..symten import stack
                    return stack([ev(I.apply_value(vm[t.a[0]], [x], {}, st, f)) for x in pts.a[0]], 0)
                if t.op == "call" and callee_name(t) == "expectation":
                    d = args_of(t).get("param_values")
                    if d is None or d.op != "dict":
                        raise NoSym("values of the expectation")
                    v = {cval(k): ev(x).d[0] for k, x in d.a[0]}
                    if set(v) != {"u1", "u2", "u3"}:
                        raise NoSym("expectation without some of its parameters")
                    key = ",".join(f"{k}={v[k].key()}" for k in sorted(v))
                    return Ten(shape, [at(f"F[{key}][{i}]") for i in range(2 * nobs)])
                return None
            env = {P(f"w{i}"): Ten((), [at(f"u{i}")]) for i in (1, 2, 3)}
            T_ = Ten(shape, [at(f"T{i}") for i in range(2 * nobs)])
            env[G] = T_
            ev = Sym(env, hook)
            for k in sorted(grads):
                s_ = RF.c(math.pi / 2)
                el = [T_.d[i] * (fkey(s_, i, ("u1", "u2", "u3"), k) - fkey(-s_, i, ("u1", "u2", "u3"), k)) / RF.c(2) for i in range(2 * nobs)]
                want = Ten(shape, el)
                if nobs > 1:
                    want = Ten((2,), [sum((want.at((b_, o)) for o in range(nobs)), RF.c(0)) for b_ in range(2)])
                try:
                    v = ev(grads[k])
                except NoSym as e:
                    ctx.ob("jax", f"{nobs} observables: {k}", None, str(e))
                    continue
                ctx.ob("jax", f"{nobs} observables: {k}", Ten([x for x in v.shape if x != 1], v.d).eq(Ten([x for x in want.shape if x != 1], want.d)), f"is {str(v)[:300]} instead of {str(want)[:300]}", f.qual)
            if nobs == 1:
                dep = any(contains(v, P(e)) for v in grads.values() for e in ("eig1", "eig2"))
                ctx.ob("jax", "gates with more than one gap", True if dep else False, "the rule ignores the spectrum of the gate and assumes the gap 2", f.qual)
        ctx.guard("jax", f"{nobs}", one)
