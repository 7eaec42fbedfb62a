"""Abstract evaluation of qubit registers on client programs, with a model of the graph library, for every constructor, spacing and scaling."""
from __future__ import annotations

import math
import os

from ..model import Module
from ..probe import *

STUBS = os.path.join(os.path.dirname(os.path.dirname(__file__)), "stubs")
PRE = """
import networkx as nx
from qadence.register import Register
from qadence.circuit import QuantumCircuit
from qadence.analog import *
from qadence.types import LatticeTopology

def user_graph(pos, edges):
    g = nx.Graph()
    for i, p in pos:
        g.add_node(i, pos=p)
    for a, b in edges:
        g.add_edge(a, b)
    return g

def rescaled(r, s):
    before = r.coords
    new = r.rescale_coords(s)
    return (before, new.coords, r.coords, list(new.edges), new.device_specs is r.device_specs)
"""
LOC = "qadence/register.py"


def stubs(ctx, *names):
    for n, f in names:
        ctx.prog.modules[n] = Module(ctx.prog, n, n, f"model of {n}", open(os.path.join(STUBS, f)).read())


def sq(n):
    m = n - 1
    pts = [(0, k) for k in range(m)] + [(-k, m) for k in range(m)] + [(-m, m - k) for k in range(m)] + [(k - m, 0) for k in range(m)]
    c = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
    return [(x - c[0], y - c[1]) for x, y in pts]


def ring(n):
    return {frozenset((i, (i + 1) % n)) for i in range(n)} if n > 1 else set()


def path(n):
    return {frozenset((i, i + 1)) for i in range(n - 1)}


def full(n):
    return {frozenset((i, j)) for i in range(n) for j in range(i)}


H = math.sqrt(3) / 2
TRI = {(1, 1): ([(0, 0), (1, 0), (0.5, H)], [(0, 1), (0, 2), (1, 2)]),
       (1, 2): ([(0, 0), (1, 0), (0.5, H), (1.5, H)], [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]),
       (2, 1): ([(0, 0), (1, 0), (0.5, H), (0, 2 * H), (1, 2 * H)], [(0, 1), (0, 2), (1, 2), (2, 3), (2, 4), (3, 4)])}

HX2 = [(0.5, 0), (0, H), (0.5, 2 * H), (0, 3 * H), (0.5, 4 * H), (1.5, 0), (2, H), (1.5, 2 * H), (2, 3 * H), (1.5, 4 * H)]
HEX = {(2, 1): (HX2, [(0, 1), (1, 2), (2, 3), (3, 4), (5, 6), (6, 7), (7, 8), (8, 9), (0, 5), (2, 7), (4, 9)]),
       (1, 1): ([(0.5, 0), (0, H), (0.5, 2 * H), (1.5, 0), (2, H), (1.5, 2 * H)], [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (2, 5)])}


def grid(r, c):
    """rows of r qubits, c of them; node order column by column as the lattice is documented: c columns of positions"""
    pts = [(i, j) for i in range(c) for j in range(r)]
    idx = {p: k for k, p in enumerate(pts)}
    return pts, {frozenset((idx[(i, j)], idx[(i + a, j + b)])) for i, j in pts for a, b in ((0, 1), (1, 0)) if (i + a, j + b) in idx}


SHAPES = []  # constructor text (with {s} for the spacing argument), unit coordinates or None, edges
for n in (1, 2, 3, 5):
    SHAPES.append((f"Register.line({n}{{s}})", [(i, 0) for i in range(n)], path(n)))
for n in (2, 3, 4, 6):
    SHAPES.append((f"Register.circle({n}{{s}})", [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)], ring(n)))
for n in (2, 3, 4):
    SHAPES.append((f"Register.square({n}{{s}})", sq(n), ring(4 * (n - 1))))
for r, c in ((2, 2), (2, 3), (3, 1), (1, 4)):
    p_, e_ = grid(r, c)
    SHAPES.append((f"Register.rectangular_lattice({r}, {c}{{s}})", p_, e_))
for (r, c), (p_, e_) in TRI.items():
    SHAPES.append((f"Register.triangular_lattice({r}, {c}{{s}})", p_, {frozenset(x) for x in e_}))
for (r, c), (p_, e_) in HEX.items():
    SHAPES.append((f"Register.honeycomb_lattice({r}, {c}{{s}})", p_, {frozenset(x) for x in e_}))
for ctor in ("Register.all_to_all({n}{{s}})", "Register({n}{{s}})"):
    for n, pts in ((1, None), (2, [(0, 0), (1, 0)]), (3, TRI[(1, 1)][0])):
        SHAPES.append((ctor.format(n=n), pts, full(n)))


def check(ctx):
    stubs(ctx, ("networkx", "networkx.py"), ("numpy", "numpy_small.py"))
    ctx.rule("shape", "every constructor gives the qubits 0..n-1 the coordinates of its lattice, up to one common factor, and its edges", 20)
    ctx.rule("spacing", "the smallest distance of a register built with a spacing is that spacing", 30)
    ctx.rule("coords", "coordinates given without spacing are kept exactly and in order, with spacing they are multiplied by one factor", 8)
    ctx.rule("distance", "distances lists every pair of qubits once with its Euclidean distance, edge_distances the connected ones, min_distance the smallest", 6)
    ctx.rule("rescale", "rescale_coords multiplies all coordinates, keeps edges and device and leaves the register unchanged", 6)
    ctx.rule("device", "every constructor keeps the device it is given and rejects anything else", 8)
    ctx.rule("query", "n_qubits, support, nodes and indexing describe the graph", 5)
    ctx.rule("equal", "registers are equal exactly if their coordinates and graphs are", 5)
    ctx.rule("topology", "Register.lattice builds the named lattice with the given arguments", 5)
    ctx.assumptions.append("networkx graphs behave as the model in qsa/stubs/networkx.py")
    p = Probe(ctx, PRE, unroll=400)
    for r, f in (("shape", shape), ("coords", coords), ("distance", distance), ("rescale", rescale), ("device", device), ("query", query), ("equal", equal), ("topology", topology)):
        ctx.guard(r, "analysis", lambda f=f: f(ctx, p))


def near(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def ev(ctx, rule, p, text, con=None):
    ret, st = p.expr(text)
    if len(ret) != 1:
        ctx.ob(rule, con or text, None, f"{len(ret)} outcomes")
        return None
    l = ret[0][0]
    if l.op == "raise":
        ctx.ob(rule, con or text, False, f"raises {show(l, 3)}", LOC)
        return None
    try:
        return value(l)
    except ValueError as e:
        ctx.ob(rule, con or text, None, str(e)[:200])
        return None


def mind(cs):
    d = [math.dist(a, b) for i, a in enumerate(cs) for b in cs[:i]]
    return min(d) if d else 0.0


def shape(ctx, p):
    for ctor, pts, edges in SHAPES:
        for s in (None, 2.5, 7.0):
            text = ctor.format(s="" if s is None else f", spacing={s}")

            def one(text=text, pts=pts, edges=edges, s=s):
                v = ev(ctx, "shape", p, f"[(r.coords, list(r.edges)) for r in [{text}]][0]", text)
                if v is None:
                    return
                cs, es = v
                if pts is not None:
                    n = len(pts)
                    sp = 1.0 if s is None else s
                    f = sp / mind(pts) if mind(pts) else 1.0
                    want = {i: (x * f, y * f) for i, (x, y) in enumerate(pts)}
                    ok = list(cs) == list(range(n)) and all(near(cs[i], want[i]) for i in want)
                    ctx.ob("shape", text, ok, "" if ok else f"coordinates {cs} instead of {want}", LOC)
                    if n > 1:
                        m = mind(list(cs.values()))
                        ctx.ob("spacing", text, abs(m - sp) < 1e-9, f"the closest qubits are at distance {m}", LOC)
                got = {frozenset(e) for e in es}
                ctx.ob("shape", text + " edges", got == edges and len(es) == len(got), f"edges {sorted(map(sorted, got))} instead of {sorted(map(sorted, edges))}", LOC)
            ctx.guard("shape", text, one)


CO = [[(0, 0)], [(0, 0), (3, 4)], [(1, 2), (-5, 0.5), (2.25, 2)], [(4, 0), (0, 0), (0, 2), (9, 9)], [(0, 0), (0.004, 0.003)], [(0, 0), (3e4, 0), (3e4, 1e5)]]


def coords(ctx, p):
    for c in CO:
        for s in (None, 1.0, 6.0):
            text = f"Register.from_coordinates({c!r}{'' if s is None else f', spacing={s}'})"

            def one(text=text, c=c, s=s):
                v = ev(ctx, "coords", p, f"[(r.coords, list(r.edges)) for r in [{text}]][0]", text)
                if v is None:
                    return
                f = s / mind(c) if s is not None and mind(c) else 1.0
                ok = list(v[0]) == list(range(len(c))) and all(near(v[0][i], (x * f, y * f)) for i, (x, y) in enumerate(c)) and not v[1]
                ctx.ob("coords", text, ok, "" if ok else f"gives {v}", LOC)
            ctx.guard("coords", text, one)
    for s in (None, 3.0):
        text = f"Register(user_graph([(2, (0, 0)), (0, (0, 2)), (1, (5, 0))], [(2, 1)]), spacing={s})"

        def two(text=text, s=s):
            v = ev(ctx, "coords", p, f"[(r.coords, list(r.edges)) for r in [{text}]][0]", text)
            if v is None:
                return
            f = 1.0 if s is None else s / 2
            want = {2: (0, 0), 0: (0, 2 * f), 1: (5 * f, 0)}
            ok = set(v[0]) == set(want) and all(near(v[0][k], want[k]) for k in want) and {frozenset(e) for e in v[1]} == {frozenset((1, 2))}
            ctx.ob("coords", text, ok, "" if ok else f"gives {v}", LOC)
        ctx.guard("coords", text, two)


def distance(ctx, p):
    regs = [("Register.line(4, spacing=2.0)", {i: (2.0 * i, 0.0) for i in range(4)}, path(4)), ("Register.from_coordinates([(0, 0), (3, 4), (1, 1)])", {0: (0, 0), 1: (3, 4), 2: (1, 1)}, set()),
            ("Register.rectangular_lattice(2, 2, spacing=3.0)", {0: (0, 0), 1: (0, 3), 2: (3, 0), 3: (3, 3)}, grid(2, 2)[1]),
            ("Register(user_graph([(2, (0, 0)), (0, (0, 2)), (5, (6, 0))], [(5, 2), (0, 5)]), spacing=None)", {2: (0, 0), 0: (0, 2), 5: (6, 0)}, {frozenset((5, 2)), frozenset((0, 5))})]
    for text, cs, es in regs:
        def one(text=text, cs=cs, es=es):
            v = ev(ctx, "distance", p, f"[(r.distances, r.edge_distances, r.min_distance, r.all_node_pairs) for r in [{text}]][0]", text)
            if v is None:
                return
            d, e, m, pairs = v
            want = {(i, j): math.dist(cs[i], cs[j]) for i in cs for j in cs if i < j}
            ok = set(d) == set(want) and all(abs(d[k] - want[k]) < 1e-9 for k in want)
            ctx.ob("distance", text, ok, "" if ok else f"distances {d} instead of {want}", LOC)
            ge = {frozenset(k): x for k, x in e.items()}
            ok = set(ge) == es and all(abs(x - math.dist(*(cs[q] for q in k))) < 1e-9 for k, x in ge.items())
            ctx.ob("distance", text + " edge_distances", ok, "" if ok else f"{e}", LOC)
            ctx.ob("distance", text + " min_distance", abs(m - min(want.values())) < 1e-9, f"{m} instead of {min(want.values())}", LOC)
            ctx.ob("distance", text + " all_node_pairs", sorted(pairs) == sorted(want) and list(d) == list(pairs), f"{pairs} with distances in order {list(d)}", LOC)
        ctx.guard("distance", text, one)


def rescale(ctx, p):
    for text in ("Register.line(3, spacing=2.0)", "Register.from_coordinates([(1, 2), (-3, 5)])", "Register.triangular_lattice(1, 2, device_specs=RydbergDevice(rydberg_level=70))"):
        for s in (0.5, 3.0):
            def one(text=text, s=s):
                v = ev(ctx, "rescale", p, f"rescaled({text}, {s})", f"{text}.rescale_coords({s})")
                if v is None:
                    return
                b, n, a, es, dev = v
                bad = []
                if not (set(n) == set(b) and all(near(n[k], tuple(x * s for x in b[k])) for k in b)):
                    bad.append(f"coordinates {b} become {n}")
                if a != b:
                    bad.append(f"the original register changes to {a}")
                if not dev:
                    bad.append("the device is lost")
                e0 = ev(ctx, "rescale", p, f"list({text}.edges)")
                if e0 is not None and {frozenset(x) for x in e0} != {frozenset(x) for x in es}:
                    bad.append("the edges change")
                ctx.ob("rescale", f"{text}.rescale_coords({s})", not bad, "; ".join(bad), LOC)
            ctx.guard("rescale", text, one)


def device(ctx, p):
    d = "RydbergDevice(rydberg_level=71)"
    for c in ("Register(3, device_specs=d)", "Register.from_coordinates([(0, 0), (1, 2)], device_specs=d)", "Register.line(2, device_specs=d)", "Register.circle(3, device_specs=d)", "Register.square(2, device_specs=d)",
              "Register.all_to_all(3, device_specs=d)", "Register.rectangular_lattice(2, 2, device_specs=d)", "Register.triangular_lattice(1, 1, device_specs=d)", "Register.honeycomb_lattice(1, 1, device_specs=d)", "Register.line(2, 2.0, d)", "Register.from_coordinates([(0, 0), (1, 2)], LatticeTopology.ARBITRARY, None, d)"):
        def one(c=c):
            v = ev(ctx, "device", p, f"[({c}).device_specs.rydberg_level for d in [{d}]]", c)
            if v is not None:
                ctx.ob("device", c, v == [71], "the register holds another device", LOC)
        ctx.guard("device", c, one)
    for c in ("Register(2, device_specs='x')", "Register.line(2, device_specs=3)"):
        def two(c=c):
            ret, st = p.expr(c)
            ctx.ob("device", c, p.rejects(ret), "accepted", LOC)
        ctx.guard("device", c, two)


def query(ctx, p):
    for text, want in (("Register.line(4).n_qubits", 4), ("Register.rectangular_lattice(2, 3).n_qubits", 6), ("Register.square(3).n_qubits", 8), ("Register.line(3).support", {0, 1, 2}), ("Register(3).n_qubits", 3), ("Register(1).support", {0}),
                       ("list(Register.line(3).nodes)", [0, 1, 2]), ("Register.line(3, spacing=2.0)[1]['pos']", (2.0, 0.0)), ("Register.triangular_lattice(1, 2).n_qubits", 4)):
        def one(text=text, want=want):
            v = ev(ctx, "query", p, text)
            if v is not None:
                ctx.ob("query", text, v == want, f"{v} instead of {want}", LOC)
        ctx.guard("query", text, one)


def equal(ctx, p):
    p.I.models["deepdiff.DeepDiff"] = lambda a, k, st: (mk("dict", ()) if a[0] is a[1] else mk("dict", ((const("changed"), const(1)),))) if len(a) == 2 else None
    for a, b, want in (("Register.line(3)", "Register.line(3)", True), ("Register.line(3)", "Register.line(3, spacing=2.0)", False), ("Register.line(3)", "Register.line(4)", False), ("Register.from_coordinates([(0, 0), (1, 0)])", "Register.from_coordinates([(1, 0), (0, 0)])", False),
                       ("Register.from_coordinates([(0.0, 0.0), (1.0, 0.0)], spacing=1.0)", "Register.line(2)", False), ("Register.line(2)", "Register.all_to_all(2)", True)):
        def one(a=a, b=b, want=want):
            v = ev(ctx, "equal", p, f"{a} == {b}")
            if v is not None:
                ctx.ob("equal", f"{a} == {b}", bool(v) is want, f"is {v}", LOC)
        ctx.guard("equal", a, one)
    v = ev(ctx, "equal", p, "Register.line(2) == 3")
    if v is not None:
        ctx.ob("equal", "Register.line(2) == 3", v is False, f"is {v}", LOC)


def topology(ctx, p):
    for t, a, c in (("LINE", "3", "line(3)"), ("CIRCLE", "4, spacing=2.0", "circle(4, spacing=2.0)"), ("SQUARE", "2", "square(2)"), ("ALL_TO_ALL", "3", "all_to_all(3)"), ("RECTANGULAR_LATTICE", "2, 3", "rectangular_lattice(2, 3)"), ("TRIANGULAR_LATTICE", "1, 2", "triangular_lattice(1, 2)"), ("HONEYCOMB_LATTICE", "1, 1", "honeycomb_lattice(1, 1)")):
        def one(t=t, a=a, c=c):
            x = ev(ctx, "topology", p, f"[(r.coords, list(r.edges)) for r in [Register.lattice(LatticeTopology.{t}, {a})]][0]", t)
            y = ev(ctx, "topology", p, f"[(r.coords, list(r.edges)) for r in [Register.{c}]][0]", t)
            if x is not None and y is not None:
                ctx.ob("topology", t, x == y, f"{x} instead of {y}", LOC)
        ctx.guard("topology", t, one)
