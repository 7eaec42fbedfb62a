"""Abstract evaluation of deserialize(serialize(x)) for every serializable class, with opaque parameter expressions.

serialize, every `_to_dict`, a model of the JSON encoding, deserialize and every `_from_dict` are evaluated by the abstract interpreter
(dispatch through the resolved class hierarchy, constructors included); the object that comes out is compared field by field with the one
that went in.  The only facts assumed about the outside are eval(srepr(e)) == e up to the values of its symbols, and the inverse pairs of
networkx and json.
"""
from __future__ import annotations

import os

from ..absint import AbsRaise, abs_error, finite_items
from ..probe import *

PRE = """
DEVFIELDS = {dev}
import json
import torch
from qadence import *
from qadence.operations import *
from qadence.blocks import *
from qadence.blocks.composite import *
from qadence.blocks.matrix import MatrixBlock
from qadence.blocks.primitive import *
from qadence.blocks.utils import *
from qadence.circuit import QuantumCircuit
from qadence.register import Register
from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol, Interaction, DeviceType, BackendName, DiffMode, SerializationFormat
from qadence.measurements import Measurements
from qadence.mitigations import Mitigations
from qadence.analog.device import RydbergDevice
from qadence.serialization import serialize, deserialize, save, load
from qadence.parameters import ParamMap, Parameter
from qadence.model import QuantumModel
from qadence.ml_tools.models import QNN

def J(d):
    return json.loads(json.dumps(d))

def params(m):
    return [(k, u, e, [(s.name, s.trainable, s.value) for s in e.free_symbols]) for k, u, e in zip(m.names(), m.uuids(), m.expressions())]

def exprs(m):
    return [(e, [(s.name, s.trainable, s.value) for s in e.free_symbols]) for e in m.expressions()]

def noise(n):
    return None if n is None else ("noise", n.protocol, n.options)

def desc(b):
    if isinstance(b, ScaleBlock):
        return (type(b), b.tag, params(b.parameters), desc(b.block))
    if isinstance(b, PutBlock):
        return (type(b), b.tag, tuple(b.qubit_support), desc(b.blocks[0]))
    if isinstance(b, CompositeBlock):
        return (type(b), b.tag, [desc(x) for x in b.blocks])
    if isinstance(b, HamEvo):
        return (type(b), b.tag, tuple(b.qubit_support), gen(b.generator), b.parameters.parameter, params(b.parameters), b.duration, [desc(x) for x in b.noise_operators])
    if isinstance(b, (ControlBlock, ParametricControlBlock)):
        return (type(b), b.tag, tuple(b.control), tuple(b.qubit_support), noise(b.noise), desc(b.blocks[0]), params(b.parameters) if isinstance(b, ParametricBlock) else None)
    if isinstance(b, ParametricBlock):
        return (type(b), b.tag, tuple(b.qubit_support), noise(b.noise), params(b.parameters))
    if isinstance(b, ProjectorBlock):
        return (type(b), b.tag, tuple(b.qubit_support), noise(b.noise), b.ket, b.bra)
    if isinstance(b, MatrixBlock):
        return (type(b), b.tag, tuple(b.qubit_support), noise(b.noise), b.matrix)
    return (type(b), b.tag, tuple(b.qubit_support), noise(b.noise))

def gen(g):
    return desc(g) if isinstance(g, AbstractBlock) else g

def rt(x):
    return (desc(x), desc(deserialize(J(serialize(x)))))

def rt_raw(x):
    return (desc(x), desc(deserialize(serialize(x))))

def circ(c):
    return (type(c), desc(c.block), regd(c.register))

def regd(r):
    return (r.graph, dev(r.device_specs))

def rt_circ(c):
    return (circ(c), circ(deserialize(J(serialize(c)))))

def rt_reg(r):
    return (regd(r), regd(deserialize(J(serialize(r)))))

def rt_noise(n):
    return (noise(n), noise(NoiseHandler._from_dict(J(n._to_dict()))))

def dev(d):
    return tuple(getattr(d, f) for f in DEVFIELDS)

def obs_of(m):
    return None if m._observable is None else [desc(o.abstract) for o in m._observable]

def optd(n):
    return None if n is None else (type(n), n.protocol, n.options)

def model(m, params=True):
    return (type(m), circ(m._circuit.abstract), obs_of(m), m.backend.made_with, optd(m._measurement), noise(m._noise), optd(m._mitigation), [(k, p.data, p.requires_grad) for k, p in m._params.items() if params],
            ([i.name for i in m.inputs], m.input_diff_mode) if isinstance(m, QNN) else None)

def rt_model(m):
    return (model(m), model(type(m)._from_dict(m._to_dict(True), True)))

def rt_pt(m):
    save(m, '.', 'file', SerializationFormat.PT)
    return (model(m), model(load('./file.pt')))

def rt_file(m):
    save(m, '.', 'file', SerializationFormat.JSON)
    return (model(m, False), model(load('./file.json'), False))

def rt_default(m):
    save(m, '.', 'file')
    return (model(m, False), model(load('./file.json'), False))

def rt_cfile(m):
    save(m, '.', 'file')
    return (circ(m), circ(load('./file.json')))

def rt_cpt(m):
    save(m, '.', 'file', 'PT')
    return (circ(m), circ(load('./file.pt')))

def rt_json(m):
    return (model(m, False), model(type(m)._from_dict(J(m._to_dict(False))), False))

def rt_meas(n):
    m = type(n)._from_dict(J(n._to_dict()))
    return ((type(n), n.protocol, n.options), (type(m), m.protocol, m.options))
"""

NZ = "NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {'error_probability': 0.25})"
ONE = ["X", "Y", "Z", "H", "I", "S", "SDagger", "T", "TDagger", "N"]
BLOCKS = [f"{g}(3)" for g in ONE] + ["Zero()", "N(2, '0')", "Projector('01', '10', (4, 2))", "Projector('1', '0', 3)", "SWAP(4, 1)", "CNOT(4, 1)", "CZ(4, 1)", "MCZ((5, 2), 3)", "Toffoli((5, 2, 0), 3)", "CSWAP(5, 1, 3)",
          "RX(3, e)", "RY(3, e)", "RZ(3, e)", "PHASE(3, e)", "U(3, e, f, g)"]
BLOCKS += [f"{g}(4, 1, e)" for g in ("CRX", "CRY", "CRZ", "CPHASE")] + [f"{g}((5, 2), 3, e)" for g in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]
BLOCKS += ["MatrixBlock(M, (4, 2), check_unitary=False)", "chain(MatrixBlock(M, (1, 3), check_unitary=False))", "HamEvo(add(X(1), Z(3)), e)", "HamEvo(ScaleBlock(add(X(0), Y(1)), f), e)", "HamEvo(chain(tag(Z(0), 'a')), e)", "HamEvo(X(2), e)", "HamEvo(kron(X(4), Y(0)), e)", "HamEvo(X(1), e, noise_operators=[Y(1)])"]
NOISY = [f"{g}(3, noise={NZ})" for g in ONE] + [f"SWAP(4, 1, noise={NZ})", f"CNOT(4, 1, noise={NZ})", f"CZ(4, 1, noise={NZ})", f"MCZ((5, 2), 3, noise={NZ})", f"Toffoli((5, 2, 0), 3, noise={NZ})", f"CSWAP(5, 1, 3, noise={NZ})",
         f"Projector('01', '10', (4, 2), noise={NZ})", f"U(3, e, f, g, noise={NZ})"] + [f"{g}(3, e, noise={NZ})" for g in ("RX", "RY", "RZ", "PHASE")] + [f"{g}(4, 1, e, noise={NZ})" for g in ("CRX", "CRY", "CRZ", "CPHASE")] + [f"{g}((5, 2), 3, e, noise={NZ})" for g in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]
COMP = ["chain(X(3), Y(1), X(3))", "kron(X(3), Y(1))", "add(X(3), Y(1))", "ScaleBlock(X(2), e)", "ScaleBlock(chain(X(2), RX(1, f)), e)", "chain(kron(X(3), chain(RX(1, e), Y(0))), add(Z(1), ScaleBlock(Z(2), f)))",
        "chain(ScaleBlock(kron(X(0), Y(2)), e), CRX(4, 1, f), Toffoli((5, 2), 3))", "PutBlock(X(0), (3,))", "chain(PutBlock(CNOT(0, 1), (2, 5)))", "kron(HamEvo(X(1), e), MCRZ((5, 2), 3, f))", "chain()", "add(ScaleBlock(ScaleBlock(X(0), e), f), N(1, '0'))"]
TAGGED = [f"tag({b}, 'a')" for b in ("X(3)", "RX(3, e)", "CNOT(4, 1)", "CRX(4, 1, e)", "ScaleBlock(X(2), e)", "chain(X(3), Y(1))", "kron(X(3), Y(1))", "add(X(3), Y(1))", "HamEvo(X(2), e)", "Projector('1', '0', 3)", "PutBlock(X(0), (3,))")]
TAGGED += ["chain(tag(X(0), 'a'), tag(chain(tag(RX(1, e), 'b')), 'c'))", "kron(tag(chain(X(0)), 'a'), Y(1))", "add(tag(chain(X(0)), 'a'), tag(Y(1), 'b'))", "ScaleBlock(tag(chain(X(0)), 'a'), e)", "ScaleBlock(tag(X(0), 'a'), e)",
           "tag(ScaleBlock(tag(X(0), 'a'), e), 'b')", "HamEvo(tag(chain(X(0)), 'a'), e)"]
NOISES = ["NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {'error_probability': 0.25})", "NoiseHandler(NoiseProtocol.DIGITAL.DEPOLARIZING, {'error_probability': 0.25})", "NoiseHandler(NoiseProtocol.ANALOG.DEPOLARIZING, {'noise_probs': [0.5, 0.25]})",
          "NoiseHandler(NoiseProtocol.ANALOG.DEPHASING, {'noise_probs': 0.5})", "NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {'seed': 7})", "NoiseHandler(NoiseProtocol.READOUT.CORRELATED, {'seed': 7})",
          "NoiseHandler([NoiseProtocol.DIGITAL.BITFLIP, NoiseProtocol.DIGITAL.PHASEFLIP, NoiseProtocol.READOUT.INDEPENDENT], [{'error_probability': 0.25}, {'error_probability': 0.5}, {'error_probability': 0.125, 'seed': 3}])"]
MEAS = ["Measurements('tomography', {'n_shots': 100})", "Measurements('shadow', {'accuracy': 0.1, 'confidence': 0.2})", "Measurements('tomography', {})", "Mitigations('readout', {'optimization_type': 'mle', 'samples': 5})", "Mitigations('zne', {})", "Mitigations('zne')"]
DEV = "RydbergDevice(rydberg_level=70, coeff_xy=11.0, max_detuning=5.0, max_amp=6.0, interaction=Interaction.XY, type=DeviceType.REALISTIC)"
REGS = ["Register(G, spacing=None)", f"Register(G, spacing=None, device_specs={DEV})"]
CIRCS = [f"QuantumCircuit({r}, {b})" for r in REGS for b in ("chain(RX(0, e), CNOT(0, 1))", "tag(chain(tag(X(0), 'u'), HamEvo(add(Z(0), Z(1)), f)), 't')", "RX(0, e)")]
C0 = CIRCS[0]
MODELS = [f"QuantumModel({C0}, [Z(0), ScaleBlock(add(X(0), Y(1)), f)], backend=BackendName.PYQTORCH, diff_mode=DiffMode.GPSR, configuration=CFG)", f"QuantumModel({C0}, Z(0), configuration=CFG)", f"QuantumModel({C0}, configuration=CFG)",
          f"QuantumModel({CIRCS[4]}, [Z(0)], backend=BackendName.PULSER, diff_mode=DiffMode.GPSR, measurement={MEAS[0]}, noise={NOISES[4]}, mitigation={MEAS[3]}, configuration=CFG)",
          f"QNN({C0}, [tag(kron(X(0), Y(1)), 'obs')], backend=BackendName.PYQTORCH, diff_mode=DiffMode.ADJOINT, inputs=['e_0'], configuration=CFG)",
          f"QNN({C0}, [Z(0)], measurement={MEAS[0]}, noise={NOISES[4]}, inputs=['e_0'], input_diff_mode='fd', configuration=CFG)"]
DIGITAL = {"BitFlip": "BITFLIP", "PhaseFlip": "PHASEFLIP", "Depolarizing": "DEPOLARIZING", "PauliChannel": "PAULI_CHANNEL", "AmplitudeDamping": "AMPLITUDE_DAMPING", "PhaseDamping": "PHASE_DAMPING", "GeneralizedAmplitudeDamping": "GENERALIZED_AMPLITUDE_DAMPING"}


def A_(n):
    return mk("atom", n)


class World:
    """parameter expressions as opaque values; eval(srepr(e)) is a new expression with the symbols of e, carrying no values"""

    def __init__(self, ctx, p):
        self.ctx, self.p, I = ctx, p, p.I
        self.origin = {}
        pc = ctx.prog.cls(PARAM)
        self.atoms = {}
        for i, n in enumerate("efg"):
            e, syms = A_(n), [A_(f"{n}_{k}") for k in range(2 if n == "e" else 1)]
            self.atoms[n] = e
            p.heap[(e, "free_symbols")] = mk("list", tuple(syms))
            p.heap[(e, "is_number")] = FALSE
            for k, s in enumerate(syms):
                I.exact[s] = pc
                I.ident.add(s)
                p.heap.update({(s, "name"): const(s.a[0]), (s, "trainable"): const(bool((i + k) % 2)), (s, "value"): const(-(1 / 3 + i + k / 7)), (s, "is_time"): FALSE, (s, "is_number"): FALSE})
            I.ident.add(e)
        hook = I.attr_hook
        self.hook0 = hook
        I.models["sympy.srepr"] = lambda a, k, st: const("srepr " + a[0].a[0]) if a[0].op == "atom" else None
        I.models["builtins.eval"] = self.eval
        I.models["qadence.serialization.parse_expr_fn"] = lambda a, k, st: TRUE if is_const(a[0]) and str(cval(a[0])).startswith("srepr ") else None
        I.models["builtins.str"] = self.str
        I.models["builtins.float"] = lambda a, k, st: const(float(cval(a[0]))) if len(a) == 1 and is_const(a[0]) else None
        I.models["json.dumps"] = lambda a, k, st: mk("json", jsonify(I, a[0]))
        I.models["json.loads"] = lambda a, k, st: a[0].a[0] if a[0].op == "json" else None
        I.models["copy.deepcopy"] = lambda a, k, st: a[0] if len(a) == 1 else None
        I.models["networkx.node_link_data"] = lambda a, k, st: mk("dict", ((const("nodes"), mk("jsonatom", a[0])),))
        I.models["networkx.node_link_graph"] = self.graph
        I.models["pyqtorch.noise.DigitalNoiseType"] = lambda a, k, st: mk("ext", "pyqtorch.noise.DigitalNoiseType." + DIGITAL[cval(a[0])]) if is_const(a[0]) and cval(a[0]) in DIGITAL else None
        I.models["dataclasses.fields"] = self.fields
        I.models["dataclasses.asdict"] = lambda a, k, st: mk("dict", ((const("configuration"), mk("jsonatom", a[0])),)) if a[0].op == "atom" else None
        I.models["qadence.backends.api.config_factory"] = self.config
        I.models["qadence.backends.api.backend_factory"] = self.backend
        I.models[".convert"] = self.convert
        for q in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
            I.models[q] = self.tparam
        for q in ("torch.nn.ParameterDict", "torch.nn.modules.container.ParameterDict"):
            I.models[q] = lambda a, k, st: a[0] if a else mk("dict", ())
        for q in ("qadence.utils.check_param_dict_values", "qadence.backends.utils.check_param_dict_values", "qadence.backends.jax_utils.check_param_dict_values"):
            I.models[q] = lambda a, k, st: TRUE
        I.models["sympy.symbols"] = self.symbol
        M = lambda t: t.op == "atom" and str(t.a[0]).startswith("matrix")
        for n in (".detach", ".to", ".clone", ".contiguous", ".cpu"):
            I.models[n] = lambda a, k, st: a[0] if a and M(a[0]) else None
        I.models["torch.view_as_real"] = lambda a, k, st: mk("realview", a[0]) if M(a[0]) else None
        I.models[".tolist"] = lambda a, k, st: mk("jsonatom", a[0]) if a[0].op == "realview" else None
        I.models["torch.tensor"] = lambda a, k, st: a[0].a[0] if a[0].op == "jsonatom" else None
        I.models["torch.view_as_complex"] = lambda a, k, st: a[0].a[0] if a[0].op == "realview" else None
        I.models["torch.save"] = lambda a, k, st: self.put(a[1] if len(a) > 1 else k.get("f"), a[0], st)
        I.models["torch.load"] = lambda a, k, st: self.get(a[0], st)
        I.models[".write"] = lambda a, k, st: self.put(a[0].a[0], a[1], st) if a[0].op == "file" else None
        I.models[".read"] = lambda a, k, st: self.get(a[0].a[0], st) if a[0].op == "file" else None
        I.models["builtins.open"] = lambda a, k, st: mk("file", a[0])
        I.models[".open"] = lambda a, k, st: mk("file", a[0])
        I.models[".__enter__"] = lambda a, k, st: a[0] if a[0].op == "file" else None
        I.models["json.load"] = lambda a, k, st: unjson(self.get(a[0].a[0], st)) if a[0].op == "file" else None
        I.models["json.dump"] = lambda a, k, st: self.put(a[1].a[0], mk("json", jsonify(I, a[0])), st) if a[1].op == "file" else None
        I.models["pathlib.Path"] = lambda a, k, st: mk("path", cval(a[0])) if len(a) == 1 and is_const(a[0]) else a[0] if len(a) == 1 and a[0].op == "path" else None
        I.models["os.path.exists"] = lambda a, k, st: TRUE
        I.models[".exists"] = I.models[".is_dir"] = lambda a, k, st: TRUE if a[0].op == "path" else None
        I.models["os.path.splitext"] = self.splitext
        self.isi = I.isinst_hook if hasattr(I, "isinst_hook") else None
        I.isinst_hook = self.isinst

    def put(self, f, v, st):
        st.heap[(A_("disk"), key(f))] = v
        return NONE

    def get(self, f, st):
        return st.heap.get((A_("disk"), key(f)))

    def splitext(self, a, k, st):
        import os
        return mk("tuple", tuple(const(x) for x in os.path.splitext(cval(a[0])))) if is_const(a[0]) else None

    def fields(self, a, k, st):
        c = self.p.I.p.cls(a[0].a[0]) if a[0].op == "new" else None
        from ..absint import dataclass_fields
        df = dataclass_fields(c) if c is not None else None
        if df is None:
            return None
        for n, _ in df:
            st.heap[(A_("field " + n), "name")] = const(n)
        return mk("tuple", tuple(A_("field " + n) for n, _ in df))

    def config(self, a, k, st):
        x = a[1] if len(a) > 1 else k.get("config")
        if x is not None and x.op == "dict" and len(x.a[0]) == 1 and x.a[0][0][1].op == "jsonatom":
            return x.a[0][0][1].a[0]
        return None

    def backend(self, a, k, st):
        d = dict(zip(("backend", "diff_mode", "configuration"), a))
        d.update(k)
        cfg = d.get("configuration", NONE)
        b = A_(f"backend {self.p._fresh()}")
        st.heap[(b, "made_with")] = mk("tuple", tuple(self.norm(d.get(n, NONE)) for n in ("backend", "diff_mode", "configuration")))
        st.heap[(b, "backend")] = b
        st.heap[(b, "config")] = cfg
        return b

    def norm(self, x):
        s = self.p.I.strval(x)
        return const(s) if s is not None else x

    def convert(self, a, k, st):
        """what Backend.convert gives for a circuit and its observables: the same objects, a parameter dictionary"""
        if not a or a[0].op != "atom" or not str(a[0].a[0]).startswith("backend "):
            return None
        c, o = a[1], a[2] if len(a) > 2 else k.get("observable", NONE)
        r, n = A_(f"converted {self.p._fresh()}"), self.p._fresh()
        def conv(x, i):
            y = A_(f"conv {n} {i}")
            st.heap[(y, "abstract")] = x
            st.heap[(y, "original")] = x
            return y
        items = finite_items(self.p.I, o)
        st.heap[(r, "circuit")] = conv(c, "c")
        st.heap[(r, "observable")] = mk("list", tuple(conv(x, i) for i, x in enumerate(items))) if items is not None else o
        st.heap[(r, "embedding_fn")] = A_("embedding")
        vals = []
        for i, rg in enumerate((True, False)):
            v = A_(f"start value {n} {i}")
            st.heap[(v, "requires_grad")] = const(rg)
            st.heap[(v, "data")] = self.value_of(i, first=not self.seen)
            vals.append((const(f"p{i}"), v))
        self.seen = True
        st.heap[(r, "params")] = mk("dict", tuple(vals))
        return r

    seen = False

    def value_of(self, i, first):
        return A_(f"trained {i}") if first else A_(f"initial {i}")

    def tparam(self, a, k, st):
        v = a[0] if a else k.get("data")
        rg = a[1] if len(a) > 1 else k.get("requires_grad", TRUE)
        r = A_(f"torch parameter {self.p._fresh()}")
        st.heap[(r, "requires_grad")] = rg
        st.heap[(r, "data")] = st.heap.get((v, "data"), mk("attr", v, "data"))
        return r

    def symbol(self, a, k, st):
        if len(a) == 1 and is_const(a[0]):
            y = A_("symbol " + str(cval(a[0])))
            st.heap[(y, "name")] = a[0]
            return y
        return None

    def graph(self, a, k, st):
        if a and a[0].op == "dict" and len(a[0].a[0]) == 1 and a[0].a[0][0][1].op == "jsonatom":
            return a[0].a[0][0][1].a[0]
        return None

    def isinst(self, x, tys):
        names = {t.a[0] for t in tys if t.op in ("ext", "cls")}
        if x.op == "atom" and x in self.origin or x in self.atoms.values():
            if any(n.startswith("sympy") and n.split(".")[-1] in ("Basic", "Expr") for n in names):
                return TRUE
            if not any(n.startswith("sympy") for n in names):
                return FALSE
        if x.op == "path":
            return const(any(n.split(".")[-1] in ("Path", "PurePath", "PathLike") for n in names))
        if x.op == "atom" and str(x.a[0]).startswith("matrix"):
            return const(any(n.endswith("Tensor") for n in names))
        if x.op == "atom" and x.a[0].startswith("graph"):
            return const(any(n.endswith("Graph") for n in names))
        return None

    def str(self, a, k, st):
        if len(a) == 1:
            x = a[0]
            if x.op == "atom":
                return const(x.a[0].split(" ")[-1])
            if x.op == "path":
                return const(x.a[0])
            if is_const(x):
                return const(str(cval(x)))
            s = self.p.I.strval(x) if x.op == "enum" else None
            if s is not None:
                return const(s)
        return None

    def eval(self, a, k, st):
        if not a or not is_const(a[0]) or not str(cval(a[0])).startswith("srepr "):
            return None
        e = A_(cval(a[0])[6:])
        n = self.p._fresh()
        r = A_(f"{e.a[0]}'{n}")
        self.origin[r] = e
        new = []
        for s in finite_items(self.p.I, self.p.heap[(e, "free_symbols")]):
            t = A_(f"{s.a[0]}'{n}")
            self.origin[t] = s
            self.p.I.exact[t] = self.p.I.exact[s]
            self.p.I.ident.add(t)
            for f in ("name", "trainable", "is_time", "is_number"):
                st.heap[(t, f)] = self.p.heap[(s, f)]
            st.heap[(t, "value")] = mk("param", "random value")
            new.append(t)
        self.p.I.ident.add(r)
        st.heap[(r, "free_symbols")] = mk("list", tuple(new))
        st.heap[(r, "is_number")] = self.p.heap[(e, "is_number")]
        return r


def key(f):
    return os.path.normpath(f.a[0]) if f.op == "path" or is_const(f) and isinstance(cval(f), str) else show(f, 9)


def unjson(t):
    return t.a[0] if t is not None and t.op == "json" else None


def jsonify(I, t):
    if is_const(t):
        return t
    if t.op in ("list", "tuple"):
        return mk("list", tuple(jsonify(I, x) for x in t.a[0]))
    if t.op == "dict":
        return mk("dict", tuple((jsonkey(I, k), jsonify(I, v)) for k, v in t.a[0]))
    if t.op == "enum":
        s = I.strval(t)
        if s is not None:
            return const(s)
    if t.op == "jsonatom":
        return t
    if t.op == "ext" and t.a[0].split(".")[-1].isupper():
        for v, m in DIGITAL.items():
            if t.a[0].endswith("DigitalNoiseType." + m):
                return const(v)
    from ..absint import tupval
    tv = tupval(I, t)
    if tv is not None:
        return jsonify(I, tv)
    if t.op in ("new", "atom", "set", "cls", "fn"):
        raise AbsRaise(abs_error("TypeError", const(f"{show(t, 2)} is not JSON serializable")))
    return t


def jsonkey(I, k):
    if is_const(k) and isinstance(cval(k), (int, float)):
        return const(str(cval(k)))
    return jsonify(I, k)


def check(ctx):
    ctx.rule("block", "deserialize(json(serialize(block))) is a block of the same class on the same qubits with the same controls, parameter identifiers and expressions, symbol values, states and operands", 37)
    ctx.rule("noise", "the noise of every gate survives serialization", 30)
    ctx.rule("tree", "composite blocks come back with the same children in the same order, scales and parameters", 12)
    ctx.rule("tag", "tags survive serialization at every level of nesting", 18)
    ctx.rule("config", "noise, measurement and mitigation objects survive serialization", 13)
    ctx.rule("register", "registers and circuits come back with the same graph, device specification and block", 8)
    ctx.rule("model", "models come back with the same circuit, observables, backend, differentiation mode, configuration, protocols, inputs and parameters", 8)
    ctx.rule("file", "load gives back what save was given, in every format; .pt files keep the values of the parameters", 30)
    from ..absint import dataclass_fields
    dc = ctx.prog.cls("qadence.analog.device.RydbergDevice")
    fields = tuple(n for n, _ in dataclass_fields(dc)) if dc is not None else ()
    p = Probe(ctx, PRE.replace("{dev}", repr(fields)))
    w = World(ctx, p)
    b = dict(w.atoms)
    g, cfg = A_("graph 0"), A_("configuration 0")
    m = A_("matrix 0")
    p.I.ident.update((g, cfg, m))
    b.update(G=g, CFG=cfg, M=m)
    p.heap[(m, "shape")] = mk("tuple", (const(4), const(4)))
    p.heap[(m, "ndim")] = const(2)
    for rule, txts, fn in (("block", BLOCKS, "rt"), ("noise", NOISY, "rt"), ("tree", COMP, "rt"), ("tag", TAGGED, "rt"), ("config", NOISES, "rt_noise"), ("config", MEAS, "rt_meas"), ("register", REGS, "rt_reg"), ("register", CIRCS, "rt_circ"), ("model", MODELS, "rt_model"), ("model", MODELS, "rt_json"), ("file", CIRCS, "rt_cfile"), ("file", CIRCS, "rt_cpt"), ("file", MODELS, "rt_pt"), ("file", MODELS, "rt_file"), ("file", MODELS, "rt_default")):
        for t in txts:
            ctx.guard(rule, t, lambda: trip(ctx, p, w, rule, t, fn, {k: v for k, v in b.items()}))


def trip(ctx, p, w, rule, txt, fn, bind):
    w.seen = False
    rs, st = p.expr(f"{fn}({txt})", bind)
    if len(rs) != 1:
        bad = [l for l, _ in rs if is_raise(l)]
        return ctx.ob(rule, txt, None, f"{len(rs)} cases {'some raise' if bad else ''} {show(rs[0][0], 4)[:200]}")
    l = rs[0][0]
    if is_raise(l):
        return ctx.ob(rule, txt, False, f"round trip raises {show(l, 4)[:300]}", "deserialize(serialize(x))")
    if l.op != "tuple":
        return ctx.ob(rule, txt, None, f"cannot read {show(l, 4)[:160]}")
    a, b = l.a[0]
    d = diff(w, a, b, "")
    if d is None:
        return ctx.ob(rule, txt, True)
    ok, msg = d
    ctx.ob(rule, txt, ok, msg, "deserialize(serialize(x))")


def diff(w, a, b, path):
    """None if equal; (False, why) different; (None, why) undecided"""
    b = w.origin.get(b, b)
    if a is b:
        return None
    if {a.op, b.op} == {"enum", "const"} and w.p.I.cmp_eq(a, b) is TRUE:
        return None  # members of string enumerations are equal to their text
    if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
        if len(a.a[0]) != len(b.a[0]):
            return False, f"{path or 'object'}: {show(a, 3)[:120]} became {show(b, 3)[:120]}"
        und = None
        for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            d = diff(w, x, y, f"{path}[{i}]")
            if d is not None and d[0] is False:
                return d
            und = und or d
        return und
    if a.op == "dict" and b.op == "dict":
        ka, kb = {k: v for k, v in a.a[0]}, {k: v for k, v in b.a[0]}
        if set(ka) != set(kb):
            return False, f"{path}: {show(a, 3)[:120]} became {show(b, 3)[:120]}"
        und = None
        for k in ka:
            d = diff(w, ka[k], kb[k], f"{path}[{show(k, 1)}]")
            if d is not None and d[0] is False:
                return d
            und = und or d
        return und
    if plain(a) and plain(b) or plain(a) and b.op in ("tuple", "list", "dict", "new") or plain(b) and a.op in ("tuple", "list", "dict", "new"):
        return False, f"{path or 'object'}: {show(a, 3)[:120]} became {show(b, 3)[:160]}"
    return None, f"{path or 'object'}: cannot compare {show(a, 3)[:120]} with {show(b, 5)[:200]}"


def plain(t):
    return t.op in ("const", "cls", "enum", "atom") or t.op == "param" and t.a[0] == "random value" or t.op == "ext" and t.a[0].split(".")[-1].isupper()
