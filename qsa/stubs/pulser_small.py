"""Model of the parts of pulser used by the Pulser backend, in the analysed language: sequences record the pulses added to them, parametrised
objects are built at once, every declared variable having one generic value (model of Sequence.declare_variable in the analysis)."""


class Channel:
    def __init__(self, addressing, max_abs_detuning, max_amp, clock_period, min_duration, max_duration):
        self.addressing = addressing
        self.max_abs_detuning = max_abs_detuning
        self.max_amp = max_amp
        self.clock_period = clock_period
        self.min_duration = min_duration
        self.max_duration = max_duration


class Rydberg(Channel):
    @classmethod
    def Global(cls, max_abs_detuning=None, max_amp=None, clock_period=1, min_duration=1, max_duration=None, mod_bandwidth=None, eom_config=None):
        return Channel("Global", max_abs_detuning, max_amp, clock_period, min_duration, max_duration)

    @classmethod
    def Local(cls, max_abs_detuning=None, max_amp=None, max_targets=1, clock_period=1, min_duration=1, max_duration=None, mod_bandwidth=None, eom_config=None, min_retarget_interval=0, fixed_retarget_t=0):
        return Channel("Local", max_abs_detuning, max_amp, clock_period, min_duration, max_duration)


class RydbergBeam:
    RED = "red"
    BLUE = "blue"


class RydbergEOM:
    def __init__(self, limiting_beam=None, max_limiting_amp=None, intermediate_detuning=None, mod_bandwidth=None, controlled_beams=None):
        self.limiting_beam = limiting_beam


class VirtualDevice:
    def __init__(self, name, dimensions, rydberg_level=None, max_atom_num=None, max_radial_distance=None, min_atom_distance=0, channel_objects=()):
        self.name = name
        self.rydberg_level = rydberg_level
        self.max_atom_num = max_atom_num
        self.max_radial_distance = max_radial_distance
        self.min_atom_distance = min_atom_distance
        self.channels = {"rydberg_global": channel_objects[0], "rydberg_local": channel_objects[1]}


class Register:
    def __init__(self, qubits):
        self.qubits = qubits

    @classmethod
    def from_coordinates(cls, coords, center=True, prefix=None, labels=None):
        return Register({i: c for i, c in enumerate(coords.tolist())})


class Variable:
    pass


def _generic(name):
    return None


def _result(sim):
    return None


class VariableItem:
    pass


def parametrize(f):
    return f


class ConstantWaveform:
    def __init__(self, duration, value):
        self.duration = int(duration)
        self.value = value
        self.kind = "constant"


class RampWaveform:
    def __init__(self, duration, start, stop):
        self.duration = int(duration)
        self.value = (start, stop)
        self.kind = "ramp"


class CompositeWaveform:
    def __init__(self, *waveforms):
        self.duration = sum([w.duration for w in waveforms])
        self.value = waveforms
        self.kind = "composite"


class Pulse:
    def __init__(self, amplitude, detuning, phase, post_phase_shift=0.0):
        self.amplitude = amplitude
        self.detuning = detuning
        self.phase = phase
        self.duration = amplitude.duration

    @classmethod
    def ConstantDetuning(cls, amplitude, detuning, phase, post_phase_shift=0.0):
        return cls(amplitude, ConstantWaveform(amplitude.duration, detuning), phase)

    @classmethod
    def ConstantAmplitude(cls, amplitude, detuning, phase, post_phase_shift=0.0):
        return cls(ConstantWaveform(detuning.duration, amplitude), detuning, phase)

    @classmethod
    def ConstantPulse(cls, duration, amplitude, detuning, phase, post_phase_shift=0.0):
        return cls(ConstantWaveform(duration, amplitude), ConstantWaveform(duration, detuning), phase)


class Sequence:
    def __init__(self, register, device):
        self.register = register
        self.device = device
        self.calls = []
        self.kinds = {}
        self.targets = {}
        self.declared_variables = {}
        self.measured = False

    def declare_channel(self, name, channel_id, initial_target=None):
        self.kinds[name] = channel_id
        self.targets[name] = (initial_target,)

    def declare_variable(self, name, size=None, dtype=float):
        return _generic(name)

    def target(self, qubits, channel):
        self.targets[channel] = (qubits,) if isinstance(qubits, int) else tuple(qubits)

    def add(self, pulse, channel, protocol="min-delay"):
        self.calls.append((self.kinds[channel], self.targets[channel], pulse, protocol))

    def get_duration(self):
        return sum([c[2].duration for c in self.calls if c[3] != "no-delay"])

    def is_parametrized(self):
        return len(self.declared_variables) > 0

    def measure(self, basis="ground-rydberg"):
        self.measured = True

    def build(self, **kw):
        return self


class SimConfig:
    def __init__(self, **kw):
        self.options = kw


class QutipEmulator:
    def __init__(self, sequence, config):
        self.sequence = sequence
        self.config = config
        self.initial = None

    @classmethod
    def from_sequence(cls, sequence, sampling_rate=1.0, config=None, evaluation_times="Full", with_modulation=False):
        return cls(sequence, config)

    def set_initial_state(self, state):
        self.initial = state

    def run(self, **kw):
        return _result(self)
