"""C40 logic analyzer front end: from the bytes of the device to named probe values, timestamps and a waveform file"""
import contextlib, io, os, sys, tempfile, types
from amaranth import Signal
from amaranth.hdl.ast import signed
from vf.runner import PyUnit
from vf import pysym

TRUSTED = ["the serial port (pyserial is not installed): a stand-in that returns the bytes the device has sent", "pyvcd writes what it is told to write (its output is read back)"]


def mods():
    from amlib.utils.bits import bits
    from amlib.debug.ila import ILAFrontend
    return [sys.modules[bits.__module__], sys.modules[ILAFrontend.__module__]]


def probes(widths):
    return [Signal(signed(-w) if w < 0 else w, name=f"probe_{i}") for i, w in enumerate(widths)]


def serial_port(raw):
    class Serial:
        def __init__(self, *args, **kwargs):
            self.args, self.data = (args, kwargs), b"stale"

        def reset_input_buffer(self):
            self.data = raw

        def read(self, n=1):
            r, self.data = self.data[:n], self.data[n:]
            return r
    m = types.ModuleType("serial")
    m.Serial = Serial
    return m


@contextlib.contextmanager
def standin(raw):
    old = sys.modules.get("serial")
    sys.modules["serial"] = serial_port(raw)
    try:
        yield
    finally:
        del sys.modules["serial"]
        if old is not None:
            sys.modules["serial"] = old


def widths_of(cfg):
    return [abs(w) for w in cfg["widths"]]


def parameters(cfg):
    """the analyzer, or its parameters after a trip through a file"""
    from amlib.debug.ila import AsyncSerialILA, ILACoreParameters
    ila = AsyncSerialILA(signals=probes(cfg["widths"]), sample_depth=cfg["depth"], divisor=10, sample_rate=cfg["rate"])
    core = ila.ila if not hasattr(ila, "bits_per_sample") else ila
    if cfg.get("pickled"):
        with tempfile.TemporaryDirectory() as d:
            ILACoreParameters(core).pickle(os.path.join(d, "ila.P"))
            return ILACoreParameters.unpickle(os.path.join(d, "ila.P"))
    return core


def read_vcd(text):
    """{name: [(time, value)]}, in the order of the file"""
    ids, out, t = {}, {}, 0
    for l in text.splitlines():
        w = l.split()
        if l.startswith("$var"):
            ids[w[3]] = w[4]
            out[w[4]] = []
        elif l.startswith("#"):
            t = int(l[1:])
        elif l.startswith("b"):
            out[ids[w[1]]].append((t, int(w[0][1:], 2) if set(w[0][1:]) <= set("01") else None))
        elif l and l[0] in "01xz" and l[1:] in ids:
            out[ids[l[1:]]].append((t, int(l[0]) if l[0] in "01" else None))
    return out


def contracts(cfg):
    from amlib.debug.ila import AsyncSerialILAFrontend, ILAFrontend
    from amlib.utils.bits import bits
    widths, depth, period = widths_of(cfg), cfg["depth"], 1 / cfg["rate"]
    total = sum(widths)
    names = [f"probe_{i}" for i in range(len(widths))]

    class Plain(ILAFrontend):
        raw = ()

        def _read_samples(self):
            return self.raw

    def parse(v):
        f = Plain(parameters(cfg))
        vals = [[v.int(w) for w in widths] for _ in range(2)]
        raw = []
        for s in vals:
            word, at = 0, 0
            for x, w in zip(s, widths):
                word, at = word | (x << at), at + w
            raw.append(bits.from_int(word, total))
        f.raw = raw
        f.refresh()
        yield "one_entry_per_sample", len(f.samples) == 2
        for got, want in zip(f.samples, vals):
            yield "all_probes_by_name", list(got) == names
            for n, x, w in zip(names, want, widths):
                yield "width_of_the_probe", len(got[n]) == w
                yield "value_of_the_probe", got[n].to_int() == x

    def device(v):
        """what the device sends: each sample zero-extended to a power of two of bits and whole bytes, low byte first"""
        vals = [[v.int(w) for w in widths] for _ in range(depth)]
        k = (2 ** (total - 1).bit_length() + 7) // 8
        words = [sum(x << sum(widths[:i]) for i, x in enumerate(s)) for s in vals]
        return vals, (pysym.SBytes if v.symbolic else bytes)((w >> 8 * i) & 255 for w in words for i in range(k))

    def wire(v):
        vals, raw = device(v)
        with standin(raw):
            f = AsyncSerialILAFrontend("port", 115200, ila=parameters(cfg))
        got = list(f.enumerate_samples())
        yield "every_sample_once", len(got) == depth
        for i, (t, s) in enumerate(got):
            yield "time_of_the_sample", abs(t - i * period) < 1e-3 * period
            yield "all_probes_by_name", list(s) == names
            yield "value_of_the_probe", all(s[n].to_int() == x and len(s[n]) == w for n, x, w in zip(names, vals[i], widths))

    def recorded(vals, raw):
        """what the writer of the file is told"""
        import amlib.debug.ila as m
        log = []

        class Writer:
            def __init__(self, file, timescale=None, **kw):
                log.append(("open", timescale))

            def register_var(self, scope, name, var_type, size=None, **kw):
                log.append(("var", scope, name, size))
                return name

            def change(self, var, t, value):
                log.append(("change", var, t, value))

            def close(self, *a):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        real = m.VCDWriter
        with standin(raw), tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            f = AsyncSerialILAFrontend("port", 115200, ila=parameters(cfg))
            m.VCDWriter = Writer
            try:
                f.emit_vcd(os.path.join(d, "t.vcd"), add_clock=False)
            finally:
                m.VCDWriter = real
        if not log or not isinstance(log[0][1], str) or log[0][1].split() != ["1", "ns"]:
            raise pysym.Unsupported("the file is written in another way")
        ns = period * 1e9
        yield "variables_of_the_file", [(x[2], x[3]) for x in log if x[0] == "var"] == list(zip(names, widths))
        times = [x[2] for x in log if x[0] == "change"]
        yield "times_in_order", times == sorted(times)
        for n, i in zip(names, range(len(names))):
            for k in range(depth):
                now = [x[3] for x in log if x[0] == "change" and x[1] == n and x[2] <= k * ns + 0.01]
                yield "waveform_shows_the_sample", bool(now)
                if now:
                    yield "waveform_shows_the_sample", now[-1] == vals[k][i]
        yield "changes_only_at_samples", all(min(abs(t - k * ns) for k in range(depth)) <= 1 for t in times)

    def vcd(v):
        vals, raw = device(v)
        if v.symbolic:
            yield from recorded(vals, raw)
            return
        with standin(raw), tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            f = AsyncSerialILAFrontend("port", 115200, ila=parameters(cfg))
            for clock in (True, False):
                fn, g = os.path.join(d, "t.vcd"), os.path.join(d, "t.gtkw")
                f.emit_vcd(fn, gtkw_filename=g if clock else None, add_clock=clock)
                waves = read_vcd(open(fn).read())
                yield "variables_of_the_file", list(waves) == (["ila_clock"] if clock else []) + names
                ns = period * 1e9
                for n, i in zip(names, range(len(names))):
                    # the waveform after the changes at the time of each sample
                    for k in range(depth):
                        now = [x for t, x in waves[n] if t <= k * ns + 0.01]
                        yield "waveform_shows_the_sample", bool(now) and now[-1] == vals[k][i]
                    yield "changes_only_at_samples", all(min(abs(t - k * ns) for k in range(depth)) <= 1 for t, _ in waves[n])
                if clock:
                    edges = [x for x in waves["ila_clock"] if x[1] is not None]
                    edges = [b for a, b in zip([(None, None)] + edges, edges) if a[1] != b[1]][1:]
                    yield "clock_has_two_edges_per_sample", len(edges) >= 2 * (depth - 1) - 2 and all(abs(b[0] - a[0] - ns / 2) <= 1 for a, b in zip(edges, edges[1:]))
                    yield "rises_at_each_sample", all(min(abs(t - k * ns) for k in range(depth + 1)) <= 1 for t, x in edges if x == 1)
                    text = open(g).read()
                    yield "save_file_names_the_dump_and_the_probes", fn in text and [l for l in text.splitlines() if l.startswith("ila.probe")] == ["ila." + n for n in names]
    return [x for x in [(f"parse[{cfg['widths']}]", parse, {}), (f"serial[{cfg['widths']}]", wire, {}), (f"waveform[{cfg['widths']}]", vcd, {}),
            (f"waveform file[{cfg['widths']}]", vcd, dict(only_concrete=True, samples=120))] if (x[0].split("[")[0] == "waveform file") == bool(cfg.get("file"))]


G = "amlib.debug.ila."
CFG = [dict(widths=(3, 1), depth=4, rate=10e6), dict(widths=(1, 8, -5), depth=3, rate=60e6), dict(widths=(7, 33), depth=5, rate=1e6, pickled=True), dict(widths=(16,), depth=4, rate=25e6, pickled=True),
       dict(widths=(1, 1, 1, 1, 1, 1, 1, 1, 1), depth=9, rate=50e6), dict(widths=(32, 24, 1, -8), depth=6, rate=125e6)]
UNITS = [PyUnit("ILAFrontend", pysym.unit(contracts, mods), CFG,
                [G + x for x in ("ILAFrontend._parse_sample", "ILAFrontend._parse_samples", "ILAFrontend.refresh", "ILAFrontend.enumerate_samples", "ILAFrontend.emit_vcd",
                                 "AsyncSerialILAFrontend._split_samples", "AsyncSerialILAFrontend._read_samples", "ILACoreParameters.pickle", "ILACoreParameters.unpickle")]),
         PyUnit("waveform files", pysym.unit(contracts, mods), [dict(x, file=True) for x in CFG], [G + "ILAFrontend.emit_vcd", G + "ILAFrontend._emit_gtkw"])]
