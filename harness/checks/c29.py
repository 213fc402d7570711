"""C29: device, dtype and logging settings resolve predictably."""

import contextlib
import io
import logging
import sys
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Check, Law, expect_raises, require, sut
from ..simlib import config

DTYPES = {"f16": torch.float16, "bf16": torch.bfloat16, "f32": torch.float32, "f64": torch.float64, "i32": torch.int32, "i64": torch.int64, "c64": torch.complex64, "bool": torch.bool}


@contextlib.contextmanager
def available(cuda, mps):
    """Simulate which accelerators are available."""
    old = torch.cuda.is_available, torch.backends.mps.is_available
    torch.cuda.is_available, torch.backends.mps.is_available = (lambda: cuda), (lambda: mps)
    try:
        yield
    finally:
        torch.cuda.is_available, torch.backends.mps.is_available = old


def recorded(fn, *a, **k):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        out = sut(fn, *a, **k)
    return out, [w for w in seen if issubclass(w.category, RuntimeWarning)]


# ---------------------------------------------------------------- devices

NAMES = ["auto", "auto", "cpu", "cuda", "cuda:0", "cuda:1", "cuda:7", "mps", "mps:0", "cpu:0", "meta"]
PREFER = ["cuda", "mps", "cpu", "xpu"]


def spell(draw, name):
    how = draw(st.sampled_from(["plain", "plain", "upper", "title"]))
    return {"plain": name, "upper": name.upper(), "title": name.capitalize()}[how]


@st.composite
def device_cases(draw):
    kind = draw(st.sampled_from(["name", "name", "name", "none", "object", "bad"]))
    case = {"kind": kind, "cuda": draw(st.booleans()), "mps": draw(st.booleans()), "prefer": draw(st.one_of(st.none(), st.lists(st.sampled_from(PREFER), max_size=4, unique=True)))}
    if kind == "name":
        case["device"] = spell(draw, draw(st.sampled_from(NAMES)))
    elif kind == "object":
        case["device"] = draw(st.sampled_from(["cpu", "cuda", "cuda:2", "mps", "meta", "cpu:0"]))
    elif kind == "bad":
        case["device"] = draw(st.sampled_from(["gpu", "", "tpux", "cpu!", "best", "auto ", "none"]))
    return case


def reference_device(name, cuda, mps, prefer):
    """(expected device, expects a warning) for a device name."""
    n = name.lower()
    if n == "auto":
        for b in prefer:
            if (b == "cuda" and cuda) or (b == "mps" and mps) or b == "cpu":
                return torch.device(b), False
        return torch.device("cpu"), False
    backend = n.split(":")[0]
    if backend in ("cuda", "mps") and not (cuda if backend == "cuda" else mps):
        return torch.device("cpu"), True
    return torch.device(n), False


def run_device(case, ctx):
    from torchrir.util import DeviceSpec, as_tensor, resolve_device

    kw = {} if case["prefer"] is None else {"prefer": tuple(case["prefer"])}
    prefer = case["prefer"] if case["prefer"] is not None else ["cuda", "mps", "cpu"]
    kind = case["kind"]
    ctx.label(kind, f"cuda {case['cuda']}", f"mps {case['mps']}")
    with available(case["cuda"], case["mps"]):
        if kind == "bad":
            expect_raises((RuntimeError, ValueError), resolve_device, case["device"], what=f"device {case['device']!r}", **kw)
            expect_raises((RuntimeError, ValueError), as_tensor, [1.0], device=case["device"], what=f"device {case['device']!r}")
            return
        arg = None if kind == "none" else torch.device(case["device"]) if kind == "object" else case["device"]
        want, warn = reference_device(arg, case["cuda"], case["mps"], prefer) if kind == "name" else (arg or torch.device("cpu"), False)
        what = f"device {arg!r}, prefer {case['prefer']}, cuda {case['cuda']}, mps {case['mps']}"
        for label, fn in (("resolve_device", lambda: resolve_device(arg, **kw)), ("DeviceSpec", lambda: DeviceSpec(device=arg, **kw).resolve()[0]), ("DeviceSpec without tensors", lambda: DeviceSpec(arg, None, *kw.values()).resolve(3, None, "cuda")[0])):
            got, seen = recorded(fn)
            require(isinstance(got, torch.device), f"{label}: {what}: returned {got!r}")
            require(got == want, f"{label}: {what}: resolved to {got}, expected {want}")
            require(bool(seen) == warn, f"{label}: {what}: {len(seen)} fallback warnings, expected {'some' if warn else 'none'}")
        if warn:
            t, seen = recorded(as_tensor, [1.0, 2.0], device=arg)
            require(t.device == torch.device("cpu") and seen, f"as_tensor: {what}: on {t.device}, {len(seen)} warnings")
            ctx.label("falls back")
        if kind == "name" and arg.lower() == "auto":
            ctx.label(f"auto -> {want}")


# ---------------------------------------------------------------- inference


@st.composite
def value_lists(draw):
    n = draw(st.integers(0, 4))
    return [draw(st.one_of(
        st.sampled_from(["none", "number", "list", "array", "text", "dtype"]).map(lambda k: {"kind": k}),
        st.builds(lambda d, dev, s: {"kind": "tensor", "dtype": d, "device": dev, "shape": s}, st.sampled_from(sorted(DTYPES)), st.sampled_from(["cpu", "cpu", "meta", "meta:0", "meta:1"]), st.sampled_from([[], [3], [0], [2, 2]])))) for _ in range(n)]


@st.composite
def infer_cases(draw):
    return {"values": draw(value_lists()), "device": draw(st.sampled_from([None, None, "auto", "AUTO", "cpu", "cuda", "mps:0", "meta", "meta:1", "object cpu", "object meta", "object meta:0", "object meta:1", "object cuda:1"])),
            "dtype": draw(st.sampled_from([None, None] + sorted(DTYPES))), "cuda": draw(st.booleans()), "mps": draw(st.booleans()), "prefer": draw(st.one_of(st.none(), st.lists(st.sampled_from(PREFER), max_size=3, unique=True))),
            "value": draw(value_lists())}


def value_of(v):
    if v["kind"] == "tensor":
        return torch.ones(v["shape"], dtype=DTYPES[v["dtype"]], device=v["device"])
    return {"none": None, "number": 2.5, "list": [1.0, 2.0], "array": np.ones(3), "text": "cuda", "dtype": torch.float16}[v["kind"]]


def run_infer(case, ctx):
    from torchrir.util import DeviceSpec, as_tensor, infer_device_dtype

    values = [value_of(v) for v in case["values"]]
    dev = case["device"]
    arg = torch.device(dev[7:]) if dev and dev.startswith("object ") else dev
    dtype = None if case["dtype"] is None else DTYPES[case["dtype"]]
    first = next((v for v in values if torch.is_tensor(v)), None)
    prefer = case["prefer"] if case["prefer"] is not None else ["cuda", "mps", "cpu"]
    warn = False
    if arg is None or (isinstance(arg, str) and arg.lower() == "auto"):
        want = first.device if first is not None else torch.device("cpu") if arg is None else reference_device("auto", case["cuda"], case["mps"], prefer)[0]
    elif isinstance(arg, torch.device):
        want = arg
    else:
        want, warn = reference_device(arg, case["cuda"], case["mps"], prefer)
    want_dtype = dtype if dtype is not None else first.dtype if first is not None else torch.float32
    what = f"device {arg!r}, dtype {dtype}, values {[v['kind'] for v in case['values']]}"
    kw = {} if case["prefer"] is None else {"prefer": tuple(case["prefer"])}
    with available(case["cuda"], case["mps"]):
        spec = sut(DeviceSpec, device=arg, dtype=dtype, **kw)
        for _ in range(2):
            got, seen = recorded(spec.resolve, *values)
            require(tuple(got) == (want, want_dtype), f"DeviceSpec.resolve: {what}: {got}, expected {(want, want_dtype)}")
            require(bool(seen) == warn, f"DeviceSpec.resolve: {what}: {len(seen)} warnings")
        if case["prefer"] is None:
            got, seen = recorded(infer_device_dtype, *values, device=arg, dtype=dtype)
            require(tuple(got) == (want, want_dtype), f"infer_device_dtype: {what}: {got}, expected {(want, want_dtype)}")
        ctx.label("from tensor" if first is not None else "no tensor", f"device {dev}", "dtype given" if dtype is not None else "dtype inferred")
        ctx.trivial(not values)
        # as_tensor: given settings win, the tensor's own stay otherwise; never changes the argument
        if want.type not in ("cpu", "meta"):
            return
        for v in values:
            if not torch.is_tensor(v):
                continue
            if v.device.type == "meta" and want.type == "cpu" and arg is not None:
                continue  # meta tensors hold no data to copy
            if isinstance(arg, str) and arg.lower() == "auto":
                continue
            before = (v.device, v.dtype)
            got, _ = recorded(as_tensor, v, device=arg, dtype=dtype)
            dev_want = v.device if arg is None else want
            dev_want = torch.device("meta") if dev_want.type == "meta" else dev_want  # torch drops the index
            require((got.device, got.dtype, got.shape) == (dev_want, dtype or v.dtype, v.shape), f"as_tensor: {what}: {got.device}, {got.dtype}, {tuple(got.shape)}")
            require((v.device, v.dtype) == before, "as_tensor changed its argument")
            if got.device.type == "cpu":
                require(bool((got.to(torch.complex64) == v.to(torch.complex64)).all()), "as_tensor changed the values")


# ---------------------------------------------------------------- results keep them


@st.composite
def result_cases(draw):
    what = draw(st.sampled_from(["static", "static", "dynamic", "simulator", "containers", "arrays", "acoustics", "orientation"]))
    f = st.sampled_from(["f32", "f64"])
    return {"what": what, "src": draw(f), "mic": draw(f), "room": draw(f), "dtype": draw(st.one_of(st.none(), f)),
            "device": draw(st.sampled_from([None, None, "cpu", "auto", "cuda", "mps", "object"])), "config": draw(st.sampled_from([None, None, "cpu", "cuda", "auto"])),
            "dim": draw(st.sampled_from([2, 3])), "order": draw(st.integers(0, 2)), "directional": draw(st.booleans()), "tensors": draw(st.booleans()), "pos": [draw(st.integers(5, 25)) / 10 for _ in range(6)], "array": draw(st.integers(0, 11))}


def run_result(case, ctx):
    import torchrir
    from torchrir import MicrophoneArray, Room, Source
    from torchrir import geometry, util
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    dim, what = case["dim"], case["what"]
    dtype = None if case["dtype"] is None else DTYPES[case["dtype"]]
    dev = torch.device("cpu") if case["device"] == "object" else case["device"]
    p = [[case["pos"][i * 3 + k] for k in range(dim)] for i in range(2)]
    if p[0] == p[1]:
        p[1][0] += 0.35
    room = sut(Room.shoebox, size=torch.tensor([3.0, 4.0, 3.5][:dim], dtype=DTYPES[case["room"]]), fs=8000, beta=[0.7] * (2 * dim))
    src_t, mic_t = torch.tensor([p[0]], dtype=DTYPES[case["src"]]), torch.tensor([p[1]], dtype=DTYPES[case["mic"]])
    want = dtype or DTYPES[case["src"]]
    ctx.label(what, f"device {case['device']}", f"{case['src']}/{case['mic']}/{case['room']} dtype {case['dtype']}")
    unavailable = case["device"] in ("cuda", "mps")

    def ok(t, w=want, name=what):
        require(torch.is_tensor(t), f"{name}: returned {type(t)}")
        require((t.device, t.dtype) == (torch.device("cpu"), w), f"{name}: {t.dtype} on {t.device}, expected {w} on cpu ({case})")

    with available(False, False):
        if what in ("static", "dynamic", "simulator"):
            kw = dict(max_order=case["order"], nsample=96)
            if what != "simulator":
                kw.update(device=dev, dtype=dtype)
            cfg = config(device=case["config"])
            ori = [1.0, 0.0, 0.0][:dim]
            d = "cardioid" if case["directional"] else "omni"

            def simulate(st_, mt, r, kw, cfg):
                s = Source(st_, torch.tensor([ori], dtype=st_.dtype)) if case["directional"] else Source(st_)
                m = MicrophoneArray(mt, torch.tensor([ori], dtype=mt.dtype)) if case["directional"] else MicrophoneArray(mt)
                if what == "static":
                    if case["tensors"] and not case["directional"]:
                        return simulate_rir(room=r, sources=st_, mics=mt, directivity=d, config=cfg, **kw)
                    return simulate_rir(room=r, sources=s, mics=m, directivity=d, config=cfg, **kw)
                if what == "dynamic":
                    o = (s.orientation, m.orientation) if case["directional"] else None
                    return simulate_dynamic_rir(room=r, src_traj=st_[None].repeat(2, 1, 1), mic_traj=mt[None].repeat(2, 1, 1), directivity=d, orientation=o, config=cfg, **kw)
                sim = ISMSimulator(directivity=d, device=dev, dtype=dtype, **kw)
                return sim.simulate(torchrir.StaticScene(room=r, sources=s, mics=m), cfg).rirs

            out, seen = recorded(simulate, src_t, mic_t, room, kw, cfg)
            ok(out)
            falls = unavailable or (case["device"] is None and case["config"] == "cuda")
            require(bool(seen) == falls, f"{what}: device {dev}, configured {case['config']}: {len(seen)} fallback warnings")
            # the same simulation with every input already in the working dtype
            room2 = Room(size=room.size.to(want), fs=8000, c=343.0, beta=room.beta.to(want))
            ref = sut(simulate, src_t.to(want), mic_t.to(want), room2, {k: v for k, v in kw.items() if k not in ("device", "dtype")}, config())
            ok(ref)
            gap = float((ref - out).abs().max())
            lim = 2e-3 if torch.float32 in (want, DTYPES[case["room"]], DTYPES[case["mic"]], DTYPES[case["src"]]) else 1e-9
            require(gap <= lim * max(1.0, float(ref.abs().max())), f"{what}: differs by {gap} from the same simulation in {want}")
            if want == torch.float64 and case["src"] == case["mic"] == case["room"] == "f64" and case["order"] == 0:
                ctx.label("double precision throughout")
        elif what == "containers":
            raw = p[0] if case["tensors"] else src_t[0]
            base = torch.float32 if case["tensors"] else DTYPES[case["src"]]
            for cls in (Source, MicrophoneArray):
                e, seen = recorded(cls.from_positions, [raw] if case["tensors"] else raw, orientation=[1.0, 0.0, 0.0][:dim] if case["tensors"] else torch.tensor([1.0, 0.0, 0.0][:dim], dtype=base), device=dev, dtype=dtype)
                ok(e.positions, dtype or base)
                ok(e.orientation, dtype or base)
                require(bool(seen) == unavailable, f"{cls.__name__}: {len(seen)} fallback warnings on {dev}")
            r, _ = recorded(Room.shoebox, size=[3.0, 4.0, 3.5][:dim] if case["tensors"] else torch.tensor([3.0, 4.0, 3.5][:dim], dtype=base), fs=8000, beta=[0.5] * (2 * dim), device=dev, dtype=dtype)
            ok(r.size, dtype or base)
            ok(r.beta, dtype or base, "room.beta")
        elif what == "arrays":
            base = torch.float32 if case["tensors"] else DTYPES[case["src"]]
            c = p[0] if case["tensors"] else src_t[0]
            calls = [lambda: geometry.binaural_array(c, device=dev, dtype=dtype), lambda: geometry.linear_array(c, num=3, spacing=0.1, device=dev, dtype=dtype), lambda: geometry.circular_array(c, num=4, radius=0.2, device=dev, dtype=dtype)]
            if dim == 3:
                calls += [lambda: geometry.polyhedron_array(c, radius=0.2, device=dev, dtype=dtype), lambda: geometry.eigenmike_em32(c, device=dev, dtype=dtype), lambda: geometry.eigenmike_em64(c, device=dev, dtype=dtype)]
            t, seen = recorded(calls[case["array"] % len(calls)])
            ok(t if torch.is_tensor(t) else t.positions, dtype or base)
            require(bool(seen) == unavailable, f"array: {len(seen)} fallback warnings on {dev}")
        elif what == "acoustics":
            size = [3.0, 4.0, 3.5][:dim]
            base = torch.float32 if case["tensors"] else DTYPES[case["src"]]
            b, seen = recorded(util.estimate_beta_from_t60, size if case["tensors"] else torch.tensor(size, dtype=base), 0.3, device=dev, dtype=dtype)
            ok(b, dtype or base)
            require(bool(seen) == unavailable, f"estimate_beta_from_t60: {len(seen)} fallback warnings on {dev}")
        else:
            for t in (src_t, mic_t):
                ok(sut(util.orientation_to_unit, t, dim), t.dtype)
                ok(sut(util.normalize_orientation, t), t.dtype)
                if dim == 3:
                    ok(sut(util.orientation_to_unit, t[..., :2], 3), t.dtype)
                ok(sut(util.extend_size, t[0], 3), t.dtype)


# ---------------------------------------------------------------- logging

LEVELS = ["DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "FATAL", "NOTSET"]
VALUE = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50, "NOTSET": 0}
FORMATS = ["%(levelname)s:%(name)s:%(message)s", "%(message)s", "[%(asctime)s] %(message)s", "%(name)s|%(levelno)d|%(message)s"]
BADLEVELS = ["LOUD", "", "INFO ", "20", "warn!", "None"]
TARGETS = ["torchrir", "torchrir.app", "torchrir.app.sub", "other", "torchrirx"]


@st.composite
def level(draw):
    if draw(st.booleans()):
        n = draw(st.sampled_from(LEVELS))
        return draw(st.sampled_from([n, n.lower(), n.capitalize()]))
    return draw(st.sampled_from([0, 1, 5, 10, 15, 20, 25, 30, 40, 50, 60]))


@st.composite
def op(draw):
    kind = draw(st.sampled_from(["setup"] * 5 + ["log"] * 6 + ["user", "bad", "clear"]))
    o = {"op": kind, "name": draw(st.sampled_from(["torchrir", "torchrir", "torchrir"] + TARGETS))}
    if kind == "setup":
        o.update(level=draw(level()), propagate=draw(st.booleans()), format=draw(st.integers(0, len(FORMATS) - 1)), datefmt=draw(st.sampled_from(["DAY", "now"])), via=draw(st.sampled_from(["new", "replace"])),
                 default=draw(st.sampled_from([False, False, False, True])), count=draw(st.sampled_from([1, 1, 2, 3])))
    elif kind == "log":
        o.update(levelno=draw(st.sampled_from([5, 10, 15, 20, 30, 40, 50])), logger=draw(st.sampled_from(["", "app", "app.sub", "torchrir", "torchrir.app", "torchrirx", "deep.er.one", "=other", "=other.kid"])), args=draw(st.booleans()))
    elif kind == "bad":
        o.update(level=draw(st.one_of(st.sampled_from(BADLEVELS), st.sampled_from([[], None, 1.5]))))
    elif kind == "user":
        o.update(level=draw(st.sampled_from([0, 30])))
    return o


@st.composite
def log_cases(draw):
    n = draw(st.integers(3, 12))
    return {"ops": [draw(op()) for _ in range(n)], "root": draw(st.sampled_from([10, 30]))}


class Sink(logging.Handler):
    def __init__(self, tag, out, lvl=0):
        super().__init__(lvl)
        self.tag, self.out = tag, out

    def emit(self, record):
        self.out.append((self.tag, record.getMessage()))


@contextlib.contextmanager
def fresh_logging(root_level):
    """No loggers of the library (or of this check) exist, the root logger has one recording handler."""
    manager = logging.Logger.manager
    mine = lambda k: k.split(".")[0] in ("torchrir", "other", "torchrirx")  # noqa: E731
    saved = {k: v for k, v in manager.loggerDict.items() if mine(k)}
    root = logging.getLogger()
    handlers, old_level, err, disable = root.handlers[:], root.level, sys.stderr, manager.disable
    for k in saved:
        del manager.loggerDict[k]
    records, stream = [], io.StringIO()
    last, logging.lastResort = logging.lastResort, logging.NullHandler()
    root.handlers[:] = [Sink("root", records)]
    root.setLevel(root_level)
    logging.disable(0)
    sys.stderr = stream
    try:
        yield records, stream
    finally:
        sys.stderr, logging.lastResort = err, last
        root.handlers[:] = handlers
        root.setLevel(old_level)
        manager.disable = disable
        for k in [k for k in manager.loggerDict if mine(k)]:
            del manager.loggerDict[k]
        manager.loggerDict.update(saved)
        manager._clear_cache()


def chain(name):
    while name:
        yield name
        name = name.rpartition(".")[0]


def run_logging(case, ctx):
    from torchrir.logging import LoggingConfig, get_logger, setup_logging

    model = {}  # logger name -> level, propagate, own (level, format, datefmt), users [(tag, level)]

    def state(n):
        return model.setdefault(n, {"level": 0, "propagate": True, "own": None, "users": []})

    shared = None
    with fresh_logging(case["root"]) as (records, stream):
        for i, o in enumerate(case["ops"]):
            what = f"step {i} ({o})"
            if o["op"] == "setup":
                s = state(o["name"])
                if o["default"]:
                    cfg = sut(LoggingConfig)
                    lv, prop, fmt, datefmt = 20, False, FORMATS[0], None
                else:
                    lv = o["level"] if isinstance(o["level"], int) else VALUE[o["level"].upper()]
                    prop, fmt, datefmt = o["propagate"], FORMATS[o["format"]], o["datefmt"]
                    kw = dict(level=o["level"], propagate=prop, format=fmt, datefmt=datefmt)
                    if o["via"] == "replace":
                        base = shared or sut(LoggingConfig)
                        before = (base.level, base.format, base.datefmt, base.propagate)
                        cfg = sut(base.replace, **kw)
                        require((base.level, base.format, base.datefmt, base.propagate) == before, f"{what}: replace changed the original")
                        require(isinstance(cfg, LoggingConfig), f"{what}: replace returned {type(cfg)}")
                    else:
                        cfg = sut(LoggingConfig, **kw)
                require(sut(cfg.resolve_level) == lv, f"{what}: resolve_level gives {cfg.resolve_level()}, expected {lv}")
                shared = cfg
                for _ in range(o["count"]):
                    got = sut(setup_logging, cfg) if o["name"] == "torchrir" and i % 2 else sut(setup_logging, cfg, name=o["name"])
                require(got is logging.getLogger(o["name"]), f"{what}: returned logger {got!r}")
                require(got.level == lv and got.propagate == prop, f"{what}: level {got.level}, propagate {got.propagate}")
                s.update(level=lv, propagate=prop)
                if s["own"] is not None or not s["users"]:
                    s["own"] = (lv, fmt, datefmt)
                require(len(got.handlers) == len(s["users"]) + (s["own"] is not None), f"{what}: {len(got.handlers)} handlers, {len(s['users'])} of them the user's")
                ctx.label("setup", "repeated" if o["count"] > 1 else "once")
            elif o["op"] == "bad":
                target = logging.getLogger(o["name"])
                before = (target.level, target.propagate, list(target.handlers))
                cfg = LoggingConfig(level=o["level"], propagate=True)
                kinds = ValueError if isinstance(o["level"], str) else (TypeError, ValueError)
                expect_raises(kinds, cfg.resolve_level, what=f"{what}: level {o['level']!r}")
                expect_raises(kinds, setup_logging, cfg, name=o["name"], what=f"{what}: level {o['level']!r}")
                require((target.level, target.propagate, list(target.handlers)) == before, f"{what}: a rejected configuration changed the logger")
                ctx.label("rejected")
            elif o["op"] == "user":
                s = state(o["name"])
                tag = f"user{i}"
                logging.getLogger(o["name"]).addHandler(Sink(tag, records, o["level"]))
                s["users"].append((tag, o["level"]))
            elif o["op"] == "clear":
                s = state(o["name"])
                lg = logging.getLogger(o["name"])
                for h in list(lg.handlers):
                    lg.removeHandler(h)
                s.update(own=None, users=[])
            else:
                raw = o["logger"]
                lg = logging.getLogger(raw[1:]) if raw.startswith("=") else sut(get_logger, raw or None)
                name = raw[1:] if raw.startswith("=") else "torchrir" if raw in ("", "torchrir") else raw if raw.startswith("torchrir.") else "torchrir." + raw
                require(lg.name == name, f"{what}: get_logger({raw!r}) is {lg.name}")
                text = f"message {i}"
                del records[:]
                stream.seek(0)
                stream.truncate()
                lg.log(o["levelno"], "message %d", i) if o["args"] else lg.log(o["levelno"], text)
                effective = next((model[n]["level"] for n in chain(name) if n in model and model[n]["level"]), case["root"])
                lines, sinks, at_root = [], [], True
                if o["levelno"] >= effective:
                    for n in chain(name):
                        s = model.get(n)
                        if s is None:
                            continue
                        if s["own"] is not None and o["levelno"] >= s["own"][0]:
                            _, fmt, datefmt = s["own"]
                            rec = {"levelname": logging.getLevelName(o["levelno"]), "name": name, "message": text, "levelno": o["levelno"], "asctime": datefmt}
                            lines.append(fmt % rec)
                        sinks += [(t, text) for t, l in s["users"] if o["levelno"] >= l]
                        if not s["propagate"]:
                            at_root = False
                            break
                    if at_root:
                        sinks.append(("root", text))
                got_lines = stream.getvalue().splitlines()
                require(got_lines == lines, f"{what}: printed {got_lines}, expected {lines}")
                require(sorted(records) == sorted(sinks), f"{what}: handlers received {records}, expected {sinks}")
                ctx.label("shown" if lines else "not shown", "reached the root" if ("root", text) in sinks else "stopped")
    kinds = [o["op"] for o in case["ops"]]
    ctx.trivial("setup" not in kinds or "log" not in kinds[kinds.index("setup"):])


LEAD = ["", "torchrir", "torchrir.", "torchrirx", "Torchrir.", ".", "torchrir_", " torchrir."]
TAIL = st.one_of(st.sampled_from(["", "a", "torchrir", "examples.cli", "a.b.c", "日本", "-", ".x", "a..b", "root", "__main__"]), st.text(st.characters(codec="utf-8", exclude_categories=("Cs",)), max_size=8))


@st.composite
def name_cases(draw):
    return {"names": [draw(st.sampled_from(LEAD)) + draw(TAIL) for _ in range(draw(st.integers(1, 4)))], "none": draw(st.booleans())}


def run_names(case, ctx):
    from torchrir.logging import get_logger

    with fresh_logging(30):
        seen = {}
        for n in ([None] if case["none"] else []) + case["names"]:
            lg = sut(get_logger, n)
            want = "torchrir" if not n else n if n == "torchrir" or n.startswith("torchrir.") else f"torchrir.{n}"
            require(lg.name == want, f"get_logger({n!r}) is named {lg.name!r}, expected {want!r}")
            require(lg is logging.getLogger(want), f"get_logger({n!r}) is not the logger of that name")
            parent = lg if ".." not in want else None  # logging itself loses the parent of such names
            while parent is not None and parent.name != "torchrir":
                parent = parent.parent
            require(parent is not None or ".." in want or not isinstance(logging.Logger.manager.loggerDict.get("torchrir"), logging.Logger),
                    f"get_logger({n!r}) does not sit below the torchrir logger")
            require(not lg.handlers and lg.level == 0 and lg.propagate, f"get_logger({n!r}) configured the logger")
            require(seen.setdefault(want, lg) is lg, f"get_logger({n!r}) returned a different logger the second time")
            ctx.label("namespaced already" if want == n else "prefixed")


CHECK = Check(
    "C29",
    [
        Law("devices", device_cases, run_device, quick=2400, thorough=120000, rule="device spellings, preference orders and simulated accelerator availability"),
        Law("infer", infer_cases, run_infer, quick=2400, thorough=120000, rule="explicit settings against lists of tensors of several dtypes and devices and other values"),
        Law("results", result_cases, run_result, quick=960, thorough=32000, rule="constructors and simulations with mixed dtypes, explicit and configured devices"),
        Law("logging", log_cases, run_logging, quick=2400, thorough=120000, rule="histories of configurations, rejected configurations, handlers of the user and records, against a model of the logger tree"),
        Law("names", name_cases, run_names, quick=1200, thorough=40000, rule="logger names"),
    ],
    rule="inference: some value given; logging: a record is logged after a configuration",
    assumptions=["torch.device objects are kept as given", "accelerator availability is simulated by replacing torch's availability queries"],
)
