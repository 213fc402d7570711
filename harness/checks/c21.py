"""C21: source assembly and batching neither lose, invent nor reorder audio."""

from pathlib import Path
import random

from hypothesis import strategies as st
import numpy as np
import torch

from .. import corpora, gens
from ..core import ROOTS, Check, Law, expect_raises, require, sut


class Sentence:
    def __init__(self, uid, text="t"):
        self.utterance_id, self.text = uid, text


def stub(spec, calls=None):
    """Dataset factory over in-memory utterances: {speaker: [[id, length, rate], ...]}."""
    from torchrir.datasets import BaseDataset

    class Stub(BaseDataset):
        def __init__(self, speaker):
            self.speaker = speaker

        def list_speakers(self):
            return [s["name"] for s in spec["speakers"]]

        def available_sentences(self):
            utts = next(s["utts"] for s in spec["speakers"] if s["name"] == self.speaker)
            out = [Sentence(u[0]) for u in utts]
            return tuple(out) if spec["tuple"] else out

        def load_audio(self, uid):
            if calls is not None:
                calls.append((self.speaker, uid))
                require(len(calls) < 20000, "utterances are loaded without end")
            for s in spec["speakers"]:
                for u in s["utts"]:
                    if u[0] == uid and s["name"] == self.speaker:
                        return wave(spec, s["name"], u), u[2]
            raise KeyError(uid)

    return Stub


def wave(spec, speaker, u):
    g = np.random.default_rng([spec["seed"], sum(map(ord, speaker)), sum(map(ord, u[0])), u[1]])
    return torch.tensor(g.uniform(-1, 1, u[1]), dtype=torch.float32)


@st.composite
def specs(draw, rates=None, min_spk=1, whole=False):
    names = draw(st.lists(st.sampled_from(["bdl", "slt", "aew", "rms", "clb", "103", "84"]), min_size=min_spk, max_size=5, unique=True))
    rate = draw(st.sampled_from([8000, 16000, 100, 44100]))
    if whole and draw(st.integers(0, 19)) == 9:  # a whole corpus of speakers
        g = np.random.default_rng(draw(st.integers(0, 10**6)))
        names = [str(k) for k in range(7, 7 + 13 * draw(st.sampled_from([40, 251])), 13)]
        return dict(speakers=[dict(name=n, utts=[[f"{n}-{i}", int(g.integers(1, 120)), rate] for i in range(int(g.integers(1, 6)))]) for n in names], seed=draw(st.integers(0, 10**6)),
                    tuple=draw(st.booleans()), rate=rate)
    sp = []
    for n in names:
        k = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 7, 8, 14, 20]))
        sp.append(dict(name=n, utts=[[f"{n}-{i}", draw(st.integers(1, 120)), rate] for i in range(k)]))
        if k > 1 and draw(st.integers(0, 9)) == 7:  # recordings without a single sample
            for i in draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=k - 1)):
                sp[-1]["utts"][i][1] = 0
            sp[-1]["utts"][draw(st.integers(0, k - 1))][1] = 30
    return dict(speakers=sp, seed=draw(st.integers(0, 10**6)), tuple=draw(st.booleans()), rate=rate)


@st.composite
def cases(draw):
    spec = draw(specs(whole=True))
    samples = draw(st.integers(1, 900))
    return dict(spec=spec, num=draw(st.integers(1, min(40, len(spec["speakers"])))), frac=draw(st.sampled_from([0.0, 0.0, 0.25, 0.9])), samples=samples, seed=draw(st.integers(0, 10**6)),
                noise=draw(st.integers(0, 50)))


def check_sources(spec, utts_of, audio_of, out, num, duration, rate):
    """The documented relation between signals, info and the utterances."""
    signals, fs, info = out
    require(fs == rate and isinstance(fs, int), f"rate {fs!r}, expected {rate}")
    require(torch.is_tensor(signals) and signals.ndim == 2 and signals.shape[0] == num and len(info) == num, f"{tuple(signals.shape)} signals, {len(info)} entries, {num} requested")
    n = signals.shape[1]
    exact = duration * rate
    require(n <= exact + 1e-6 and n > exact - 1 - 1e-9, f"{n} samples for {duration} s at {rate} Hz")
    who = [s for s, _ in info]
    require(len(set(who)) == num and set(who) <= set(spec), f"speakers {who} of {list(spec)}")
    wrapped = False
    for row, (s, ids) in zip(signals, info):
        avail = utts_of(s)
        require(set(ids) <= set(avail), f"{s}: utterances {ids} not all available")
        for b in range(0, len(ids), len(avail)):
            block = ids[b:b + len(avail)]
            require(len(set(block)) == len(block), f"{s}: an utterance repeats before all {len(avail)} were used: {ids}")
        wrapped |= len(ids) > len(avail)
        cat = np.concatenate([audio_of(s, u) for u in ids])
        require(cat.size >= n and (len(ids) == 1 or cat.size - len(audio_of(s, ids[-1])) < n), f"{s}: {ids} total {cat.size} samples for {n}")
        require(np.array_equal(row.numpy(), cat[:n]), f"{s}: the signal is not the concatenation of {ids}")
    return wrapped


def run(case, ctx):
    from torchrir.datasets import choose_speakers, load_dataset_sources

    spec = case["spec"]
    rate = spec["rate"]
    duration = (case["samples"] + case["frac"]) / rate
    factory = stub(spec)
    utts = {s["name"]: {u[0]: u for u in s["utts"]} for s in spec["speakers"]}
    outs = []
    for i in range(2):
        random.seed(i)  # only the generator passed in matters
        torch.manual_seed(i)
        np.random.seed(i)
        rng = random.Random(case["seed"])
        outs.append(sut(load_dataset_sources, dataset_factory=factory, num_sources=case["num"], duration_s=duration, rng=rng))
        outs[-1] += (rng.getstate(),)
        state = (random.getstate(), torch.get_rng_state())
    random.seed(1)
    require(random.getstate() == state[0], "the global random generator was used")
    wrapped = check_sources(set(utts), lambda s: list(utts[s]), lambda s, u: wave(spec, s, utts[s][u]).numpy(), outs[0][:3], case["num"], duration, rate)
    require(torch.equal(outs[0][0], outs[1][0]) and outs[0][1:] == outs[1][1:], "not determined by the generator passed in")
    ctx.label("every utterance repeats" if wrapped else "no repetition", f"{case['num']} sources")
    ctx.trivial(all(len(u) == 1 for u in utts.values()))
    # speakers alone
    a, b = (sut(choose_speakers, factory(None), case["num"], random.Random(case["seed"])) for _ in range(2))
    require(a == b and len(set(a)) == len(a) == case["num"] and set(a) <= set(utts), f"speakers {a} / {b}")


@st.composite
def long_cases(draw):
    """Utterances and signals of real length: seconds to minutes."""
    names = draw(st.lists(st.sampled_from(["bdl", "slt", "aew", "rms", "clb", "103", "84"]), min_size=1, max_size=5, unique=True))
    rate = draw(st.sampled_from([16000, 8000, 44100]))
    top, count = draw(st.sampled_from([(30000, 40), (300, 1000), (200000, 3), (70000, 1)]))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))
    sp = [dict(name=n, utts=[[f"{n}-{i}", int(g.integers(1, top)), rate] for i in range(count)]) for n in names]
    return dict(spec=dict(speakers=sp, seed=draw(st.integers(0, 10**6)), tuple=draw(st.booleans()), rate=rate), num=draw(st.integers(1, len(names))), frac=draw(st.sampled_from([0.0, 0.25])),
                samples=draw(st.sampled_from([1000001, 70000, 262144, 16777])), seed=draw(st.integers(0, 10**6)), noise=0)


@st.composite
def spread_cases(draw):
    return dict(spec=draw(specs(min_spk=3)), seed=draw(st.integers(0, 10**6)))


def run_spread(case, ctx):
    """The generator matters: over many seeds every speaker and every first utterance comes up."""
    from torchrir.datasets import load_dataset_sources

    spec = case["spec"]
    factory = stub(spec)
    seen, first = set(), {}
    for k in range(120):
        _, _, info = sut(load_dataset_sources, dataset_factory=factory, num_sources=1, duration_s=1.0 / spec["rate"], rng=random.Random(case["seed"] + k))
        seen.add(info[0][0])
        first.setdefault(info[0][0], set()).add(info[0][1][0])
    names = {s["name"] for s in spec["speakers"]}
    require(seen == names, f"speakers never chosen in 120 seeds: {names - seen}")
    ctx.label(f"{len(names)} speakers")


@st.composite
def bad_cases(draw):
    spec = draw(specs())
    return dict(spec=spec, kind=draw(st.sampled_from(["too many", "no speakers", "no sentences", "rates within", "rates across", "no duration", "no samples"])), more=draw(st.integers(1, 3)), seed=draw(st.integers(0, 999)),
                short=draw(st.booleans()), off=draw(st.sampled_from([1, -1, 8000, 100])))


def run_bad(case, ctx):
    from torchrir.datasets import choose_speakers, load_dataset_sources

    spec = case["spec"]
    k = case["kind"]
    num, n_spk = 1, len(spec["speakers"])
    dur = 2000 / spec["rate"]
    errs = ValueError
    ctx.label(k)
    if k == "too many":
        num = n_spk + case["more"]
        expect_raises(ValueError, choose_speakers, stub(spec)(None), num, random.Random(0), what="more sources than speakers")
    elif k == "no speakers":
        spec["speakers"], errs = [], RuntimeError
        expect_raises(RuntimeError, choose_speakers, stub(spec)(None), num, random.Random(0), what="no speakers")
    elif k == "no sentences":
        for s in spec["speakers"]:
            s["utts"] = []
        errs = RuntimeError
    elif k == "no duration":
        num, dur = min(n_spk, case["more"]), [0.0, -1.0, 0.9 / spec["rate"], -3 / spec["rate"]][case["seed"] % 4]
    elif k == "no samples":
        num, errs = n_spk, RuntimeError
        for u in spec["speakers"][case["seed"] % n_spk]["utts"]:
            u[1] = 0
    elif k == "rates within":
        for s in spec["speakers"]:
            s["utts"] = [[f"x-{j}", 50, 8000] for j in range(1 + case["more"] ** 2)]
            s["utts"][case["seed"] % len(s["utts"])][2] = 16000
        dur = 50 * 10 / 8000
    else:
        if n_spk < 2:
            return ctx.trivial()
        num = n_spk
        spec["speakers"][case["seed"] % n_spk]["utts"] = [["x-0", 50, spec["rate"] + case["off"]]]
        if case["short"]:  # one utterance of each speaker is enough
            dur = 1 / spec["rate"]
    expect_raises(errs, load_dataset_sources, dataset_factory=stub(spec, []), num_sources=num, duration_s=dur, rng=random.Random(case["seed"]), what=k)


@st.composite
def real_cases(draw):
    cm = [draw(corpora.cmu(min_utts=1)) for _ in range(draw(st.integers(1, 3)))]
    rate = cm[0]["rate"]
    for c, s in zip(cm, draw(st.permutations(["bdl", "slt", "aew"]))):
        c["speaker"], c["rate"] = s, rate
    li = draw(corpora.libri(min_spk=1))
    return dict(cmu=cm, libri=li, which=draw(st.sampled_from(["cmu", "libri"])), samples=draw(st.integers(1, 900)), seed=draw(st.integers(0, 10**6)), num=draw(st.integers(1, 3)),
                batch=draw(st.integers(1, 4)), pad=draw(st.sampled_from([0.0, -1.0, 2.5])), root=draw(st.sampled_from(ROOTS)))


def run_real(case, ctx):
    """The same relation over corpora on disk, and batches over a data loader."""
    import functools

    from torch.utils.data import DataLoader
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, collate_dataset_items, load_dataset_sources

    root = Path(ctx.scratch(case["root"]))
    table = {}
    if case["which"] == "cmu":
        for c in case["cmu"]:
            corpora.write_cmu(root, c)
            table[c["speaker"]] = {u["id"]: corpora.pcm(c["seed"] + i, u["n"]) for i, u in enumerate(c["utts"])}
        rate = case["cmu"][0]["rate"]
        num = min(case["num"], len(table))
        base = CmuArcticDataset(root, speaker=case["cmu"][0]["speaker"])
        base.list_speakers = lambda: list(table)
        factory = lambda s: base if s is None else CmuArcticDataset(root, speaker=s)
        ds = CmuArcticDataset(root, speaker=case["cmu"][0]["speaker"])
    else:
        c = case["libri"]
        c["empty"] = None
        c["chapters"] = [ch for ch in c["chapters"] if any(u["audio"] for u in ch["utts"])]
        if not c["chapters"]:
            return ctx.trivial()
        corpora.write_libri(root, c)
        k = 0
        for ch in c["chapters"]:
            for u in ch["utts"]:
                if u["audio"]:
                    table.setdefault(ch["speaker"], {})[u["id"]] = corpora.pcm(c["seed"] + k, u["n"])
                k += 1
        rate = c["rate"]
        num = min(case["num"], len(table))
        factory = lambda s: LibriSpeechDataset(root, subset=c["subset"], speaker=s)
        ds = factory(None)
    ctx.label(case["which"])
    dur = case["samples"] / rate
    out = sut(load_dataset_sources, dataset_factory=factory, num_sources=num, duration_s=dur, rng=random.Random(case["seed"]))
    check_sources(set(table), lambda s: list(table[s]), lambda s, u: (table[s][u] / 32768).astype(np.float32), out, num, dur, rate)
    loader = DataLoader(ds, batch_size=case["batch"], shuffle=False, collate_fn=functools.partial(collate_dataset_items, pad_value=case["pad"]))
    items = [ds[i] for i in range(len(ds))]
    done = 0
    for batch in loader:
        part = items[done:done + case["batch"]]
        check_batch(batch, part, case["pad"])
        done += len(part)
    require(done == len(items), f"batches hold {done} of {len(items)} items")


@st.composite
def batch_cases(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 6, 9, 17, 33]))
    items = [dict(n=draw(st.integers(0, 60)), id=draw(st.text(max_size=5)), text=draw(st.one_of(st.none(), st.text(max_size=5))), speaker=draw(st.one_of(st.none(), st.text(max_size=3))),
                  meta=draw(st.one_of(st.none(), st.integers(0, 9)))) for _ in range(n)]
    return dict(items=items, extra=draw(st.sampled_from([0] * 12 + [100, 400])), rate=draw(st.sampled_from([8000, 16000])), odd=draw(st.integers(0, 80)), pad=draw(st.sampled_from([None, 0.0, 1.0, -3.5])), keep=draw(st.sampled_from([None, True, False])),
                seed=draw(st.integers(0, 10**6)), form=draw(st.sampled_from(["list", "tuple", "generator", "iterator"])), long=draw(st.sampled_from([0, 0, 0, 255, 32767, 32768, 65536, 70001])), dtype=draw(st.sampled_from(["float32", "float32", "float64"])),
                has_meta=draw(st.booleans()))


def check_batch(batch, items, pad):
    n = len(items)
    longest = max(i.audio.numel() for i in items)
    require(tuple(batch.audio.shape) == (n, longest), f"batch {tuple(batch.audio.shape)} for {n} items up to {longest} samples")
    require(batch.audio.dtype == items[0].audio.dtype and batch.lengths.dtype == torch.long, f"types {batch.audio.dtype}, {batch.lengths.dtype}")
    require(batch.lengths.tolist() == [i.audio.numel() for i in items], f"lengths {batch.lengths.tolist()}")
    for row, item in zip(batch.audio, items):
        k = item.audio.numel()
        require(torch.equal(row[:k], item.audio), f"samples of {item.utterance_id!r} differ")
        require(bool((row[k:] == pad).all()), f"padding of {item.utterance_id!r} is not {pad}")
    require(batch.utterance_ids == [i.utterance_id for i in items] and batch.texts == [i.text for i in items] and batch.speakers == [i.speaker for i in items],
            f"labels {batch.utterance_ids} {batch.texts} {batch.speakers}")
    require(batch.sample_rate == items[0].sample_rate, f"rate {batch.sample_rate}")


class MetaItem:
    """An item with a metadata field beyond the standard ones."""

    def __init__(self, item, metadata):
        self.__dict__.update(vars(item), metadata=metadata)


def run_batch(case, ctx):
    from torchrir.datasets import DatasetItem, collate_dataset_items

    g = np.random.default_rng(case["seed"])
    items = []
    if case["items"] and case.get("extra"):  # a large batch
        case = dict(case, items=case["items"] + [dict(n=int(g.integers(0, 60)), id=f"u{i}", text=f"t{i}", speaker=None, meta=i) for i in range(case["extra"])])
    if case["items"] and case["long"]:
        case["items"][case["seed"] % len(case["items"])]["n"] = case["long"]
    for i, d in enumerate(case["items"]):
        rate = case["rate"] if i != case["odd"] else case["rate"] + 1
        it = DatasetItem(audio=torch.tensor(g.uniform(-1, 1, d["n"]), dtype=getattr(torch, case["dtype"])), sample_rate=rate, utterance_id=d["id"], text=d["text"], speaker=d["speaker"])
        items.append(MetaItem(it, d["meta"]) if case["has_meta"] else it)
    copies = [i.audio.clone() for i in items]
    arg = {"list": list(items), "tuple": tuple(items), "generator": (i for i in items), "iterator": iter(items)}[case["form"]]
    kw = {}
    if case["pad"] is not None:
        kw["pad_value"] = case["pad"]
    if case["keep"] is not None:
        kw["keep_metadata"] = case["keep"]
    if not items:
        ctx.label("empty")
        expect_raises(ValueError, collate_dataset_items, arg, what="empty batch", **kw)
        return
    if len({i.sample_rate for i in items}) > 1:
        ctx.label("mixed rates")
        expect_raises(ValueError, collate_dataset_items, arg, what="mixed sample rates", **kw)
        return
    batch = sut(collate_dataset_items, arg, **kw)
    check_batch(batch, items, case["pad"] or 0.0)
    want = [d["meta"] if case["has_meta"] else None for d in case["items"]] if case["keep"] else None
    require(batch.metadata == want, f"metadata {batch.metadata}, expected {want}")
    require(all(torch.equal(a, i.audio) for a, i in zip(copies, items)), "an item was modified")
    before = batch.audio.clone()
    for i in items:
        i.audio.zero_()
    require(torch.equal(before, batch.audio), "the batch shares memory with its items")
    ctx.label(f"{min(len(items), 3)} items" + ("+" if len(items) > 3 else ""))
    ctx.trivial(len(items) < 2)


CHECK = Check(
    "C21",
    [
        Law("sources", cases, run, quick=1600, thorough=64000, rule="in-memory corpora, durations up to many repetitions of every utterance, two runs under different global seeds"),
        Law("long_sources", long_cases, run, quick=40, thorough=800, shards=6, rule="up to 1000 utterances per speaker, signals of up to a million samples"),
        Law("spread", spread_cases, run_spread, quick=96, thorough=800, rule="the generator decides: 120 seeds reach every speaker"),
        Law("rejects", bad_cases, run_bad, quick=480, thorough=12000, rule="too many speakers, nothing to load, mixed rates"),
        Law("on_disk", real_cases, run_real, quick=400, thorough=16000, rule="corpora on disk, and data-loader batches over them"),
        Law("batch", batch_cases, run_batch, quick=1600, thorough=48000, rule="batches of 0-33 (some of 100-400) items of up to 70001 samples, one element type per batch"),
    ],
    rule="at least one speaker with several utterances, or at least two items; distinct cases",
    assumptions=["utterances are mono signals", "the items of one batch share an element type"],
)
