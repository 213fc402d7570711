"""C10: Sabine and image-count helpers."""

import math
from fractions import Fraction

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, same

REPS = ["list", "tuple", "float32", "float64", "int64", "int32"]


@st.composite
def size_given(draw):
    dim = draw(st.sampled_from([2, 3]))
    integral = draw(st.booleans())
    size = draw(st.lists(st.integers(1, 20) if integral else gens.uniform(0.3, 25.0), min_size=dim, max_size=dim))
    return dict(size=size, rep=draw(st.sampled_from(REPS if integral else REPS[:4])))


def give(values, rep):
    if rep == "list":
        return list(values)
    if rep == "tuple":
        return tuple(values)
    return torch.tensor(values, dtype=torch.float64).to(getattr(torch, rep))


def eps_of(rep):
    return 1e-12 if rep == "float64" else 1e-6


@st.composite
def t60_cases(draw):
    c = draw(size_given())
    n = 2 * len(c["size"])
    c["beta"] = draw(st.one_of(
        st.lists(gens.coeff(), min_size=n, max_size=n),
        st.integers(0, n - 1).map(lambda i: [0.5 if j == i else 1.0 for j in range(n)]),
        st.just([1.0] * n),
        st.lists(gens.uniform(-9.0, -3.0).map(lambda e: 1.0 - 10.0**e), min_size=n, max_size=n),
        st.lists(st.sampled_from([0, 1]), min_size=n, max_size=n)))
    c["beta_rep"] = draw(st.sampled_from(["list", "tuple", "float32", "float64"]))
    c["scale"] = draw(gens.uniform(1.1, 4.0))
    return c


def run_t60(case, ctx):
    from torchrir.util import estimate_t60_from_beta

    got = sut(estimate_t60_from_beta, give(case["size"], case["rep"]), give(case["beta"], case["beta_rep"]))
    want = ism_model.sabine_t60(case["size"], case["beta"])
    require(isinstance(got, float), f"result is {type(got)}")
    if math.isinf(want):
        require(math.isinf(got) and got > 0, f"T60 without absorption is {got}")
        ctx.label("no absorption")
        return
    # rounding of 1 - beta^2 in the precision of the size
    size = case["size"] + ([1.0] if len(case["size"]) == 2 else [])
    surf = 2 * (size[0] * size[1] + size[1] * size[2] + size[0] * size[2])
    vol = size[0] * size[1] * size[2]
    e = 4e-7 if case["rep"] != "float64" or case["beta_rep"] != "float64" else 1e-15
    absorb = 0.161 * vol / want
    slack = surf * e
    if slack > 0.5 * absorb:
        ctx.trivial()
        require(got > 0, f"T60 {got}")
        return
    lo, hi = 0.161 * vol / (absorb + slack), 0.161 * vol / (absorb - slack)
    require(lo * (1 - 3e-6) <= got <= hi * (1 + 3e-6), f"T60 {got}, Sabine's formula gives {want}")
    ctx.label(f"{len(case['size'])}D", "uneven" if len(set(case["beta"])) > 1 else "even")


@st.composite
def inverse_cases(draw):
    c = draw(size_given())
    c["t60"] = draw(st.one_of(gens.uniform(0.02, 3.0), gens.uniform(0.0005, 0.05), gens.uniform(3.0, 500.0), st.integers(1, 5)))
    c["dtype"] = draw(st.sampled_from([None, "float64", "float32"]))
    return c


def run_inverse(case, ctx):
    from torchrir.util import estimate_beta_from_t60, estimate_t60_from_beta

    kw = {} if case["dtype"] is None else dict(dtype=getattr(torch, case["dtype"]))
    size = give(case["size"], case["rep"])
    got = sut(estimate_beta_from_t60, size, case["t60"], **kw)
    want = ism_model.sabine_beta(case["size"], case["t60"])
    require(torch.is_tensor(got) and got.is_floating_point(), "result is not a floating tensor")
    if case["dtype"]:
        require(got.dtype == kw["dtype"], f"dtype {got.dtype}")
    b = as_np(got)
    require(b.shape == (2 * len(case["size"]),), f"shape {b.shape}")
    alpha = 1 - want[0] ** 2
    # float32 sizes and results: error of beta for small beta is amplified by the square root
    tol = 1e-12 if got.dtype == torch.float64 and case["rep"] not in ("float32",) else 4e-7
    same(b, want, tol / max(want[0], 0.03), "coefficients")
    require(bool((b >= 0).all() and (b <= 1).all()), "coefficients outside [0, 1]")
    attainable = alpha < 0.9985
    ctx.label("attainable" if attainable else "saturated", f"{len(case['size'])}D")
    size64 = torch.tensor(case["size"], dtype=torch.float64)
    back = sut(estimate_t60_from_beta, size64, got.to(torch.float64))
    if attainable:
        slack = 1e-9 + (2e-6 if tol > 1e-9 else 0.0) / alpha
        if slack < 0.5:
            require(abs(back - case["t60"]) <= slack * 1.2 * case["t60"], f"T60 {case['t60']} -> coefficients -> {back}")
    else:
        require(back >= case["t60"] * (1 - 3e-3), f"saturated coefficients give T60 {back} below the requested {case['t60']}")


@st.composite
def att_cases(draw):
    return dict(att=draw(st.one_of(gens.uniform(0.01, 200.0), st.integers(1, 120), st.just(60.0))),
                t60=draw(st.one_of(gens.uniform(0.01, 20.0), st.integers(1, 9))), k=draw(gens.uniform(0.1, 30.0)))


def run_att(case, ctx):
    from torchrir.util import attenuation_db_to_time_sabine as f

    t = sut(f, case["att"], case["t60"])
    want = case["att"] * case["t60"] / 60.0
    require(abs(t - want) <= 1e-12 * want, f"time {t}, expected {want}")
    require(abs(sut(f, case["att"], case["t60"] * case["k"]) - case["k"] * t) <= 1e-11 * case["k"] * t, "not proportional to T60")
    require(abs(sut(f, 60.0, case["t60"]) - case["t60"]) <= 1e-12 * case["t60"], "60 dB is not T60")
    kw = sut(f, att_db=case["att"], t60=case["t60"])
    require(kw == t, "keyword call differs")


@st.composite
def count_cases(draw):
    c = draw(size_given())
    c["tmax"] = draw(st.one_of(gens.uniform(0.001, 0.4), gens.uniform(0.4, 3.0), st.integers(1, 3)))
    c["c"] = draw(st.sampled_from([None, 343.0, 340, 331.5, 1.0]))
    if draw(st.integers(0, 3)) == 0:  # the distance is an exact multiple of one side
        k = draw(st.integers(1, 12))
        cc = 343.0 if c["c"] is None else c["c"]
        c["tmax"] = k * c["size"][0] / cc
    c["more"] = draw(gens.uniform(1.0, 3.0))
    return c


def run_counts(case, ctx):
    from torchrir.util import estimate_image_counts_from_tmax as f

    args = (case["tmax"], give(case["size"], case["rep"])) + (() if case["c"] is None else (case["c"],))
    got = sut(f, *args)
    require(torch.is_tensor(got) and not got.is_floating_point(), "counts are not integers")
    n = got.tolist()
    require(len(n) == len(case["size"]), f"{len(n)} counts for {len(case['size'])} axes")
    dist = Fraction(case["tmax"]) * Fraction(343.0 if case["c"] is None else case["c"])
    rel = Fraction(1, 10**6)
    edge = False
    for k, length in zip(n, case["size"]):
        q = dist / Fraction(length)
        lo, hi = math.ceil(q * (1 - rel)), math.ceil(q * (1 + rel))
        edge = edge or lo != hi
        require(lo <= k <= hi, f"count {k} for a distance of {float(dist)} along a side of {length}: expected {math.ceil(q)}")
    ctx.label("near an exact multiple" if edge else "generic", case["rep"])
    more = sut(f, case["tmax"] * case["more"], *args[1:]).tolist()
    require(all(a >= b for a, b in zip(more, n)), "counts decrease with the duration")
    if case["rep"] in ("int64", "int32"):
        fl = sut(f, case["tmax"], torch.tensor(case["size"], dtype=torch.float32), *args[2:])
        require(fl.tolist() == n, "integer and floating sizes give different counts")


@st.composite
def bad_cases(draw):
    c = draw(size_given())
    c.update(kind=draw(st.sampled_from(["beta_t60", "att_t60", "att", "tmax", "beta_count", "dim"])),
             value=draw(st.one_of(st.sampled_from([0, 0.0, -0.0, -1, -1e-9]), gens.uniform(-5.0, 0.0))),
             good=draw(gens.uniform(0.1, 2.0)), extra=draw(st.sampled_from([-3, -2, -1, 1, 2])), which=draw(st.integers(0, 2)),
             dims=draw(st.sampled_from([1, 4, 5])))
    return c


def run_bad(case, ctx):
    from torchrir.util import (attenuation_db_to_time_sabine, estimate_beta_from_t60, estimate_image_counts_from_tmax,
                               estimate_t60_from_beta)

    size, k = give(case["size"], case["rep"]), case["kind"]
    ctx.label(k)
    if k == "beta_t60":
        expect_raises(ValueError, estimate_beta_from_t60, size, case["value"], what="non-positive T60")
    elif k == "att_t60":
        expect_raises(ValueError, attenuation_db_to_time_sabine, case["good"], case["value"], what="non-positive T60")
    elif k == "att":
        expect_raises(ValueError, attenuation_db_to_time_sabine, case["value"], case["good"], what="non-positive attenuation")
    elif k == "tmax":
        expect_raises(ValueError, estimate_image_counts_from_tmax, case["value"], size, what="non-positive duration")
    elif k == "beta_count":
        expect_raises(ValueError, estimate_t60_from_beta, size, torch.full((2 * len(case["size"]) + case["extra"],), 0.5), what="wrong coefficient count")
    else:
        bad = torch.ones(case["dims"])
        fn = [lambda: estimate_beta_from_t60(bad, 0.5), lambda: estimate_t60_from_beta(bad, torch.full((6,), 0.5)),
              lambda: estimate_image_counts_from_tmax(0.1, bad)][case["which"]]
        expect_raises(ValueError, fn, what=f"{case['dims']}-dimensional size")


CHECK = Check(
    id="C10",
    technique="property-based testing: closed-form oracle (exact rationals for counts), round-trip and monotonicity relations",
    rule=("Cases are room sizes in every representation, coefficients per wall, T60 values in the attainable and saturated range, "
          "attenuations, durations including exact multiples of a side; non-trivial when rounding does not swamp the absorption."),
    laws=[
        Law("t60_from_beta", t60_cases, run_t60, quick=4800, thorough=96000),
        Law("beta_from_t60", inverse_cases, run_inverse, quick=4800, thorough=96000),
        Law("attenuation_time", att_cases, run_att, quick=1200, thorough=24000),
        Law("image_counts", count_cases, run_counts, quick=4800, thorough=96000),
        Law("invalid_rejected", bad_cases, run_bad, quick=1200, thorough=16000),
    ],
    assumptions=["At exact multiples of a side the count may be one higher or lower through rounding in the size's precision."],
    note="Formulas are evaluated independently per wall; coefficients given per wall so that swapped areas show.",
)
_ = np
