"""Reset of process-global state around every case, so cases are independent and reproducible."""

from __future__ import annotations

import random
import warnings


def before_case() -> None:
    import numpy as np
    import torch

    random.seed(12345)
    np.random.seed(12345)
    torch.manual_seed(12345)
    torch.set_default_dtype(torch.float32)
    warnings.resetwarnings()
    warnings.simplefilter("ignore")


def after_case() -> None:
    import sys

    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None:
        plt.close("all")
