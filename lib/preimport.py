"""Imported once, before the workers fork; runs no parallel torch code."""
import torch

torch.set_num_threads(1)
from torch.distributed import distributed_c10d  # noqa: F401,E402

from lib import shim  # noqa: F401,E402
import torch_harmonics  # noqa: F401,E402

assert torch_harmonics.__file__.startswith("/repo/"), torch_harmonics.__file__
import hypothesis  # noqa: F401,E402
