"""Loads the code under test from /repo's working tree and pins the ambient
settings the simulator owns (threads, flush mode, stdout noise)."""
import os
import random
import sys
import warnings

REPO = os.environ.get("HOLSIM_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass

PKG = os.path.join(REPO, "high_order_layers_torch") + os.sep
_loaded = {}


def load(lightning=True):
    """Import the package under test (once per process, before any fork)."""
    import logging

    logging.disable(logging.CRITICAL)
    sys.pycache_prefix = "/nonexistent"  # always compile the working tree's sources
    import high_order_layers_torch.layers as layers
    import high_order_layers_torch.attentions as attentions
    import high_order_layers_torch.positional_embeddings as emb
    import high_order_layers_torch.PolynomialLayers as poly
    import high_order_layers_torch.utils as utils
    import high_order_layers_torch.networks as networks
    import high_order_layers_torch.sparse_optimizers.sparse_lion as sparse_lion

    _loaded.update(layers=layers, attentions=attentions, emb=emb, poly=poly,
                   utils=utils, networks=networks, sparse_lion=sparse_lion)
    if lightning:
        import high_order_layers_torch.modules as modules

        _loaded["modules"] = modules
    sys.pycache_prefix = None
    f = os.path.realpath(layers.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("package under test was imported from %s, not %s" % (f, REPO))
    # Force lazy initialisation inside torch itself (not in the code under test)
    # so that every forked run starts from the same torch state.
    a = torch.ones(3, 3, requires_grad=True)
    torch.einsum("ij,jk->ik", a, a).sum().backward()
    torch.nn.functional.conv2d(torch.ones(1, 1, 4, 4), torch.ones(1, 1, 2, 2))
    return _loaded


def mod(name):
    return _loaded[name]


def seed_all(seed):
    seed = int(seed) & 0x7FFFFFFF
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed & 0x7FFFFFFF)


class quiet:
    """Silence prints of the code under test without touching fd 1."""

    held = False  # already redirected for the whole (multi-threaded) run

    def __enter__(self):
        self.o = None
        if quiet.held:
            return self
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")
        return self

    def __exit__(self, *a):
        if self.o is None:
            return False
        f = sys.stdout
        sys.stdout = self.o
        f.close()
        return False
