"""Observing how the configuration's grid is mapped to model evaluations."""
import numpy as np
from mon.core import Violation, require
from mon.util import *


class Rows:
    """All coordinate rows a network model was evaluated at, with its outputs."""

    def __init__(self):
        self.x, self.y = [], []

    def add(self, x, y):
        self.x.append(x.detach().double().numpy().copy())
        self.y.append(y.detach().double().numpy().copy())

    def table(self, sizes):
        """outputs as an array [nx, ny, nl, nf, outputs], located by their coordinates"""
        x, y = np.concatenate(self.x), np.concatenate(self.y)
        n = int(np.prod(sizes))
        require(x.ndim == 2 and x.shape[1] == 4, f"model inputs of shape {x.shape}, expected 4 coordinates")
        idx = []
        ticks = []
        for k in range(4):
            u = np.unique(np.round(x[:, k], 7))
            require(len(u) == sizes[k], f"coordinate {k} takes {len(u)} distinct values for {sizes[k]} grid points/layers/frequencies")
            ticks.append(u)
            idx.append(np.searchsorted(u, np.round(x[:, k], 7)))
        flat = np.ravel_multi_index(idx, sizes)
        require(len(set(flat.tolist())) == n, f"{len(set(flat.tolist()))} of {n} coordinates were evaluated")
        out = np.empty((n, y.shape[1]))
        out[flat] = y
        return out.reshape(tuple(sizes) + (y.shape[1],)), ticks


def stub(rows, nout, s, kind):
    """a network with random, non-monotonous outputs"""
    import torch

    g = np.random.default_rng(s)
    W = torch.tensor(g.normal(size=(4, nout)) * np.array([[3.0], [2.0], [0.01], [0.3]]))
    b = torch.tensor(g.uniform(0, 6, nout))

    class Stub(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.ones(()))

        def forward(self, x):
            v = 0.5 + 0.5 * torch.sin(x.double() @ W + b)
            if kind == "binary":
                v = (v > 0.5).double()
            elif kind == "outside":
                v = v * 3 - 1
            elif kind == "middle":
                v = 0.5 + (v - 0.5) * 2e-4
            elif kind == "zero":
                v = v * 0
            elif kind == "one":
                v = v * 0 + 1
            v = v * self.w
            rows.add(x, v)
            return v

    return Stub()
