"""A PyTorchLinearOperator that represents a given (symbolic) matrix."""
import numpy as np
import torch

from symtorch import expr as E

from .lib import numel


def make_torch_mat(env, name, in_shapes, out_shapes, dtype=torch.float64, self_adjoint=False):
    """Operator with a symbolic matrix; specification in env.sp(name) [M, N]."""
    from curvlinops._torch_base import PyTorchLinearOperator

    m, n = sum(map(numel, out_shapes)), sum(map(numel, in_shapes))
    W = env.tensor(name, (m, n), dtype=dtype)

    class TorchMat(PyTorchLinearOperator):
        SELF_ADJOINT = self_adjoint

        def __init__(self, W, ins, outs):
            super().__init__(ins, outs)
            self.W, self.ins, self.outs = W, ins, outs
            self.seen = []

        def _matmat(self, X):
            self.seen.append([tuple(x.shape) for x in X])
            K = X[0].shape[-1]
            flat = torch.cat([x.reshape(numel(s), K) for x, s in zip(X, self.ins)])
            out = self.W @ flat
            sizes = [numel(s) for s in self.outs]
            return [o.reshape(*s, K) for o, s in zip(out.split(sizes), self.outs)]

        def _adjoint(self):
            return TorchMat(self.W.T, self.outs, self.ins)

        def _infer_device(self):
            return torch.device("cpu")

        def _infer_dtype(self):
            return dtype

    return TorchMat(W, list(in_shapes), list(out_shapes))
