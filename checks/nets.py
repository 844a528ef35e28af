"""
Small networks whose every use can be watched, or made to fail.  They live in
a module because stored pipelines refer to the class of their network.
"""
import numpy as np
import torch
from torch import nn

WATCH = [None]      # callable(network, input), may raise


def _watch(net, x):
    if WATCH[0] is not None:
        WATCH[0](net, x)


def _body(kind, n_in, n_out):
    if kind == 'normed':
        return nn.Sequential(
            nn.Linear(n_in, 4), nn.BatchNorm1d(4), nn.Linear(4, n_out))
    if kind == 'dropout':
        return nn.Sequential(
            nn.Linear(n_in, 4), nn.Dropout(.5), nn.Linear(4, n_out))
    if kind == 'deep':
        return nn.Sequential(
            nn.Linear(n_in, 4), nn.Tanh(), nn.Linear(4, n_out))
    return nn.Linear(n_in, n_out)


class Net(nn.Module):
    """the first column of its input names the example and is ignored"""

    def __init__(self, kind, n_in, n_out):
        super(Net, self).__init__()
        self.kind = kind
        self.n_in = n_in
        self.n_out = n_out
        self.body = _body(kind, n_in, n_out)

    def forward(self, x):
        _watch(self, x)
        return self.body(x[:, 1:])


class Stage(nn.Module):
    def __init__(self, kind, n_in, n_out):
        super(Stage, self).__init__()
        self.kind = kind
        self.n_in = n_in
        self.n_out = n_out
        self.body = _body(kind, n_in, n_out)

    def forward(self, x):
        _watch(self, x)
        return self.body(x)


class Auto(nn.Module):
    def __init__(self, kind, n):
        super(Auto, self).__init__()
        self.kind = kind
        self.n = n
        self.encoder = Stage(kind, n, 2)
        self.decoder = Stage('plain', 2, n)

    def forward(self, x):
        return self.decoder(self.encoder(x))


class Pair(nn.Module):
    def __init__(self, kind, n, latent=2):
        super(Pair, self).__init__()
        self.kind = kind
        self.n = n
        self.latent = latent
        self.generator = Stage('plain', latent, n)
        self.discriminator = Stage(kind, n, 1)

    def forward(self, x):
        raise NotImplementedError()


class Scaled(nn.Module):
    """takes examples of any shape, and a factor"""

    def __init__(self, kind, shape_in, shape_out):
        super(Scaled, self).__init__()
        self.shape_out = tuple(shape_out)
        self.body = _body(kind, int(np.prod(shape_in)),
                          int(np.prod(shape_out)))

    def forward(self, x, scale=1.0):
        _watch(self, x)
        y = self.body(x.reshape(len(x), -1)) * scale
        return y.reshape((len(x),) + self.shape_out)


class Adversaries(nn.Module):
    def __init__(self, kind, latent, shape):
        super(Adversaries, self).__init__()
        self.generator = Scaled(kind, latent, shape)
        self.discriminator = Scaled('deep', shape, (1,))
