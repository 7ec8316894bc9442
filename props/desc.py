"""Robot descriptions (URDF, SDF, MJCF text) whose numbers are symbolic, and their reference meaning.

The text carries each symbol as a unique number; the loaders parse it like any other text."""
import torch
from symtorch.h import *


def txt(xs):
    if isinstance(xs, torch.Tensor):
        xs = xs.tolist()
    if not isinstance(xs, (list, tuple)):
        xs = [xs]
    return ' '.join(repr(float(x)) for x in xs)


def num(x):
    return x if isinstance(x, torch.Tensor) else torch.tensor(x, dtype=D64)


def nums(xs):
    return torch.stack([num(x) for x in xs])


def xyzrpy(xyz, rpy):
    """pose given by a position and fixed-axis roll, pitch, yaw"""
    return make44(rpy_to_mat(rpy), xyz)


class Numbers:
    """named symbolic numbers of one description (the same name is the same number)"""

    def __init__(self, c):
        self.c = c
        self.memo = c.__dict__.setdefault('_desc_numbers', {})

    def _get(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def xyz(self, name):
        return self._get('xyz_' + name, lambda: self.c.real('xyz_' + name, (3,)))

    def rpy(self, name):
        return self._get('rpy_' + name, lambda: self.c.real('rpy_' + name, (3,)))

    def axis(self, name, scaled=False):
        def make():
            a = self.c.unit('ax_' + name, dim=3)
            return a * self.c.real('sc_' + name, lo=0.25, hi=4) if scaled else a
        return self._get('ax_' + name, make)


def limits_of(chain, which='limits'):
    low, high = {'limits': chain.get_joint_limits, 'velocity': chain.get_joint_velocity_limits,
                 'effort': chain.get_joint_effort_limits}[which]()
    return dict(zip(chain.get_joint_parameter_names(), zip(low, high)))


def is_inf(c, name, pair):
    """no limit: minus and plus infinity"""
    c.true(name, [type(x) for x in pair] and float(pair[0]) == float('-inf') and float(pair[1]) == float('inf'),
           str(pair))
