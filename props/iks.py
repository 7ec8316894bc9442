"""shared by the inverse-kinematics checks: a small real robot whose Jacobian / pose computation is replaced by arbitrary
values (those computations are decided by C02, C03 and C05), so that any history of poses can arise"""
import torch
import pytorch_kinematics as pk
from symtorch.h import *
from .kin import Robot


def robot(c, spec, limits=None):
    r = Robot(c, spec, D64, limits=limits)
    return pk.SerialChain(r.chain(), spec[-1][0], dtype=D64)


class Stub:
    """poses with arbitrary positions and (rot) arbitrary orientations, else orientation `fixed`; Jacobians arbitrary or zero"""

    def __init__(self, c, n, dof, rot=True, jac=True):
        self.c, self.n, self.dof, self.rot, self.jac, self.calls = c, n, dof, rot, jac, []

    def __call__(self, q, ret=False):
        i, c = len(self.calls), self.c
        R = quat_to_mat(c, c.unit('q%d' % i, (self.n,))) if self.rot else torch.eye(3, dtype=D64).repeat(self.n, 1, 1)
        m = make44(R, c.real('p%d' % i, (self.n, 3)))
        J = c.real('J%d' % i, (self.n, 6, self.dof)) if self.jac else torch.zeros(self.n, 6, self.dof, dtype=D64)
        self.calls.append((q.clone(), J, m))
        return J, m
