import torch
import pytorch_kinematics as pk
from pytorch_kinematics.transforms import Transform3d
from pytorch_kinematics.transforms.perturbation import sample_perturbations
from symtorch.driver import Suite
from symtorch.h import *

SUITE = Suite('C26', ['transforms.perturbation.sample_perturbations', 'transforms.transform3d.Transform3d.sample_perturbations',
                      'rotation_conversions.axis_and_angle_to_matrix_33'],
    'All rigid transforms, all unit axes, all standard deviations in [0, 10], all draws (non-zero vectors of any length in '
    '[1e-6, 1e6] ([0.25, 4] and offsets up to 10 in single precision), any angles); 1, 2 and 3 samples; both precisions.')


def draws(c, longest=1e6):
    """keeps what is drawn: vectors as direction and length"""
    got = {'angles': [], 'vectors': []}

    def on_random(k, kind, shape, dtype):
        if kind != 'randn':
            return None
        if len(shape) == 2 and shape[1] == 3:
            u, n = c.unit('draw%d' % k, shape[:1], dim=3), c.real('len%d' % k, shape[:1], lo=1 / longest, hi=longest)
            got['vectors'].append((u, n))
            return (u * n[:, None]).to(dtype)
        a = c.real('draw%d' % k, shape)
        got['angles'].append(a)
        return a.to(dtype)
    c.on_random = on_random
    return got


def offset_draw():
    """which of the drawn triples is the offset (the code may draw the axis or the offset first): one concrete call"""
    drawn, real = [], torch.randn

    def randn(*a, **k):
        drawn.append(real(*a, **k))
        return drawn[-1].clone()
    torch.randn = randn
    try:
        P = sample_perturbations(torch.eye(4, dtype=D64), 2, 0., 1.)
        at = [torch.allclose(P[:, :3, 3], x) for x in drawn if x.shape == (2, 3)]
        return at.index(True)
    except Exception:
        return 0
    finally:
        torch.randn = real


OFFSET = offset_draw()


def outcome(c, P, T, got, rs, ts, num, axis, perp):
    R, p = T[..., :3, :3], T[..., :3, 3]
    c.true('shape', P.shape == (num, 4, 4))
    c.eq('bottom row', P[:, 3], t64([0., 0, 0, 1]).expand(num, 4))
    th = [a.reshape(-1) for a in got['angles']]
    c.true('one angle drawn for each', len(th) == 1 and th[0].shape == (num,))
    th = th[0] * rs
    if axis is not None:
        c.true('one offset drawn for each', len(got['vectors']) == 1)
        u, n = got['vectors'][0]
        off = u * (n * ts)[:, None]
        if perp:
            off = off - axis * (off * axis).sum(-1, keepdim=True)
        c.eq('turned by the drawn angle about the given axis', P[:, :3, :3], rodrigues(axis.expand(num, 3), th) @ R)
        c.eq('moved by the drawn offset', P[:, :3, 3], p + off)
        c.eq('axis kept by the turn', matvec(P[:, :3, :3] @ R.transpose(-1, -2), axis.expand(num, 3)), axis.expand(num, 3))
        if perp:
            c.eq('offset perpendicular to the axis', ((P[:, :3, 3] - p) * axis).sum(-1), torch.zeros(num, dtype=D64))
    else:
        c.true('an axis and an offset drawn for each', len(got['vectors']) == 2)
        (w, m), (u, n) = got['vectors'][1 - OFFSET], got['vectors'][OFFSET]
        c.eq('turned by the drawn angle about the drawn axis', P[:, :3, :3], rodrigues(w, th) @ R)
        c.eq('moved by the drawn offset', P[:, :3, 3], p + u * (n * ts)[:, None])
    is_rotation(c, 'perturbed', P[:, :3, :3])


def sample(num, axis, perp, via, dtype=D64):
    def body(c):
        single = dtype == torch.float32
        got = draws(c, 4. if single else 1e6)
        T = c.pose('T')
        if single:
            c.assume((T[:3, 3].abs() <= 10).all())
        T = T.to(dtype)
        keep = T.clone()
        ax = c.unit('axis', dim=3) if axis else None
        ka = ax.clone() if axis else None
        rs, ts = c.scalar('rs', 0, 10), c.scalar('ts', 0, 1 if single else 10)
        if via == 'transform':
            X = Transform3d(matrix=T)
            P = X.sample_perturbations(num, rs, ts)
            c.true('a transform', isinstance(P, Transform3d) and len(P) == num)
            c.true('dtype', P.dtype == dtype)
            P = P.get_matrix()
            c.eq('the transform unchanged', X.get_matrix()[0], keep)
        elif axis:
            P = sample_perturbations(T, num, rs, ts, axis_of_rotation=ax.to(dtype), **({} if perp == 'default' else
                                     dict(translation_perpendicular_to_axis_of_rotation=perp)))
            c.eq('axis unchanged', ax, ka)
        else:
            P = sample_perturbations(T, num, rs, ts)
        c.true('dtype of the matrices', P.dtype == dtype)
        outcome(c, P.to(D64), T.to(D64), got, rs, ts, num, ax, perp)
        c.eq('given transform unchanged', T, keep)
    return body


for _n in (1, 3):
    SUITE.add('free_%d' % _n, sample(_n, False, None, 'function'))
    SUITE.add('about_axis_%d' % _n, sample(_n, True, 'default', 'function'))
    SUITE.add('about_axis_unrestricted_%d' % _n, sample(_n, True, False, 'function'))
    SUITE.add('transform_%d' % _n, sample(_n, False, None, 'transform'))
SUITE.add('about_axis_asked', sample(2, True, True, 'function'))
SUITE.add('free_single_precision', sample(2, False, None, 'function', torch.float32), tol=2e-4)
SUITE.add('about_axis_single_precision', sample(2, True, True, 'function', torch.float32), tol=2e-4)


@SUITE.config()
def one_each(c):
    """as many transforms as samples: one perturbation of each"""
    got = draws(c)
    T = c.pose('T', (2,))
    keep = T.clone()
    rs, ts = c.scalar('rs', 0, 10), c.scalar('ts', 0, 10)
    P = Transform3d(matrix=T).sample_perturbations(2, rs, ts).get_matrix()
    outcome(c, P, T, got, rs, ts, 2, None, None)
    c.eq('given transforms unchanged', T, keep)


@SUITE.config()
def exported(c):
    c.true('exported', pk.sample_perturbations is sample_perturbations)
