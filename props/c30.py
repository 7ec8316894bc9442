import copy
import torch
import pytorch_kinematics as pk
from pytorch_kinematics.frame import Visual
from symtorch.driver import Suite
from symtorch.h import *
from .kin import Robot, TREE, SERIAL, any_tree
from . import c06, c07, c08, c09

SUITE = Suite('C30', ['frame.Visual.__init__', 'frame.Link.to', 'frame.Frame.to', 'frame.Frame.__str__', 'chain.Chain.print_tree',
                      'chain.Chain.__str__', 'chain.Chain.to', 'chain.SerialChain.__init__', 'urdf._convert_visuals',
                      'urdf._convert_visual', 'sdf._convert_visuals', 'mjcf.geoms_to_visuals'],
    'All placements and dimensions of the shapes of the studied descriptions (URDF, SDF, MuJoCo model; several shapes per '
    'link, links without); all geometry through precision changes, extraction and deep copies on branching and serial robots; '
    'printing: all ordered trees of up to 5 frames (thorough: 6).')

SUITE.add('urdf', c07.visuals, tol=c07.TOL)
SUITE.add('sdf', c08.visuals, tol=c08.TOL)
SUITE.add('mjcf', c09.geoms, tol=c09.TOL)

KINDS = ['box', 'cylinder', 'sphere', 'mesh', None]


def dressed(c, spec):
    """a robot with 0, 1 or 2 visuals per link"""
    r = Robot(c, spec, D64)
    want = {}
    for i, n in enumerate(r.order):
        vs, want[n] = [], []
        for k in range(i % 3):
            kind = KINDS[(i + k) % 4]
            m, size = c.pose('V%s%d' % (n, k)), c.real('s%s%d' % (n, k), (3,))
            m = None if (i + k) % 5 == 4 else m
            par = ('file%d' % i, size) if kind == 'mesh' else size
            vs.append(Visual(offset=None if m is None else pk.Transform3d(matrix=m.clone()), geom_type=kind, geom_param=par))
            want[n].append((kind, size.clone(), m, 'file%d' % i))
        r.frames[n].link.visuals = vs
    return r, want


def look(c, what, ch, r, want, dtype):
    for n in want:
        if n not in ch.get_frame_names(exclude_fixed=False):
            continue
        link = ch.find_link(n + '_link')
        c.true(what + ': as many visuals', len(link.visuals) == len(want[n]))
        for v, (kind, size, m, f) in zip(link.visuals, want[n]):
            c.true(what + ': type', v.geom_type == kind)
            p = v.geom_param
            if kind == 'mesh':
                c.true(what + ': file', p[0] == f)
                p = p[1]
            c.eq(what + ': size', p, size)
            if m is None:
                c.true(what + ': no placement', v.offset is None)
            else:
                c.true(what + ': type of numbers', v.offset.get_matrix().dtype == dtype)
                c.eq(what + ': placement', v.offset.get_matrix()[0].to(D64), m.reshape(4, 4))
        lo = r.lof[n]
        if lo is None:
            c.true(what + ': no link offset' , link.offset is None)
        else:
            c.eq(what + ': link offset', link.offset.get_matrix()[0].to(D64), lo.reshape(4, 4))


def carried(spec, end):
    def body(c):
        r, want = dressed(c, spec)
        ch = r.chain()
        look(c, 'built', ch, r, want, D64)
        s = pk.SerialChain(ch, end, dtype=D64)
        look(c, 'extracted', s, r, want, D64)
        s = s.to(dtype=torch.float32)
        look(c, 'extracted, single precision', s, r, want, torch.float32)
        s = s.to(dtype=D64)
        look(c, 'extracted, double precision', s, r, want, D64)
    return body


def precision(spec):
    def body(c):
        r, want = dressed(c, spec)
        ch = r.chain()
        look(c, 'copied', copy.deepcopy(ch), r, want, D64)
        ch = ch.to(dtype=torch.float32)
        look(c, 'single precision', ch, r, want, torch.float32)
        ch = ch.to(dtype=D64)
        look(c, 'double precision', ch, r, want, D64)
        T = ch.forward_kinematics(c.real('q', (1, len(ch.get_joint_parameter_names()))))
        look(c, 'after a query', ch, r, want, D64)
    return body


def middle(c):
    r, want = dressed(c, TREE)
    s = pk.SerialChain(r.chain(), 'z2', 'zeta', dtype=D64)
    look(c, 'extracted from the middle', s, r, want, D64)


for _n, _s, _e in (('tree', TREE, 'z2'), ('tree_a2', TREE, 'a2'), ('serial', SERIAL, 'tip')):
    SUITE.add('extracted_' + _n, carried(_s, _e))
    if _n != 'tree_a2':
        SUITE.add('precision_' + _n, precision(_s))
SUITE.add('extracted_middle', middle)


def drawing(s, n, prefix=''):
    out, kids = '', s.children(n)
    for i, k in enumerate(kids):
        end = i == len(kids) - 1
        out += prefix + ('\u2514' if end else '\u251c') + '\u2500\u2500 ' + k + '\n'
        out += drawing(s, k, prefix + ('    ' if end else '\u2502   '))
    return out


def printing(n):
    def body(c):
        s = c06.Shape(any_tree(c, n, root_types=('fixed',), joint_types=('fixed',)))
        ch = pk.Chain(s.frames[s.root], dtype=D64)
        got = ch.print_tree(do_print=False)
        c.true('drawing', got == s.root + '\n' + drawing(s, s.root))
        # and read back: every frame once, below its parent, siblings in order
        last, seen = {-1: None}, []
        for line in got.rstrip('\n').split('\n'):
            name = line.split(' ')[-1]
            depth = (len(line) - len(name)) // 4
            last[depth] = name
            seen.append(name)
            c.true('under its parent', s.parent[name] == last[depth - 1])
        c.true('each frame once, in order', seen == s.dfs(s.root))
    return body


for _n in (1, 2, 3, 4, 5):
    SUITE.add('printing_%d' % _n, printing(_n), max_paths=1000)
SUITE.add('printing_6', printing(6), max_paths=3000, tier='thorough')


SUITE.with_falling(('urdf', 'sdf', 'mjcf'))
