"""Input generators: realistic, hostile and boundary inputs. All take a numpy Generator."""
import math, itertools
import numpy as np
from . import ref

PI = math.pi
E = np.eye(3)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


TINY = [0.0, 1e-15, 1e-12, 1e-9, 1e-8, 1e-7, 9e-7, 1.1e-6, 2e-6, 1e-5, 1e-4, 1e-3]
SPECIAL = [0.0, PI/2, -PI/2, PI, -PI, 2*PI, -2*PI, PI/4, PI/3, -PI/6, 3*PI/2, 3*PI, 1.0, 2*PI/3, -2*PI/3]


def angle(rng, wide=True):
    c = rng.random()
    if c < 0.25:
        return float(pick(rng, SPECIAL))
    if c < 0.5:
        return float(pick(rng, SPECIAL) + pick(rng, [-1, 1])*pick(rng, TINY))
    if c < 0.9 or not wide:
        return float(rng.uniform(-PI, PI))
    return float(rng.uniform(-20, 20))


def unit(rng):
    while True:
        v = rng.standard_normal(3)
        n = np.linalg.norm(v)
        if n > 1e-3:
            return v/n


def axis(rng):
    c = rng.random()
    if c < 0.3:
        return pick(rng, [-1.0, 1.0])*E[int(rng.integers(3))]
    if c < 0.45:
        v = np.array(pick(rng, [(1, 1, 0), (1, -1, 0), (0, 1, 1), (0, -1, 1), (1, 0, 1), (-1, 0, 1), (1, 1, 1),
                                (-1, 1, 1), (1, -1, 1), (-1, -1, 1), (-1, -1, -1), (-1, -1, 0)]), dtype=float)
        return v/np.linalg.norm(v)
    if c < 0.6:
        v = pick(rng, [-1.0, 1.0])*E[int(rng.integers(3))] + 10.0**-rng.integers(2, 13)*rng.standard_normal(3)
        return v/np.linalg.norm(v)
    if c < 0.7:      # one zero component
        v = unit(rng)
        v[int(rng.integers(3))] = 0.0
        return v/np.linalg.norm(v)
    return unit(rng)


def vec(rng, zeros=True):
    c = rng.random()
    s = 10.0**rng.uniform(-2, 2)
    if c < 0.1 and zeros:
        return np.zeros(3)
    if c < 0.25:
        return s*pick(rng, [-1.0, 1.0])*E[int(rng.integers(3))]
    if c < 0.35:
        return np.array([float(x) for x in rng.integers(-3, 4, 3)]) if zeros else s*unit(rng)
    return s*rng.standard_normal(3)


CUBE = []
for perm in itertools.permutations(range(3)):
    for sg in itertools.product([1.0, -1.0], repeat=3):
        M = np.zeros((3, 3))
        for i in range(3):
            M[i, perm[i]] = sg[i]
        if np.linalg.det(M) > 0:
            CUBE.append(M)


def R(rng):
    c = rng.random()
    if c < 0.12:
        return pick(rng, CUBE).copy()
    if c < 0.75:
        return ref.rot(axis(rng), angle(rng))
    if c < 0.85:
        return ref.rot(axis(rng), angle(rng)) @ pick(rng, CUBE)
    q = rng.standard_normal(4)
    return ref.qR(q/np.linalg.norm(q))


def quat(rng):
    c = rng.random()
    if c < 0.15:
        q = np.zeros(4)
        q[int(rng.integers(4))] = pick(rng, [-1.0, 1.0])
        return q
    if c < 0.3:
        q = np.array(pick(rng, [(1, 1, 0, 0), (1, 0, -1, 0), (0, 1, 1, 0), (0, 0, 1, -1), (1, 1, 1, 1), (-1, 1, -1, 1),
                                (-1, 0, 0, 1), (0, 1, -1, 1), (-1, -1, -1, -1)]), dtype=float)
        return q/np.linalg.norm(q)
    if c < 0.5:
        q = ref.aq(axis(rng), angle(rng))
        return q/np.linalg.norm(q)
    q = rng.standard_normal(4)
    return q/np.linalg.norm(q)


def pose(rng):
    """orientation and position, also ones that are hardly different from none"""
    if rng.random() < .1:
        c = int(rng.integers(3))
        return (ref.rot(axis(rng), 10.0**-rng.uniform(1, 5)) if c != 1 else np.eye(3),
                10.0**-rng.uniform(1, 6)*unit(rng) if c != 0 else np.zeros(3))
    return R(rng), vec(rng)


def transform(rox, rng, frames=False):
    f = {}
    if frames:
        f = dict(parent_frame_id=pick(rng, [None, 'world', 'a', 'base_link', 'world', 'a', '', 'Base_Link']),
                 child_frame_id=pick(rng, [None, 'tool', 'b', 'tip', 'tool', 'b', '', 'a']))
    return rox.Transform(*pose(rng), **f)


def seqform(rng, v):
    """the same vector as list, tuple, array"""
    c = int(rng.integers(4))
    if c == 0:
        return [float(x) for x in v]
    if c == 1:
        return tuple(float(x) for x in v)
    return np.array(v, dtype=float)


# ---------------------------------------------------------------------------------------------- robots

def joint_types(rng, n, kinds=(0, 1)):
    c = rng.random()
    if c < 0.35:
        return [0]*n
    if c < 0.45 and 1 in kinds:
        return [1]*n
    return [int(pick(rng, kinds)) for _ in range(n)]


def limits(rng, jt, span=None):
    lo, hi = [], []
    for t in jt:
        if t in (1, 3):
            a, b = sorted(rng.uniform(-1.5, 1.5, 2))
            if b - a < 0.2:
                b = a + 0.2
        else:
            s = span if span is not None else pick(rng, [PI/2, PI, 1.5*PI, 2*PI, 3*PI, 0.3])
            c = pick(rng, [0.0, 0.0, 0.0, rng.uniform(-1, 1)])
            a, b = c - s, c + s
        lo.append(float(a))
        hi.append(float(b))
    return np.array(lo), np.array(hi)


def any_robot(rox, rng, n=None, kinds=(0, 1), with_limits=None, aux=True, full=False):
    """A random serial robot of n joints; full: all limits present (as Tesseract needs)"""
    n = int(n if n is not None else pick(rng, [1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 8]))
    jt = joint_types(rng, n, kinds)
    H = np.array([axis(rng) for _ in range(n)]).T.reshape(3, n)
    sc = pick(rng, [1.0, 1.0, 0.1, 10.0])
    P = sc*rng.uniform(-1, 1, (3, n+1))
    for i in range(n+1):
        c = rng.random()
        if c < 0.22:
            P[:, i] = 0
        elif c < 0.25:
            P[:, i] *= 10.0**rng.uniform(-9, -2)
        elif c < 0.45:
            P[:, i] = sc*rng.uniform(-1, 1)*E[int(rng.integers(3))]
    if rng.random() < 0.08:      # a drawing in whole numbers, as whole numbers
        H = np.array([pick(rng, [-1, 1])*E[int(rng.integers(3))] for _ in range(n)]).T.reshape(3, n).astype(int)
        P = rng.integers(-3, 4, (3, n+1))
    kw = {}
    if with_limits is None:
        with_limits = rng.random() < 0.6
    if with_limits or full:
        lo, hi = limits(rng, jt)
        kw.update(joint_lower_limit=lo, joint_upper_limit=hi)
    if full or rng.random() < 0.3:
        kw.update(joint_vel_limit=rng.uniform(0.5, 3, n), joint_acc_limit=rng.uniform(0.5, 9, n))
    if aux:
        add_aux(rox, rng, kw)
    f = pick(rng, [list, list, np.array, lambda x: np.array(x, dtype=float), tuple])
    return rox.Robot(H, P, f(jt), **kw)


def add_aux(rox, rng, kw, tool=True, flange=True, base=True):
    if tool and rng.random() < 0.5:
        Rt, pt = pose(rng)
        kw.update(R_tool=Rt, p_tool=pt)
    if flange and rng.random() < 0.5:
        kw.update(T_flange=rox.Transform(*pose(rng)))
    if base and rng.random() < 0.5:
        kw.update(T_base=rox.Transform(*pose(rng)))


def config(rng, r, wide=True):
    """a joint vector inside the limits of r (or anywhere when there are none), boundaries included"""
    n = r.H.shape[1]
    q = np.zeros(n)
    lo, hi = r.joint_lower_limit, r.joint_upper_limit
    for i in range(n):
        if lo is None or hi is None:
            q[i] = angle(rng, wide) if int(r.joint_type[i]) in (0, 2) else rng.uniform(-2, 2)
            continue
        c = rng.random()
        if c < 0.1:
            q[i] = lo[i]
        elif c < 0.2:
            q[i] = hi[i]
        elif c < 0.35 and lo[i] <= 0 <= hi[i]:
            q[i] = 0
        else:
            q[i] = rng.uniform(lo[i], hi[i])
    return q


def inner_config(rng, lo, hi, margin=1e-3):
    return rng.uniform(np.asarray(lo)+margin, np.asarray(hi)-margin)
