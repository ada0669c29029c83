"""C11-C13: the canonical geometric subproblems. The oracles below are also used on the subproblem calls recorded
inside the inverse kinematics (p_ik)."""
import math, warnings
import numpy as np
import general_robotics_toolbox as rox
from .core import Prop
from . import ref, gen
from .gen import PI, pick

PROPS = {}
N = np.linalg.norm


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


def perp(v, k):
    v = np.asarray(v, dtype=float)
    return v - np.dot(v, k)*k


def pvec(rng):
    """non-zero vector of moderate size"""
    c = rng.random()
    s = 10.0**rng.uniform(-1.5, 1.5) if rng.random() < .6 else 1.0
    if c < .3:
        return s*pick(rng, [-1.0, 1.0])*gen.E[int(rng.integers(3))]
    if c < .45:
        v = np.array([float(x) for x in rng.integers(-2, 3, 3)])
        if N(v) > 0:
            return s*v
    return s*gen.unit(rng)


def size(rng):
    """of the whole problem: from micrometres to the distances between planets"""
    return 10.0**rng.uniform(-6, 6) if rng.random() < .15 else 1.0


def arr(rng, v):
    """as callers hold vectors: arrays, integer arrays, strided columns"""
    v = np.asarray(v, dtype=float)
    c = rng.random()
    if c < .15 and all(float(x).is_integer() for x in v):
        return v.astype(int)
    if c < .35:
        z = np.zeros((3, 3))
        z[:, 1] = v
        return z[:, 1]
    return v.copy()


def has(sols, want, tol):
    want = np.atleast_1d(np.asarray(want, dtype=float))
    return any(np.abs(ref.wrap(np.atleast_1d(np.asarray(s, dtype=float)) - want)).max() <= tol for s in sols)


def warned(f):
    """answer, and whether there was a warning"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        return f(), len(w) > 0


def number(m, x, what):
    m.check(np.shape(x) == () and np.isfinite(x), what + ': the angle is not a finite number', theta=x)


# ------------------------------------------------------------------------------------- oracles
def oracle1(m, p, q, k, th, where='', nothing=1e-6):
    """th turns the part of p across k towards the part of q across k"""
    number(m, th, 'subproblem 1' + where)
    p, q, k = [np.asarray(x, dtype=float) for x in (p, q, k)]
    k = k/N(k)
    pp, qp = perp(p, k), perp(q, k)
    a, b = N(pp), N(qp)
    m.check(-PI - 1e-9 <= th <= PI + 1e-9, 'angle is not in -pi..pi' + where, theta=th, p=p, q=q, k=k)
    if a < 1e-6*N(p) or b < 1e-6*N(q) or min(a, b) < nothing:
        return 'along'
    if nothing == 0:
        a1, b1 = a/N(p), b/N(q)
    else:
        a1, b1 = a, b
    r = N(ref.rot(k, th) @ (pp/a) - qp/b)
    m.check(r <= 1e-6 + 1e-7/min(a1, b1), 'turning the first vector does not align it with the second' + where, theta=th, residual=r, p=p, q=q, k=k)
    return 'ok'


def oracle2(m, p, q, k1, k2, sols, where='', rounding=1e-6, nothing=1.0):
    """every pair turns p into q (when |p|=|q|); pairs are distinct"""
    p, q, k1, k2 = [np.asarray(x, dtype=float) for x in (p, q, k1, k2)]
    m.check(isinstance(sols, list) and len(sols) <= 2, 'subproblem 2 does not return a list of at most two pairs' + where, sols=sols)
    for s in sols:
        m.check(len(s) == 2, 'subproblem 2 does not return pairs' + where, sols=sols)
        for x in s:
            number(m, x, 'subproblem 2' + where)
        r = N(ref.rot(k1, s[0]) @ (ref.rot(k2, s[1]) @ p) - q)
        m.check(r <= rounding*(N(p) + nothing), 'the two rotations do not take the first vector to the second' + where, sols=sols, residual=r, p=p, q=q, k1=k1, k2=k2)


def dist3(p, q, k, th):
    return N(q + ref.rot(k, th) @ p)


def oracle3(m, p, q, k, d, sols, where=''):
    p, q, k = [np.asarray(x, dtype=float) for x in (p, q, k)]
    m.check(isinstance(sols, list) and len(sols) <= 2, 'subproblem 3 does not return a list of at most two angles' + where, sols=sols)
    for s in sols:
        number(m, s, 'subproblem 3' + where)
        r = abs(dist3(p, q, k, s)**2 - d*d)
        m.check(r <= 1e-11*(N(p) + N(q))**2, 'the angle does not give the distance' + where, sols=sols, residual=r, p=p, q=q, k=k, d=d)


def oracle4(m, p, q, k, d, sols, where=''):
    p, q, k = [np.asarray(x, dtype=float) for x in (p, q, k)]
    m.check(isinstance(sols, list) and len(sols) <= 2, 'subproblem 4 does not return a list of at most two angles' + where, sols=sols)
    for s in sols:
        number(m, s, 'subproblem 4' + where)
        r = abs(np.dot(p, ref.rot(k, s) @ q) - d)
        m.check(r <= 1e-11*(N(p)*N(q)), 'the angle does not give the displacement' + where, sols=sols, residual=r, p=p, q=q, k=k, d=d)


# ------------------------------------------------------------------------------------------------ C11
C11 = prop('C11', 'Vectors across and oblique to special/random axes, turned by special angles (0, pi, +-1e-15..1e-3) and '
           'random ones, vectors along the axis, different lengths, axes that are not normalised, not perpendicular '
           'vectors. Distinct inputs counted.',
           need={'case:sub0': 300, 'case:sub1': 300, 'refused': 100, 'along the axis': 30, 'half turn': 30, 'unreachable': 50, 'warned': 300, 'not warned': 1000, 'zero vector': 100})


@C11.workload(30000)
def subproblem0(m, rng, i):
    k = gen.axis(rng)
    while True:
        p = pvec(rng)
        if N(perp(p, k)) > 1e-3*N(p):
            break
    p = perp(perp(p, k)*size(rng), k)
    t = gen.angle(rng, False)
    q = ref.rot(k, t) @ p
    if rng.random() < .3:
        q = q*10.0**rng.uniform(-1, 1)*size(rng)
    q = perp(q, k)
    m.case('sub0', p=p, q=q, k=k)
    th = rox.subproblem0(arr(rng, p), arr(rng, q), arr(rng, k))
    number(m, th, 'subproblem 0')
    m.check(-PI - 1e-9 <= th <= PI + 1e-9, 'angle is not in -pi..pi', theta=th)
    m.close(float(ref.wrap(th - t)), 0.0, 1e-10, 'angle between the vectors is not the one they were turned by', theta=th, turned=t)
    m.seen('half turn', int(abs(abs(th)-PI) < 1e-3))
    # half a turn is +pi, not -pi
    th = rox.subproblem0(arr(rng, p), arr(rng, -p*pick(rng, [1.0, .5, 4.0])), arr(rng, k))
    m.check(PI - 1e-12 < th <= PI, 'the angle between opposite vectors is not pi', theta=th, p=p)
    a = rng.uniform(.01, 1.5)*pick(rng, [-1, 1])
    bad = p + a*N(p)*k
    m.seen('refused')
    if rng.random() < .5:
        m.raises(lambda: rox.subproblem0(bad, q, k), 'a first vector that is not across the axis was accepted', bad=bad)
    else:
        bad = q + a*N(q)*k
        m.raises(lambda: rox.subproblem0(p, bad, k), 'a second vector that is not across the axis was accepted', bad=bad)


@C11.workload(36000)
def subproblem1(m, rng, i):
    k = gen.axis(rng)
    p = pvec(rng)*size(rng)
    t = gen.angle(rng, False)
    c = rng.random()
    if c < .12:
        p = k*rng.uniform(.1, 3)*pick(rng, [-1, 1])*size(rng)
    q = ref.rot(k, t) @ p
    if c > .85:        # not reachable: closest alignment
        q = q*rng.uniform(.3, 3) + rng.uniform(-1, 1)*k*N(p)
        m.seen('unreachable')
    ks = k*10.0**rng.uniform(-2, 2) if rng.random() < .2 else k
    m.case('sub1', p=p, q=q, k=ks)
    th, w = warned(lambda: rox.subproblem1(arr(rng, p), arr(rng, q), arr(rng, ks)))
    o = oracle1(m, p, q, ks, th, nothing=0)
    if o == 'along':
        m.seen('along the axis')
        return
    if N(perp(p, k)) > 1e-3*N(p) and c <= .85:
        # the angle of the turn, up to what is not visible in the vectors
        m.close(float(ref.wrap(th - t)), 0.0, 1e-12*N(p)/N(perp(p, k)) + 1e-10, 'angle is not the one the vector was turned by', theta=th, turned=t)
    m.seen('half turn', int(abs(abs(th)-PI) < 1e-3))
    r = N(q)/N(p)
    if not .95 < r < 1.05:
        m.seen('warned')
        m.check(w, 'vectors of different lengths do not give a warning', ratio=r)
    elif abs(r - 1) < 1e-3:
        m.seen('not warned')
        m.check(not w, 'vectors of the same length give a warning', ratio=r)


@C11.workload(900)
def nothing_to_turn(m, rng, i):
    k, p = gen.axis(rng), pvec(rng)*size(rng)
    z = np.zeros(3)
    p, q = [(z, p), (p, z), (z, z), (p, p)][i % 4]
    m.case('sub1', p=p, q=q, k=k)
    m.seen('zero vector')
    th = rox.subproblem1(arr(rng, p), arr(rng, q), k)
    number(m, th, 'subproblem 1 of zero or equal vectors')
    if p is q:
        m.check(th == 0, 'equal vectors are turned', theta=th)


# ------------------------------------------------------------------------------------------------ C12
C12 = prop('C12', 'Vectors turned by two known angles about parallel-excluded special/random axis pairs (also nearly '
           'parallel and perpendicular), tangent cones, and vectors provably out of reach. Distinct inputs counted.',
           need={'case:sub2': 500, 'two solutions': 200, 'out of reach': 100, 'tangent': 30, 'nearly parallel axes': 1000})


@C12.workload(36000)
def subproblem2(m, rng, i):
    k1 = gen.axis(rng)
    while True:
        k2 = gen.axis(rng)
        if rng.random() < .1:
            k2 = ref.rot(gen.axis(rng), pick(rng, [1e-2, .1, PI/2])) @ k1
            k2 /= N(k2)
        s12 = N(ref.cross(k1, k2))
        if s12 > 5e-3:
            break
    c = rng.random()
    if c < .2:        # provably out of reach: the angle of the vectors to the axes cannot be made to meet
        p, q = pvec(rng)*size(rng), None
        a2 = math.acos(max(-1, min(1, np.dot(p, k2)/N(p))))
        g = math.acos(max(-1, min(1, np.dot(k1, k2))))
        # reachable angles to k1: |g-a2| .. pi-|pi-g-a2|
        lo, hi = abs(g - a2), PI - abs(PI - g - a2)
        w = [x for x in (lo - rng.uniform(.02, 1), hi + rng.uniform(.02, 1)) if 0 <= x <= PI]
        if not w:
            return
        a1 = pick(rng, w)
        u = perp(gen.unit(rng), k1)
        u /= N(u)
        q = N(p)*(math.cos(a1)*k1 + math.sin(a1)*u)
        m.case('sub2', p=p, q=q, k1=k1, k2=k2)
        m.seen('out of reach')
        s, w = warned(lambda: rox.subproblem2(arr(rng, p), arr(rng, q), arr(rng, k1), arr(rng, k2)))
        m.check(isinstance(s, list) and len(s) == 0, 'an unreachable vector has solutions', sols=s)
        m.check(w, 'an unreachable vector does not give a warning')
        return
    t1, t2 = gen.angle(rng, False), gen.angle(rng, False)
    p = pvec(rng)*size(rng)
    tangent = c < .35
    if tangent:
        # p in the plane of the axes: the cones touch
        n = ref.cross(k1, k2)/s12
        l = N(p)
        p = p - np.dot(p, n)*n
        if N(p) < 1e-2*l:
            return
        t2 = pick(rng, [0.0, PI])
        m.seen('tangent')
    q = ref.rot(k1, t1) @ (ref.rot(k2, t2) @ p)
    m.case('sub2', p=p, q=q, k1=k1, k2=k2)
    s = rox.subproblem2(arr(rng, p), arr(rng, q), arr(rng, k1), arr(rng, k2))
    # at a tangency the angles are defined to the square root of the rounding
    oracle2(m, p, q, k1, k2, s, rounding=1e-6/s12 if tangent else 1e-7/s12**2, nothing=0)
    # how far the solutions are apart: the triple product of k1, k2 and the vector between the rotations
    v = ref.rot(k2, t2) @ p
    vol = abs(np.dot(v, ref.cross(k1, k2)))/N(p)
    if s12 > .1 or vol > 1e-3:
        m.check(len(s) > 0, 'a reachable vector has no solution', t1=t1, t2=t2)
    if vol > 1e-3:
        a, b = N(perp(p, k2)), N(perp(q, k1))
        if min(a, b) > 1e-2*N(p):
            m.seen('two solutions')
            oracle2(m, p, q, k1, k2, s, ' to the precision of the numbers', 1e-11*N(p)/(s12**2*vol*min(a, b)), 0)
            m.check(len(s) == 2, 'one of the two solutions is missing', sols=s, t1=t1, t2=t2)
            tol = 1e-10/(s12**2*vol*min(a, b)/N(p)) + 1e-10
            m.check(has(s, (t1, t2), tol), 'the rotations the vector was turned by are missing', sols=s, t1=t1, t2=t2, tol=tol)
            # the other one is the mirror image in the plane of the axes
            n = ref.cross(k1, k2)/s12
            v2 = v - 2*np.dot(v, n)*n
            o = [x for x in s if N(ref.rot(k2, x[1]) @ p - v2) < 1e-5*N(p)/(s12*vol)]
            m.check(len(o) >= 1, 'the mirrored solution is missing', sols=s)
    if rng.random() < .03:
        s, w = warned(lambda: rox.subproblem2(p, q, k1, pick(rng, [-1, 1])*k1))
        m.check(isinstance(s, list) and len(s) == 0, 'parallel axes do not give an empty result', sols=s)
        m.check(w, 'parallel axes do not give a warning')


@C12.workload(9000)
def pairs_close_together(m, rng, i):
    """next to a tangency there are two pairs, close together"""
    k1, k2 = gen.axis(rng), gen.axis(rng)
    n = ref.cross(k1, k2)
    s12 = N(n)
    if s12 < .3:
        return
    n = n/s12
    e = math.cos(a := rng.uniform(.6, PI - .6))*k2 + math.sin(a)*ref.cross(n, k2)       # in the plane of the axes, across k2
    L = 10.0**rng.uniform(-1, 1)*size(rng)
    t1, t2 = gen.angle(rng, False), pick(rng, [-1, 1])*10.0**rng.uniform(-6.2, -2)
    p = L*e
    q = ref.rot(k1, t1) @ (ref.rot(k2, t2) @ p)
    if N(perp(q, k1)) < .3*L:
        return
    m.case('sub2', p=p, q=q, k1=k1, k2=k2)
    m.seen('two pairs close together')
    s = rox.subproblem2(arr(rng, p), arr(rng, q), arr(rng, k1), arr(rng, k2))
    oracle2(m, p, q, k1, k2, s, nothing=0)
    m.check(len(s) == 2, 'one of two solutions close together is missing', sols=s, t1=t1, t2=t2)
    m.check(has(s, (t1, t2), .2*abs(t2) + 1e-6), 'the rotations the vector was turned by are missing next to a tangency', sols=s, t1=t1, t2=t2)
    m.check(any(abs(ref.wrap(x[1] + t2)) < .2*abs(t2) + 1e-6 for x in s), 'the mirrored pair is missing next to a tangency', sols=s, t1=t1, t2=t2)


@C12.workload(6000)
def axes_nearly_parallel(m, rng, i):
    k1 = gen.axis(rng)
    u = perp(gen.unit(rng), k1)
    e = 10.0**rng.uniform(-4, -1.5)
    k2 = ref.rot(u/N(u), e) @ (pick(rng, [-1.0, 1.0])*k1)
    n = ref.cross(k1, k2)
    n /= N(n)
    p = pvec(rng)*size(rng)
    t1, t2 = gen.angle(rng, False), gen.angle(rng, False)
    v = ref.rot(k2, t2) @ p
    q = ref.rot(k1, t1) @ v
    if abs(np.dot(v, n)) < .1*N(p):
        return
    m.case('sub2', p=p, q=q, k1=k1, k2=k2)
    m.seen('nearly parallel axes')
    s = rox.subproblem2(arr(rng, p), arr(rng, q), arr(rng, k1), arr(rng, k2))
    m.check(len(s) == 2, 'one of the two solutions about nearly parallel axes is missing', sols=s, t1=t1, t2=t2)
    oracle2(m, p, q, k1, k2, s, ' about nearly parallel axes', 1e-11/e, 0)
    m.check(has(s, (t1, t2), 1e-11/e**2), 'the rotations the vector was turned by are missing', sols=s, t1=t1, t2=t2)


# ------------------------------------------------------------------------------------------------ C13
C13 = prop('C13', 'Elbow distances and displacements produced by known angles, at and around the ends of the reachable '
           'range (full extension, retraction), and provably out of it; special and random axes and vectors. Distinct '
           'inputs counted.',
           need={'case:sub3': 300, 'case:sub4': 300, 'sub3 folded': 50, 'sub3 empty': 100, 'sub4 empty': 100, 'sub3 end of range': 50,
                 'sub4 end of range': 50, 'sub3 two solutions': 100, 'sub4 two solutions': 100, 'two angles close together': 1000})


@C13.workload(36000)
def subproblem3(m, rng, i):
    k = gen.axis(rng)
    while True:
        p, q = pvec(rng), pvec(rng)
        a, b = N(perp(p, k)), N(perp(q, k))
        if a > 1e-2*N(p) and b > 1e-2*N(q) and max(a, b) < 200*min(a, b):
            break
    z = size(rng)
    p, q, a, b = p*z, q*z, a*z, b*z
    c = rng.random()
    if c > .93:      # equally long arms, so that the arm folds onto the axis
        q = ref.rot(k, gen.angle(rng)) @ perp(p, k) + pick(rng, [0.0, -1.0, 1.0, rng.uniform(-1, 1)])*np.dot(p, k)*k
        if a > .3*N(p):
            m.seen('sub3 folded')
            d = abs(float(np.dot(k, np.add(p, q))))
            m.case('sub3', p=p, q=q, k=k, d=d)
            s = rox.subproblem3(arr(rng, p), arr(rng, q), arr(rng, k), d)
            oracle3(m, p, q, k, d, s)
            al = math.atan2(np.dot(k, ref.cross(perp(p, k), perp(q, k))), np.dot(perp(p, k), perp(q, k)))
            m.check(len(s) >= 1, 'the arm folded onto the axis has no solution')
            m.check(has(s, al + PI, 1e-4), 'the angle that folds the arm is missing', sols=s, t=al + PI)
            return
        b = N(perp(q, k))
    c2 = np.dot(k, p + q)
    dmin, dmax = math.sqrt(c2**2 + (a-b)**2), math.sqrt(c2**2 + (a+b)**2)
    if c < .2:
        w = [dmax*(1 + rng.uniform(1e-4, 1)), dmax + 10.0*z]
        e, L2 = 10.0**rng.uniform(-9, -2), (N(p) + N(q))**2
        if e*dmax**2 > 1e-10*L2:
            w.append(dmax*(1 + e))
        if dmin > 1e-3*(a+b):
            w += [dmin*(1 - rng.uniform(1e-4, 1)), 0.0]
            if e*dmin**2 > 1e-10*L2:
                w.append(dmin*(1 - e))
        d = float(pick(rng, w))
        m.case('sub3', p=p, q=q, k=k, d=d)
        m.seen('sub3 empty')
        s, w = warned(lambda: rox.subproblem3(arr(rng, p), arr(rng, q), arr(rng, k), d))
        m.check(isinstance(s, list) and len(s) == 0, 'an unreachable distance has solutions', sols=s, range=(dmin, dmax))
        m.check(w, 'an unreachable distance does not give a warning')
        return
    end = c < .4
    if end:          # exactly at the end of the range, as far as doubles go
        al = math.atan2(np.dot(k, ref.cross(perp(p, k), perp(q, k))), np.dot(perp(p, k), perp(q, k)))
        t = al + pick(rng, [0.0, PI])
        m.seen('sub3 end of range')
    else:
        t = gen.angle(rng, False)
    d = dist3(p, q, k, t)
    m.case('sub3', p=p, q=q, k=k, d=d)
    s = rox.subproblem3(arr(rng, p), arr(rng, q), arr(rng, k), d)
    oracle3(m, p, q, k, d, s)
    # relative position in the range decides how well the angle is defined
    if end:
        if dmin > 1e-2*(a + b) and 2*a*b > .05*(N(p) + N(q))**2:
            m.check(len(s) >= 1, 'the distance at the end of the range has no solution', t=t, range=(dmin, dmax))
            m.check(has(s, t, 1e-4), 'the angle at the end of the range is missing', sols=s, t=t)
        return
    sl = a*b*abs(math.sin(t - math.atan2(np.dot(k, ref.cross(perp(p, k), perp(q, k))), np.dot(perp(p, k), perp(q, k)))))/((N(p)+N(q))**2)
    if sl > 1e-4 and d > 1e-3*(N(p)+N(q)):
        m.seen('sub3 two solutions')
        m.check(len(s) == 2, 'one of the two solutions is missing', sols=s, t=t)
        al = math.atan2(np.dot(k, ref.cross(perp(p, k), perp(q, k))), np.dot(perp(p, k), perp(q, k)))
        tol = 1e-9/sl
        m.check(has(s, t, tol + 1e-7), 'the angle that gives the distance is missing', sols=s, t=t)
        m.check(has(s, 2*al - t, tol + 1e-7), 'the mirrored angle that gives the distance is missing', sols=s, t=2*al - t)


@C13.workload(36000)
def subproblem4(m, rng, i):
    k = gen.axis(rng)
    while True:
        p, q = pvec(rng), pvec(rng)
        a, b = N(perp(p, k)), N(perp(q, k))
        if a > 1e-2*N(p) and b > 1e-2*N(q):
            break
    z, y = size(rng), size(rng)
    p, q, a, b = p*z, q*y, a*z, b*y
    c0 = np.dot(k, p)*np.dot(k, q)
    c = rng.random()
    if c < .25:
        d = c0 + pick(rng, [-1, 1])*a*b*(1 + pick(rng, [rng.uniform(1e-4, 1), 10.0**rng.uniform(-9, 3)]))
        m.case('sub4', p=p, q=q, k=k, d=d)
        m.seen('sub4 empty')
        if abs(d - c0) < a*b*(1 + 1e-9) + 1e-10*N(p)*N(q):
            return
        s = rox.subproblem4(arr(rng, p), arr(rng, q), arr(rng, k), d)
        m.check(isinstance(s, list) and len(s) == 0, 'an unreachable displacement has solutions', sols=s, range=(c0-a*b, c0+a*b))
        return
    al = math.atan2(np.dot(k, ref.cross(perp(q, k), perp(p, k))), np.dot(perp(p, k), perp(q, k)))
    end = c < .4
    if end:
        t = al + pick(rng, [0.0, PI])
        m.seen('sub4 end of range')
    else:
        t = gen.angle(rng, False)
    d = float(np.dot(p, ref.rot(k, t) @ q))
    m.case('sub4', p=p, q=q, k=k, d=d)
    s = rox.subproblem4(arr(rng, p), arr(rng, q), arr(rng, k), d)
    oracle4(m, p, q, k, d, s)
    if end:
        if abs(c0) < 100*a*b:
            m.check(len(s) >= 1, 'the displacement at the end of the range has no solution', t=t, range=(c0-a*b, c0+a*b))
            m.check(has(s, t, 1e-4), 'the angle at the end of the range is missing', sols=s, t=t)
        return
    sl = a*b*abs(math.sin(t - al))/(N(p)*N(q))
    if sl > 1e-4:
        m.seen('sub4 two solutions')
        m.check(len(s) == 2, 'one of the two solutions is missing', sols=s, t=t)
        m.check(has(s, t, 1e-9/sl + 1e-7), 'the angle that gives the displacement is missing', sols=s, t=t)
        m.check(has(s, 2*al - t, 1e-9/sl + 1e-7), 'the mirrored angle that gives the displacement is missing', sols=s, t=2*al-t)


@C13.workload(9000)
def angles_close_together(m, rng, i):
    """next to an end of the reachable range there are two angles, close together"""
    k = gen.axis(rng)
    u = ref.cross(k, gen.unit(rng))
    if N(u) < .1:
        return
    u = u/N(u)
    L = 10.0**rng.uniform(-1, 1)*size(rng)
    a, b = L*rng.uniform(.5, 2, 2)
    al = gen.angle(rng, False)
    p = a*u + L*rng.uniform(-1, 1)*pick(rng, [0, 1])*k
    q = ref.rot(k, al) @ (b*u) + L*rng.uniform(-1, 1)*pick(rng, [0, 1])*k
    z = pick(rng, [0.0, PI])
    dt = pick(rng, [-1, 1])*10.0**rng.uniform(-6.2, -2)
    tol = .2*abs(dt) + 1e-7
    if i % 2:
        if z and abs(a - b) < .2*L:
            return
        t = al + z + dt
        d = dist3(p, q, k, t)
        m.case('sub3', p=p, q=q, k=k, d=d)
        s = rox.subproblem3(arr(rng, p), arr(rng, q), arr(rng, k), d)
        oracle3(m, p, q, k, d, s)
    else:
        t = -al + z + dt
        d = float(np.dot(p, ref.rot(k, t) @ q))
        m.case('sub4', p=p, q=q, k=k, d=d)
        s = rox.subproblem4(arr(rng, p), arr(rng, q), arr(rng, k), d)
        oracle4(m, p, q, k, d, s)
    m.seen('two angles close together')
    m.check(len(s) == 2, 'one of two angles close together is missing', sols=s, t=t)
    m.check(has(s, t, tol) and has(s, t - 2*dt, tol), 'angles close together are missing', sols=s, t=t, dt=dt)
