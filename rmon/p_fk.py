"""C07-C10: forward kinematics, Jacobian, tool/flange/base transforms, robot construction"""
import math
import numpy as np
import general_robotics_toolbox as rox
from .core import Prop
from . import ref, gen
from .gen import PI, pick

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


def qform(rng, q):
    c = int(rng.integers(5))
    if c == 0:
        return [float(x) for x in q]
    if c == 1:
        return tuple(float(x) for x in q)
    if c == 2:
        z = np.zeros((len(q), 3))
        z[:, 1] = q
        return z[:, 1]
    return np.array(q, dtype=float)


def jform(rng, q):
    """joint vectors, also as the documented N x 1 array"""
    return np.array(q, dtype=float).reshape(-1, 1) if rng.random() < .15 else qform(rng, q)


def scale(r):
    s = 1 + np.abs(r.P).sum() + 20.0*sum(1 for t in r.joint_type if int(t) in (1, 3))
    for T in (r.T_base, r.T_flange):
        if T is not None:
            s += np.abs(T.p).sum()
    if r.p_tool is not None:
        s += np.abs(r.p_tool).sum()
    return s


# ------------------------------------------------------------------------------------------------ C07
C07 = prop('C07', 'Random robots of 1..10 joints, mixed joint kinds (including the mobile ones), special and random axes, '
           'zero link offsets, with and without limits/tool/flange/base; joint vectors inside, on and outside the '
           'limits as list/tuple/array/strided. Distinct (robot, joints) counted; reference: homogeneous matrices.',
           need={'case:fk': 300, 'outside': 100, 'on limit': 100, 'limits ignored': 100})


@C07.workload(24000)
def pose(m, rng, i):
    n = pick(rng, [0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 10]) if i % 7 == 0 else None
    r = gen.any_robot(rox, rng, n=n, kinds=pick(rng, [(0, 1), (0, 1), (0,), (0, 1, 2, 3)]))
    q = gen.config(rng, r)
    m.case('fk', robot=r, q=q)
    T = rox.fwdkin(r, jform(rng, q))
    X = ref.robot_fk(r, q)
    tol = 1e-13*(10 + np.abs(q).sum())
    m.close(T.R, X[0:3, 0:3], tol, 'tool orientation is wrong')
    m.close(T.p, X[0:3, 3], tol*scale(r), 'tool position is wrong')
    m.check(ref.is_rotation(T.R, 1e-11), 'tool orientation is not a rotation')
    T2 = rox.fwdkin(r, q)
    m.check(np.array_equal(T.R, T2.R) and np.array_equal(T.p, T2.p), 'the same joints give another pose')
    # adding a full turn of a revolute joint does not move the tool
    if r.joint_lower_limit is None:
        rev = [k for k in range(len(q)) if int(r.joint_type[k]) in (0, 2)]
        if rev:
            k = pick(rng, rev)
            q2 = q.copy()
            q2[k] += 2*PI*pick(rng, [-1, 1, 2])
            T2 = rox.fwdkin(r, q2)
            m.close(T2.R, X[0:3, 0:3], tol*4, 'a full turn of a joint changes the orientation', joint=k)
            m.close(T2.p, X[0:3, 3], tol*4*scale(r), 'a full turn of a joint changes the position', joint=k)
        big = q + rng.uniform(-50, 50, len(q))
        if rng.random() < .3:         # after many turns
            for k in rev:
                big[k] = pick(rng, [-1, 1])*10.0**rng.uniform(1, 6)
        T2, X2 = rox.fwdkin(r, big), ref.robot_fk(r, big)
        tol2 = 1e-13*(1e3 + np.abs(big).sum())
        m.close(T2.R, X2[0:3, 0:3], tol2, 'a robot without limits is limited', big=big)
        m.close(T2.p, X2[0:3, 3], tol2*10*scale(r), 'a robot without limits is limited', big=big)
    # integer joint vectors
    if r.joint_lower_limit is None and rng.random() < .2:
        qi = rng.integers(-3, 4, len(q))
        m.close(rox.fwdkin(r, pick(rng, [qi, qi.tolist()])).p, ref.robot_fk(r, qi)[0:3, 3], tol*10*scale(r), 'integer joints are wrong', qi=qi)


@C07.workload(18000)
def limit_gate(m, rng, i):
    r = gen.any_robot(rox, rng, with_limits=True)
    n = len(r.joint_type)
    form = pick(rng, [np.array, list, tuple])
    lo, hi = r.joint_lower_limit.copy(), r.joint_upper_limit.copy()
    r.joint_lower_limit, r.joint_upper_limit = form(lo), form(hi)
    q = gen.config(rng, r)
    j = int(rng.integers(n))
    q[j] = pick(rng, [lo[j], hi[j]])
    m.case('gate', robot=r, q=q)
    m.seen('on limit')
    for f in (rox.fwdkin, rox.robotjacobian):
        try:
            f(r, jform(rng, q))
        except AssertionError:
            m.check(False, 'joints on their limits were refused', joint=j, q=q)
    X = ref.robot_fk(r, q)
    m.close(rox.fwdkin(r, q).p, X[0:3, 3], 1e-11*scale(r), 'pose on a limit is wrong')
    d = pick(rng, [1e-9, 1e-6, 1e-3, 0.1, 1.0, 2*PI, 100.0, 1e300])
    bad = q.copy()
    side = pick(rng, [-1, 1])
    bad[j] = (lo[j] - d) if side < 0 else (hi[j] + d)
    if rng.random() < .05:
        bad[j] = pick(rng, [np.inf, -np.inf, np.nan])
    m.seen('outside')
    m.raises(lambda: rox.fwdkin(r, jform(rng, bad)), 'pose of joints outside the limits was not refused', joint=j, bad=bad)
    m.raises(lambda: rox.robotjacobian(r, jform(rng, bad)), 'Jacobian of joints outside the limits was not refused', joint=j, bad=bad)
    # unless the caller asks to ignore the limits
    if np.abs(bad).max() <= 200:
        m.seen('limits ignored')
        kw = {'_ignore_limits': True}
        X, Jx = ref.robot_fk(r, bad), ref.robot_jac(r, bad) if set(int(t) for t in r.joint_type) <= {0, 1} else None
        tol = 1e-12*(10 + np.abs(bad).sum())
        sc = scale(r) + np.abs(bad).sum()
        T = rox.fwdkin(r, jform(rng, bad), **kw) if i % 2 else rox.fwdkin(r, jform(rng, bad), True)
        m.close(T.R, X[0:3, 0:3], tol, 'orientation with the limits ignored is wrong', joint=j, bad=bad)
        m.close(T.p, X[0:3, 3], tol*sc, 'position with the limits ignored is wrong', joint=j, bad=bad)
        J = rox.robotjacobian(r, jform(rng, bad), **kw) if i % 2 else rox.robotjacobian(r, jform(rng, bad), True)
        if Jx is not None:
            m.close(J, Jx, tol*sc, 'Jacobian with the limits ignored is wrong', joint=j, bad=bad)
        m.raises(lambda: rox.fwdkin(r, bad, _ignore_limits=False), 'pose of joints outside the limits was not refused', joint=j, bad=bad)


# ------------------------------------------------------------------------------------------------ C08
C08 = prop('C08', 'As C07, revolute and prismatic joints. Every Jacobian is compared column by column with the exact '
           'geometric Jacobian of a reference and with finite differences of the real forward kinematics.',
           need={'case:jac': 300, 'prismatic column': 100, 'revolute column': 100, 'finite difference': 100, 'case:mobile': 100})


@C08.workload(18000)
def jacobian(m, rng, i):
    r = gen.any_robot(rox, rng)
    q = gen.config(rng, r)
    n = len(q)
    m.case('jac', robot=r, q=q)
    J = rox.robotjacobian(r, jform(rng, q))
    m.check(np.shape(J) == (6, n), 'Jacobian is not 6 x N', shape=np.shape(J))
    X = ref.robot_jac(r, q)
    npr = sum(1 for t in r.joint_type if int(t) == 1)
    m.seen('prismatic column', npr)
    m.seen('revolute column', n - npr)
    tol = 1e-13*(10 + np.abs(q).sum())
    m.close(J[0:3], X[0:3], tol, 'angular rows of the Jacobian are wrong')
    m.close(J[3:6], X[3:6], tol*scale(r), 'linear rows of the Jacobian are wrong')
    J2 = rox.robotjacobian(r, q)
    m.check(np.array_equal(J, J2), 'the same joints give another Jacobian')
    if i % 4 == 0:
        m.seen('finite difference')
        r.joint_lower_limit = r.joint_upper_limit = None
        h = 1e-5
        R0 = rox.fwdkin(r, q).R
        for k in range(n):
            e = np.zeros(n)
            e[k] = h
            A, B = rox.fwdkin(r, q+e), rox.fwdkin(r, q-e)
            m.close(J[3:6, k], (A.p-B.p)/(2*h), 1e-7*scale(r), 'tool does not move as the Jacobian says', joint=k)
            W = (A.R-B.R) @ R0.T/(2*h)
            m.close(J[0:3, k], np.array([W[2, 1]-W[1, 2], W[0, 2]-W[2, 0], W[1, 0]-W[0, 1]])/2, 1e-7, 'tool does not turn as the Jacobian says', joint=k)


@C08.workload(3000)
def mobile_base(m, rng, i):
    """an arm on a mobile base (two translations and a turn): the columns of the base are driving ahead and turning"""
    n = int(rng.integers(0, 7))
    b = int(rng.integers(1, 3)) if rng.random() < .25 else 0       # joints that carry the mobile base
    m.seen('base on other joints', int(b > 0))
    Q = np.eye(3) if rng.random() < .5 else gen.R(rng)
    H = np.column_stack([gen.axis(rng) for _ in range(b)] + [Q] + [gen.axis(rng) for _ in range(n)])
    P = np.column_stack([gen.vec(rng) if rng.random() < .5 else np.zeros(3) for _ in range(b + n + 4)])
    jt = [int(x) for x in rng.integers(0, 2, b)] + [3, 3, 2] + [int(x) for x in rng.integers(0, 2, n)]
    kw = {}
    gen.add_aux(rox, rng, kw)
    r = rox.Robot(H, P, pick(rng, [list, np.array])(jt), **kw)
    q = np.concatenate((rng.uniform(-3, 3, b), rng.uniform(-5, 5, 2), [gen.angle(rng)], rng.uniform(-3, 3, n)))
    m.case('mobile', robot=r, q=q)
    J = rox.robotjacobian(r, jform(rng, q))
    m.check(np.shape(J) == (6, b + n + 2), 'the Jacobian of an arm on a mobile base is not 6 x (2 + arm joints)', shape=np.shape(J))
    X = ref.robot_jac(rox.Robot(H, P, jt[:b] + [1, 1, 0] + jt[b+3:], **kw), q)
    c, s = math.cos(q[b+2]), math.sin(q[b+2])
    E = np.column_stack((X[:, :b], X[:, b]*c + X[:, b+1]*s, X[:, b+2:]))
    tol = 1e-12*(10 + np.abs(q).sum())
    m.close(J[0:3], E[0:3], tol, 'angular rows of the Jacobian on a mobile base are wrong')
    m.close(J[3:6], E[3:6], tol*scale(r), 'linear rows of the Jacobian on a mobile base are wrong')
    h = 1e-5
    d = np.zeros(len(q))
    d[b:b+2] = h*c, h*s
    v = (rox.fwdkin(r, q + d).p - rox.fwdkin(r, q - d).p)/(2*h)
    m.close(J[3:6, b], v, 1e-7*scale(r), 'the tool does not move as the base drives')


# ------------------------------------------------------------------------------------------------ C09
C09 = prop('C09', 'All 8 combinations of tool, flange and base with random rigid transforms, random robots and poses; tool '
           'position as (3,) and (3,1). Distinct inputs counted.', need={'case:aux': 300, 'all three': 30, 'none': 20})


@C09.workload(18000)
def aux(m, rng, i):
    bits = i % 8
    r = gen.any_robot(rox, rng, aux=False, with_limits=False)
    if bits & 1:
        r.R_tool, r.p_tool = gen.R(rng), gen.vec(rng)
        if rng.random() < .3:
            r.p_tool = r.p_tool.reshape(3, 1)
    if bits & 2:
        r.T_flange = rox.Transform(gen.R(rng), gen.vec(rng))
    if bits & 4:
        r.T_base = rox.Transform(gen.R(rng), gen.vec(rng))
    m.seen('all three', int(bits == 7))
    m.seen('none', int(bits == 0))
    q = gen.config(rng, r)
    T = gen.transform(rox, rng)
    m.case('aux', robot=r, q=q, T=T)
    s = scale(r) + np.abs(T.p).sum()
    want = ref.hom(T.R, T.p)
    if bits & 2:
        want = want @ ref.hom(r.T_flange.R, r.T_flange.p)
    if bits & 1:
        want = want @ ref.hom(r.R_tool, r.p_tool)
    if bits & 4:
        want = ref.hom(r.T_base.R, r.T_base.p) @ want
    A = rox.apply_robot_aux_transforms(r, T)
    m.close(A.R, want[0:3, 0:3], 1e-13, 'applying flange, tool and base gives the wrong orientation')
    m.close(A.p, want[0:3, 3], 1e-13*s, 'applying flange, tool and base gives the wrong position')
    B = rox.unapply_robot_aux_transforms(r, A)
    m.close(B.R, T.R, 1e-12, 'removing the transforms does not undo applying them (orientation)')
    m.close(B.p, T.p, 1e-12*s, 'removing the transforms does not undo applying them (position)')
    C = rox.apply_robot_aux_transforms(r, rox.unapply_robot_aux_transforms(r, T))
    m.close(C.R, T.R, 1e-12, 'applying the transforms does not undo removing them (orientation)')
    m.close(C.p, T.p, 1e-12*s, 'applying the transforms does not undo removing them (position)')
    F = rox.fwdkin(r, q)
    X = ref.chain_fk(r.H, r.P, r.joint_type, q)
    U = rox.unapply_robot_aux_transforms(r, F)
    tol = 1e-12*(10 + np.abs(q).sum())
    m.close(U.R, X[0:3, 0:3], tol, 'tool pose without the transforms is not the end of the chain (orientation)')
    m.close(U.p, X[0:3, 3], tol*s, 'tool pose without the transforms is not the end of the chain (position)')
    bare = rox.Robot(r.H, r.P, r.joint_type)
    G = rox.apply_robot_aux_transforms(r, rox.fwdkin(bare, q))
    m.close(G.R, F.R, tol, 'forward kinematics does not apply flange, tool and base (orientation)')
    m.close(G.p, F.p, tol*s, 'forward kinematics does not apply flange, tool and base (position)')
    if bits == 0:
        m.check(np.array_equal(A.R, T.R) and np.array_equal(A.p, T.p), 'a robot without tool, flange and base changes the pose')


# ------------------------------------------------------------------------------------------------ C10
C10 = prop('C10', 'Valid robot descriptions with all optional data combined, and single-fault descriptions (axis length, '
           'joint kind, matrix shapes, lengths of limits/names/inertias). Distinct descriptions counted.',
           need={'case:valid': 200, 'case:invalid': 200})


def desc(rng):
    n = int(pick(rng, [1, 2, 3, 5, 6, 7, 9]))
    jt = [int(x) for x in rng.integers(0, 4, n)]
    H = np.array([gen.axis(rng) for _ in range(n)]).T.reshape(3, n)
    P = rng.uniform(-1, 1, (3, n+1))
    d = {'H': H, 'P': P, 'joint_type': pick(rng, [list, tuple, np.array, lambda x: np.array(x, dtype=float)])(jt)}
    lf = pick(rng, [list, np.array])
    opt = {'joint_lower_limit': lf(-rng.uniform(.1, 3, n)), 'joint_upper_limit': lf(rng.uniform(.1, 3, n)),
           'joint_vel_limit': lf(rng.uniform(.1, 3, n)), 'joint_acc_limit': lf(rng.uniform(.1, 3, n)),
           'M': [rng.standard_normal((6, 6)) for _ in range(n+1)], 'R_tool': gen.R(rng), 'p_tool': gen.vec(rng),
           'joint_names': ['j%d' % k for k in range(n)], 'root_link_name': 'root', 'tip_link_name': 'tip',
           'T_flange': rox.Transform(gen.R(rng), gen.vec(rng)), 'T_base': rox.Transform(gen.R(rng), gen.vec(rng))}
    return n, d, opt


def same(a, b):
    if hasattr(a, 'inv'):
        return hasattr(b, 'inv') and np.array_equal(a.R, b.R) and np.array_equal(a.p, b.p)
    if isinstance(a, list) and a and isinstance(a[0], np.ndarray):
        return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, str):
        return a == b
    return b is not None and len(a) == len(b) and all(np.all(x == y) for x, y in zip(a, b))


@C10.workload(12000)
def valid(m, rng, i):
    n, d, opt = desc(rng)
    use = {k: v for k, v in opt.items() if rng.random() < pick(rng, [0.2, 0.5, 0.9])}
    m.case('valid', d=dict(d, **use))
    r = rox.Robot(**dict(d, **use))
    exp = dict.fromkeys(opt, None)
    exp.update(use)
    if exp['joint_lower_limit'] is None or exp['joint_upper_limit'] is None:
        exp['joint_lower_limit'] = exp['joint_upper_limit'] = None
    if exp['R_tool'] is None or exp['p_tool'] is None:
        exp['R_tool'] = exp['p_tool'] = None
    exp.update(d)
    for k, v in exp.items():
        m.check(same(v, getattr(r, k)), 'the robot does not keep what it was given', attribute=k, given=v, kept=getattr(r, k))
    # positional order of the documented signature
    order = ['H', 'P', 'joint_type', 'joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit', 'M', 'R_tool',
             'p_tool', 'joint_names', 'root_link_name', 'tip_link_name', 'T_flange', 'T_base']
    r2 = rox.Robot(*[d[k] if k in d else use.get(k) for k in order])
    for k, v in exp.items():
        m.check(same(v, getattr(r2, k)), 'the robot does not keep what it was given by position', attribute=k)


FAULTS = ['axis long', 'axis short', 'axis zero', 'type', 'H rows', 'P rows', 'P cols', 'types len', 'lower', 'upper', 'vel', 'acc',
          'M count', 'M shape', 'names', 'axis nan', 'both limits', 'vel acc', 'H types', 'all', 'empty', 'types names', 'axes compensate',
          'lengths compensate', 'much longer']


@C10.workload(33600)
def invalid(m, rng, i):
    n, d, opt = desc(rng)
    use = {k: v for k, v in opt.items() if rng.random() < .5}
    f = FAULTS[i % len(FAULTS)]
    j = int(rng.integers(n))
    grow = pick(rng, [-1, 1])
    rform = pick(rng, [list, np.array])
    resize = lambda v: rform(list(v)[:-1]) if grow < 0 else rform(list(v) + [v[-1]])
    if f == 'axes compensate':      # the lengths are wrong but their mean, mean square or product is not
        d['H'] = d['H'].copy()
        if n < 2:
            d['H'] *= 1.1
        else:
            k = (j + 1 + int(rng.integers(n-1))) % n
            e = pick(rng, [.01, .2, .4])
            a, b = pick(rng, [(1 + e, 1 - e), (math.sqrt(1 + e), math.sqrt(1 - e)), (1 + e, 1/(1 + e))])
            d['H'][:, j] *= a
            d['H'][:, k] *= b
    elif f.startswith('axis'):
        d['H'] = d['H'].copy()
        d['H'][:, j] *= {'long': pick(rng, [1.0001, 1.001, 1.1, 2, 10]), 'short': pick(rng, [.9999, .999, .9, .5, 1e-3]), 'zero': 0.0, 'nan': np.nan}[f[5:]]
    elif f == 'type':
        t = [float(x) for x in d['joint_type']]
        t[j] = pick(rng, [4, -1, 0.5, 5, 100, 1.5, -2])
        d['joint_type'] = pick(rng, [list, tuple, np.array])(t)
    elif f == 'H rows':
        d['H'] = np.vstack((d['H'], np.zeros((1, n)))) if rng.random() < .5 else np.vstack([np.ones((1, n))])
    elif f == 'P rows':
        d['P'] = d['P'][0:2] if rng.random() < .5 else np.vstack((d['P'], d['P'][0:1]))
    elif f == 'P cols':
        d['P'] = d['P'][:, :-1] if rng.random() < .5 else np.hstack((d['P'], d['P'][:, 0:1]))
    elif f == 'types len':
        d['joint_type'] = resize(list(d['joint_type']))
    elif f in ('lower', 'upper'):
        use['joint_lower_limit'], use['joint_upper_limit'] = opt['joint_lower_limit'], opt['joint_upper_limit']
        k = 'joint_%s_limit' % f
        use[k] = resize(use[k])
    elif f in ('vel', 'acc'):
        k = 'joint_%s_limit' % f
        use[k] = resize(opt[k])
    elif f == 'M count':
        use['M'] = resize(opt['M'])
    elif f == 'M shape':
        use['M'] = list(opt['M'])
        use['M'][int(rng.integers(n+1))] = np.zeros(pick(rng, [(3, 3), (6, 5), (5, 6), (7, 7)]))
    elif f == 'names':
        use['joint_names'] = list(resize(opt['joint_names']))
    # several parts that agree with one another and not with the number of joints
    elif f in ('both limits', 'vel acc', 'all', 'types names'):
        for k in {'both limits': ['lower_limit', 'upper_limit'], 'vel acc': ['vel_limit', 'acc_limit'], 'types names': ['type', 'names'],
                  'all': ['lower_limit', 'upper_limit', 'vel_limit', 'acc_limit', 'names']}[f]:
            (d if k == 'type' else use)['joint_' + k] = list(resize(d['joint_type'] if k == 'type' else opt['joint_' + k]))
    elif f == 'lengths compensate':      # one too long and the other too short by as much
        a, b = pick(rng, [('lower', 'upper'), ('upper', 'lower'), ('vel', 'acc'), ('acc', 'vel')])
        for k, o in ((a, opt), (b, opt)):
            v = list(o['joint_%s_limit' % k])
            use['joint_%s_limit' % k] = rform(v + [v[-1]] if k == a else v[:-1])
        if a in ('vel', 'acc'):
            use.update({k: opt[k] for k in ('joint_lower_limit', 'joint_upper_limit')})
    elif f == 'much longer':
        k = pick(rng, ['joint_vel_limit', 'joint_acc_limit', 'M', 'joint_names', 'joint_lower_limit', 'joint_upper_limit'])
        use['joint_lower_limit'], use['joint_upper_limit'] = opt['joint_lower_limit'], opt['joint_upper_limit']
        use[k] = list(opt[k])*int(pick(rng, [2, 3]))
    elif f == 'H types':
        if grow < 0 and n > 1:
            d['H'], d['joint_type'] = d['H'][:, :-1], list(d['joint_type'])[:-1]
        else:
            d['H'], d['joint_type'] = np.hstack((d['H'], d['H'][:, 0:1])), list(d['joint_type']) + [0]
        for k in ['joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit', 'M', 'joint_names']:
            use.pop(k, None)
    elif f == 'empty':
        k = pick(rng, ['joint_vel_limit', 'joint_acc_limit', 'M', 'joint_names', 'joint_lower_limit', 'joint_upper_limit'])
        use['joint_lower_limit'], use['joint_upper_limit'] = opt['joint_lower_limit'], opt['joint_upper_limit']
        use[k] = []
    m.case('invalid', fault=f, d=dict(d, **use))
    m.raises(lambda: rox.Robot(**dict(d, **use)), 'an inconsistent robot description was accepted', fault=f)
