"""C14-C19: inverse kinematics"""
import math
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import general_robotics_toolbox_invkin as ik
from .core import Prop
from . import ref, gen, ref_ik
from .gen import PI, pick
from .p_fk import qform, scale

PROPS = {}
ex, ey, ez = np.eye(3)
E3 = np.eye(3)


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


# ------------------------------------------------------------------------------------- robots
def off(rng, s=.2):
    return pick(rng, [0.0, 1.0])*rng.uniform(-s, s)


def opw_geometry(rng):
    """six axis arm with a spherical wrist: h1 mostly along z, h2 and h3 along y, mostly a wrist with h5 across h4 and
    h6 but also an oblique one"""
    sg = rng.choice([-1.0, 1.0], 6) if rng.random() < .7 else np.ones(6)
    w4 = pick(rng, [ex, ex, ez])
    c = rng.random()
    if c < .75:
        w6 = w4
    elif c < .9:
        w6 = ez if w4 is ex else ex
    else:
        t = rng.uniform(-PI, PI)
        w6 = math.cos(t)*ex + math.sin(t)*ez
    if rng.random() < .08:
        t = rng.uniform(-PI, PI)
        w4 = math.cos(t)*ex + math.sin(t)*ez
    H = np.array([sg[0]*ez, sg[1]*ey, sg[2]*ey, sg[3]*w4, sg[4]*ey, sg[5]*w6]).T
    if rng.random() < .15:       # a tilted first axis
        H[:, 0] = across_axis(rng, [ey], .3)
    oblique = rng.random() < .15
    if oblique:
        H[:, 4] = gen.axis(rng)
        H[:, 3] = w4 = across_axis(rng, [H[:, 4]], .3)
        H[:, 5] = across_axis(rng, [H[:, 4]], .3)
    P = np.zeros((3, 7))
    P[:, 0] = [off(rng, 1), off(rng, 1), pick(rng, [0, 1])*rng.uniform(.1, 1)]
    P[:, 1] = [off(rng, .4), off(rng), off(rng, .5)]
    a = pick(rng, [ex, ez, -ez, -ex])
    P[:, 2] = rng.uniform(.3, 1)*a + [off(rng, .1), off(rng), off(rng, .1)]
    b = pick(rng, [ex, ez, -ez, -ex])
    L = rng.uniform(.3, 1)
    P[:, 3] = [off(rng, .1), off(rng), off(rng, .1)]
    if rng.random() < .5 and abs(np.dot(b, w4)) > .5:
        f = pick(rng, [1.0, .5])
        P[:, 3] += L*(1-f)*b
        P[:, 4] = L*f*np.sign(np.dot(b, w4))*w4 if abs(abs(np.dot(b, w4)) - 1) < 1e-9 else 0
        if not P[:, 4].any():
            P[:, 3] = P[:, 3] + L*f*b
    else:
        P[:, 3] += L*b
    if np.hypot(P[0, 3] + P[0, 4], P[2, 3] + P[2, 4]) < .15:
        P[:, 3] += L*b
    if oblique and rng.random() < .5 and not P[:, 4].any():
        P[:, 4] = rng.uniform(-.2, .2)*w4
        if np.hypot(P[0, 3] + P[0, 4], P[2, 3] + P[2, 4]) < .15:
            P[:, 4] = 0
    P[:, 5] = pick(rng, [0, 0, 1])*rng.uniform(-.2, .2)*H[:, 5]
    P[:, 6] = pick(rng, [0, 1])*rng.uniform(0, .3)*H[:, 5] + pick(rng, [0, 0, 1])*rng.uniform(-.1, .1, 3)
    return H, P


def across_axis(rng, others, least):
    """an axis that is along none of the others"""
    while True:
        a = gen.axis(rng)
        if all(np.linalg.norm(ref.cross(a, o)) > least for o in others):
            return a


def ur_geometry(rng):
    s = pick(rng, [-1.0, 1.0])
    H = np.array([ez, s*ey, s*ey, s*ey, -ez, s*ey]).T
    P = np.zeros((3, 7))
    P[:, 0] = [off(rng, 1), off(rng, 1), pick(rng, [0, 1])*rng.uniform(.1, .5)]
    P[:, 1] = [0 if rng.random() < .7 else off(rng), s*off(rng), off(rng)]
    P[:, 2] = [s*rng.uniform(.2, .8), off(rng), 0.0]
    P[:, 3] = [s*rng.uniform(.2, .8), s*off(rng), 0.0]
    P[:, 4] = [0.0, s*pick(rng, [0, 1])*rng.uniform(.05, .2), -rng.uniform(.05, .2)]
    P[:, 5] = [0.0, s*pick(rng, [0, 1])*rng.uniform(.05, .2), 0.0]
    P[:, 6] = [0.0, s*pick(rng, [0, 1])*rng.uniform(.05, .2), 0.0] if rng.random() < .7 else rng.uniform(-.1, .1, 3)
    if rng.random() < .2:
        P[0, 4] = off(rng)
    if rng.random() < .3:
        P[2, 2], P[2, 3] = off(rng), off(rng, .1)
    return H, P


def ik_limits(rng, kind):
    c = rng.random()
    if c < .25:
        return None, None
    if c < .45:
        return -2*PI*np.ones(6), 2*PI*np.ones(6)
    if c < .55:
        return -PI*np.ones(6), PI*np.ones(6)
    mx = 3*PI
    lo, hi = np.zeros(6), np.zeros(6)
    for j in range(6):
        ctr = pick(rng, [0.0, 0.0, rng.uniform(-2, 2), PI, -PI])
        h = pick(rng, [PI, .6*PI, 1.2*PI, 2*PI, rng.uniform(.3, 2*PI)])
        lo[j], hi[j] = max(ctr - h, -mx), min(ctr + h, mx)
    if rng.random() < .15:
        j = int(rng.integers(6))         # a window more than a turn away from zero
        lo[j], hi[j] = pick(rng, [(PI, 3*PI), (-3*PI, -PI), (1.2*PI, 2.5*PI), (-2.9*PI, -1.1*PI)])
    return lo, hi


def closed_form_robot(rng, kind):
    H, P = opw_geometry(rng) if kind == 'opw' else ur_geometry(rng)
    if rng.random() < .05:
        sc = pick(rng, [.1, 5.0])
        P = P*sc
    elif rng.random() < .06 and np.abs(H - np.rint(H)).max() < 1e-9:      # a drawing in whole numbers, as whole numbers
        W = np.rint(P*10).astype(int)
        if np.abs(W[:, 2]).max() > 1 and np.abs(W[:, 3] + W[:, 4]).max() > 1:
            H, P = np.rint(H).astype(int), W
    lo, hi = ik_limits(rng, kind)
    kw = dict(joint_lower_limit=lo, joint_upper_limit=hi)
    if rng.random() < .6:
        gen.add_aux(rox, rng, kw)
    jt = pick(rng, [[0]*6, np.zeros(6), np.zeros(6, dtype=int), tuple([0]*6)])
    return rox.Robot(H, P, jt, **kw)


def pose_of(r, q):
    X = ref.robot_fk(r, q)
    return rox.Transform(X[0:3, 0:3], X[0:3, 3])


def bare(r, T):
    """4x4 pose of the end of the chain for the tool pose T"""
    X = ref.hom(T.R, T.p)
    if r.T_base is not None:
        X = ref.invhom(ref.hom(r.T_base.R, r.T_base.p)) @ X
    if r.R_tool is not None:
        X = X @ ref.invhom(ref.hom(r.R_tool, r.p_tool))
    if r.T_flange is not None:
        X = X @ ref.invhom(ref.hom(r.T_flange.R, r.T_flange.p))
    return X


def solver(kind):
    return (rox.robot6_sphericalwrist_invkin, ref_ik.spherical) if kind == 'opw' else (rox.ur_invkin, ref_ik.ur)


def limits_of(r):
    if r.joint_lower_limit is None or r.joint_upper_limit is None:
        return -np.inf*np.ones(len(r.joint_type)), np.inf*np.ones(len(r.joint_type))
    return np.asarray(r.joint_lower_limit, dtype=float), np.asarray(r.joint_upper_limit, dtype=float)


def sound(m, r, T, sols, tol=1e-6, what=''):
    """all answers are configurations of the robot, inside its limits, that reach the pose"""
    m.check(isinstance(sols, list), 'the result is not a list', sols=sols)
    lo, hi = limits_of(r)
    s = scale(r)
    for q in sols:
        m.check(isinstance(q, np.ndarray), 'an answer is not an array' + what, answer=q)
        q = np.asarray(q, dtype=float)
        m.check(q.shape == (6,) and np.isfinite(q).all(), 'an answer is not six finite joint angles' + what, q=q)
        X = ref.robot_fk(r, q)
        m.close(X[0:3, 0:3], T.R, tol, 'an answer does not reach the orientation' + what, q=q)
        m.close(X[0:3, 3], T.p, tol*s, 'an answer does not reach the position' + what, q=q)
        m.check(((lo - 1e-12 <= q) & (q <= hi + 1e-12)).all(), 'an answer is outside the joint limits' + what, q=q)
        m.seen('answers checked')


def fits(q, lo, hi, mg):
    """does every joint have an equivalent angle in the limits shrunk by mg (grown when negative)"""
    for j in range(6):
        if not np.isfinite(lo[j]):
            continue
        k = math.ceil((lo[j] + mg - q[j])/(2*PI))
        if q[j] + 2*PI*k > hi[j] - mg:
            return False
    return True


def among(q, sols, tol):
    return any(np.abs(ref.wrap(np.asarray(x, dtype=float) - q)).max() <= tol for x in sols)


def complete(m, r, T, sols, refs, edge, what=''):
    """every reference solution away from singularities whose joints fit the limits is among the answers, and every
    answer is a reference solution"""
    lo, hi = limits_of(r)
    need = 0
    for z in refs:
        if z.margin < 1e-4:
            continue
        if fits(z.q, lo, hi, 1e-5):
            need += 1
            m.check(among(z.q, sols, 1e-5), 'a configuration that reaches the pose within the limits is missing' + what, missing=z.q, sols=sols)
            m.seen('required answers')
    if edge > 1e-4 and all(z.margin > 1e-4 for z in refs):
        m.seen('full set compared')
        for q in sols:
            m.check(among(np.asarray(q, dtype=float), [z.q for z in refs], 1e-5), 'an answer is not a solution of the arm', q=q)
        if edge > 1e-2 and all(z.margin > 1e-2 for z in refs):
            sound(m, r, T, sols, 1e-10, ' to the precision of the numbers')
            m.seen('checked to full precision', len(sols))
        double = near_double(refs)
        for a in range(len(sols)):
            for b in range(a):
                d = np.abs(ref.wrap(np.asarray(sols[a]) - np.asarray(sols[b]))).max()
                m.check(d > 1e-7 or double, 'the same configuration is returned twice', a=sols[a], b=sols[b])
    return need


def near_double(refs):
    for a in range(len(refs)):
        for b in range(a):
            if np.abs(ref.wrap(refs[a].q - refs[b].q)).max() < 1e-4:
                return True
    return False


def make_case(m, rng, kind, special=True):
    r = closed_form_robot(rng, kind)
    lo, hi = limits_of(r)
    l2, h2 = np.where(np.isfinite(lo), lo, -PI), np.where(np.isfinite(hi), hi, PI)
    q = rng.uniform(l2 + 1e-3*(h2-l2), h2 - 1e-3*(h2-l2))
    if special and rng.random() < .35:
        for j in range(6):
            if rng.random() < .4:
                t = pick(rng, [0.0, PI/2, -PI/2, PI/4, 1e-3, -1e-3, 1e-7, PI - 1e-6, -PI + 1e-4])
                if l2[j] + 1e-4 < t < h2[j] - 1e-4:
                    q[j] = t
    T = pose_of(r, q)
    m.case(kind, robot=r, q=q)
    return r, q, T


# ------------------------------------------------------------------------------------------------ C14
C14 = prop('C14', 'Random spherical-wrist and UR arms (axis signs, offsets, wrist splits, tool/flange/base, joint windows up '
           'to +-3pi; tilted first axes, oblique wrists), poses made from joint vectors incl. singular and special ones, and arbitrary poses; with and '
           'without last joints; arms that miss one condition of the family. Every answer is put through the reference kinematics. Distinct (arm, joints) counted.',
           need={'case:opw': 300, 'case:ur': 300, 'answers checked': 2000, 'no answer': 30, 'refused': 300})


@C14.workload(9000)
def answers_are_correct(m, rng, i):
    kind = 'opw' if i % 2 else 'ur'
    r, q, T = make_case(m, rng, kind)
    if rng.random() < .3:
        T = rox.Transform(gen.R(rng), T.p + rng.normal(0, pick(rng, [.01, .3, 3.0]), 3))
    if rng.random() < .3:
        T.p = T.p.copy()
    last = None
    if rng.random() < .4:
        lo, hi = limits_of(r)
        last = qform(rng, rng.uniform(np.maximum(lo, -4), np.minimum(hi, 4)))
    f, _ = solver(kind)
    sols = f(r, T, last) if rng.random() < .5 else f(robot=r, desired_pose=T, last_joints=last)
    m.seen('no answer', int(len(sols) == 0))
    sound(m, r, T, sols)
    for s in sols:      # the real forward kinematics accepts and confirms them
        F = rox.fwdkin(r, s)
        m.check(F.isclose(T, 1e-5*scale(r)), 'the forward kinematics of an answer is another pose', q=s)
    if r.joint_lower_limit is not None and rng.random() < .15:
        # windows the configuration does not fit in leave only answers inside
        j = int(rng.integers(6))
        lo, hi = r.joint_lower_limit.copy(), r.joint_upper_limit.copy()
        lo[j] = hi[j] - (hi[j]-lo[j])*rng.uniform(.02, .3)
        r2 = rox.Robot(r.H, r.P, r.joint_type, lo, hi, R_tool=r.R_tool, p_tool=r.p_tool, T_flange=r.T_flange, T_base=r.T_base)
        sound(m, r2, T, f(r2, T), what=' (narrowed)')


def tilted(rng, a):
    """another axis than a: anything else, or leaning by as little as a thousandth"""
    if rng.random() < .5:
        return across_axis(rng, [a], .05)
    k = ref.cross(a, across_axis(rng, [a], .2))
    return ref.rot(k/np.linalg.norm(k), pick(rng, [-1, 1])*10**rng.uniform(-3, -1)) @ a


def odd_arm(rng, kind):
    """an arm that looks like the family but lacks one of its conditions"""
    H, P = opw_geometry(rng) if kind == 'opw' else ur_geometry(rng)
    jt = [0]*6
    d = pick(rng, [1e-3, .02, .3])
    a = lambda k: across_axis(rng, [H[:, k]], .2)*d
    if kind == 'opw':
        what = pick(rng, ['both shoulder axes', 'shoulder axis', 'elbow axis', 'wrist offset 4', 'wrist offset 5', 'prismatic', 'seven'])
    else:
        what = pick(rng, ['axis', 'flipped axis', 'wrist offset 5', 'wrist offset 5', 'prismatic', 'seven'])
    if what == 'both shoulder axes':
        H[:, 1] = H[:, 2] = tilted(rng, ey)
    elif what == 'shoulder axis':
        H[:, 1] = tilted(rng, ey)
    elif what == 'elbow axis':
        H[:, 2] = tilted(rng, ey)
    elif what == 'wrist offset 4':
        P[:, 4] = P[:, 4]*pick(rng, [0, 1]) + a(3)
    elif what == 'wrist offset 5':
        P[:, 5] = P[:, 5]*pick(rng, [0, 1]) + a(5)
    elif what == 'axis':
        j = int(rng.integers(6))
        H[:, j] = tilted(rng, H[:, j])
    elif what == 'flipped axis':
        j = int(rng.integers(6))
        H[:, j] = -H[:, j]
    elif what == 'prismatic':
        z = pick(rng, [1, 1, 3])
        for j in range(6):
            jt[j] = z*int(rng.random() < .3)
        jt[int(rng.integers(6))] = z
    elif what == 'seven':
        H, P, jt = np.column_stack((H, gen.axis(rng))), np.column_stack((P, rng.uniform(-.2, .2, 3))), [0]*7
    kw = {}
    if rng.random() < .3:
        gen.add_aux(rox, rng, kw)
    if rng.random() < .3:
        kw.update(joint_lower_limit=-2*PI*np.ones(len(jt)), joint_upper_limit=2*PI*np.ones(len(jt)))
    return what, rox.Robot(H, P, jt, **kw)


def refusal(m, rng, kind):
    """such an arm is refused; an answer all the same would have to be right"""
    what, r = odd_arm(rng, kind)
    n = len(r.joint_type)
    q = rng.uniform(-1.5, 1.5, n)
    T = pose_of(r, q)
    m.case('not of the family', robot=r, q=q, fault=what)
    f, _ = solver(kind)
    try:
        sols = f(r, T, None if rng.random() < .7 else q)
    except Exception:
        m.seen('refused')
        return
    m.seen('not refused')
    m.check(len(sols) > 0, 'an arm without the geometry is not refused, and a reachable pose has no answer: ' + what)
    for x in sols:
        x = np.asarray(x, dtype=float)
        m.check(x.shape == (n,) and np.isfinite(x).all(), 'an arm without the geometry is given something else than joints: ' + what, q=x)
        X = ref.robot_fk(r, x)
        m.check(np.abs(X[0:3, 0:3] - T.R).max() < 1e-6 and np.abs(X[0:3, 3] - T.p).max() < 1e-6*scale(r),
                'an arm without the geometry is given a wrong answer: ' + what, q=x)


@C14.workload(3000)
def other_arms_are_refused(m, rng, i):
    refusal(m, rng, 'opw' if i % 2 else 'ur')


# ------------------------------------------------------------------------------------------------ C15, C16
def completeness(m, rng, kind):
    r, q, T = make_case(m, rng, kind)
    f, rf = solver(kind)
    sols = f(r, T)
    sound(m, r, T, sols)
    refs, reach, edge = rf(r, bare(r, T))
    n = complete(m, r, T, sols, refs, edge)
    m.seen('answers %d' % len(sols))
    if n == 8:
        m.seen('all eight branches')
    # the configuration the pose was made from is one of the answers, singular or not
    zs = [z for z in refs if np.abs(ref.wrap(z.q - q)).max() < 1e-4]
    if zs and zs[0].margin > 1e-9:
        lo, hi = limits_of(r)
        tol = 2e-6 + 2e-7/math.sqrt(zs[0].margin)
        if ((q > lo + tol) & (q < hi - tol)).all():
            m.check(among(q, sols, tol), 'the configuration the pose was made from is missing', q=q, sols=sols)
            m.seen('own configuration')
    elif r.joint_lower_limit is None or ((limits_of(r)[0] <= -2*PI) & (limits_of(r)[1] >= 2*PI)).all():
        # wrist singularity: which of the wrist angles moves is free, but there is an answer
        dead = kind == 'opw' or min([z.margin for z in refs] or [0]) > 1e-9
        if dead and kind == 'opw' and shoulder_margin(r, q) > 1e-4:
            m.seen('singular wrist')
            m.check(len(sols) > 0, 'a reachable pose with a singular wrist has no answer', q=q)


def shoulder_margin(r, q):
    """margins of shoulder and elbow only"""
    q2 = np.array(q, dtype=float)
    q2[4] += .7
    X = ref.chain_fk(r.H, r.P, [0]*6, q2)
    refs, _, _ = ref_ik.spherical(r, X)
    z = [z.margin for z in refs if np.abs(ref.wrap(z.q - q2)).max() < 1e-4]
    return max(z) if z else 0.0


def unreachable(m, rng, kind):
    r = closed_form_robot(rng, kind)
    f, rf = solver(kind)
    s = np.abs(r.P).sum()
    c = rng.random()
    p = gen.unit(rng)*s*rng.uniform(1.01, 3) if c < .3 else rng.normal(0, .7*s/3, 3)
    if c > .8:       # close to the first axis or folded in
        p = r.P[:, 0] + np.array([1, 1, 0])*rng.normal(0, .05, 3) + rng.uniform(-.5, .5)*ez
    X = ref.hom(gen.R(rng), p)
    T = rox.apply_robot_aux_transforms(r, rox.Transform(X[0:3, 0:3], X[0:3, 3]))
    m.case('anywhere', robot=r, T=T)
    sols = f(r, T, None if rng.random() < .6 else rng.uniform(-1, 1, 6))
    sound(m, r, T, sols)
    refs, reach, edge = rf(r, X)
    if not refs:
        if reach < -1e-6:
            m.seen('out of reach')
            m.check(len(sols) == 0, 'an unreachable pose has answers', sols=sols)
    else:
        complete(m, r, T, sols, refs, edge)
        lo, hi = limits_of(r)
        if all(z.margin > 1e-4 and not fits(z.q, lo, hi, -1e-5) for z in refs) and reach not in (0.0,):
            m.seen('outside limits')
            m.check(len(sols) == 0, 'a pose that cannot be reached within the limits has answers', sols=sols)


C15 = prop('C15', 'Random spherical-wrist arms and poses as C14; the full set of (up to eight) solutions comes from an '
           'independent closed form with margins, so an answer is only required away from singularities; arbitrary, '
           'folded and far poses. Distinct cases counted.',
           need={'case:opw': 300, 'required answers': 2000, 'all eight branches': 30, 'own configuration': 300,
                 'singular wrist': 5, 'out of reach': 50, 'outside limits': 10, 'refused': 300})
C16 = prop('C16', 'Random UR arms of both orientations, otherwise as C15.',
           need={'case:ur': 300, 'required answers': 2000, 'all eight branches': 20, 'own configuration': 300,
                 'out of reach': 50, 'outside limits': 5, 'refused': 300})


@C15.workload(1500)
def spherical_wrist_refused(m, rng, i):
    refusal(m, rng, 'opw')


@C16.workload(1500)
def ur_refused(m, rng, i):
    refusal(m, rng, 'ur')


@C15.workload(9000)
def spherical_wrist_complete(m, rng, i):
    completeness(m, rng, 'opw')


@C15.workload(6000)
def spherical_wrist_anywhere(m, rng, i):
    unreachable(m, rng, 'opw')


@C16.workload(9000)
def ur_complete(m, rng, i):
    completeness(m, rng, 'ur')


@C16.workload(6000)
def ur_anywhere(m, rng, i):
    unreachable(m, rng, 'ur')


# ------------------------------------------------------------------------------------------------ C17
C17 = prop('C17', 'As C15/C16 with last joints close to a solution, turns away from it, far away, inside and outside the '
           'limits, as list/tuple/array. Distinct cases counted.',
           need={'case:opw': 200, 'case:ur': 200, 'ordered answers': 1000, 'closest confirmed': 200, 'last joints turns away': 50})


@C17.workload(9000)
def last_joints(m, rng, i):
    kind = 'opw' if i % 2 else 'ur'
    r, q, T = make_case(m, rng, kind, special=False)
    f, rf = solver(kind)
    lo, hi = limits_of(r)
    c = rng.random()
    if c < .35:
        last = q + rng.normal(0, .1, 6)
    elif c < .6:
        last = q + rng.normal(0, .3, 6) + 2*PI*rng.integers(-2, 3, 6)
        m.seen('last joints turns away')
    elif c < .8:
        last = rng.uniform(-2*PI, 2*PI, 6)
    else:
        last = rng.uniform(-7*PI, 7*PI, 6)
    sols = f(r, T, qform(rng, last))
    plain = f(r, T)
    sound(m, r, T, sols)
    refs, reach, edge = rf(r, bare(r, T))
    if edge < 1e-4 or any(z.margin < 1e-4 for z in refs) or near_double(refs):
        return
    complete(m, r, T, sols, refs, edge, ' (with last joints)')
    m.check(len(sols) == len(plain), 'the last joints change which configurations are found', plain=plain, sols=sols)
    for z in plain:
        m.check(among(np.asarray(z), sols, 1e-6), 'a configuration is lost when the last joints are given', lost=z)
    if not sols:
        return
    d = [float(np.linalg.norm(np.asarray(s) - last)) for s in sols]
    for a, b in zip(d, d[1:]):
        m.check(a <= b + 1e-9, 'answers are not ordered by their distance to the last joints', distances=d, last=last)
    m.seen('ordered answers', len(sols))
    # no equivalent configuration inside the limits is closer
    for s, ds in zip(sols, d):
        best = 0.0
        ok = True
        for j in range(6):
            if not np.isfinite(lo[j]):
                e = abs(float(ref.wrap(s[j] - last[j])))
            else:
                k0 = math.ceil((lo[j] + 1e-6 - s[j])/(2*PI))
                k1 = math.floor((hi[j] - 1e-6 - s[j])/(2*PI))
                if k1 < k0:
                    ok = False
                    break
                e = min(abs(s[j] + 2*PI*k - last[j]) for k in range(k0, k1+1))
            best += e*e
        if ok:
            m.seen('closest confirmed')
            m.check(ds <= math.sqrt(best) + 1e-6, 'an equivalent configuration inside the limits is closer to the last joints', q=s, last=last)


# ------------------------------------------------------------------------------------------------ C18
C18 = prop('C18', 'Random robots with revolute and prismatic joints, windows from a fraction of to several turns, one or '
           'several configurations (also equivalent to each other), with and without last joints; the full lattice of '
           'turns is enumerated independently. Distinct inputs counted.',
           need={'case:equivalents': 300, 'lattice points': 3000, 'nothing to add': 50, 'several inputs': 50, 'ordered': 100, 'beyond the limits': 100, 'barely inside or outside': 100})


@C18.workload(15000)
def equivalents(m, rng, i):
    n = int(pick(rng, [1, 2, 3, 4, 6, 6, 7]))
    jt = [int(x) for x in (rng.integers(0, 2, n) if rng.random() < .4 else np.zeros(n))]
    while True:
        lo, hi, tot = np.zeros(n), np.zeros(n), 1
        for j in range(n):
            w = pick(rng, [.5*PI, PI, 1.5*PI, 2*PI, 2*PI, 2.5*PI, 4*PI] + [8*PI, 20*PI]*(n < 2 or i % 5 == 0)) if n < 5 else pick(rng, [.8*PI, PI, 1.5*PI, 2*PI, 2.4*PI])
            c = pick(rng, [0.0, 0.0, rng.uniform(-4, 4)])
            lo[j], hi[j] = c - w, c + w
            if jt[j] == 0:
                tot *= max(1, int(2*w/(2*PI)) + 1)
        if tot <= (800 if i % 5 == 0 else 300):
            break

    def away(q, e=1e-4):
        return all(abs(float(ref.wrap(q[j]-lo[j]))) > e and abs(float(ref.wrap(q[j]-hi[j]))) > e for j in range(n))
    k = int(pick(rng, [1, 1, 1, 2, 3, 8])) if tot <= 200 else 1
    base = []
    beyond, whole = rng.random() < .15, rng.random() < .15
    while len(base) < k:
        q = rng.uniform(lo, hi)
        if beyond:
            q = q + 2*PI*rng.integers(-3, 4, n)*(rng.random(n) < .4)
        if whole:
            q = np.round(q)
            if not ((lo < q) & (q < hi)).all() and not beyond:
                q = rng.uniform(lo, hi)
        if away(q):
            base.append(q)
    if rng.random() < .25:
        # an equivalent, or the configuration itself, barely inside or outside a limit
        j, b = int(rng.integers(n)), pick(rng, base)
        e = 10.0**rng.uniform(-7, -4)*pick(rng, [-1, 1])
        if rng.random() < .5:
            hi[j] = b[j] + e + 2*PI*int(max(0, (hi[j] - b[j])//(2*PI)))*(jt[j] == 0)
        else:
            lo[j] = b[j] + e - 2*PI*int(max(0, (b[j] - lo[j])//(2*PI)))*(jt[j] == 0)
        if not all(away(b, 3e-8) for b in base) or (hi <= lo + 1e-3).any():
            return
        m.seen('barely inside or outside')
    mutual = False
    if rng.random() < .2 and k < 4 and not beyond:       # inputs that are equivalent to each other
        L = ref.lattice(base[0], lo, hi, [t == 0 for t in jt])
        q = pick(rng, L) if len(L) else base[0]
        if np.abs(q - base[0]).max() > 1:
            base.append(q)
            mutual = True
    lf = pick(rng, [np.array, list]) if rng.random() < .5 else np.array
    r = rox.Robot(np.array([gen.axis(rng) for _ in range(n)]).T.reshape(3, n), rng.uniform(-1, 1, (3, n+1)),
                  pick(rng, [list, np.array])(jt), lf(lo), lf(hi))
    m.case('equivalents', robot=r, theta=base)
    m.seen('several inputs', int(len(base) > 1))
    last = rng.uniform(-8, 8, n) if rng.random() < .5 else None
    arg = [b.copy() for b in base]
    if rng.random() < .2:
        arg = np.array(arg)
    elif rng.random() < .3:
        arg = [pick(rng, [list, tuple, lambda z: z.astype(int) if (z == np.round(z)).all() else z])(b) for b in arg]
    # (inputs that are equivalent up to the relative tolerance of the comparison count as equivalent)
    mutual = mutual or any(np.abs(ref.wrap(base[a] - base[b])).max() < 1e-3 + 2e-5*max(np.abs(lo).max(), np.abs(hi).max()) for a in range(len(base)) for b in range(a))
    m.seen('beyond the limits', int(any(((b < lo) | (b > hi)).any() for b in base)))
    out = rox.equivalent_configurations(r, arg, None if last is None else qform(rng, last))
    m.check(isinstance(out, list), 'the result is not a list', out=out)
    m.check(all(np.array_equal(a, b) for a, b in zip(arg, base)), 'the configurations passed in were changed')
    want = []
    for b in base:
        for z in ref.lattice(b, lo, hi, [t == 0 for t in jt]):
            if ((z >= lo - 1e-9) & (z <= hi + 1e-9)).all() and not any(np.abs(z - y).max() < 1e-6 for y in base) and not any(np.abs(z - y).max() < 1e-6 for y in want):
                want.append(z)
    m.seen('lattice points', len(want))
    m.seen('nothing to add', int(not want))
    got = np.array([np.asarray(o, dtype=float) for o in out]).reshape(len(out), n)
    for z in got:
        m.check(((lo - 1e-9 <= z) & (z <= hi + 1e-9)).all(), 'an equivalent configuration is outside the limits', q=z)
        m.check(not any(np.abs(z - y).max() < 1e-6 for y in base), 'a configuration that was passed in is returned', q=z)
        m.check(any(np.abs(z - y).max() < 1e-6 for y in want), 'a configuration that is not equivalent is returned', q=z)
    for z in want:
        if mutual and any(np.allclose(z, y) or np.abs(z - y).max() < 1e-2 for y in base):
            continue
        m.check(len(got) and np.abs(got - z).max(axis=1).min() < 1e-6, 'an equivalent configuration inside the limits is missing', missing=z, out=out)
    if not mutual:
        m.check(len(got) == len(want), 'an equivalent configuration is returned twice', got=len(got), expected=len(want))
    if last is not None:
        m.seen('ordered')
        d = [float(np.linalg.norm(z - last)) for z in got]
        for a, b in zip(d, d[1:]):
            m.check(a <= b + 1e-9, 'equivalent configurations are not ordered by their distance to the last joints', distances=d)


# ------------------------------------------------------------------------------------------------ C19
C19 = prop('C19', 'Random robots of 1..8 joints (revolute and prismatic, tool/flange/base, limits that must not matter), '
           'poses from joint vectors close to and far from the seed, unreachable poses, tolerances 1e-3..1e-9, gains, '
           'step budgets including none, poses that differ from the seed by half a turn only. Distinct (robot, joints) counted.',
           need={'converged, nearly singular': 150, 'case:iterative': 300, 'converged': 300, 'not converged': 50, 'close seed': 60, 'seed already there': 200, 'unreachable': 50, 'no steps': 20, 'turned': 50})


@C19.workload(4800)
def iterative(m, rng, i):
    r = gen.any_robot(rox, rng, n=pick(rng, [1, 2, 3, 5, 6, 6, 6, 7, 7, 8]))
    n = len(r.joint_type)
    q = gen.config(rng, r, wide=False)
    far = rng.random() < .2
    if far:                # a long way out along the prismatic joints
        for j in range(n):
            if int(r.joint_type[j]) == 1:
                q[j] = rng.uniform(-9, 9)
    r0 = rox.Robot(r.H, r.P, r.joint_type, R_tool=r.R_tool, p_tool=r.p_tool, T_flange=r.T_flange, T_base=r.T_base)
    T = pose_of(r0, q)
    J = ref.robot_jac(r0, q)
    sv = np.linalg.svd(J, compute_uv=False)
    c = rng.random()
    tol = float(pick(rng, [1e-4, 1e-4, 1e-3, 1e-6, 1e-9]))
    kw = {}
    if rng.random() < .5 or tol != 1e-4:
        kw['tol'] = tol
    tol = kw.get('tol', 1e-4)
    mode = 'close' if c < .5 else 'far' if c < .7 else 'unreachable' if c < .85 else 'steps'
    rev = np.array([int(t) == 0 for t in r.joint_type])
    if mode == 'close':
        seed = q + rng.uniform(-1, 1, n)*pick(rng, [0.0, 1e-3, .02])
        if rng.random() < .3:
            seed = seed + 2*PI*rng.integers(-2, 3, n)*rev
    else:
        seed = q + rng.normal(0, 1, n)
    if mode == 'unreachable' and not rev.all():
        mode = 'far'
    if mode == 'unreachable':
        T = far_away(rng, r, T)
        kw['max_steps'] = int(pick(rng, [5, 20]))
    if mode == 'steps':
        kw['max_steps'] = int(pick(rng, [0, 0, 1, 2, 5]))
    if rng.random() < .08:
        # the wanted pose differs from the pose of the seed in its orientation only, or in its position only
        mode = 'turned'
        kw['max_steps'] = int(pick(rng, [1, 1, 2, 5]))
        S = ref.robot_fk(r0, seed)
        a = pick(rng, [PI, PI, -PI, PI - 1e-3, PI/2, 2*PI/3, 0.0])
        T = rox.Transform(S[0:3, 0:3] @ ref.rot(pick(rng, [ex, ey, ez, gen.unit(rng)]), a), S[0:3, 3] + (0 if a else gen.unit(rng)*scale(r)))
        m.seen('turned')
    if rng.random() < .3:
        g = pick(rng, [.2, .5, .9])
        kw['Kp'], kw['KR'] = g*np.eye(3), pick(rng, [g, 2*g])*np.eye(3)
    m.case('iterative', robot=r, q=q, seed=seed, mode=mode)
    out = rox.iterative_invkin(r, T, qform(rng, seed), **kw)
    m.check(isinstance(out, tuple) and len(out) == 2, 'the result is not a pair', out=out)
    conv, sols = out
    m.check(isinstance(conv, (bool, np.bool_)) and len(sols) == 1, 'the result is not a flag and one configuration', out=out)
    x = np.asarray(sols[0], dtype=float)
    m.check(x.shape == (n,) and np.isfinite(x).all(), 'the configuration is not one finite angle per joint', out=out)
    X = ref.robot_fk(r0, x)
    ep = np.abs(X[0:3, 3] - T.p).max()
    ea = ref.angle_between(X[0:3, 0:3], T.R)
    eps = 1e-9*(1 + np.abs(x).max()) * scale(r)
    reached = np.linalg.norm(X[0:3, 3] - T.p) <= math.sqrt(3)*tol + eps and 2*math.sin(ea/2) <= 2*math.sqrt(3)*tol + 4e-6
    if conv:
        m.seen('converged')
        m.check(reached, 'reported as converged but the pose is not reached within the tolerance', q=x, ep=ep, ea=ea)
    else:
        m.seen('not converged')
    if ep < .3*tol - eps and ea < .3*tol - 1e-5:
        # a seed that already reaches the pose is an answer (the last of the steps is not looked at again)
        m.seen('seed already there')
        c1, s1 = rox.iterative_invkin(r, T, x, **dict(kw, max_steps=1))
        m.check(c1, 'a seed that reaches the pose is reported as not converged', q=x, ep=ep, ea=ea)
        m.close(s1[0], x, 1e-9*(1 + np.abs(x).max()), 'a seed that reaches the pose is not the answer')
    d = np.abs(x - seed)
    m.check((d[rev] <= PI + 1e-6).all(), 'a revolute joint is more than half a turn from the seed', q=x, seed=seed)
    good = sv[-1] > .1*max(1.0, sv[0]/5) if n <= 6 else sv[5] > .1*max(1.0, sv[0]/5)
    if mode == 'close':
        if good and (tol >= 1e-4*(1 + scale(r)/30) or n >= 6 and tol >= 1e-6*scale(r)):
            m.seen('close seed')
            m.check(conv, 'no convergence from a seed next to a regular solution', q=q, seed=seed, singular_values=sv)
            if n <= 6 and sv[-1] > .1*max(1, sv[0]/5):
                e = x - q
                e[rev] = ref.wrap(e[rev])
                m.check(np.abs(e).max() < 1.0, 'converged to another solution from a seed next to a regular one', q=q, found=x)
    if mode == 'unreachable':
        m.seen('unreachable')
        m.check(not conv, 'an unreachable pose is reported as reached', q=x)
    if mode == 'steps':
        ms = kw['max_steps']
        if ms == 0:
            m.seen('no steps')
            m.check(not conv, 'converged without a step', q=x)
            m.close(x, seed, 1e-12, 'the seed moved without a step')
        elif ms == 2 and good and sv[0] < 50:
            kw1 = dict(kw, max_steps=1)
            c1, s1 = rox.iterative_invkin(r, T, seed, **kw1)
            c2, s2 = rox.iterative_invkin(r, T, s1[0], **kw1)
            if not c1:
                e = np.asarray(s2[0]) - x
                e[rev] = ref.wrap(e[rev])
                m.check(np.abs(e).max() < 1e-5 or near_sing(r0, s1[0]), 'two single steps are not the same as a budget of two', one=s2[0], two=x)


def far_away(rng, r, T):
    return rox.Transform(T.R, T.p + gen.unit(rng)*(4*scale(r) + 1e3))


def near_sing(r, q):
    s = np.linalg.svd(ref.robot_jac(r, q), compute_uv=False)
    return s[-1] < 1e-2 or s[0] > 1e3


@C19.workload(900)
def nearly_singular(m, rng, i):
    """Two joints whose axes are the same line up to rounding: steps between the solutions are many turns long, and
    the flag still has to be about the configuration that is returned"""
    n = 6
    H = np.array([gen.axis(rng) for _ in range(n)]).T
    P = rng.uniform(-1, 1, (3, n + 1))
    j = int(rng.integers(n - 1))
    t = 10.0**rng.uniform(-13, -8)
    H[:, j+1] = pick(rng, [-1.0, 1.0])*H[:, j] + t*rng.uniform(-1, 1, 3)
    H[:, j+1] /= np.linalg.norm(H[:, j+1])
    P[:, j+1] = t*rng.uniform(-1, 1, 3)
    r = rox.Robot(H, P, [0]*n)
    q = rng.uniform(-PI, PI, n)
    seed = q + rng.normal(0, 1, n)*pick(rng, [.3, 1.0])
    T = pose_of(r, q)
    tol = float(pick(rng, [1e-5, 1e-6, 1e-6]))
    m.case('nearly singular', robot=r, q=q, seed=seed, tol=tol)
    conv, sols = rox.iterative_invkin(r, T, qform(rng, seed), tol=tol)
    x = np.asarray(sols[0], dtype=float)
    m.check(x.shape == (n,) and np.isfinite(x).all(), 'the configuration is not one finite angle per joint', x=x)
    X = ref.robot_fk(r, x)
    e = np.linalg.norm(X[0:3, 3] - T.p)
    ea = ref.angle_between(X[0:3, 0:3], T.R)
    m.check((np.abs(x - seed) <= PI + 1e-6).all(), 'a revolute joint is more than half a turn from the seed', q=x)
    if conv:
        m.seen('converged, nearly singular')
        m.check(e <= math.sqrt(3)*tol + 1e-9*scale(r) and 2*math.sin(ea/2) <= 2*math.sqrt(3)*tol + 4e-6,
                'reported as converged but the pose is not reached within the tolerance', q=x, ep=e, ea=ea)
