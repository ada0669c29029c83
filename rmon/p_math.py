"""C01-C06: rotation, quaternion and rigid transform algebra"""
import math
import numpy as np
import general_robotics_toolbox as rox
from .core import Prop
from . import ref, gen
from .gen import PI, pick

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


def num(rng, t):
    """the same number as the types callers use"""
    c = int(rng.integers(4))
    if c == 0:
        return np.float64(t)
    if c == 1 and float(t).is_integer():
        return int(t)
    return float(t)


def vform(rng, v, col=True):
    c = int(rng.integers(6))
    if c == 0:
        return [float(x) for x in v]
    if c == 1:
        return tuple(float(x) for x in v)
    if c == 2 and all(float(x).is_integer() for x in v):
        return np.array(v).astype(int)
    if c == 3 and col:
        return np.array(v, dtype=float).reshape(3, 1)
    if c == 4:
        a = np.zeros((3, 4))
        a[:, 2] = v
        return a[:, 2]                 # a strided view, as H[:,i] is
    return np.array(v, dtype=float)


# ------------------------------------------------------------------------------------------------ C01
C01 = prop('C01', 'Axes: coordinate, near-coordinate, symmetric and random unit vectors as list/tuple/int/column/strided '
           'arrays; angles: multiples of pi/6..3pi, those +-1e-15..1e-3, random up to +-20 rad. Distinct inputs are '
           'counted; every case compares the real result with a quaternion-based reference.',
           need={'case:rot': 200, 'case:hat': 200, 'case:screw': 200})


@C01.workload(18000)
def rotation(m, rng, i):
    k, t, t2 = gen.axis(rng), gen.angle(rng), gen.angle(rng)
    m.case('rot', k=k, theta=t)
    kf, tf = vform(rng, k), num(rng, t)
    Rm = rox.rot(kf, tf)
    tol = 1e-14*(4 + abs(t) + abs(t2))
    m.close(Rm, ref.rot(k, t), tol, 'rotation matrix differs from the right-handed rotation about the axis')
    m.check(ref.is_rotation(Rm, 1e-13), 'rotation matrix is not orthonormal with determinant 1', R=Rm)
    m.close(np.dot(Rm, k), k, 1e-13, 'the axis is not invariant under its rotation')
    m.close(np.matmul(Rm, rox.rot(k, t2)), rox.rot(k, t + t2), tol, 'rotations about one axis do not add', theta2=t2)
    n = int(rng.integers(-3, 4))
    m.close(rox.rot(k, t + 2*PI*n), Rm, 1e-13*(4+abs(t)), 'rotation is not periodic in full turns', turns=n)
    m.close(rox.rot(-k, -t), Rm, 1e-14, 'reversing axis and angle changes the rotation')
    m.close(rox.rot(k, -t), Rm.T, 1e-14, 'the reverse rotation is not the transpose')
    if abs(t) < 0.1 or abs(abs(t) - 2*PI) < 0.1:     # small angles keep their relative precision
        s = math.sin(t)
        m.close(rox.invhat(Rm), k*s, 1e-16 + 1e-13*abs(s), 'small rotation lost precision')
    v = gen.vec(rng)
    q = ref.aq(k, t)
    w = ref.qmul(ref.qmul(q, np.concatenate(([0], v))), ref.qconj(q))[1:4]
    m.close(np.matmul(Rm, v), w, 1e-13*(1+abs(t))*(1+np.linalg.norm(v)), 'rotating a vector is not the quaternion sandwich', v=v)


@C01.workload(18000)
def cross_product_matrix(m, rng, i):
    s = 10.0**rng.integers(-9, 10) if rng.random() < .3 else 1.0
    v, w = gen.vec(rng)*s, gen.vec(rng)
    m.case('hat', v=v, w=w)
    v1 = vform(rng, v)
    K = rox.hat(v1)
    m.check(np.shape(K) == (3, 3), 'cross product matrix is not 3x3')
    sc = np.linalg.norm(v)*np.linalg.norm(w)
    m.close(np.matmul(K, w), ref.cross(v, w), 1e-15*8*sc, 'matrix times vector is not the cross product')
    m.close(K, -K.T, 0.0, 'cross product matrix is not skew symmetric')
    m.close(rox.invhat(K), v, 1e-15*np.linalg.norm(v), 'vector is not recovered from its cross product matrix')
    a = rng.uniform(-3, 3)
    m.close(rox.hat(v + a*w), K + a*rox.hat(w), 1e-14*(np.linalg.norm(v) + 3*np.linalg.norm(w)),
            'cross product matrix is not linear')
    Rm = gen.R(rng)
    m.close(rox.hat(Rm @ v), Rm @ K @ Rm.T, 1e-14*np.linalg.norm(v), 'cross product does not follow a rotation', R=Rm)
    m.check(rox.hat(v1) is not K and np.array_equal(K, rox.hat(v1)), 'cross product matrix is not reproducible')


@C01.workload(12000)
def screws(m, rng, i):
    r, r2 = gen.vec(rng), gen.vec(rng)
    w, v, tau, f = [gen.vec(rng) for _ in range(4)]
    m.case('screw', r=r, w=w, f=f)
    G = rox.screw_matrix(vform(rng, r))
    m.check(np.shape(G) == (6, 6), 'screw matrix is not 6x6')
    n = np.linalg.norm
    t2 = G.T @ np.concatenate((w, v))
    m.close(t2[0:3], w, 0.0, 'angular velocity differs between points of a rigid body')
    m.close(t2[3:6], v + ref.cross(w, r), 1e-14*(n(v) + n(w)*n(r)), 'linear velocity of the displaced point is wrong')
    w1 = G @ np.concatenate((tau, f))
    m.close(w1[3:6], f, 0.0, 'force differs between points of a rigid body')
    m.close(w1[0:3], tau + ref.cross(r, f), 1e-14*(n(tau) + n(r)*n(f)), 'torque of the displaced wrench is wrong')
    p1 = np.dot(w1, np.concatenate((w, v)))
    p2 = np.dot(np.concatenate((tau, f)), t2)
    m.close(p1, p2, 1e-13*((n(w)*(n(tau)+n(r)*n(f)) + n(f)*n(v))+1e-30), 'power depends on the point it is computed at')
    m.close(G @ rox.screw_matrix(r2), rox.screw_matrix(r + r2), 1e-14*(n(r)+n(r2)), 'displacements do not add', r2=r2)
    m.close(G @ rox.screw_matrix(-r), np.eye(6), 1e-14*n(r), 'opposite displacements do not cancel')


# ------------------------------------------------------------------------------------------------ C02
C02 = prop('C02', 'Rotation matrices: all 24 cube rotations, rotations about special/near-special/random axes by 0, pi, '
           'those +-1e-15..1e-3 and random angles, as contiguous and transposed arrays; roll/pitch/yaw over the full '
           'circle and up to 1e-12 from gimbal lock. Distinct inputs counted.',
           need={'case:R2rot': 300, 'R2rot near pi': 50, 'R2rot near identity': 50, 'case:rpy': 200,
                 'gimbal lock': 20, 'near gimbal lock': 10})


@C02.workload(36000)
def axis_angle_of_matrix(m, rng, i):
    if i < 24:
        Rm, k0, t0 = gen.CUBE[i], None, None
    elif rng.random() < .8:
        k0, t0 = gen.axis(rng), gen.angle(rng, False)
        if rng.random() < .3:
            t0 = PI + pick(rng, [-1, 1])*10.0**rng.uniform(-9, -1)
        Rm = ref.rot(k0, t0)
    else:
        Rm, k0, t0 = gen.R(rng), None, None
    if rng.random() < .3:
        Rm = np.array(Rm.T, order='C').T
    m.case('R2rot', R=Rm)
    k, th = rox.R2rot(Rm)
    m.check(np.shape(k) == (3,) and np.shape(th) == (), 'axis is not a 3 vector or angle not a number', k=k, theta=th)
    m.check(np.isfinite(np.asarray(k, dtype=float)).all() and np.isfinite(th), 'axis or angle is not finite', k=k, theta=th)
    a = ref.angle_of(Rm)
    m.seen('R2rot near pi', int(a > PI - 1e-3))
    m.seen('R2rot near identity', int(a < 1e-3))
    near = math.sin(a) < 1.02e-6
    m.close(np.linalg.norm(k), 1.0, 1e-9, 'axis is not a unit vector', k=k, theta=th)
    m.check(-1e-12 <= th <= PI + 1e-12, 'angle is not in 0..pi', theta=th)
    tol = 1.1e-6 if near else 1e-9
    m.check(ref.angle_between(ref.rot(k, th), Rm) <= tol, 'axis and angle do not reproduce the matrix', k=k, theta=th)
    m.close(rox.rot(k, th), Rm, tol, 'rebuilding the matrix from its axis and angle changes it', k=k, theta=th)
    if k0 is not None and not near:
        e = float(ref.wrap(t0))
        kk = k0 if e >= 0 else -k0
        m.close(k, kk, 1e-9, 'axis differs from the one the rotation was built from', theta=th, theta0=t0)
        m.close(th, abs(e), 1e-9, 'angle differs from the one the rotation was built from', theta0=t0)
    m.check(ref.angle_between(rox.q2R(rox.rot2q(k, th)), Rm) <= tol, 'axis and angle do not pass through a quaternion')


@C02.workload(24000)
def roll_pitch_yaw(m, rng, i):
    r, y = gen.angle(rng, False), gen.angle(rng, False)
    c = rng.random()
    sg = pick(rng, [-1.0, 1.0])
    if c < .2:
        p = sg*(PI/2 - 10.0**rng.uniform(-12, -1))
    elif c < .35:
        p = sg*PI/2
    elif c < .5:
        p = float(pick(rng, [0.0, PI/4, -PI/4, PI/3, 1e-9, -1e-9, 0.5]))
    elif c < .85:
        p = rng.uniform(-PI/2, PI/2)
    else:
        p = gen.angle(rng, False)
    m.case('rpy', r=r, p=p, y=y)
    arg = pick(rng, [list, tuple, np.array])([r, p, y])
    Rm = rox.rpy2R(arg)
    m.close(Rm, ref.rpy(r, p, y), 1e-13, 'matrix is not yaw about z, pitch about y, roll about x (fixed axes)')
    if c >= .2 and c < .35:
        Rx = pick(rng, [C for C in gen.CUBE if abs(C[2, 0]) == 1.0])
        m.seen('gimbal lock')
        m.raises(lambda: rox.R2rpy(Rx), 'roll pitch yaw of an exact gimbal lock was not refused', R=Rx)
        return
    if abs(math.cos(p)) < 1e-12:
        return
    m.seen('near gimbal lock', int(abs(math.cos(p)) < 1e-4))
    out = rox.R2rpy(Rm)
    m.check(len(out) == 3 and np.isfinite(np.asarray(out, dtype=float)).all(), 'roll pitch yaw is not three finite numbers', out=out)
    r1, p1, y1 = [float(x) for x in out]
    tol = 1e-12 + 3e-15/abs(math.cos(p))
    m.check(abs(p1) <= PI/2 + 1e-12, 'pitch is not in -pi/2..pi/2', out=out)
    m.check(abs(r1) <= PI + 1e-12 and abs(y1) <= PI + 1e-12, 'roll or yaw is not in -pi..pi', out=out)
    m.close(ref.rpy(r1, p1, y1), Rm, 10*tol, 'angles do not reproduce the matrix', out=out)
    if abs(p) <= PI/2:
        m.check(abs(p1 - p) <= 1e-12, 'the pitch is not the one the matrix was built from', out=out)
    if math.cos(p) > 0:
        d = np.abs(ref.wrap(np.array([r1-r, p1-p, y1-y])))
        m.check(d.max() <= 10*tol, 'angles are not the ones the matrix was built from', out=out)


# ------------------------------------------------------------------------------------------------ C03
C03 = prop('C03', 'Unit quaternions: basis, equal-component, from special axes and angles, random, both signs; matrices as '
           'in C02 (all branches of the matrix to quaternion conversion). Distinct inputs counted.',
           need={'case:q': 300, 'rounded past one': 50, 'quaternion close to one': 100, 'quaternion close to minus one': 100, 'case:R': 300, 'case:rot2q': 300, 'branch w': 20, 'branch x': 20, 'branch y': 20, 'branch z': 20})


@C03.workload(24000)
def quaternion_to_matrix(m, rng, i):
    q = gen.quat(rng)
    if rng.random() < .2:         # hardly any rotation, or hardly less than a full turn
        q = pick(rng, [-1, 1])*ref.aq(gen.axis(rng), pick(rng, [-1, 1])*10.0**rng.uniform(-9, -2))
    if rng.random() < .2:         # rounded to the other side of one
        q = np.nextafter(q, 2*q)
        q = np.nextafter(q, 2*q) if rng.random() < .5 else q
    m.case('q', q=q)
    m.seen('rounded past one', int(np.abs(q).max() > 1))
    Rm = rox.q2R(pick(rng, [list, tuple, np.array])(q) if rng.random() < .3 else q)
    m.close(Rm, ref.qR(q), 1e-14, 'matrix of the quaternion is wrong')
    m.close(rox.q2R(-q), Rm, 1e-15, 'opposite quaternions are different rotations')
    q2 = rox.R2q(Rm)
    m.check(np.shape(q2) == (4,), 'quaternion is not a 4 vector', q2=q2)
    m.check(min(np.abs(q2-q).max(), np.abs(q2+q).max()) <= 1e-12, 'quaternion does not survive the matrix', q2=q2)
    k, th = rox.q2rot(q)
    m.check(np.shape(k) == (3,) and np.isfinite(np.asarray(k, float)).all() and np.isfinite(th), 'axis or angle is not finite', k=k, theta=th)
    m.check(-1e-9 <= th <= 2*PI + 1e-9, 'angle is not in 0..2pi', theta=th)
    sv = np.linalg.norm(q[1:4])
    m.seen('quaternion close to one', int(sv < 1e-3 and q[0] > 0))
    m.seen('quaternion close to minus one', int(sv < 1e-3 and q[0] < 0))
    tol = 1.1e-6 if sv < 5.2e-7 else 1e-9
    m.close(rox.rot(k, th), Rm, tol, 'axis and angle of the quaternion are a different rotation', k=k, theta=th)
    m.close(np.linalg.norm(k), 1.0, 1e-9, 'axis of the quaternion is not a unit vector', k=k, theta=th)
    q3 = rox.rot2q(np.array(k), th)
    m.check(min(np.abs(q3-q).max(), np.abs(q3+q).max()) <= tol, 'quaternion does not survive axis and angle', q3=q3)


@C03.workload(36000)
def matrix_to_quaternion(m, rng, i):
    if i < 24:
        Rm = gen.CUBE[i]
    elif rng.random() < .35:     # around the branch boundaries of the conversion
        t = pick(rng, [2*PI/3, PI, PI - 1e-6, PI/2, 1.99, PI - 1e-3]) + pick(rng, [-1, 1])*pick(rng, gen.TINY)
        k = pick(rng, [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, -1, 0), (1, 1, -1), (0, 1, -1)]) + 1e-9*rng.standard_normal(3)*pick(rng, [0, 1])
        Rm = ref.rot(np.asarray(k)/np.linalg.norm(k), t)
    else:
        Rm = gen.R(rng)
    m.case('R', R=Rm)
    q = rox.R2q(Rm)
    m.check(np.shape(q) == (4,) and np.isfinite(q).all(), 'quaternion is not 4 finite numbers', q=q)
    m.seen('branch ' + 'wxyz'[int(np.argmax(np.abs(q)))])
    m.close(np.linalg.norm(q), 1.0, 1e-12, 'quaternion is not of unit length', q=q)
    m.close(ref.qR(q), Rm, 1e-12, 'quaternion is a different rotation', q=q)
    m.close(rox.q2R(q), Rm, 1e-12, 'matrix does not survive the quaternion', q=q)
    k, th = rox.q2rot(q)          # as it was returned, through all three forms
    m.close(np.linalg.norm(k), 1.0, 1e-9, 'axis of the quaternion of a matrix is not a unit vector', k=k, theta=th)
    m.close(rox.rot(k, th), Rm, 1.1e-6 if np.linalg.norm(q[1:4]) < 5.2e-7 else 1e-9, 'axis and angle of the quaternion of a matrix are a different rotation', k=k, theta=th)


@C03.workload(24000)
def axis_angle_to_quaternion(m, rng, i):
    k, t = gen.axis(rng), gen.angle(rng)
    m.case('rot2q', k=k, theta=t)
    q = rox.rot2q(k.reshape(3, 1) if rng.random() < .3 else k, num(rng, t))
    m.check(np.shape(q) == (4,), 'quaternion is not a 4 vector', q=q)
    m.close(q, ref.aq(k, t), 1e-14, 'quaternion of axis and angle is wrong')
    m.close(rox.q2R(q), ref.rot(k, t), 1e-13*(1+abs(t)), 'quaternion of axis and angle is a different rotation')
    q = q/np.linalg.norm(q)
    k2, t2 = rox.q2rot(q)
    tol = 1.1e-6 if abs(math.sin(t/2)) < 5.2e-7 else 1e-9
    m.close(np.linalg.norm(k2), 1.0, 1e-9, 'axis is not a unit vector', k2=k2, theta2=t2)
    m.close(rox.rot(k2, t2), ref.rot(k, t), tol, 'axis and angle do not survive the quaternion', k2=k2, theta2=t2)
    if 0 < t < 2*PI and abs(math.sin(t/2)) > 1e-3:
        m.close(k2, k, 1e-7, 'axis does not survive the quaternion', theta2=t2)
        m.close(t2, t, 1e-7, 'angle does not survive the quaternion', k2=k2)


# ------------------------------------------------------------------------------------------------ C04
C04 = prop('C04', 'Pairs and triples of unit and non-unit quaternions (basis, special, random) and angular velocities. '
           'Distinct inputs counted.', need={'case:qmul': 300, 'case:qdot': 300})


@C04.workload(24000)
def products(m, rng, i):
    a, b, c = gen.quat(rng), gen.quat(rng), gen.quat(rng)
    m.case('qmul', a=a, b=b)
    s = 10.0**rng.uniform(-2, 2) if rng.random() < .3 else 1.0
    Q = rox.quatproduct(s*a)
    m.check(np.shape(Q) == (4, 4), 'product operator is not 4x4')
    ab = Q @ b
    m.close(ab, s*ref.qmul(a, b), 1e-14*s, 'product operator is not the Hamilton product', s=s)
    m.close(rox.q2R(rox.quatproduct(a) @ b), ref.qR(a) @ ref.qR(b), 1e-13, 'product of quaternions is not the composed rotation')
    m.close(rox.quatproduct(rox.quatproduct(a) @ b) @ c, rox.quatproduct(a) @ (rox.quatproduct(b) @ c), 1e-13, 'product is not associative', c=c)
    ac = rox.quatcomplement(pick(rng, [list, tuple, np.array])(a) if rng.random() < .3 else a)
    m.close(ac, ref.qconj(a), 0.0, 'complement is wrong')
    m.close(rox.quatproduct(a) @ ac, np.array([1., 0, 0, 0]), 1e-13, 'quaternion times its complement is not one')
    m.close(rox.quatproduct(ac) @ a, np.array([1., 0, 0, 0]), 1e-13, 'complement times its quaternion is not one')
    m.close(rox.q2R(ac), rox.q2R(a).T, 1e-14, 'complement is not the reverse rotation')
    m.close(np.linalg.norm(ab), s, 1e-13*s, 'product of unit quaternions is not a unit quaternion')
    v = gen.vec(rng)
    w = rox.quatproduct(rox.quatproduct(a) @ np.concatenate(([0], v))) @ ac
    m.close(w[1:4], rox.q2R(a) @ v, 1e-13*(1+np.linalg.norm(v)), 'sandwich product does not rotate vectors', v=v)


@C04.workload(18000)
def rates(m, rng, i):
    q, w = gen.quat(rng), gen.vec(rng)
    m.case('qdot', q=q, w=w)
    J = rox.quatjacobian(q)
    m.check(np.shape(J) == (4, 3), 'rate operator is not 4x3')
    n = np.linalg.norm(w)
    m.close(J @ w, 0.5*ref.qmul(np.concatenate(([0], w)), q), 1e-14*(1+n), 'quaternion rate does not belong to the angular velocity')
    m.close(np.dot(q, J @ w), 0.0, 1e-14*(1+n), 'quaternion rate changes its length')
    # the derivative of an actual motion with the constant angular velocity w in the fixed frame
    h = 1e-5/(1+n)
    f = lambda t: ref.qmul(ref.aq(w/n, n*t), q) if n > 0 else q
    m.close(J @ w, (f(h)-f(-h))/(2*h), 1e-8*(1+n), 'quaternion rate is not the derivative of the motion')


# ------------------------------------------------------------------------------------------------ C05
C05 = prop('C05', 'Pairs of quaternions from equal to opposite, 1e-12..pi apart, both signs, scaled, t at 0, 1, 1/2, random, '
           'just inside and outside. Distinct inputs counted.',
           need={'case:slerp': 500, 'near equal': 50, 'long way': 50, 'refused': 20})


@C05.workload(36000)
def interpolation(m, rng, i):
    q0 = gen.quat(rng)
    c = rng.random()
    if c < .35:
        d = 10.0**rng.uniform(-12, -1)
    elif c < .45:
        d = 0.0
    elif c < .6:
        d = pick(rng, [PI/2, PI/3, PI, PI - 1e-3, 2*PI - 1e-3, 1.5*PI, 2*PI])
    else:
        d = rng.uniform(0, 2*PI)
    k = gen.axis(rng)
    q1 = ref.qmul(ref.aq(k, d), q0)
    q1 /= np.linalg.norm(q1)
    if rng.random() < .3:
        q1 = -q1
    c = rng.random()
    t = float(pick(rng, [0.0, 1.0, 0.5, 0.25, 1e-9, 1-1e-9])) if c < .4 else rng.uniform(0, 1)
    s0, s1 = (10.0**rng.uniform(-3, 3), 10.0**rng.uniform(-3, 3)) if rng.random() < .4 else (1.0, 1.0)
    m.case('slerp', q0=q0, q1=q1, t=t)
    q = rox.slerp(s0*q0, s1*q1, num(rng, t))
    m.check(np.shape(q) == (4,) and np.isfinite(q).all(), 'interpolated quaternion is not 4 finite numbers', q=q)
    m.close(np.linalg.norm(q), 1.0, 1e-9, 'interpolated quaternion is not a unit quaternion', q=q)
    R0, R1, Rq = ref.qR(q0), ref.qR(q1), ref.qR(q/np.linalg.norm(q))
    A = ref.angle_between(R0, R1)
    m.seen('near equal', int(A < 1e-4))
    m.seen('long way', int(np.dot(q0, q1) < 0))
    tol = 4e-6 if A < 1e-5 else 1e-7
    m.close(ref.angle_between(R0, Rq), t*A, tol, 'distance from the start is not t of the shorter arc', A=A, q=q)
    m.close(ref.angle_between(Rq, R1), (1-t)*A, tol, 'distance from the end is not 1-t of the shorter arc', A=A, q=q)
    if A < PI - 1e-2:
        a = rox.slerp(-q0, q1, t)
        b = rox.slerp(q0, -q1, t)
        m.check(ref.angle_between(ref.qR(a), Rq) < 2*tol and ref.angle_between(ref.qR(b), Rq) < 2*tol,
                'the sign of a quaternion changes the interpolated rotation', a=a, b=b, q=q)
        z = rox.slerp(q1, q0, 1-t)
        m.check(ref.angle_between(ref.qR(z), Rq) < 2*tol, 'interpolating backwards takes another path', q=q, z=z)
    if rng.random() < .1:
        bad = pick(rng, [-1e-6, 1+1e-6, -1.0, 2.0, rng.uniform(1.001, 5), -rng.uniform(.001, 5)])
        m.seen('refused')
        m.raises(lambda: rox.slerp(q0, q1, bad), 'a parameter outside 0..1 was not refused', bad=bad)


# ------------------------------------------------------------------------------------------------ C06
C06 = prop('C06', 'Random and special rigid transforms with and without frame names, vectors as list/tuple/(3,)/(3,1); '
           'perturbations around the comparison tolerances; shapes that are not a transform. Distinct inputs counted.',
           need={'case:group': 300, 'case:compare': 300, 'case:construct': 200, 'refused': 100, 'random': 50})


def tclose(m, A, B, sc, what, **d):
    m.close(A.R, B.R, 1e-13, what + ' (rotation)', **d)
    m.close(A.p, B.p, 1e-13*sc, what + ' (position)', **d)


@C06.workload(18000)
def group(m, rng, i):
    A, B, C = [gen.transform(rox, rng, True) for _ in range(3)]
    m.case('group', A=A, B=B)
    n = np.linalg.norm
    sc = 1 + n(A.p) + n(B.p) + n(C.p)
    AB = A*B
    H = ref.hom(A.R, A.p) @ ref.hom(B.R, B.p)
    m.close(AB.R, H[0:3, 0:3], 1e-14*4, 'composition has the wrong rotation')
    m.close(AB.p, H[0:3, 3], 1e-14*4*sc, 'composition has the wrong position')
    m.check(AB.parent_frame_id == A.parent_frame_id and AB.child_frame_id == B.child_frame_id,
            'composition does not run from the first parent to the last child frame',
            got=(AB.parent_frame_id, AB.child_frame_id), expected=(A.parent_frame_id, B.child_frame_id))
    tclose(m, AB*C, A*(B*C), sc, 'composition is not associative', C=C)
    Ai = A.inv()
    Hi = ref.invhom(ref.hom(A.R, A.p))
    m.close(Ai.R, Hi[0:3, 0:3], 1e-14*4, 'inverse has the wrong rotation')
    m.close(Ai.p, Hi[0:3, 3], 1e-14*4*sc, 'inverse has the wrong position')
    m.check(Ai.parent_frame_id == A.child_frame_id and Ai.child_frame_id == A.parent_frame_id, 'inverse does not swap the frames')
    I = rox.identity_transform()
    m.check(np.array_equal(I.R, np.eye(3)) and np.array_equal(I.p, np.zeros(3)), 'identity is not the identity')
    for X, w in ((A*Ai, 'transform times inverse'), (Ai*A, 'inverse times transform')):
        tclose(m, X, I, sc, w + ' is not the identity')
    tclose(m, Ai.inv(), A, sc, 'inverse of the inverse differs')
    tclose(m, (A*B).inv(), B.inv()*A.inv(), sc, 'inverse of a composition differs')
    tclose(m, A*I, A, sc, 'identity is not neutral')
    tclose(m, I*A, A, sc, 'identity is not neutral')
    for X in (AB, Ai):
        m.check(np.shape(X.R) == (3, 3) and np.shape(X.p) == (3,), 'result is not a 3x3 matrix and a 3 vector')
    s, r = str(AB), repr(AB)
    for f in (AB.parent_frame_id, AB.child_frame_id):
        m.check(f is None or (f in s and f in r), 'printed transform does not name its frame', s=s, r=r)
    # results are values of their own
    keep = [A.R.copy(), A.p.copy(), B.R.copy(), B.p.copy()]
    for X in (AB, Ai, A*I, I*A, B*I):
        X.R[:] = 7
        X.p[:] = 7
    m.check(all(np.array_equal(x, y) for x, y in zip(keep, [A.R, A.p, B.R, B.p])), 'results share memory with the operands')
    I2 = rox.identity_transform()
    I2.R[:] = 3
    I2.p[:] = 3
    I3 = rox.identity_transform()
    m.check(np.array_equal(I3.R, np.eye(3)) and not I3.p.any(), 'changing one identity changes the next')


@C06.workload(18000)
def comparison(m, rng, i):
    A = gen.transform(rox, rng, True)
    m.case('compare', A=A)
    B = rox.Transform(A.R.copy(), A.p.copy())
    m.check(A == B and not (A != B) and A.isclose(B), 'equal transforms compare as different')
    B = rox.Transform(A.R + 1e-12*rng.uniform(-1, 1, (3, 3)), A.p + 1e-12*rng.uniform(-1, 1, 3))
    m.check(A == B and not (A != B) and A.isclose(B), 'transforms equal up to rounding compare as different', B=B)
    # one component differs clearly
    d = pick(rng, [-1, 1])*10.0**rng.uniform(-3, 1)
    B = rox.Transform(A.R, A.p)
    j = int(rng.integers(12))
    if j < 9:
        B.R[j//3, j % 3] += d
    else:
        d *= (1+abs(B.p[j-9]))
        B.p[j-9] += d
    m.check(not (A == B) and (A != B) and not (B == A) and not A.isclose(B) and not B.isclose(A),
            'transforms that differ in one component compare as equal', component=j, delta=d)
    # in equality the numbers are compared to 1e-6 of their size
    S = rox.Transform(A.R, rng.choice([-1.0, 1.0], 3)*10.0**rng.uniform(0, 6, 3))
    for f, want in ((rng.uniform(0, .5), True), (10.0**rng.uniform(.5, 2), False)):
        B = rox.Transform(S.R, S.p)
        j = int(rng.integers(3)) if rng.random() < .6 else 3 + int(np.argmax(np.abs(S.R)))
        if j < 3:
            B.p[j] *= 1 + f*1e-6
        else:
            B.R[(j-3)//3, (j-3) % 3] *= 1 + f*1e-6
        for C, D in ((S, B), (B, S)):
            m.check(bool(C == D) == want and bool(C != D) != want and bool(C.__neq__(D)) != want, 'equality is not to the documented precision', S=S, B=B, factor=f, component=j)
    # the tolerance of the caller
    tol = 10.0**rng.uniform(-4, 0)
    S = rox.Transform(A.R, rng.uniform(-1, 1, 3))
    for f, want in ((pick(rng, [0.1, 0.5, 0.9]), True), (pick(rng, [1.5, 2.0, 10.0]), False)):
        B = rox.Transform(S.R, S.p)
        e = f*tol*pick(rng, [-1, 1])
        j = int(rng.integers(12))
        if j < 9:
            B.R[j//3, j % 3] += e
        else:
            B.p[j-9] += e
        m.check(bool(S.isclose(B, tol)) == want, 'comparison does not use the tolerance given', S=S, B=B, factor=f, tolerance=tol, component=j)
        m.check(bool(S.isclose(B, tol=tol)) == want, 'comparison does not use the tolerance given', factor=f, tolerance=tol, component=j)


BADS = [((3, 3), (4,)), ((3, 3), (2,)), ((3, 3), (1, 3)), ((3, 3), (3, 2)), ((3, 3), ()), ((3, 3), (3, 1, 1)), ((2, 3), (3,)),
        ((3, 4), (3,)), ((4, 4), (3,)), ((3,), (3,)), ((9,), (3,)), ((1, 3, 3), (3,)), ((3, 3, 1), (3,)), ((3, 2), (3, 1)), ((4, 3), (3, 1))]


@C06.workload(12000)
def construction(m, rng, i):
    Rm, p = gen.R(rng), gen.vec(rng)
    m.case('construct', R=Rm, p=p)
    Rf = pick(rng, [Rm, Rm.tolist(), np.asfortranarray(Rm)])
    c = int(rng.integers(5))
    pf = [p, p.tolist(), tuple(p.tolist()), p.reshape(3, 1), [[x] for x in p.tolist()]][c]
    f = pick(rng, [{}, {'parent_frame_id': 'a'}, {'child_frame_id': 'b'}, {'parent_frame_id': 'a', 'child_frame_id': 'b'}])
    T = rox.Transform(Rf, pf, **f)
    m.close(T.R, Rm, 0.0, 'constructed rotation differs')
    m.close(T.p, p, 0.0, 'constructed position differs')
    m.check(T.parent_frame_id == f.get('parent_frame_id') and T.child_frame_id == f.get('child_frame_id'), 'frames are not kept')
    Ra, pa = np.array(Rm), np.array(p).reshape(3, 1) if rng.random() < .5 else np.array(p)
    T = rox.Transform(Ra, pa)
    Ra[:] = 9
    pa[:] = 9
    m.check(np.array_equal(T.R, Rm) and np.array_equal(T.p, p), 'transform changes when the arrays it was made from change')
    Rs, ps = BADS[i % len(BADS)]
    m.seen('refused')
    m.raises(lambda: rox.Transform(np.ones(Rs) if Rs != (3, 3) else Rm, np.ones(ps)), 'shapes that are not a transform were accepted', Rs=Rs, ps=ps)


@C06.workload(2400)
def random_transforms(m, rng, i):
    m.seen('random')
    Rm, p, T = rox.random_R(), rox.random_p(), rox.random_transform()
    m.case('random', R=Rm)
    m.check(ref.is_rotation(Rm, 1e-12), 'random rotation is not a rotation', R=Rm)
    m.check(ref.is_rotation(T.R, 1e-12) and np.shape(T.p) == (3,) and np.isfinite(T.p).all(), 'random transform is not rigid', T=T)
    m.check(np.shape(p) == (3,) and np.isfinite(p).all(), 'random position is not a vector', p=p)
    m.check(not np.array_equal(rox.random_R(), Rm), 'random rotations repeat')
