"""Reference closed-form inverse kinematics (complex numbers in the arm plane), independent of the subproblem solvers.

Every solution comes with how far each square root or arc cosine was from its end of range, so that a caller can tell
solutions that must be found from those that rounding decides."""
import cmath, math
import numpy as np
from . import ref

PI = math.pi


def wrist_center_split(H, P):
    """fold the wrist offsets into the links around them"""
    P = np.array(P, dtype=float)
    P3 = P[:, 3] + P[:, 4]
    P6 = P[:, 6] + P[:, 5]
    return P3, P6


def signed_angle(k, a, b):
    """angle that turns a to b about k (parts across k)"""
    a = a - np.dot(a, k)*k
    b = b - np.dot(b, k)*k
    return math.atan2(np.dot(k, ref.cross(a, b)), np.dot(a, b))


def cx(v):
    """x-z plane as a complex number, so that a rotation by t about +y is a multiplication by exp(i t)"""
    return complex(v[2], v[0])


class Sol(object):
    def __init__(self, q, margin):
        self.q, self.margin = np.array(q, dtype=float), margin


def cone(k, p, a, d):
    """angles t with a . rot(k, t) p = d, and 1 - |x| of the sine or cosine they come from (> 0 when they exist)"""
    A = np.dot(a, p) - np.dot(a, k)*np.dot(k, p)
    B = np.dot(a, ref.cross(k, p))
    C = np.dot(a, k)*np.dot(k, p)
    r = math.hypot(A, B)
    if r < 1e-12:
        return [], -1.0
    x = (d - C)/r
    if abs(x) > 1 + 1e-9:
        return [], 1 - abs(x)
    x = min(1.0, max(-1.0, x))
    b = math.atan2(B, A)
    c = math.acos(x)
    return [b + c, b - c], 1 - abs(x)


def first_joint(h, v, d):
    """angles q1 with y . rot(h, q1)^T v = d; margin > 0 inside the reachable range"""
    return cone(h, np.array([0., 1, 0]), v, d)


def across(h, v):
    """size of the part of v that the first joint turns"""
    return float(np.linalg.norm(v - np.dot(h, v)*h)*np.linalg.norm(ref.cross(h, np.array([0., 1, 0]))))


def planar(l1, l2, u):
    """(a, b) with u = exp(i a) (l1 + exp(i b) l2)"""
    x = (abs(u)**2 - abs(l1)**2 - abs(l2)**2)/(2*abs(l1)*abs(l2))
    if abs(x) > 1:
        return [], 1 - abs(x)
    g = cmath.phase(l2/l1)
    out = []
    for c in (math.acos(x), -math.acos(x)):
        b = c - g
        out.append((cmath.phase(u) - cmath.phase(l1 + cmath.exp(1j*b)*l2), b))
    return out, min(1 - abs(x), abs(u)/(abs(l1) + abs(l2)))


def spherical(r, X):
    """all solutions for a robot with any h1 but y, h2, h3 = +-y, any wrist axes with h5 along neither h4 nor h6, X the
    4x4 pose of the end of the chain. Returns (solutions, best margin of the unreachable branches, distance of
    any branch to its end of range)"""
    H = np.asarray(r.H, dtype=float)
    P = np.asarray(r.P, dtype=float)
    P3, P6 = wrist_center_split(H, P)
    s2, s3 = H[1, 1], H[1, 2]
    R06, p = X[0:3, 0:3], X[0:3, 3]
    v = p - R06 @ P6 - P[:, 0]
    d = P[1, 1] + P[1, 2] + P3[1]
    Q1, m1 = first_joint(H[:, 0], v, d)
    out, reach = [], [m1] if not Q1 else []
    edge = [abs(m1), across(H[:, 0], v)]
    h4, h5, h6 = H[:, 3], H[:, 4], H[:, 5]
    for q1 in Q1:
        R1 = ref.rot(H[:, 0], q1)
        u = cx(R1.T @ v - P[:, 1])
        ab, m2 = planar(cx(P[:, 2]), cx(P3), u)
        edge.append(abs(m2))
        if not ab:
            reach.append(m2)
        for a, b in ab:
            q2, q3 = s2*a, s3*b
            R03 = R1 @ ref.rot(H[:, 1], q2) @ ref.rot(H[:, 2], q3)
            M = R03.T @ R06
            Q5, m3 = cone(h5, h6, h4, float(h4 @ M @ h6))
            edge.append(abs(m3))
            if not Q5:
                reach.append(m3)
            for q5 in Q5:
                w = ref.rot(h5, q5) @ h6
                if np.linalg.norm(ref.cross(h4, w)) < 1e-7:
                    q4 = 0.0
                else:
                    q4 = signed_angle(h4, w, M @ h6)
                R35 = ref.rot(h4, q4) @ ref.rot(h5, q5)
                e = np.eye(3)[int(np.argmin(np.abs(h6)))]
                q6 = signed_angle(h6, e, R35.T @ M @ e)
                out.append(Sol([q1, q2, q3, q4, q5, q6], min(m1, m2, m3)))
    return out, (max(reach) if reach else 1.0), min(edge)


def ur(r, X):
    H = np.asarray(r.H, dtype=float)
    P = np.asarray(r.P, dtype=float)
    s = H[1, 1]
    R06, p = X[0:3, 0:3], X[0:3, 3]
    v = p - R06 @ (P[:, 5] + P[:, 6]) - P[:, 0]
    d = P[1, 1] + P[1, 2] + P[1, 3] + P[1, 4]
    Q1, m1 = first_joint(H[:, 0], v, d)
    out, reach = [], [m1] if not Q1 else []
    edge = [abs(m1), across(H[:, 0], v)]
    y = np.array([0., 1, 0])
    for q1 in Q1:
        R1 = ref.rot(H[:, 0], q1)
        M = R1.T @ R06
        f = float(np.clip(M[1, 1], -1, 1))
        edge.append(1 - abs(f))
        for q5 in (math.acos(f), -math.acos(f)):
            w = ref.rot(H[:, 4], q5) @ y
            q234 = s*signed_angle(y, w, M @ y) if 1 - abs(f) > 1e-14 else 0.0
            A = ref.rot(H[:, 3], q234)
            u = cx(R1.T @ v - P[:, 1] - A @ P[:, 4])
            ab, m2 = planar(cx(P[:, 2]), cx(P[:, 3]), u)
            edge.append(abs(m2))
            if not ab:
                reach.append(m2)
            R05 = A @ ref.rot(H[:, 4], q5)
            e = np.array([0., 0, 1])
            q6 = s*signed_angle(y, e, R05.T @ M @ e)
            for a, b in ab:
                q2, q3 = s*a, s*b
                out.append(Sol([q1, q2, q3, q234 - q2 - q3, q5, q6], min(m1, m2, 1 - abs(f))))
    return out, (max(reach) if reach else 1.0), min(edge)
