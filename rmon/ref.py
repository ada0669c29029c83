"""Reference models, written from the mathematics only and independent of the code under test.

Rotations are built from the quaternion sandwich product (not Euler-Rodrigues with the cross product matrix),
forward kinematics from homogeneous 4x4 matrices acting on the home configuration.
"""
import math
import numpy as np

PI = math.pi


def qmul(a, b):
    a0, a1, a2, a3 = [float(x) for x in a]
    b0, b1, b2, b3 = [float(x) for x in b]
    return np.array([a0*b0 - a1*b1 - a2*b2 - a3*b3, a0*b1 + a1*b0 + a2*b3 - a3*b2,
                     a0*b2 - a1*b3 + a2*b0 + a3*b1, a0*b3 + a1*b2 - a2*b1 + a3*b0])


def qconj(a):
    return np.array([a[0], -a[1], -a[2], -a[3]], dtype=float)


def aq(k, t):
    """unit quaternion of a rotation about k by t"""
    k = np.asarray(k, dtype=float).reshape(3)
    s = math.sin(t/2)
    return np.array([math.cos(t/2), k[0]*s, k[1]*s, k[2]*s])


def qR(q):
    """rotation matrix of a unit quaternion, entry by entry"""
    w, x, y, z = [float(v) for v in q]
    return np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
                     [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
                     [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])


def rot(k, t):
    return qR(aq(k, t))


def cross(a, b):
    return np.array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]], dtype=float)


def angle_of(R):
    """rotation angle of a rotation matrix, accurate everywhere"""
    s = math.sqrt((R[2, 1]-R[1, 2])**2 + (R[0, 2]-R[2, 0])**2 + (R[1, 0]-R[0, 1])**2)/2
    return math.atan2(s, (R[0, 0]+R[1, 1]+R[2, 2]-1)/2)


def angle_between(Ra, Rb):
    return angle_of(np.asarray(Ra).T @ np.asarray(Rb))


def is_rotation(R, tol=1e-9):
    R = np.asarray(R, dtype=float)
    return R.shape == (3, 3) and np.isfinite(R).all() and np.abs(R.T @ R - np.eye(3)).max() < tol \
        and abs(np.linalg.det(R) - 1) < tol


def wrap(a):
    """to [-pi, pi)"""
    return np.remainder(np.asarray(a, dtype=float) + PI, 2*PI) - PI


def hom(R, p):
    T = np.eye(4)
    T[0:3, 0:3] = R
    T[0:3, 3] = np.asarray(p, dtype=float).reshape(3)
    return T


def invhom(T):
    R = T[0:3, 0:3].T
    return hom(R, -R @ T[0:3, 3])


def hrot(k, t):
    return hom(rot(k, t), np.zeros(3))


def htrans(p):
    return hom(np.eye(3), p)


def chain_fk(H, P, jt, q):
    """end of the chain, without tool, flange and base: product of exponentials"""
    H, P = np.asarray(H, dtype=float), np.asarray(P, dtype=float)
    T = htrans(P[:, 0])
    for i in range(H.shape[1]):
        T = T @ (hrot(H[:, i], float(q[i])) if int(jt[i]) in (0, 2) else htrans(float(q[i])*H[:, i]))
        T = T @ htrans(P[:, i+1])
    return T


def robot_fk(r, q):
    T = chain_fk(r.H, r.P, r.joint_type, q)
    if r.T_flange is not None:
        T = T @ hom(r.T_flange.R, r.T_flange.p)
    if r.R_tool is not None and r.p_tool is not None:
        T = T @ hom(r.R_tool, r.p_tool)
    if r.T_base is not None:
        T = hom(r.T_base.R, r.T_base.p) @ T
    return T


def robot_jac(r, q):
    """geometric Jacobian of the tool point, angular rows first, in the world frame (joint types 0 and 1)"""
    n = r.H.shape[1]
    base = np.eye(4) if r.T_base is None else hom(r.T_base.R, r.T_base.p)
    tip = robot_fk(r, q)[0:3, 3]
    T = base @ htrans(r.P[:, 0])
    J = np.zeros((6, n))
    for i in range(n):
        h = T[0:3, 0:3] @ r.H[:, i]
        if int(r.joint_type[i]) == 0:
            J[0:3, i] = h
            J[3:6, i] = cross(h, tip - T[0:3, 3])
            T = T @ hrot(r.H[:, i], float(q[i]))
        else:
            J[3:6, i] = h
            T = T @ htrans(float(q[i])*r.H[:, i])
        T = T @ htrans(r.P[:, i+1])
    return J


def rpy(r, p, y):
    return rot([0, 0, 1], y) @ rot([0, 1, 0], p) @ rot([1, 0, 0], r)


def lattice(q, lo, hi, revolute):
    """all configurations equal to q up to full turns of the revolute joints, within lo..hi (inclusive)"""
    opts = []
    for i in range(len(q)):
        if not revolute[i]:
            opts.append([q[i]])
            continue
        k0 = math.ceil((lo[i]-q[i])/(2*PI) - 1e-12)
        k1 = math.floor((hi[i]-q[i])/(2*PI) + 1e-12)
        opts.append([q[i] + 2*PI*k for k in range(k0, k1+1)])
    out = [[]]
    for o in opts:
        out = [a + [b] for a in out for b in o]
    return [np.array(a, dtype=float) for a in out]


def quat_of(R):
    """a unit quaternion of a rotation matrix (largest component first, Shepperd)"""
    R = np.asarray(R, dtype=float)
    d = [1 + R[0, 0] + R[1, 1] + R[2, 2], 1 + R[0, 0] - R[1, 1] - R[2, 2], 1 - R[0, 0] + R[1, 1] - R[2, 2], 1 - R[0, 0] - R[1, 1] + R[2, 2]]
    k = int(np.argmax(d))
    a = [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]
    b = [R[1, 2] + R[2, 1], R[0, 2] + R[2, 0], R[0, 1] + R[1, 0]]
    q = [[d[0], a[0], a[1], a[2]], [a[0], d[1], b[2], b[1]], [a[1], b[2], d[2], b[0]], [a[2], b[1], b[0], d[3]]][k]
    q = np.array(q)
    return q/np.linalg.norm(q)
