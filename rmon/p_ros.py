"""C28, C29: ROS messages and the ROS transform listener (ROS itself is a stand-in, see stubs_ros)"""
import numpy as np
from . import stubs_ros as ros
ros.install()
import general_robotics_toolbox as rox
from general_robotics_toolbox import ros_msg as rm, ros_tf as rt
from .core import Prop
from . import ref, gen
from .gen import pick

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


# ------------------------------------------------------------------------------------------------ C28
C28 = prop('C28', 'Random quaternions, rotations, positions, transforms with and without frame names, twists and wrenches, as lists, tuples, '
           'arrays, columns and other number types, each converted to its message, the message fields compared by name, checked to be serializable, '
           'and converted back. Distinct inputs counted.',
           need={'case:transform': 500, 'case:rotation': 300, 'case:quaternion': 300, 'case:vector': 300, 'case:twist': 300, 'case:hand': 300, 'frame named': 200},
           assumptions=['message types are stand-ins with the fields and constructors of geometry_msgs as generated by genpy'])


def good(m, msg, t):
    m.check(type(msg) is t, 'wrong message type', got=type(msg).__name__)
    p = msg.problems()
    m.check(p is None, 'the message cannot be serialized', problem=p)


def same_R(m, q, R, what, tol=1e-7):
    """q: x y z w message"""
    m.check(abs(q.x**2 + q.y**2 + q.z**2 + q.w**2 - 1) < 1e-9, what + ': not a unit quaternion')
    m.close(ref.qR([q.w, q.x, q.y, q.z]), R, tol, what)


def xyz(v):
    return [v.x, v.y, v.z]


def frm(rng, v):
    c = int(rng.integers(6))
    v = np.asarray(v, dtype=float)
    return [lambda: v, lambda: [float(x) for x in v], lambda: tuple(float(x) for x in v), lambda: v.reshape(-1, 1),
            lambda: v.reshape(1, -1), lambda: np.repeat(v, 2)[::2]][c]()


def anyvec(rng):
    """vectors of every size, components of very different size"""
    return gen.vec(rng)*(10.0**rng.uniform(-20, 20, 3) if rng.random() < .15 else 1)


@C28.workload(7500)
def quaternions(m, rng, i):
    q = gen.quat(rng)
    m.case('quaternion', q=q)
    a = rm.q2msg(frm(rng, q))
    good(m, a, ros.Quaternion)
    m.close([a.w, a.x, a.y, a.z], q, 0, 'the components of the quaternion are mixed up')
    m.close(rm.msg2q(a), q, 0, 'there and back gives another quaternion')
    m.close(rm.msg2R(a), ref.qR(q), 1e-9, 'the quaternion message is another rotation')
    m.check(isinstance(rm.msg2q(a), np.ndarray), 'not an array')


@C28.workload(7500)
def rotations(m, rng, i):
    R = gen.R(rng)
    m.case('rotation', R=R)
    a = rm.R2msg(R)
    good(m, a, ros.Quaternion)
    same_R(m, a, R, 'the rotation is sent as another rotation')
    m.close(rm.msg2R(a), R, 1e-7, 'there and back gives another rotation')


@C28.workload(7500)
def vectors(m, rng, i):
    p = anyvec(rng)
    m.case('vector', p=p)
    for mk, back, t in ((rm.p2msg, rm.msg2p, ros.Vector3), (rm.p2point_msg, rm.point_msg2p, ros.Point)):
        a = mk(frm(rng, p))
        good(m, a, t)
        m.close(xyz(a), p, 0, 'the components are mixed up')
        b = back(a)
        m.check(isinstance(b, np.ndarray), 'not an array')
        m.close(b, p, 0, 'there and back gives another vector')


@C28.workload(7500)
def screws(m, rng, i):
    v = np.hstack((anyvec(rng), anyvec(rng)))
    m.case('twist', v=v)
    a = rm.twist2msg(frm(rng, v))
    good(m, a, ros.Twist)
    m.close(xyz(a.angular), v[0:3], 0, 'the angular velocity is wrong')
    m.close(xyz(a.linear), v[3:6], 0, 'the linear velocity is wrong')
    m.check(isinstance(rm.msg2twist(a), np.ndarray), 'not an array')
    m.close(rm.msg2twist(a), v, 0, 'there and back gives another twist')
    a = rm.wrench2msg(frm(rng, v))
    good(m, a, ros.Wrench)
    m.close(xyz(a.torque), v[0:3], 0, 'the torque is wrong')
    m.close(xyz(a.force), v[3:6], 0, 'the force is wrong')
    m.check(isinstance(rm.msg2wrench(a), np.ndarray), 'not an array')
    m.close(rm.msg2wrench(a), v, 0, 'there and back gives another wrench')


def is_transform(m, T, R, p, parent, child, what):
    m.check(isinstance(T, rox.Transform), what + ': not a transform')
    m.close(T.R, R, 1e-7, what + ' (orientation)')
    m.close(np.asarray(T.p).reshape(3), p, 0, what + ' (position)')
    m.check(T.parent_frame_id == parent and T.child_frame_id == child, what + ' (frame names)', got=(T.parent_frame_id, T.child_frame_id),
            want=(parent, child))


@C28.workload(9000)
def transforms(m, rng, i):
    R, p = gen.R(rng), anyvec(rng)
    fr, ch = pick(rng, [None, 'world', 'a/b', 'base link', '/map']), pick(rng, [None, 'tool', 'b', 'tip 1'])
    if rng.random() < .2:
        fr, ch = None, ch
    T = rox.Transform(R, pick(rng, [p, list(p), tuple(p), p.reshape(3, 1)]), fr, ch)
    m.case('transform', T=T, fr=fr, ch=ch)
    m.seen('frame named', int(fr is not None) + int(ch is not None))
    a = rm.transform2msg(T)
    good(m, a, ros.Transform)
    same_R(m, a.rotation, R, 'the orientation is sent as another one')
    m.close(xyz(a.translation), p, 0, 'the position is sent as another one')
    is_transform(m, rm.msg2transform(a), R, p, None, None, 'a transform message read back')
    a = rm.transform2pose_msg(T)
    good(m, a, ros.Pose)
    same_R(m, a.orientation, R, 'the orientation is sent as another one')
    m.close(xyz(a.position), p, 0, 'the position is sent as another one')
    is_transform(m, rm.msg2transform(a), R, p, None, None, 'a pose message read back')
    a = rm.transform2transform_stamped_msg(T)
    good(m, a, ros.TransformStamped)
    same_R(m, a.transform.rotation, R, 'the orientation is sent as another one')
    m.close(xyz(a.transform.translation), p, 0, 'the position is sent as another one')
    m.check(a.header.frame_id == (fr or '') and a.child_frame_id == (ch or ''), 'the frame names are sent as others', got=a.values())
    b = rm.msg2transform(a)
    m.check((b.parent_frame_id or None, b.child_frame_id or None) == (fr, ch), 'the frame names are lost', got=(b.parent_frame_id, b.child_frame_id))
    m.close(b.R, R, 1e-7, 'a stamped transform read back has another orientation')
    m.close(b.p, p, 0, 'a stamped transform read back has another position')
    a = rm.transform2pose_stamped_msg(T)
    good(m, a, ros.PoseStamped)
    same_R(m, a.pose.orientation, R, 'the orientation is sent as another one')
    m.close(xyz(a.pose.position), p, 0, 'the position is sent as another one')
    m.check(a.header.frame_id == (fr or ''), 'the frame name is sent as another one', got=a.values())
    b = rm.msg2transform(a)
    m.check((b.parent_frame_id or None) == fr, 'the frame name is lost', got=b.parent_frame_id)
    m.close(b.R, R, 1e-7, 'a stamped pose read back has another orientation')
    m.close(b.p, p, 0, 'a stamped pose read back has another position')
    m.close(T.R, R, 0, 'converting changes the transform')
    m.close(T.p, p, 0, 'converting changes the transform')


@C28.workload(7500)
def by_hand(m, rng, i):
    """messages that come from somewhere else"""
    q, p = gen.quat(rng), anyvec(rng)
    R = ref.qR(q)
    m.case('hand', q=q, p=p)
    Q = ros.Quaternion(float(q[1]), float(q[2]), float(q[3]), float(q[0]))
    fl = [float(x) for x in p]
    is_transform(m, rm.msg2transform(ros.Transform(ros.Vector3(*fl), Q)), R, p, None, None, 'a transform message')
    is_transform(m, rm.msg2transform(ros.Pose(ros.Point(*fl), Q)), R, p, None, None, 'a pose message')
    s = ros.TransformStamped()
    s.header.frame_id, s.child_frame_id, s.transform = 'w', 't', ros.Transform(ros.Vector3(*fl), Q)
    is_transform(m, rm.msg2transform(s), R, p, 'w', 't', 'a stamped transform message')
    s = ros.PoseStamped()
    s.header.frame_id, s.pose = 'w', ros.Pose(ros.Point(*fl), Q)
    is_transform(m, rm.msg2transform(s), R, p, 'w', None, 'a stamped pose message')
    a, l = anyvec(rng), anyvec(rng)
    m.close(rm.msg2twist(ros.Twist(linear=ros.Vector3(*l), angular=ros.Vector3(*a))), np.hstack((a, l)), 0, 'a twist message is read as another twist')
    m.close(rm.msg2wrench(ros.Wrench(force=ros.Vector3(*l), torque=ros.Vector3(*a))), np.hstack((a, l)), 0, 'a wrench message is read as another wrench')
    b = pick(rng, [ros.Twist(), ros.Vector3(), Q, None, 3.0, 'pose', p])
    m.raises(lambda: rm.msg2transform(b), 'something that is not a transform is accepted')


# ------------------------------------------------------------------------------------------------ C29
C29 = prop('C29', 'Random trees of timed frames behind the listener, histories of updates, queries, waits and clears; every answer is compared with a reference '
           'evaluation of the tree, every refusal with the exception the tree demands. Distinct histories counted.',
           need={'case:history': 100, 'lookups': 1500, 'full lookups': 700, 'refused': 300, 'waits': 300, 'clears': 50, 'composed': 200},
           assumptions=['the ROS listener is a stand-in answering from a table of timed transforms'])

FRAMES = ['world', 'base', 'l1', 'l2', 'tool', 'cam', 'island', 'rock']
NAMES = [FRAMES, ['/map', '/robot/base', 'robot/link_1', 'Robot/link_1', 'tool 0', '/cam/', 'island', '/island'],
         ['w', 'W', '1', '01', 'a.b', 'a/b', 'i', 'i ']]


@C29.workload(4000)
def history(m, rng, i):
    extra, kw = pick(rng, [((), {}), ((True,), {}), ((), {'cache_time': 7})])
    L = rt.TransformListener(*extra, **kw)
    S = L.ros_listener
    m.check(isinstance(S, ros.TransformListener) and S.args == extra and S.kw == kw, 'the arguments do not reach the ROS listener')
    names = dict(zip(FRAMES, pick(rng, NAMES)))
    F = [names[f] for f in FRAMES]
    par = {names[c]: names[f] for c, f in
           {'base': 'world', 'l1': 'base', 'l2': 'l1', 'tool': 'l2', 'cam': 'world', 'rock': 'island'}.items()}
    kept = []
    log = []
    table = ros.TransformListener()         # the reference keeps its own copy

    def update():
        c = pick(rng, list(par))
        t, R, p = float(rng.integers(1, 6)), gen.R(rng), gen.vec(rng)
        for z in (S, table):
            z.set(par[c], c, t, R, p)
        log.append(('set', c, t, R, p))
    for _ in range(6):
        update()
    Z = ros.Time(0)
    for _ in range(25):
        c = rng.random()
        a, b, f = pick(rng, F[:7]), pick(rng, F), pick(rng, F)
        ta, tb = [ros.Time(pick(rng, [0, 1, 2, 3, 4, 6, 2.5, 3.75, 1e-3])) for _ in range(2)]
        if rng.random() < .2:
            tb = ros.Time(ta.secs, ta.nsecs)
        full = rng.random() < .4
        args = (a, ta, b, tb, f) if full else (a, b, ta)
        ref_args = args if full else (a, ta, b, ta)
        if not full and rng.random() < .3 and c < .75:
            args, ref_args = (a, b), (a, Z, b, Z)
        try:
            want, exc = table.pose(*ref_args), None
        except ros.TransformException as e:
            want, exc = None, type(e)
        if c < .2:
            update()
        elif c < .6:
            m.seen('full lookups' if full else 'lookups')
            call = L.lookupTransformFull if full else L.lookupTransform
            if exc is not None:
                m.seen('refused')
                m.raises(lambda: call(*args), 'a transform is made up', excs=(exc,), log=log)
                m.raises(lambda: call(*args), 'the exception is not one of the exceptions of the module', excs=(rt.Exception,), log=log)
            else:
                T = call(*args)
                m.check(isinstance(T, rox.Transform), 'not a transform')
                m.close(T.R, want[0:3, 0:3], 1e-7, 'another orientation', log=log)
                m.close(np.asarray(T.p), want[0:3, 3], 1e-12*(1 + np.abs(want[0:3, 3]).max()), 'another position', log=log)
                m.check(T.parent_frame_id == a and T.child_frame_id == b, 'other frame names', got=(T.parent_frame_id, T.child_frame_id))
                kept.append((T, np.array(T.R), np.array(T.p), a, b))
                if not full and rng.random() < .6:
                    # the answer composes
                    g = pick(rng, F[:6])
                    try:
                        W = table.pose(a, *(ref_args[1], g, ref_args[1]))
                    except ros.TransformException:
                        continue
                    rest = args[2:]
                    U = T * L.lookupTransform(b, g, *rest)
                    s = 1 + np.abs(W[0:3, 3]).max() + np.abs(want[0:3, 3]).max()
                    m.close(U.R, W[0:3, 0:3], 1e-6, 'transforms do not compose', log=log)
                    m.close(U.p, W[0:3, 3], 1e-6*s, 'transforms do not compose', log=log)
                    m.check(U.parent_frame_id == a and U.child_frame_id == g, 'frame names do not compose', got=(U.parent_frame_id, U.child_frame_id))
                    V = T.inv()
                    m.close(V.R @ want[0:3, 0:3], np.eye(3), 1e-6, 'the answer cannot be inverted')
                    m.seen('composed')
        elif c < .75:
            got = (L.canTransformFull if full else L.canTransform)(*args)
            m.check(bool(got) == (exc is None), 'wrong answer whether there is a transform', got=got, log=log)
        elif c < .97:
            m.seen('waits')
            d = ros.Duration(int(rng.integers(1, 9)))
            z = args + (d,) + ((ros.Duration(1),) if rng.random() < .5 else ())
            n = len(S.calls)
            call = L.waitForTransformFull if full else L.waitForTransform
            if exc is not None:
                m.raises(lambda: call(*z), 'does not fail when the wait fails', excs=(ros.TransformException,), log=log)
            else:
                call(*z)
            w = S.calls[n:]
            z = z if len(z) == len(args) + 2 else z + (None,)
            # (tf polls every 10 ms unless told otherwise; what is there need not be waited for)
            m.check(len(w) == 1 or not w and exc is None, 'not waited for, or more than once', got=[str(x) for x in w])
            poll = lambda x: ros.Duration(0.01) if x is None else x
            m.check(all(x == y for v in w for x, y in zip(v[1:-1], z[:-1])) and all(poll(v[-1]) == poll(z[-1]) for v in w),
                    'something else is waited for', got=[str(x) for x in w])
        else:
            m.seen('clears')
            L.clear()
            table.clear()
            log.append('clear')
            m.check(not S.frames, 'the listener is not cleared')
    for T, R, p, a, b in kept:
        m.check(np.array_equal(T.R, R) and np.array_equal(T.p, p) and (T.parent_frame_id, T.child_frame_id) == (a, b),
                'an earlier answer changes later', log=log)
    m.case('history', log=[repr(x) for x in log])
