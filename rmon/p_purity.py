"""C20, C30: calls do not leak: into their arguments, into each other, into results already handed out, across threads"""
import sys, copy, threading, hashlib, time, os
import numpy as np
import general_robotics_toolbox as rox
from .core import Prop, feed, fields, ambient, changed
from . import ref, gen, p_ik
from .gen import PI, pick
from .p_fk import qform, jform

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


# ------------------------------------------------------------------------------------- a vocabulary of calls
def freeze(x):
    """everything observable about a value, as nested tuples"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ('objects', x.shape) + tuple(freeze(v) for v in x.ravel())
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, (rox.Robot, rox.Transform)):
        return (type(x).__name__,) + tuple((k, freeze(v)) for k, v in fields(x).items())
    if isinstance(x, float):
        return ('float', repr(x))
    if hasattr(x, 'FIELDS'):         # a ROS message
        return (type(x).__name__,) + tuple(freeze(v) for v in x.values())
    if isinstance(x, np.generic):
        return ('scalar', repr(x))
    return (type(x).__name__, repr(x))


def numbers(x):
    """flat list of the numbers of a result, and its shape"""
    if isinstance(x, (list, tuple)):
        out, sh = [], []
        for v in x:
            a, b = numbers(v)
            out += a
            sh.append(b)
        return out, ('seq', tuple(sh))
    if isinstance(x, dict):
        return numbers([list(x.keys()), list(x.values())])
    if isinstance(x, rox.Transform):
        return numbers([np.asarray(x.R), np.asarray(x.p)])
    if isinstance(x, rox.Robot):
        return numbers(list(fields(x).values()))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return numbers([v for v in x.ravel()])
    if isinstance(x, np.ndarray):
        return [float(v) for v in np.asarray(x).ravel()], x.shape
    if hasattr(x, 'FIELDS'):
        return numbers(x.values())
    if isinstance(x, (bool, np.bool_, str, type(None))):
        return [], repr(x)
    return [float(x)], 'num'


def same(a, b, tol=1e-9):
    na, sa = numbers(a)
    nb, sb = numbers(b)
    if sa != sb:
        return False
    na, nb = np.array(na), np.array(nb)
    return na.size == 0 or bool(np.all(np.abs(na - nb) <= tol*(1 + np.abs(na))) or np.array_equal(na, nb, equal_nan=True))


class Call(object):
    def __init__(self, name, fn, *args, **kw):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw
        self.outcome = None

    def run(self):
        try:
            return ('ok', self.fn(*self.args, **self.kw))
        except AssertionError:
            return ('refused', None)


def perp(rng):
    k = gen.unit(rng)
    p = ref.cross(k, gen.unit(rng))
    return k, p/np.linalg.norm(p)


def info_yaml(rng, r):
    """a robot info document of a robot"""
    v3 = lambda v: dict(zip('xyz', [float(a) for a in v]))
    n = len(r.joint_type)
    ident = {'orientation': {'w': 1.0, 'x': 0.0, 'y': 0.0, 'z': 0.0}, 'position': {'x': .1, 'y': .2, 'z': .3}}
    return {'chains': [{'joint_numbers': list(range(n)), 'H': [v3(r.H[:, k]) for k in range(n)], 'P': [v3(r.P[:, k]) for k in range(n+1)],
                        'flange_identifier': 'flange', 'flange_pose': ident, 'link_identifiers': [{'name': 'base'}]}],
            'joint_info': [{'joint_type': 'prismatic' if int(r.joint_type[k]) else 'revolute', 'joint_identifier': {'name': 'j%d' % k},
                            'joint_limits': {'lower': -1.0-k, 'upper': 1.0+k, 'velocity': 1.0, 'acceleration': 2.0}} for k in range(n)],
            'device_info': {'device_origin_pose': {'pose': ident}}}


def scene(rng):
    """robots and transforms that the calls of a session share"""
    robots = [gen.any_robot(rox, rng) for _ in range(2)]
    arms = [('opw', p_ik.closed_form_robot(rng, 'opw')), ('ur', p_ik.closed_form_robot(rng, 'ur'))]
    sc = {'robots': robots, 'arms': arms, 'T': [gen.transform(rox, rng, True) for _ in range(3)]}
    if rng.random() < .3:
        from general_robotics_toolbox import tesseract as t
        from . import p_tess
        sc['env_robot'] = p_tess.full_robot(rng)
        sc['env'] = t.TesseractRobot(sc['env_robot'], 'rob')
    return sc


def random_call(rng, sc, heavy=True):
    robots = sc['robots'] + [a for _, a in sc['arms']]
    r = pick(rng, robots)
    c = int(rng.integers(40 if heavy else 22))
    A, B = pick(rng, sc['T']), pick(rng, sc['T'])
    if c == 0:
        return Call('fwdkin', rox.fwdkin, r, jform(rng, gen.config(rng, r)))
    if c == 1:
        return Call('robotjacobian', rox.robotjacobian, r, jform(rng, gen.config(rng, r)))
    if c in (2, 3, 4):
        kind, a = pick(rng, sc['arms'])
        f, _ = p_ik.solver(kind)
        q = gen.config(rng, a)
        last = None if rng.random() < .5 else qform(rng, rng.uniform(-6, 6, 6))
        return Call(f.__name__, f, a, p_ik.pose_of(a, q), last)
    if c == 5:
        kind, a = pick(rng, sc['arms'])
        if a.joint_lower_limit is None or max(np.asarray(a.joint_upper_limit) - a.joint_lower_limit) > 3*PI:
            return Call('fwdkin', rox.fwdkin, a, gen.config(rng, a))
        arg = [gen.config(rng, a) for _ in range(int(pick(rng, [1, 2])))]
        return Call('equivalent_configurations', rox.equivalent_configurations, a, arg, None if rng.random() < .5 else rng.uniform(-5, 5, 6))
    if c == 6:
        return Call('apply', rox.apply_robot_aux_transforms, r, A)
    if c == 7:
        return Call('unapply', rox.unapply_robot_aux_transforms, r, A)
    if c == 8:
        return Call('mul', lambda a, b: a*b, A, B)
    if c == 9:
        return Call('inv', lambda a: a.inv(), A)
    if c == 10:
        return Call('compare', lambda a, b: (bool(a == b), bool(a != b), bool(a.isclose(b)), str(a), repr(a)), A, pick(rng, [A, B]))
    if c == 11:
        return Call('rot', rox.rot, gen.seqform(rng, gen.axis(rng)), gen.angle(rng))
    if c == 12:
        return Call('R2rot', rox.R2rot, gen.R(rng))
    if c == 13:
        return Call('quaternion', pick(rng, [rox.q2R, rox.q2rot, rox.quatcomplement, rox.quatproduct, rox.quatjacobian]), gen.quat(rng))
    if c == 14:
        return Call('R2q', rox.R2q, gen.R(rng))
    if c == 15:
        return Call('rot2q', rox.rot2q, gen.axis(rng), gen.angle(rng))
    if c == 16:
        return Call('rpy2R', rox.rpy2R, gen.seqform(rng, rng.uniform(-1.5, 1.5, 3)))
    if c == 17:
        return Call('R2rpy', rox.R2rpy, ref.rpy(*rng.uniform(-1.5, 1.5, 3)))
    if c == 18:
        return Call('slerp', rox.slerp, gen.quat(rng), gen.quat(rng), float(pick(rng, [0.0, 1.0, .5, rng.uniform()])))
    if c == 19:
        v = gen.vec(rng)
        return Call('hat', pick(rng, [rox.hat, rox.screw_matrix]), pick(rng, [v, v.reshape(3, 1)]) if rng.random() < .5 else v)
    if c == 20:
        return Call('invhat', rox.invhat, np.array([[0, -3., 2], [3., 0, -1], [-2., 1, 0]])*rng.uniform(.1, 2))
    if c == 21:
        k, p = perp(rng)
        k2 = gen.unit(rng)
        z = int(rng.integers(5))
        th, t2 = rng.uniform(-3, 3, 2)
        q = ref.rot(k, th) @ p
        if z == 0:
            return Call('subproblem0', rox.subproblem0, p, q, k)
        if z == 1:
            p = p + .5*k
            return Call('subproblem1', rox.subproblem1, p, ref.rot(k, th) @ p, k)
        if z == 2:
            p = gen.unit(rng)
            return Call('subproblem2', rox.subproblem2, p, ref.rot(k, th) @ ref.rot(k2, t2) @ p, k, k2)
        if z == 3:
            q = gen.vec(rng, False)
            return Call('subproblem3', rox.subproblem3, p, q, k, float(np.linalg.norm(q + ref.rot(k, th) @ p)))
        q = gen.unit(rng)
        return Call('subproblem4', rox.subproblem4, p, q, k, float(p @ ref.rot(k, th) @ q))
    if c == 22:
        r = pick(rng, sc['robots'])
        q = gen.config(rng, r, False)
        bare = rox.Robot(r.H, r.P, r.joint_type, R_tool=r.R_tool, p_tool=r.p_tool, T_flange=r.T_flange, T_base=r.T_base)
        T = p_ik.pose_of(bare, q)
        return Call('iterative_invkin', rox.iterative_invkin, r, T, qform(rng, q + rng.normal(0, .01, len(q))), 30)
    if c == 23:
        from general_robotics_toolbox import robotraconteur as rr
        return Call('load_robot_info', rr.load_robot_info_yaml_to_robot, info_yaml(rng, r))
    if c == 24:
        from general_robotics_toolbox import tesseract as t
        return Call('isometry', lambda T: t.isometry3d_to_transform(t.transform_to_isometry3d(T)), A)
    if c == 25:
        return Call('identity_transform', rox.identity_transform)
    if c == 26:
        from . import p_urdf
        from general_robotics_toolbox import urdf
        return Call('urdf', lambda x: p_urdf.quiet(urdf.robot_from_xml_string, x), p_urdf.xml(rng, p_urdf.one_arm(rng)[0]))
    if c in (27, 28, 29) and 'env' in sc:
        q = gen.config(rng, sc['env_robot'])
        n = len(q)
        if c == 27:
            return Call('env fwdkin', sc['env'].fwdkin, q, pick(rng, [None, 'world', 'rob_base_link']), pick(rng, [None, 'rob_link_%d' % n]))
        if c == 28:
            return Call('env jacobian', sc['env'].jacobian, q, pick(rng, [None, 'rob_base_link']), pick(rng, [None, 'rob_link_1']))
        return Call('env redundant_solutions', sc['env'].redundant_solutions, q) if n < 5 else Call('env fwdkin', sc['env'].fwdkin, q)
    if c == 30:
        from general_robotics_toolbox import tesseract as t
        from . import p_tess
        a = p_tess.full_robot(rng)
        return Call('env names', lambda z: [list(x) for x in t.robot_to_tesseract_env_commands(z, 'rob', return_names=True)[1:]], a)
    if c == 32:
        from general_robotics_toolbox import robotraconteur as rr
        from . import p_rr
        doc, truths = p_rr.document(rng)
        k = int(rng.integers(len(truths)))
        if rng.random() < .5:
            return Call('load_robot_info', rr.load_robot_info_yaml_to_robot, doc, k)
        return Call('load_robot_and_tool_info', rr.load_robot_and_tool_info_yaml_to_robot, doc, p_rr.tool_document(rng)[0], k)
    if c in (33, 34):
        return message_call(rng, A)
    if c in (35, 36):
        from general_robotics_toolbox import tesseract as t
        from . import p_tess
        if rng.random() < .5:
            return Call('opw parameters', t.robot_to_opw_inv_kin_parameters, p_tess.opw_robot(rng))
        return Call('ur parameters', t.robot_to_ur_inv_kin_parameters, p_tess.ur_robot(rng))
    if c == 37:
        from general_robotics_toolbox import tesseract as t
        from . import p_tess
        f, solver = pick(rng, [(p_tess.opw_robot, 'OPWInvKin'), (p_tess.ur_robot, 'URInvKin'), (p_tess.full_robot, None)])
        a = f(rng)
        return Call('plugin info', t.kinematics_plugin_info_dict, a, 'rob', ['rob_base_link', 'rob_tip'], ['a'], ['rob_base_link', 'rob_tip'], solver)
    if c in (38, 39) and 'env' in sc:
        q = gen.config(rng, sc['env_robot'])
        X = ref.robot_fk(sc['env_robot'], q)
        return Call('env invkin', sc['env'].invkin, rox.Transform(X[0:3, 0:3], X[0:3, 3]), q + rng.uniform(-.01, .01, len(q)))
    n = pick(rng, [1, 3, 6])
    return Call('Robot', rox.Robot, np.array([gen.axis(rng) for _ in range(n)]).T.reshape(3, n), rng.uniform(-1, 1, (3, n+1)), [0]*n,
                -np.ones(n), np.ones(n), R_tool=gen.R(rng), p_tool=gen.vec(rng), T_base=A)


def message_call(rng, T):
    from . import stubs_ros as ros
    ros.install()
    from general_robotics_toolbox import ros_msg as rm
    v, w = gen.vec(rng), gen.vec(rng)
    q = gen.quat(rng)
    c = int(rng.integers(4))
    if c == 0:
        f, a = pick(rng, [(rm.q2msg, q), (rm.R2msg, gen.R(rng)), (rm.p2msg, v), (rm.p2point_msg, v), (rm.twist2msg, np.hstack((v, w))), (rm.wrench2msg, np.hstack((v, w)))])
        return Call(f.__name__, f, a)
    if c == 1:
        f = pick(rng, [rm.transform2msg, rm.transform2pose_msg, rm.transform2transform_stamped_msg, rm.transform2pose_stamped_msg])
        return Call(f.__name__, f, T)
    Q, V, W = ros.Quaternion(q[1], q[2], q[3], q[0]), ros.Vector3(*v), ros.Vector3(*w)
    if c == 2:
        f, a = pick(rng, [(rm.msg2q, Q), (rm.msg2R, Q), (rm.msg2p, V), (rm.point_msg2p, ros.Point(*v)), (rm.msg2twist, ros.Twist(V, W)), (rm.msg2wrench, ros.Wrench(V, W))])
        return Call(f.__name__, f, a)
    a = pick(rng, [ros.Transform(V, Q), ros.Pose(ros.Point(*v), Q), ros.TransformStamped(ros.Header(0, 0, 'a'), 'b', ros.Transform(V, Q)),
                   ros.PoseStamped(ros.Header(0, 0, 'a'), ros.Pose(ros.Point(*v), Q))])
    return Call('msg2transform', rm.msg2transform, a)


def poison(x):
    """overwrite everything a caller could overwrite in a result"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind == 'f':
            x[...] = np.nan
        elif x.flags.writeable and x.dtype.kind == 'i':
            x[...] = -77
    elif isinstance(x, list):
        for v in x:
            poison(v)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            poison(v)
    elif isinstance(x, dict):
        for v in x.values():
            poison(v)
        x.clear()
    elif hasattr(x, 'FIELDS'):
        for f, t in x.FIELDS:
            if t is float:
                setattr(x, f, float('nan'))
            else:
                poison(getattr(x, f))
    elif isinstance(x, rox.Transform):
        poison(x.R)
        poison(x.p)
        x.parent_frame_id = 'poison'


# ------------------------------------------------------------------------------------------------ C20
C20 = prop('C20', 'Sessions of 12-25 calls of every kind (math, kinematics, Jacobian, inverse kinematics, loaders, messages, Tesseract functions, transforms) '
           'on shared robots and transforms. Monitors: deep snapshot of every argument and of the state of the process (working directory, environment, random generators, '
           'floating point error handling, print options, warning filters...) before and after each call; repeat of '
           'every call in another order; results handed out earlier compared with their snapshot at the end; results '
           'overwritten by the caller and the calls repeated; robots changed in place and compared with a fresh robot. '
           'Distinct sessions counted.',
           need={'case:session': 100, 'calls watched': 2000, 'calls repeated': 2000, 'results overwritten': 500,
                 'case:robot changed in place': 200, 'arguments reused': 2000, 'process state watched': 2000})


@C20.workload(960)
def sessions(m, rng, i):
    sc = scene(rng)
    calls = [random_call(rng, sc) for _ in range(int(rng.integers(12, 26)))]
    m.case('session', robots=sc['robots'], calls=[c.name for c in calls], q=[c.args for c in calls[:3]])
    shared = freeze([sc['robots'], [a for _, a in sc['arms']], sc['T']])
    first = []
    for c in calls:
        before = freeze([c.args, c.kw])
        loaded = len(sys.modules)
        around = ambient()
        out = c.run()
        if len(sys.modules) == loaded:       # importing a library may do so
            m.seen('process state watched')
            z = changed(around, ambient())
            m.check(not z, 'a call changed the state of the process', call=c.name, state=z)
        m.seen('calls watched')
        m.seen('call:' + c.name)
        m.check(freeze([c.args, c.kw]) == before, 'a call changed its arguments', call=c.name)
        m.check(freeze([sc['robots'], [a for _, a in sc['arms']], sc['T']]) == shared, 'a call changed a robot or transform it was not given', call=c.name)
        first.append((out, freeze(out), copy.deepcopy(out)))
    # again, in another order
    for k in rng.permutation(len(calls)):
        out = calls[k].run()
        m.seen('calls repeated')
        m.check(out[0] == first[k][2][0] and same(out[1], first[k][2][1]), 'the same call gives another result later', call=calls[k].name,
                first=first[k][2][1], later=out[1])
    for c, (out, fr, _) in zip(calls, first):
        m.check(freeze(out) == fr, 'a result handed out earlier was changed by a later call', call=c.name)
    # the caller overwrites what it got
    for c, (out, fr, cp) in zip(calls, first):
        if c.name in ('Robot', 'apply', 'unapply'):      # a robot keeps what it is given, no transforms: the pose itself
            continue
        args = freeze([c.args, c.kw])
        poison(out[1])
        m.seen('results overwritten')
        m.check(freeze([c.args, c.kw]) == args, 'overwriting a result overwrites the arguments', call=c.name)
    m.check(freeze([sc['robots'], [a for _, a in sc['arms']], sc['T']]) == shared, 'overwriting results overwrites the robots')
    for k in rng.permutation(len(calls)):
        out = calls[k].run()
        m.check(out[0] == first[k][2][0] and same(out[1], first[k][2][1]), 'overwriting earlier results changes a later one', call=calls[k].name)


def fresh(r):
    """the same robot built anew from copies"""
    z = copy.deepcopy
    f = rox.Robot(z(r.H), z(r.P), z(r.joint_type), z(r.joint_lower_limit), z(r.joint_upper_limit), R_tool=z(r.R_tool), p_tool=z(r.p_tool),
                  T_flange=z(r.T_flange), T_base=z(r.T_base))
    return f


def mutate(rng, r, kind):
    """change a robot in place, the way callers do (attributes are public)"""
    n = len(r.joint_type)
    c = int(rng.integers(9 if kind == 'any' else 7))
    if c == 0:
        r.R_tool, r.p_tool = gen.R(rng), gen.vec(rng)
    elif c == 1:
        r.R_tool = r.p_tool = None
    elif c == 2:
        r.T_base = pick(rng, [None, rox.Transform(gen.R(rng), gen.vec(rng))])
    elif c == 3:
        r.T_flange = pick(rng, [None, rox.Transform(gen.R(rng), gen.vec(rng))])
    elif c == 4:
        if r.T_base is not None:
            r.T_base.p[:] = gen.vec(rng)
        if r.p_tool is not None:
            r.p_tool = np.array(r.p_tool, dtype=float)
            r.p_tool[:] = gen.vec(rng)
    elif c == 5:
        r.P *= rng.uniform(.5, 2)
    elif c == 6:
        if r.joint_lower_limit is None or rng.random() < .5:
            rev = [int(t) for t in r.joint_type]
            r.joint_lower_limit, r.joint_upper_limit = gen.limits(rng, rev)
        else:
            r.joint_lower_limit = np.array(r.joint_lower_limit, dtype=float)
            r.joint_lower_limit -= rng.uniform(0, .5)
            r.joint_upper_limit = np.array(r.joint_upper_limit, dtype=float)
            r.joint_upper_limit[int(rng.integers(n))] += .2
    elif c == 7:
        j = int(rng.integers(n))
        r.H[:, j] = gen.axis(rng)
    else:
        j = int(rng.integers(n))
        r.P[:, j] = gen.vec(rng)
    return c


@C20.workload(2400)
def changed_in_place(m, rng, i):
    kind = pick(rng, ['any', 'any', 'opw', 'ur'])
    r = gen.any_robot(rox, rng) if kind == 'any' else p_ik.closed_form_robot(rng, kind)
    r.H, r.P = np.array(r.H, dtype=float), np.array(r.P, dtype=float)
    steps = []
    n = len(r.joint_type)
    for step in range(4):
        if step:
            steps.append(mutate(rng, r, kind))
        if step == 0:
            m.case('robot changed in place', robot=r, n=i)
        q = gen.config(rng, r)
        f = fresh(r)
        b = fresh(r)
        b.joint_lower_limit = b.joint_upper_limit = None
        todo = [('fwdkin', lambda z: rox.fwdkin(z, q)), ('jacobian', lambda z: rox.robotjacobian(z, q)),
                ('apply', lambda z: rox.apply_robot_aux_transforms(z, rox.identity_transform())),
                ('unapply', lambda z: rox.unapply_robot_aux_transforms(z, rox.identity_transform()))]
        if kind != 'any':
            T = p_ik.pose_of(b, q)
            last = pick(rng, [None, rng.uniform(-3, 3, n)])
            todo.append(('inverse kinematics', lambda z: p_ik.solver(kind)[0](z, T, last)))
        elif rng.random() < .2:
            T = p_ik.pose_of(b, q)
            seed = q + .01
            todo.append(('iterative', lambda z: rox.iterative_invkin(z, T, seed, 10)))
        for name, g in todo:
            A, B = g(r), g(f)
            m.seen('compared after a change', int(step > 0))
            m.check(same(A, B), 'a robot changed in place is not the robot with the same description', call=name, changes=steps, got=A, expected=B)
    # a transform is a value of its own
    R, p = gen.R(rng), gen.vec(rng)
    R0, p0 = R.copy(), p.copy()
    T = rox.Transform(R, p)
    R[...] = 7
    p[...] = 7
    m.check(np.array_equal(T.R, R0) and np.array_equal(T.p, p0), 'a transform changes with the arrays it was made from')


def assign(a, b):
    """put the value of b into the containers of a (in place); the value to pass (a itself where it can be changed), or None"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype or not a.flags.writeable:
            return None
        a[...] = b
        return a
    if isinstance(a, (rox.Transform, rox.Robot)) and type(a) is type(b):
        for k in fields(b):
            x, y = getattr(a, k), getattr(b, k)
            z = assign(x, y)
            if getattr(getattr(type(a), k, None), 'fset', True) is not None:      # a derived, read-only property follows the others
                setattr(a, k, y if z is None else z)
        return a
    if isinstance(a, list) and isinstance(b, list):
        a[:] = [y if z is None else z for z, y in zip([assign(x, y) for x, y in zip(a, b)] + [None]*len(b), b)]
        return a
    if isinstance(a, dict) and isinstance(b, dict):
        a.clear()
        a.update(b)
        return a
    if hasattr(a, 'FIELDS') and type(a) is type(b):
        for f, _ in a.FIELDS:
            y = getattr(b, f)
            z = assign(getattr(a, f), y)
            setattr(a, f, y if z is None else z)
        return a
    return None


@C20.workload(600)
def reused_arguments(m, rng, i):
    """callers keep one array, transform, robot or document and change it between calls"""
    sc = scene(rng)
    groups = {}
    for _ in range(60):
        c = random_call(rng, sc)
        groups.setdefault((c.name, id(getattr(c.fn, '__code__', c.fn)), len(c.args)), []).append(c)
    m.case('reused', robots=sc['robots'], calls=sorted(k[0] for k in groups))
    for k in sorted(groups, key=str):
        for a, b in zip(groups[k], groups[k][1:]):
            want = copy.deepcopy(b.run())
            a.args = tuple(copy.deepcopy(x) for x in a.args)
            a.run()
            args = []
            for x, y in zip(a.args, b.args):
                y = copy.deepcopy(y)
                z = assign(x, y)
                args.append(y if z is None else z)
            out = Call(b.name, b.fn, *args, **b.kw).run()
            m.seen('arguments reused')
            m.check(out[0] == want[0] and same(out[1], want[1]), 'a call with an argument that was changed in place gives another result than with a new one',
                    call=a.name, got=out[1], expected=want[1])


@C20.workload(240)
def random_sources(m, rng, i):
    """random_R/random_p/random_transform give a valid new value every time and nothing else consumes or reseeds the generator"""
    m.case('random', i=i)
    s = int(rng.integers(2**31))
    np.random.seed(s)
    a = [rox.random_R(), rox.random_p(), rox.random_transform()]
    st = np.random.get_state()
    sc = scene(rng)
    for _ in range(6):
        random_call(rng, sc).run()
    st2 = np.random.get_state()
    m.check(np.array_equal(st[1], st2[1]) and st[2] == st2[2], 'a deterministic call uses or reseeds the shared random generator')
    b = [rox.random_R(), rox.random_p(), rox.random_transform()]
    for x in (a, b):
        m.check(ref.is_rotation(x[0], 1e-9) and np.shape(x[1]) == (3,) and ref.is_rotation(x[2].R, 1e-9) and np.isfinite(x[2].p).all(), 'not a rotation and a position', got=x)
    m.check(not np.allclose(a[0], b[0]) and not np.allclose(a[1], b[1]) and not np.allclose(a[2].R, b[2].R), 'the same random value again', a=a, b=b)


# ------------------------------------------------------------------------------------------------ C30
C30 = prop('C30', 'Groups of 4-8 threads make calls of every kind on shared robots and transforms at once, the interpreter '
           'switching threads every microsecond and at injected yields on random lines of the code under test. Every result is '
           'compared with that of the same call made alone. Distinct sessions counted; interleavings are digests of the observed order '
           'of (thread, line) events.',
           need={'case:threads': 40, 'concurrent calls': 2000, 'thread switches inside the code': 2000, 'distinct interleavings': 40})


@C30.workload(160, case_s=300)
def threads(m, rng, i):
    sc = scene(rng)
    nt = int(pick(rng, [2, 4, 8]))
    plans = [[random_call(rng, sc, heavy=rng.random() < .5) for _ in range(int(rng.integers(6, 14)))] for _ in range(nt)]
    if rng.random() < .3:        # the same call everywhere, with other arguments
        name = pick(rng, ['fwdkin', 'robotjacobian', 'ur_invkin', 'robot6_sphericalwrist_invkin'])
        for p in plans:
            tries = 0
            while tries < 200 and sum(c.name == name for c in p) < 5:
                c = random_call(rng, sc)
                tries += 1
                if c.name == name:
                    p.append(c)
    alone = [[copy.deepcopy(c.run()) for c in p] for p in plans]
    shared = freeze([sc['robots'], [a for _, a in sc['arms']], sc['T']])
    m.case('threads', robots=sc['robots'], plans=[[c.name for c in p] for p in plans])
    got = [[None]*len(p) for p in plans]
    errs = []
    trail = []
    prob = float(pick(rng, [0.0, .01, .05, .2]))
    bar = threading.Barrier(nt)
    src = os.path.dirname(os.path.abspath(rox.__file__))

    def body(t):
        lr = np.random.default_rng([i, t])
        coin = lr.random(4096)
        st = [0]

        def local(frame, event, arg):
            if event == 'line':
                st[0] += 1
                if len(trail) < 200000:
                    trail.append((t, frame.f_lineno))
                if coin[st[0] % 4096] < prob:
                    time.sleep(0)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(src) else None
        try:
            bar.wait()
            if prob > 0:
                sys.settrace(tracer)
            try:
                for k, c in enumerate(plans[t]):
                    got[t][k] = c.run()
            finally:
                sys.settrace(None)
        except BaseException as e:
            errs.append((t, repr(e)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nt)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    m.check(not any(t.is_alive() for t in ths), 'concurrent calls do not end')
    m.check(not errs, 'a call fails only when others run at the same time', errors=errs)
    sw = sum(1 for a, b in zip(trail, trail[1:]) if a[0] != b[0])
    m.seen('thread switches inside the code', sw)
    if sw:
        h = hashlib.blake2b(repr(trail).encode(), digest_size=8).digest()
        if h not in SEEN:
            SEEN.add(h)
            m.seen('distinct interleavings')
    for t in range(nt):
        for k, c in enumerate(plans[t]):
            m.seen('concurrent calls')
            m.check(got[t][k] is not None and got[t][k][0] == alone[t][k][0] and same(got[t][k][1], alone[t][k][1]),
                    'a call gives another result when other threads are calling', call=c.name, alone=alone[t][k][1], concurrent=got[t][k])
    m.check(freeze([sc['robots'], [a for _, a in sc['arms']], sc['T']]) == shared, 'concurrent calls changed a shared robot or transform')


SEEN = set()
