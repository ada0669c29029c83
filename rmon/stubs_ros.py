"""Stand-ins for the ROS packages, which are not installed here: message types with the semantics genpy gives
generated classes (positional arguments in field order, all or none; keyword arguments; defaults), and a tf
listener that answers from a table of timed transforms."""
import sys, types, bisect
import numpy as np
from . import ref


class Message(object):
    FIELDS = ()
    __slots__ = ()

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError('use positional or keyword arguments, not both')
        if args and len(args) != len(self.FIELDS):
            raise TypeError('Invalid number of arguments, args should be %r' % ([f[0] for f in self.FIELDS],))
        for k in kw:
            if k not in [f[0] for f in self.FIELDS]:
                raise AttributeError('%s is not an attribute of %s' % (k, type(self).__name__))
        for n, (f, t) in enumerate(self.FIELDS):
            v = args[n] if args else kw.get(f)
            if v is None:
                v = t()
            setattr(self, f, v)

    def problems(self):
        """Why the message could not be serialized, or None"""
        for f, t in self.FIELDS:
            v = getattr(self, f)
            if t is float:
                if isinstance(v, bool) or not isinstance(v, (float, int, np.floating, np.integer)):
                    return '%s.%s is not a number but %s' % (type(self).__name__, f, type(v).__name__)
            elif t is str:
                if not isinstance(v, str):
                    return '%s.%s is not a string' % (type(self).__name__, f)
            elif t is int:
                pass
            else:
                if type(v) is not t:
                    return '%s.%s is not a %s but %s' % (type(self).__name__, f, t.__name__, type(v).__name__)
                p = v.problems()
                if p:
                    return p
        return None

    def __eq__(self, other):
        return type(self) is type(other) and all(getattr(self, f) == getattr(other, f) for f, _ in self.FIELDS)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def values(self):
        out = []
        for f, t in self.FIELDS:
            v = getattr(self, f)
            out += [f] + (v.values() if isinstance(v, Message) else [v])
        return out


def message(name, *fields):
    return type(name, (Message,), {'FIELDS': fields, '__slots__': tuple(f[0] for f in fields)})


Quaternion = message('Quaternion', ('x', float), ('y', float), ('z', float), ('w', float))
Point = message('Point', ('x', float), ('y', float), ('z', float))
Vector3 = message('Vector3', ('x', float), ('y', float), ('z', float))
Pose = message('Pose', ('position', Point), ('orientation', Quaternion))
Transform = message('Transform', ('translation', Vector3), ('rotation', Quaternion))
Twist = message('Twist', ('linear', Vector3), ('angular', Vector3))
Wrench = message('Wrench', ('force', Vector3), ('torque', Vector3))
Header = message('Header', ('seq', int), ('stamp', int), ('frame_id', str))
TransformStamped = message('TransformStamped', ('header', Header), ('child_frame_id', str), ('transform', Transform))
PoseStamped = message('PoseStamped', ('header', Header), ('pose', Pose))


class TransformException(Exception):
    pass


class ConnectivityException(TransformException):
    pass


class LookupException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class TVal(object):
    """as genpy: compared by value, false when zero"""
    def __init__(self, secs=0, nsecs=0):
        if nsecs == 0 and secs != int(secs):
            secs, nsecs = int(secs // 1), int(round((secs % 1)*1e9))
        n = int(secs)*10**9 + int(nsecs)
        self.secs, self.nsecs = n // 10**9, n % 10**9

    @classmethod
    def from_sec(cls, t):
        return cls(float(t))

    def to_nsec(self):
        return self.secs*10**9 + self.nsecs

    def to_sec(self):
        return self.secs + 1e-9*self.nsecs

    def is_zero(self):
        return self.to_nsec() == 0

    def __bool__(self):
        return not self.is_zero()

    def __eq__(self, other):
        return isinstance(other, TVal) and type(self) is type(other) and self.to_nsec() == other.to_nsec()

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        if type(self) is not type(other):
            return NotImplemented
        return self.to_nsec() < other.to_nsec()

    def __le__(self, other):
        return self == other or self < other

    def __gt__(self, other):
        return other < self

    def __ge__(self, other):
        return other <= self

    def __hash__(self):
        return hash((type(self).__name__, self.to_nsec()))

    def __repr__(self):
        return '%s(%d, %d)' % (type(self).__name__, self.secs, self.nsecs)


class Duration(TVal):
    def __add__(self, other):
        return Duration(0, self.to_nsec() + other.to_nsec())

    def __sub__(self, other):
        return Duration(0, self.to_nsec() - other.to_nsec())

    def __neg__(self):
        return Duration(0, -self.to_nsec())

    def __mul__(self, x):
        return Duration(0, int(self.to_nsec()*x))


class Time(TVal):
    @staticmethod
    def now():
        return Time(5, 500000000)

    def __add__(self, other):
        return Time(0, self.to_nsec() + other.to_nsec())

    def __sub__(self, other):
        return (Duration if isinstance(other, Time) else Time)(0, self.to_nsec() - other.to_nsec())


class TransformListener(object):
    """frames: child -> (parent, [(time, R, p)] by time); the value of the latest sample not after the time asked for"""
    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw
        self.frames = {}
        self.calls = []

    def set(self, parent, child, t, R, p):
        h = self.frames.setdefault(child, (parent, []))[1]
        h.append((t, R, p))
        h.sort(key=lambda x: x[0])

    def _known(self):
        return set(self.frames) | {p for p, _ in self.frames.values()}

    def _chain(self, f, t):
        """root and pose of f in it"""
        X = np.eye(4)
        while f in self.frames:
            parent, h = self.frames[f]
            k = len(h) if t.is_zero() else bisect.bisect_right([x[0] for x in h], t.to_sec())
            if k == 0:
                raise ExtrapolationException('Lookup would require extrapolation into the past')
            X = ref.hom(h[k-1][1], h[k-1][2]) @ X
            f = parent
        return f, X

    def pose(self, target, tt, source, ts, fixed=None):
        for f in (target, source, fixed):
            if f is not None and f not in self._known():
                raise LookupException('"%s" passed to lookupTransform does not exist' % f)
        a, A = self._chain(target, tt)
        b, B = self._chain(source, ts)
        if fixed is not None:
            c, C = self._chain(fixed, tt)
            d, D = self._chain(fixed, ts)
            if not (a == b == c == d):
                raise ConnectivityException('not part of the same tree')
            return ref.invhom(A) @ C @ ref.invhom(D) @ B
        if a != b:
            raise ConnectivityException('not part of the same tree')
        return ref.invhom(A) @ B

    def _answer(self, X):
        q = ref.quat_of(X[0:3, 0:3])
        return [float(x) for x in X[0:3, 3]], [float(q[1]), float(q[2]), float(q[3]), float(q[0])]

    def _can(self, *a):
        try:
            self.pose(*a)
            return True
        except TransformException:
            return False

    def lookupTransform(self, target_frame, source_frame, time):
        return self._answer(self.pose(target_frame, time, source_frame, time))

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._answer(self.pose(target_frame, target_time, source_frame, source_time, fixed_frame))

    def canTransform(self, target_frame, source_frame, time):
        return self._can(target_frame, time, source_frame, time)

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._can(target_frame, target_time, source_frame, source_time, fixed_frame)

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        self.calls.append(('wait', target_frame, source_frame, time, timeout, polling_sleep_duration))
        if not self._can(target_frame, time, source_frame, time):
            raise TransformException('timeout')

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout,
                             polling_sleep_duration=None):
        self.calls.append(('waitFull', target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration))
        if not self._can(target_frame, target_time, source_frame, source_time, fixed_frame):
            raise TransformException('timeout')

    def clear(self):
        self.frames = {}

    def frameExists(self, frame):
        return frame in self._known()

    def getFrameStrings(self):
        return sorted(self._known())

    def getLatestCommonTime(self, source_frame, dest_frame):
        return Time(min(self.frames[f][1][-1][0] for f in (source_frame, dest_frame) if f in self.frames))


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    g = mod('geometry_msgs')
    g.__path__ = []
    g.msg = mod('geometry_msgs.msg', **{c.__name__: c for c in (Quaternion, Point, Vector3, Pose, Transform, Twist, Wrench,
                                                                TransformStamped, PoseStamped)})
    mod('rospy', Time=Time, Duration=Duration)
    mod('tf', TransformListener=TransformListener)
    mod('tf2_ros', TransformException=TransformException, ConnectivityException=ConnectivityException,
        LookupException=LookupException, ExtrapolationException=ExtrapolationException)
