"""C21, C22: robots read from URDF"""
import os, sys, io, math, shutil, tempfile, types, contextlib
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import urdf
from .core import Prop, ambient, changed
from . import ref, gen
from .gen import PI, pick

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


class J(object):
    """a joint of the generated tree; None means the element is left out"""
    def __init__(self, name, kind, parent, child, xyz=None, rpy=None, axis=None, limit=None):
        self.name, self.kind, self.parent, self.child = name, kind, parent, child
        self.xyz, self.rpy, self.axis, self.limit = xyz, rpy, axis, limit

    def origin(self):
        return ref.hom(ref.rpy(*(self.rpy if self.rpy is not None else (0, 0, 0))), self.xyz if self.xyz is not None else np.zeros(3))


class Tree(object):
    def __init__(self):
        self.links, self.joints = [], []
        self.inertial = {}

    def chain(self, root, tip):
        """joints from root to tip, None when tip does not hang below root"""
        up = {j.child: j for j in self.joints}
        out = []
        while tip != root:
            if tip not in up:
                return None
            out.append(up[tip])
            tip = up[tip].parent
        return out[::-1]

    def leaves(self):
        par = {j.parent for j in self.joints}
        return [l for l in self.links if l not in par]

    def roots(self):
        ch = {j.child for j in self.joints}
        return [l for l in self.links if l not in ch]


def num(rng, x):
    x = float(x)
    if x == int(x) and abs(x) < 1e6 and rng.random() < .5:
        return str(int(x))
    return repr(x)


def vec_attr(rng, v):
    sep = pick(rng, [' ', ' ', '  '])
    s = sep.join(num(rng, x) for x in v)
    return ' ' + s + ' ' if rng.random() < .1 else s


GEOM = ['<box size="1 2 3"/>', '<cylinder radius="0.1" length="0.3"/>', '<sphere radius="0.2"/>', '<mesh filename="package://nowhere/a.stl" scale="1 1 1"/>']


def xml(rng, t, numf=None, name='r', extra='', ns=''):
    """URDF text of a tree. numf renders the value of an attribute (for xacro)"""
    va = numf or vec_attr
    out = []
    for l in t.links:
        s = ''
        if l in t.inertial:
            mass, xyz, rpy, I = t.inertial[l]
            o = '' if xyz is None else '<origin xyz="%s"%s/>' % (va(rng, xyz), '' if rpy is None else ' rpy="%s"' % va(rng, rpy))
            s += '<inertial>%s<mass value="%r"/><inertia ixx="%r" ixy="%r" ixz="%r" iyy="%r" iyz="%r" izz="%r"/></inertial>' % ((o, mass) + tuple(I))
        if rng.random() < .2:
            s += '<%s><origin xyz="1 2 3" rpy="0.1 0.2 0.3"/><geometry>%s</geometry></%s>' % ((k := pick(rng, ['visual', 'collision'])), pick(rng, GEOM), k)
        out.append('<link name="%s">%s</link>' % (l, s) if s else '<link name="%s"/>' % l)
    for j in t.joints:
        parts = ['<parent link="%s"/>' % j.parent, '<child link="%s"/>' % j.child]
        if j.xyz is not None or j.rpy is not None:
            a = [] if j.xyz is None else ['xyz="%s"' % va(rng, j.xyz)]
            b = [] if j.rpy is None else ['rpy="%s"' % va(rng, j.rpy)]
            parts.append('<origin %s/>' % ' '.join(a + b if rng.random() < .5 else b + a))
        if j.axis is not None:
            parts.append('<axis xyz="%s"/>' % va(rng, j.axis))
        if j.limit is not None:
            lo, hi, vel, eff = j.limit
            parts.append('<limit %seffort="%r" velocity="%r"/>' % ('' if lo is None else 'lower="%r" upper="%r" ' % (lo, hi), eff, vel))
        if rng.random() < .2:
            parts.append('<dynamics damping="0.1" friction="0.2"/>')
        if rng.random() < .1 and j.kind != 'fixed':
            parts.append('<safety_controller soft_lower_limit="-0.1" soft_upper_limit="0.1" k_position="1" k_velocity="2"/>')
        rng.shuffle(parts)
        out.append('<joint name="%s" type="%s">%s</joint>' % (j.name, j.kind, ''.join(parts)))
    if rng.random() < .7:
        rng.shuffle(out)
    if rng.random() < .3:
        out.insert(0, '<material name="m"><color rgba="1 0 0 1"/></material>')
    if rng.random() < .1:
        out.append('<!-- a comment -->')
    return '<?xml version="1.0"?>\n<robot name="%s"%s>%s%s</robot>' % (name, ns, extra, '\n'.join(out))


def angle3(rng):
    c = rng.random()
    if c < .35:
        return np.array([pick(rng, [0, 0, PI/2, -PI/2, PI, -PI, PI/4]) for _ in range(3)], dtype=float)
    if c < .5:
        return small3(rng)
    return rng.uniform(-PI, PI, 3)


def small3(rng):
    """a correction from a calibration"""
    v = 10.0**rng.uniform(-8, -1)*rng.standard_normal(3)
    if rng.random() < .5:
        k = int(rng.integers(3))
        v = v[k]*np.eye(3)[k]
    return v


def joint(rng, name, kind, parent, child, rpyf=None):
    j = J(name, kind, parent, child)
    c = rng.random()
    if c > .15:
        if rng.random() < .8:
            j.xyz = gen.vec(rng) if rng.random() < .4 else rng.uniform(-1, 1, 3)
        if rng.random() < .6:
            j.rpy = (rpyf or angle3)(rng)
    if kind in ('revolute', 'prismatic', 'continuous', 'planar'):
        if rng.random() < .85:
            j.axis = gen.axis(rng)
    if kind in ('revolute', 'prismatic'):
        s = sorted(rng.uniform(-3, 3, 2)) if rng.random() < .6 else [-rng.uniform(.5, 6), rng.uniform(.5, 6)]
        j.limit = (float(s[0]), float(s[1] + .01), float(rng.uniform(.1, 5)), float(rng.uniform(1, 1000)))
        if rng.random() < .1:        # a long rail, many turns
            f = float(rng.uniform(5, 40))
            j.limit = tuple(x*f for x in j.limit)
        if rng.random() < .15:       # zeros are limits too
            w = float(rng.uniform(.1, 5))
            j.limit = pick(rng, [(0.0, w), (-w, 0.0), (-w, -.5*w), (.5*w, w), (0.0, 0.0), (w, w)]) + (pick(rng, [0.0, j.limit[2]]), pick(rng, [0.0, j.limit[3]]))
    return j


class Namer(object):
    def __init__(self, rng):
        self.style = pick(rng, ['{p}{k}', '{p}_{k}', 'arm/{p}.{k}', '{p} {k}', 'é{p}-{k}', '{k}{p}'])
        self.k = 0

    def __call__(self, p):
        self.k += 1
        return self.style.format(p=p, k=self.k)


def grow(rng, t, nm, parent, n, fixed=.35, kinds=('revolute', 'revolute', 'prismatic'), ends=None):
    """hang a chain with n moving joints below parent; returns its last link"""
    left = n
    tail = 0 if rng.random() < .5 else int(rng.integers(1, 3))
    # most trees mix all kinds of rotations; some have none or hardly any
    rpyf = pick(rng, [angle3]*6 + [small3, lambda r: np.zeros(3)])
    last = rpyf
    if rpyf is not angle3 and rng.random() < .5:
        last = angle3 if rng.random() < .3 else small3
    while left or tail:
        child = nm('link')
        t.links.append(child)
        if left and rng.random() > fixed:
            kind = pick(rng, kinds)
            left -= 1
        elif left:
            kind = 'fixed'
        else:
            kind = 'fixed'
            tail -= 1
        t.joints.append(joint(rng, nm('joint'), kind, parent, child, rpyf if left or tail else last))
        parent = child
        if rng.random() < .25:
            t.inertial[child] = inertia(rng)
    return parent


def inertia(rng):
    return (float(pick(rng, [0.0, 1e-9, 1.0, rng.uniform(.1, 20)])), pick(rng, [None, rng.uniform(-1, 1, 3)]), pick(rng, [None, angle3(rng)]),
            [float(x) for x in rng.uniform(0, 1, 6)])


def one_arm(rng, n=None):
    """a tree with one arm, and side branches that do not make it ambiguous"""
    t = Tree()
    nm = Namer(rng)
    base = nm('base')
    t.links.append(base)
    if rng.random() < .3:
        t.inertial[base] = inertia(rng)
    n = n or int(pick(rng, [1, 2, 3, 4, 6, 6, 6, 7]))
    tip = grow(rng, t, nm, base, n)
    main = t.chain(base, tip)
    k = int(pick(rng, [0, 0, 1, 2]))
    first = next(i for i, j in enumerate(main) if j.kind != 'fixed')
    for _ in range(k):
        if rng.random() < .5:      # a fixed frame below the static part
            at = pick(rng, [base] + [j.child for j in main[:first]])
            c = nm('frame')
            t.links.append(c)
            t.joints.append(joint(rng, nm('jf'), 'fixed', at, c))
        else:                      # something that floats freely
            at = pick(rng, [j.child for j in main[:-1]] or [base])
            c = nm('object')
            t.links.append(c)
            t.joints.append(joint(rng, nm('jo'), 'floating', at, c))
            if rng.random() < .4:
                d = nm('part')
                t.links.append(d)
                t.joints.append(joint(rng, nm('jp'), pick(rng, ['fixed', 'revolute', 'continuous']), c, d))
    return t, base, tip


def quiet(fn, *a, **k):
    """the parser complains on stderr about what it does not know"""
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def judge(m, rng, t, root, tip, r, what='', limits=True):
    """the robot r is the chain root..tip of the tree"""
    ch = t.chain(root, tip)
    mov = [j for j in ch if j.kind != 'fixed']
    n = len(mov)
    m.check(np.shape(r.H) == (3, n) and np.shape(r.P) == (3, n+1) and len(r.joint_type) == n, 'wrong number of joints' + what, got=np.shape(r.H))
    m.check(list(r.joint_names) == [j.name for j in mov], 'wrong joint names' + what, got=r.joint_names, expected=[j.name for j in mov])
    m.check([int(x) for x in r.joint_type] == [0 if j.kind == 'revolute' else 1 for j in mov], 'wrong joint kinds' + what, got=r.joint_type)
    m.check(r.root_link_name == root and r.tip_link_name == tip, 'wrong root or tip link' + what, got=(r.root_link_name, r.tip_link_name), expected=(root, tip))
    lim = [j.limit for j in mov]
    if not limits:
        pass
    elif all(l is not None for l in lim):
        m.seen('limits compared')
        m.close(r.joint_lower_limit, [l[0] if l[0] is not None else 0.0 for l in lim], 0, 'wrong lower limits' + what)
        m.close(r.joint_upper_limit, [l[1] if l[0] is not None else 0.0 for l in lim], 0, 'wrong upper limits' + what)
        m.close(r.joint_vel_limit, [l[2] for l in lim], 0, 'wrong velocity limits' + what)
        m.close(r.joint_effort_limit, [l[3] for l in lim], 0, 'wrong effort limits' + what)
    else:
        m.check(r.joint_lower_limit is None and r.joint_upper_limit is None and r.joint_vel_limit is None, 'a robot with a joint without limits has limits' + what)
    m.check(r.T_base is None and r.T_flange is None, 'a base or flange that is not in the file' + what)
    s = 1 + sum(np.abs(j.xyz).sum() for j in ch if j.xyz is not None) + 10
    for _ in range(3):
        if r.joint_lower_limit is not None:
            q = gen.config(rng, r)
        else:
            q = rng.uniform(-3, 3, n)
        X = np.eye(4)
        k = 0
        for j in ch:
            X = X @ j.origin()
            if j.kind == 'fixed':
                continue
            a = j.axis if j.axis is not None else np.array([1., 0, 0])
            X = X @ (ref.hrot(a, q[k]) if j.kind == 'revolute' else ref.htrans(q[k]*a))
            k += 1
        T = rox.fwdkin(r, q)
        m.seen('poses compared')
        m.close(T.R, X[0:3, 0:3], 1e-10, 'the orientation of the tip is not that of the file' + what, q=q)
        m.close(T.p, X[0:3, 3], 1e-10*s, 'the position of the tip is not that of the file' + what, q=q)


# ------------------------------------------------------------------------------------------------ C21
C21 = prop('C21', 'Random URDF trees: 1-7 revolute and prismatic joints, fixed joints before, between and after them, elements left '
           'out (origin, xyz, rpy, axis, limits), special and random rotations, inertials, geometry, elements in any order, fixed '
           'and floating side branches. Oracle: kinematics of the generated tree in homogeneous matrices. Distinct trees counted.',
           need={'case:urdf': 300, 'poses compared': 900, 'no axis': 50, 'no origin': 50, 'limits compared': 200, 'fixed inside': 100, 'side branches': 100})


@C21.workload(14400)
def kinematics(m, rng, i):
    t, base, tip = one_arm(rng)
    if rng.random() < .15:
        for j in t.joints:
            if j.limit is not None and rng.random() < .4:
                c = rng.random()
                j.limit = None if c < .7 else (None, None) + j.limit[2:]
    text = xml(rng, t)
    m.case('urdf', text=text)
    ch = t.chain(base, tip)
    m.seen('no axis', sum(j.kind in ('revolute', 'prismatic') and j.axis is None for j in ch))
    m.seen('no origin', sum(j.xyz is None and j.rpy is None for j in ch))
    m.seen('fixed inside', int(any(j.kind == 'fixed' for j in ch)))
    m.seen('side branches', int(len(t.links) > len(ch) + 1))
    r = quiet(urdf.robot_from_xml_string, text)
    judge(m, rng, t, base, tip, r, limits=all(j.limit is None or j.limit[0] is not None for j in t.joints))
    # the same tree written in another order is the same robot
    if rng.random() < .2:
        r2 = quiet(urdf.robot_from_xml_string, xml(rng, t))
        m.check(np.array_equal(r.H, r2.H) and np.array_equal(r.P, r2.P) and list(r.joint_names) == list(r2.joint_names), 'the order of the elements changes the robot')


@C21.workload(720)
def inserted_frames(m, rng, i):
    """splitting a joint by a fixed frame does not change the robot's kinematics"""
    t, base, tip = one_arm(rng)
    m.case('split', text=[(j.name, j.kind, j.xyz, j.rpy, j.axis) for j in t.joints])
    ch = t.chain(base, tip)
    k = int(rng.integers(len(ch)))
    j = ch[k]
    t.links.append('inserted frame')
    f = joint(rng, 'inserted joint', 'fixed', j.parent, 'inserted frame')
    t.joints.append(f)
    j.parent = 'inserted frame'
    r = quiet(urdf.robot_from_xml_string, xml(rng, t))
    judge(m, rng, t, base, tip, r)


# ------------------------------------------------------------------------------------------------ C22
C22 = prop('C22', 'Random trees with several arms, unusable joints, floating parts and frames; every combination of root and tip link, '
           'named or found; the same robot as string, file, xacro file (plain, with properties, with a macro), file in a ROS '
           'package and parameter. Oracle: chain selection in the generated tree. Distinct selections counted.',
           need={'case:select': 300, 'loaded': 200, 'refused: ambiguous': 30, 'refused: no such link': 30, 'refused: joint kind': 20,
                 'refused: not below': 20, 'named root': 80, 'named tip': 80, 'case:source': 60, 'source: inner root': 20, 'source: xacro': 10, 'source: include': 10, 'source: package': 10,
                 'source: parameter': 10})


def forest(rng):
    t = Tree()
    nm = Namer(rng)
    base = nm('base')
    t.links.append(base)
    arms = int(pick(rng, [1, 1, 2, 2, 3]))
    kinds = ('revolute', 'revolute', 'prismatic')
    for a in range(arms):
        at = base if rng.random() < .5 else pick(rng, t.links)
        ks = kinds if rng.random() < .8 else kinds + (pick(rng, ['continuous', 'planar', 'floating']),)
        grow(rng, t, nm, at, int(rng.integers(1, 4)), kinds=ks)
    for _ in range(int(pick(rng, [0, 0, 1, 2]))):
        at = pick(rng, t.links)
        c = nm('frame')
        t.links.append(c)
        t.joints.append(joint(rng, nm('jf'), pick(rng, ['fixed', 'floating', 'fixed']), at, c))
    if rng.random() < .05:
        t.links.append(nm('alone'))
    return t


def expected(t, root, tip):
    """('ok', root, tip) or ('refused', why) or None for cases nobody relies on"""
    if root is not None and root not in t.links:
        return ('refused', 'no such link')
    if root is None:
        rs = t.roots()
        if len(rs) != 1:
            return ('refused', 'several roots')
        root = rs[0]
    if tip is None:
        tips = []
        for l in t.leaves():
            ch = t.chain(root, l)
            if ch and not any(j.kind == 'floating' for j in ch) and not all(j.kind == 'fixed' for j in ch):
                tips.append(l)
        if len(tips) != 1:
            return ('refused', 'ambiguous' if tips else 'nothing to load')
        tip = tips[0]
    elif tip not in t.links:
        return ('refused', 'no such link')
    ch = t.chain(root, tip)
    if ch is None or not ch:
        return ('refused', 'not below')
    if any(j.kind not in ('fixed', 'revolute', 'prismatic') for j in ch):
        return ('refused', 'joint kind')
    if all(j.kind == 'fixed' for j in ch):
        return None
    return ('ok', root, tip)


@C22.workload(14400)
def selection(m, rng, i):
    t = forest(rng)
    text = xml(rng, t)
    root = pick(rng, [None, None, t.roots()[0], pick(rng, t.links), 'no such link'] if rng.random() < .9 else ['no such link', ''])
    tip = pick(rng, [None, None, pick(rng, t.leaves()), pick(rng, t.links), 'no such link'])
    if rng.random() < .35:       # a tip below the root
        root = pick(rng, [None, pick(rng, t.links)])
        below = [l for l in t.links if t.chain(root if root is not None else t.links[0], l)]
        if below:
            tip = pick(rng, below)
    m.case('select', text=text, root=root, tip=tip)
    e = expected(t, root, tip)
    if e is None:
        return
    kw = {}
    if root is not None or rng.random() < .3:
        kw['root_link'] = root
    if tip is not None or rng.random() < .3:
        kw['tip_link'] = tip
    if e[0] == 'refused':
        m.seen('refused: ' + e[1])
        m.raises(lambda: quiet(urdf.robot_from_xml_string, text, **kw), 'a chain that cannot be selected was loaded: ' + e[1])
        return
    r = quiet(urdf.robot_from_xml_string, text, **kw) if rng.random() < .7 else quiet(urdf.robot_from_xml_string, text, root, tip)
    m.seen('loaded')
    m.seen('named root', int(root is not None))
    m.seen('named tip', int(tip is not None))
    judge(m, rng, t, e[1], e[2], r)


def same_robot(a, b):
    for k in ('H', 'P', 'joint_type', 'joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'R_tool', 'p_tool'):
        x, y = getattr(a, k), getattr(b, k)
        if (x is None) != (y is None) or x is not None and not np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=0, atol=1e-9):
            return k
    for k in ('joint_names', 'root_link_name', 'tip_link_name'):
        if getattr(a, k) != getattr(b, k):
            return k
    return None


XNS = ' xmlns:xacro="http://www.ros.org/wiki/xacro"'


def xacro_text(rng, t, kind):
    if kind == 'plain':
        return xml(rng, t, ns=XNS)
    if kind == 'properties':
        props = []

        def numf(rng, v):
            out = []
            for x in v:
                x = float(x)
                c = rng.random()
                if c < .3:
                    k = 'v%d' % len(props)
                    props.append('<xacro:property name="%s" value="%r"/>' % (k, x))
                    out.append('${%s}' % k)
                elif c < .6:
                    out.append('${%r*2}' % (x/2))
                else:
                    out.append(repr(x))
            return ' '.join(out)
        body = xml(rng, t, numf=numf, ns=XNS)
        return body.replace(XNS + '>', XNS + '>' + ''.join(props), 1)
    # a macro that is expanded with a prefix, from the file itself or from one next to it
    body = xml(rng, t)
    inner = body[body.index('>', body.index('<robot')) + 1:body.rindex('</robot>')]
    if kind == 'include':
        return ('<?xml version="1.0"?>\n<robot name="r"%s><xacro:include filename="parts.xacro"/><xacro:arm prefix=""/></robot>' % XNS,
                '<?xml version="1.0"?>\n<robot%s><xacro:macro name="arm" params="prefix">%s</xacro:macro></robot>' % (XNS, inner))
    return ('<?xml version="1.0"?>\n<robot name="r"%s><xacro:macro name="arm" params="prefix">%s</xacro:macro><xacro:arm prefix=""/></robot>' % (XNS, inner))


@C22.workload(1440)
def sources(m, rng, i):
    t = forest(rng) if rng.random() < .5 else one_arm(rng)[0]
    cands = [l for l in t.links if expected(t, None, l) and expected(t, None, l)[0] == 'ok']
    if not cands:
        return
    tip = pick(rng, [None, pick(rng, cands)])
    inner = [l for l in t.links if any(j.parent == l for j in t.joints)]
    root = pick(rng, [None, t.roots()[0], pick(rng, inner) if inner else None])
    if len(t.roots()) != 1:
        return
    if root not in (None, t.roots()[0]):
        below = [l for l in t.links if t.chain(root, l)]
        tip = pick(rng, [None, pick(rng, below) if below else None])
        m.seen('source: inner root')
    e = expected(t, root, tip)
    if e is None:
        return
    text = xml(rng, t)
    if not text.isascii():       # files are read in the encoding of the locale
        return
    m.case('source', text=text, root=root, tip=tip)
    d = tempfile.mkdtemp(prefix='rmon_urdf_')
    saved, here = os.environ.get('ROS_PACKAGE_PATH'), os.getcwd()
    old = sys.modules.get('rospy')
    try:
        pkg = os.path.join(d, 'pkg_%d' % i)
        os.makedirs(os.path.join(pkg, 'urdf'))
        with open(os.path.join(pkg, 'package.xml'), 'w') as f:
            f.write('<package><name>pkg_%d</name><version>0.0.1</version><description>d</description><maintainer email="a@b.c">a</maintainer>'
                    '<license>BSD</license></package>' % i)
        kind = pick(rng, ['plain', 'properties', 'macro', 'include'])
        files = {'a.urdf': text, 'a.xacro': xacro_text(rng, t, kind)}
        if kind == 'include':
            m.seen('source: include')
            files['a.xacro'], files['parts.xacro'] = files['a.xacro']
        for k, v in files.items():
            with open(os.path.join(pkg, 'urdf', k), 'w', encoding='utf-8') as f:
                f.write(v)
        os.environ['ROS_PACKAGE_PATH'] = d
        params = {'robot_description': text, '/other/robot_description': '<robot name="x"><link name="y"/></robot>'}
        key = pick(rng, ['robot_description', '/ns/robot_description'])
        if key != 'robot_description':
            params = {key: text, 'robot_description': '<robot name="x"><link name="y"/></robot>'}
        asked = []

        def get_param(k):
            asked.append(k)
            return params[k]
        sys.modules['rospy'] = types.SimpleNamespace(get_param=get_param)
        kw = dict(root_link=root, tip_link=tip)
        full = rng.random() < .6

        def path(k):
            k = os.path.join(pkg, 'urdf', k)
            return k if full else os.path.relpath(k)
        loaders = [('string', lambda **k: urdf.robot_from_xml_string(text, **k)),
                   ('file', lambda **k: urdf.robot_from_xml_file(path('a.urdf'), **k)),
                   ('xacro', lambda **k: urdf.robot_from_xacro_file(path('a.xacro'), **k)),
                   ('package', lambda **k: urdf.robot_from_xml_file('urdf/a.urdf', 'pkg_%d' % i, **k)),
                   ('package xacro', lambda **k: urdf.robot_from_xacro_file('urdf/a.xacro', package='pkg_%d' % i, **k)),
                   ('parameter', lambda **k: urdf.robot_from_parameter_server(*([key] if key != 'robot_description' or rng.random() < .5 else []), **k))]
        first = None
        quiet(loaders[0][1], **kw) if e[0] != 'refused' else None
        for name, load in loaders:
            m.seen('source: ' + name)
            loaded, around = len(sys.modules), ambient()
            if e[0] != 'refused' and rng.random() < .5:
                quiet(load, **kw)
                z = changed(around, ambient()) if len(sys.modules) == loaded else []
                m.check(not z, 'loading changes the state of the process', source=name, state=z)
                m.check(sorted(os.listdir(os.path.join(pkg, 'urdf'))) == sorted(files), 'loading leaves files behind', source=name)
            if e[0] == 'refused':
                m.raises(lambda: quiet(load, **kw), 'a chain that cannot be selected was loaded from %s: %s' % (name, e[1]))
                continue
            r = quiet(load, **kw)
            m.check(os.getcwd() == here, 'loading changes the working directory', source=name)
            judge(m, rng, t, e[1], e[2], r, ' (%s)' % name)
            if first is None:
                first = r
            else:
                bad = same_robot(first, r)
                m.check(bad is None, 'the robot depends on where it is read from', source=name, attribute=bad)
        m.check(all(k == key for k in asked) and asked, 'another parameter was read', asked=asked, key=key)
        for k, v in files.items():
            m.check(open(os.path.join(pkg, 'urdf', k), encoding='utf-8').read() == v, 'reading changed the file')
    finally:
        os.chdir(here)
        shutil.rmtree(d)
        if saved is None:
            os.environ.pop('ROS_PACKAGE_PATH', None)
        else:
            os.environ['ROS_PACKAGE_PATH'] = saved
        if old is None:
            sys.modules.pop('rospy', None)
        else:
            sys.modules['rospy'] = old
