"""C23, C24: robots read from robot info and tool info documents"""
import io, os, copy, tempfile, shutil
import numpy as np
import yaml
import general_robotics_toolbox as rox
from general_robotics_toolbox import robotraconteur as rr
from .core import Prop
from . import ref, gen
from .gen import PI, pick

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


def v3(rng, v):
    d = {k: float(x) for k, x in zip('xyz', v)}
    if all(x == int(x) for x in d.values()) and rng.random() < .5:
        d = {k: int(x) for k, x in d.items()}
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def pose(rng, style=None):
    """a pose entry, its exact rotation and position"""
    q = gen.quat(rng)
    c = rng.random()
    if c < .25:
        f = np.round(q, int(rng.integers(4, 9)))
    elif c < .4:
        f = q*rng.uniform(.9, 1.1)
    elif c < .45:
        f = q*pick(rng, [.1, 2.0, 10.0])
    else:
        f = q
    if rng.random() < .2:
        f = -f
    p = gen.vec(rng)
    d = {k: float(x) for k, x in zip('wxyz', f)}
    ks = list(d)
    rng.shuffle(ks)
    d = {k: d[k] for k in ks}
    style = style or pick(rng, ['orientation', 'rotation'])
    e = {'orientation': d, 'position': v3(rng, p)} if style == 'orientation' else {'rotation': d, 'translation': v3(rng, p)}
    if rng.random() < .3:
        e = dict(reversed(list(e.items())))
    return e, ref.qR(f/np.linalg.norm(f)), p


def ident(rng, name):
    return name if rng.random() < .4 else {'name': name, 'uuid': '00000000-0000-0000-0000-%012d' % rng.integers(10**9)}


class Truth(object):
    pass


def document(rng, bare=False):
    """a robot info document and the truth about each of its chains"""
    nj = int(pick(rng, [1, 2, 6, 7, 8, 14]))
    info, J = [], []
    for k in range(nj):
        t = int(rng.random() < .25)
        lo, hi = sorted(float(x) for x in rng.uniform(-4, 4, 2))
        vel, acc = float(rng.uniform(.1, 5)), float(rng.uniform(.1, 20))
        if rng.random() < .2:
            lo, hi = -3, 3
        name = pick(rng, ['joint_%d' % k, 'j%d' % k, 'left/%d' % k, 'Joint %d' % k, 'A%d' % k, 'a|b %d' % k, ' j%d ' % k, '%d' % k, 'Gelenk-ä.%d' % k])
        null = rng.random() < .1
        info.append({'joint_identifier': None if null else ident(rng, name), 'joint_type': ['revolute', 'prismatic'][t],
                     'joint_limits': {'lower': lo, 'upper': hi, 'velocity': vel, 'acceleration': acc, 'reduced_velocity': 0.1*vel,
                                      'reduced_acceleration': .1*acc, 'effort': 0},
                     'default_units': 'radian', 'default_effort_units': 'newton_meter', 'passive': False})
        J.append((t, lo, hi, vel, acc, '' if null else name))
    doc = {'robot_type': 'serial', 'robot_capabilities': ['jog_command'], 'joint_info': info, 'chains': []}
    truths = []
    nc = 1 if nj == 1 else int(pick(rng, [1, 1, 2, 3]))
    base = None
    c = rng.random()
    if c < .5:
        e, R, p = pose(rng)
        doc['device_info'] = {'device': ident(rng, 'the_robot'), 'device_origin_pose': {'parent_frame': ident(rng, 'world'), 'pose': e}}
        base = (R, p)
    elif c < .6:
        doc['device_info'] = {'device': ident(rng, 'the_robot')}
    elif c < .7:
        doc['device_info'] = {'device': ident(rng, 'the_robot'), 'device_origin_pose': None}
    elif c < .8:
        doc['device_info'] = None
    for a in range(nc):
        n = int(rng.integers(1, nj + 1))
        nums = sorted(int(x) for x in rng.choice(nj, n, replace=False))
        if nc == 1 and rng.random() < .5:
            nums = list(range(nj))
            n = nj
        t = Truth()
        t.H = np.array([gen.axis(rng) for _ in range(n)]).T.reshape(3, n)
        t.P = np.array([gen.vec(rng) for _ in range(n+1)]).T.reshape(3, n+1)
        t.joints = [J[k] for k in nums]
        ch = {'kin_chain_identifier': ident(rng, 'chain%d' % a), 'H': [v3(rng, t.H[:, k]) for k in range(n)], 'P': [v3(rng, t.P[:, k]) for k in range(n+1)],
              'joint_numbers': nums}
        c = rng.random()
        t.root = None
        if c < .6:
            fm = pick(rng, ['link%d_%d', 'Link %d %d', 'world|l%d_%d', ' l%d/%d'])
            ch['link_identifiers'] = [ident(rng, fm % (a, k)) for k in range(n+1 if rng.random() < .8 else 1)]
            t.root = fm % (a, 0)
        elif c < .7:
            ch['link_identifiers'] = []
        elif c < .8:
            ch['link_identifiers'] = [None] + [ident(rng, 'x')]
        t.tip = None
        ch['flange_identifier'] = None
        if rng.random() < .8:
            t.tip = pick(rng, ['flange%d', 'Flange %d', 'a|f%d', 'tool0 %d ']) % a
            ch['flange_identifier'] = ident(rng, t.tip)
        e, R, p = pose(rng)
        ch['flange_pose'] = e
        t.flange = (R, p)
        t.tool = None
        t.base = base
        c = rng.random()
        if c < .5:
            e, R, p = pose(rng)
            ch['current_tool'] = {'tcp': e, 'inertia': {'m': 1.0}}
            t.tool = (R, p)
            c = rng.random()
            if c < .6:
                t.tip = 'tool%d' % a
                ch['current_tool']['device_info'] = {'device': ident(rng, t.tip)}
            elif c < .8:
                ch['current_tool']['device_info'] = None
        elif c < .6:
            ch['current_tool'] = None
        elif c < .7:
            ch['current_tool'] = {'tcp': None, 'device_info': {'device': ident(rng, 'useless')}}
        ks = list(ch)
        rng.shuffle(ks)
        doc['chains'].append({k: ch[k] for k in ks})
        truths.append(t)
    ks = list(doc)
    rng.shuffle(ks)
    return {k: doc[k] for k in ks}, truths


def tool_document(rng):
    e, R, p = pose(rng)
    name = 'gripper%d' % rng.integers(9)
    doc = {'device_info': {'device': ident(rng, name)}, 'tool_type': 'electric_gripper', 'tcp': e, 'close_position': 0}
    return doc, (R, p), name


def as_file(rng, doc):
    """(what to pass, how)"""
    c = rng.random()
    if c < .4:
        return doc, 'dict'
    text = yaml.safe_dump(doc, sort_keys=bool(rng.random() < .5), default_flow_style=bool(rng.random() < .3))
    if c < .8:
        return io.StringIO(text), 'stream'
    if c < .9:
        return text, 'text'
    return io.BytesIO(text.encode()), 'bytes'


def close_tf(m, T, want, what):
    if want is None:
        m.check(T is None, what + ': there is none in the document', got=T)
        return
    m.check(T is not None, what + ' is missing')
    m.check(ref.is_rotation(T.R, 1e-12), what + ': the orientation is not a rotation', R=T.R)
    m.close(T.R, want[0], 1e-12, what + ': wrong orientation')
    m.close(T.p, want[1], 0, what + ': wrong position')


def judge(m, rng, r, t, tool=None, tip=None):
    n = len(t.joints)
    m.close(r.H, t.H, 0, 'wrong joint axes')
    m.close(r.P, t.P, 0, 'wrong link offsets')
    m.check([int(x) for x in r.joint_type] == [j[0] for j in t.joints], 'wrong joint kinds', got=r.joint_type, expected=[j[0] for j in t.joints])
    for k, name in enumerate(('joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit')):
        m.close(getattr(r, name), [j[1+k] for j in t.joints], 0, 'wrong ' + name.replace('_', ' '))
    m.check(list(r.joint_names) == [j[5] for j in t.joints], 'wrong joint names', got=r.joint_names)
    m.check(r.root_link_name == t.root, 'wrong root link', got=r.root_link_name, expected=t.root)
    tip = tip if tip is not None else t.tip
    m.check(r.tip_link_name == tip, 'wrong tip link', got=r.tip_link_name, expected=tip)
    close_tf(m, r.T_flange, t.flange, 'the flange pose')
    close_tf(m, r.T_base, t.base, 'the base pose')
    tool = tool if tool is not None else t.tool
    if tool is None:
        m.check(r.R_tool is None and r.p_tool is None, 'a tool that is not in the document')
    else:
        m.check(r.R_tool is not None and r.p_tool is not None, 'the tool is missing')
        close_tf(m, rox.Transform(r.R_tool, r.p_tool), tool, 'the tool pose')
    q = gen.config(rng, r)
    X = ref.chain_fk(t.H, t.P, [j[0] for j in t.joints], q) @ ref.hom(*t.flange)
    if tool is not None:
        X = X @ ref.hom(*tool)
    if t.base is not None:
        X = ref.hom(*t.base) @ X
    T = rox.fwdkin(r, q)
    s = 10 + np.abs(t.P).sum() + sum(np.abs(x[1]).sum() for x in (t.flange, tool, t.base) if x is not None)
    m.seen('poses compared')
    m.close(T.R, X[0:3, 0:3], 1e-10, 'the loaded robot has another tool orientation', q=q)
    m.close(T.p, X[0:3, 3], 1e-10*s, 'the loaded robot has another tool position', q=q)


# ------------------------------------------------------------------------------------------------ C23
C23 = prop('C23', 'Random documents with 1-14 joints and 1-3 chains over any increasing subset of the joints, revolute and prismatic, '
           'identifiers as text or structure or missing, entries in any order, rounded and unnormalised quaternions in both spellings, '
           'as dictionary, stream, text and bytes; every chain is loaded and compared with the generated truth. Distinct documents counted.',
           need={'case:document': 300, 'chains loaded': 300, 'several chains': 50, 'as stream': 100, 'as dict': 100, 'with tool': 50, 'with base': 50,
                 'joints skipped': 50})


@C23.workload(4800)
def chains(m, rng, i):
    doc, truths = document(rng)
    m.case('document', doc=doc)
    m.seen('several chains', int(len(truths) > 1))
    for k, t in enumerate(truths):
        src, how = as_file(rng, doc)
        m.seen('as ' + how)
        before = copy.deepcopy(doc)
        if k == 0 and rng.random() < .5:
            r = rr.load_robot_info_yaml_to_robot(src)
        else:
            r = rr.load_robot_info_yaml_to_robot(src, k) if rng.random() < .5 else rr.load_robot_info_yaml_to_robot(robot_info_file=src, chain_number=k)
        m.check(doc == before, 'loading changed the document')
        m.seen('chains loaded')
        m.seen('with tool', int(t.tool is not None))
        m.seen('with base', int(t.base is not None))
        m.seen('joints skipped', int(doc['chains'][k]['joint_numbers'] != list(range(len(t.joints)))))
        judge(m, rng, r, t)


@C23.workload(480)
def real_files(m, rng, i):
    """as above from an open file"""
    doc, truths = document(rng)
    d = tempfile.mkdtemp(prefix='rmon_rr_')
    try:
        p = os.path.join(d, 'robot.yml')
        with open(p, 'w') as f:
            yaml.safe_dump(doc, f)
        m.case('file', doc=doc)
        for k, t in enumerate(truths):
            with open(p, pick(rng, ['r', 'rb'])) as f:
                r = rr.load_robot_info_yaml_to_robot(f, k)
            judge(m, rng, r, t)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------------------------------ C24
C24 = prop('C24', 'Random robot and tool documents combined in every representation (tool replaces the tool of the robot document, tip '
           'becomes the tool, everything else stays), and documents with one fault of 24 kinds. Distinct documents counted.',
           need={'case:with tool': 200, 'case:fault': 300, 'tool replaced': 50})


@C24.workload(3000)
def with_tool(m, rng, i):
    doc, truths = document(rng)
    tdoc, tool, name = tool_document(rng)
    m.case('with tool', doc=doc, tool=tdoc)
    for k, t in enumerate(truths):
        a, _ = as_file(rng, doc)
        b, _ = as_file(rng, tdoc)
        before = copy.deepcopy([doc, tdoc])
        r = rr.load_robot_and_tool_info_yaml_to_robot(a, b, k) if k or rng.random() < .5 else rr.load_robot_and_tool_info_yaml_to_robot(a, b)
        m.check([doc, tdoc] == before, 'loading changed the documents')
        m.seen('tool replaced', int(t.tool is not None))
        judge(m, rng, r, t, tool, name)


FAULTS = ['chain too large', 'chain negative', 'H short', 'H long', 'P short', 'P long', 'H missing', 'P missing', 'H null', 'P null', 'numbers out of range',
          'numbers negative', 'numbers decreasing', 'numbers repeated', 'joint type', 'limits null', 'limits missing', 'lower missing', 'chains null',
          'chains empty', 'chains missing', 'axis long', 'flange missing', 'axis part missing', 'joint_info missing', 'numbers short', 'acceleration missing',
          'numbers first out of range', 'tool tcp missing', 'quaternion part missing']


@C24.workload(6300)
def faults(m, rng, i):
    doc, truths = document(rng)
    doc = copy.deepcopy(doc)
    f = FAULTS[i % len(FAULTS)]
    k = int(rng.integers(len(truths)))
    ch = doc['chains'][k]
    n = len(ch['joint_numbers'])
    j = int(rng.integers(n))
    chain = k
    tool = None
    if f == 'chain too large':
        chain = len(truths) + int(pick(rng, [0, 0, 1, 5]))
    elif f == 'chain negative':
        chain = -int(rng.integers(1, len(truths) + 2))
    elif f in ('H short', 'P short'):
        ch[f[0]].pop(int(rng.integers(len(ch[f[0]]))))
    elif f in ('H long', 'P long'):
        ch[f[0]].append({'x': 1.0, 'y': 0.0, 'z': 0.0})
    elif f in ('H missing', 'P missing'):
        del ch[f[0]]
    elif f in ('H null', 'P null'):
        ch[f[0]] = None
    elif f == 'numbers out of range':
        ch['joint_numbers'][-1] = len(doc['joint_info']) + int(pick(rng, [0, 1, 100]))
    elif f == 'numbers first out of range':
        ch['joint_numbers'][:] = [len(doc['joint_info']) + x for x in range(n)]
    elif f == 'numbers negative':
        ch['joint_numbers'][0] = -int(rng.integers(1, 4))
    elif f in ('numbers decreasing', 'numbers repeated'):
        if n < 2:
            return
        a = ch['joint_numbers']
        j = max(j, 1)
        if f == 'numbers repeated':
            a[j] = a[j-1]
        else:
            a[j-1], a[j] = a[j], a[j-1]
    elif f == 'joint type':
        doc['joint_info'][ch['joint_numbers'][j]]['joint_type'] = pick(rng, ['floating', 'Revolute', '', None, 'unknown', 'continuous', 0])
    elif f == 'limits null':
        doc['joint_info'][ch['joint_numbers'][j]]['joint_limits'] = None
    elif f == 'limits missing':
        del doc['joint_info'][ch['joint_numbers'][j]]['joint_limits']
    elif f in ('lower missing', 'acceleration missing'):
        del doc['joint_info'][ch['joint_numbers'][j]]['joint_limits'][f.split()[0]]
    elif f == 'chains null':
        doc['chains'] = None
    elif f == 'chains empty':
        doc['chains'] = []
    elif f == 'chains missing':
        del doc['chains']
    elif f == 'joint_info missing':
        del doc['joint_info']
    elif f == 'axis long':
        s = pick(rng, [1.1, 1.01, .99, .5, 0.0])
        for x in 'xyz':
            ch['H'][j][x] = ch['H'][j][x]*s
    elif f == 'axis part missing':
        del ch['H'][j][pick(rng, ['x', 'y', 'z'])]
    elif f == 'flange missing':
        del ch['flange_pose']
    elif f == 'numbers short':
        ch['joint_numbers'].pop(j)
    elif f == 'tool tcp missing':
        tool, _, _ = tool_document(rng)
        del tool['tcp']
    elif f == 'quaternion part missing':
        e = ch['flange_pose']
        del e['orientation' if 'orientation' in e else 'rotation'][pick(rng, list('wxyz'))]
    m.case('fault', fault=f, doc=doc)
    src, _ = as_file(rng, doc)
    if tool is None and rng.random() < .2:
        tool, _, _ = tool_document(rng)
    if tool is None:
        m.raises(lambda: rr.load_robot_info_yaml_to_robot(src, chain), 'a document with a fault was accepted: ' + f)
    else:
        m.raises(lambda: rr.load_robot_and_tool_info_yaml_to_robot(src, tool, chain), 'a document with a fault was accepted: ' + f)
