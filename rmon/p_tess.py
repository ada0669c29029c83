"""C25-C27, C31: robots handed to the Tesseract environment"""
import math, warnings
import numpy as np
import yaml
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tess
from tesseract_robotics.tesseract_environment import Environment, Commands, AddSceneGraphCommand, AddKinematicsInformationCommand
from tesseract_robotics.tesseract_scene_graph import JointType_FIXED, JointType_REVOLUTE, JointType_PRISMATIC
from .core import Prop
from . import ref, gen, ref_ik
from .gen import PI, pick
from .p_fk import scale

PROPS = {}
ex, ey, ez = np.eye(3)


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p
    return p


NAMES = ['robot', 'rob', 'left_arm', 'r2', 'Arm-1']


def whole(rng, r, often=.1):
    """the same kind of robot drawn in whole numbers, kept as whole numbers"""
    if rng.random() > often or np.abs(r.H - np.rint(r.H)).max() > 1e-9:
        return r
    P = np.rint(np.asarray(r.P)*10).astype(int)
    if len(r.joint_type) == 6 and (not P[:, 2].any() or np.abs(P[:, 3] + P[:, 4]).max() < 2):
        return r
    r.H, r.P = np.rint(r.H).astype(int), P
    if rng.random() < .6:
        r.joint_lower_limit = np.floor(r.joint_lower_limit).astype(int)
        r.joint_upper_limit = np.ceil(r.joint_upper_limit).astype(int)
        r.joint_vel_limit, r.joint_acc_limit = np.ceil(r.joint_vel_limit).astype(int), np.ceil(r.joint_acc_limit).astype(int)
    return r


def full_robot(rng, n=None, names=True):
    r = whole(rng, gen.any_robot(rox, rng, n=n, full=True))
    k = len(r.joint_type)
    if names and rng.random() < .5:
        r.joint_names = [pick(rng, ['j%d', 'axis_%d', 'joint %d']) % (x + 1) for x in range(k)]
        if len(set(r.joint_names)) < k:
            r.joint_names = ['j%d' % x for x in range(k)]
        if k > 1 and rng.random() < .1:
            r.joint_names[:2] = ['Axis', 'axis']
    if rng.random() < .1:        # zeros are limits too
        r.joint_vel_limit, r.joint_acc_limit = np.array(r.joint_vel_limit), np.array(r.joint_acc_limit)
        pick(rng, [r.joint_vel_limit, r.joint_acc_limit])[int(rng.integers(k))] = 0
    return r


def frames_of(r, q, base=True):
    """name (without prefix) -> pose of every link of the robot in the world"""
    T = np.eye(4) if r.T_base is None or not base else ref.hom(r.T_base.R, r.T_base.p)
    out = {'base_link': T}
    n = len(r.joint_type)
    for k in range(n):
        T = T @ ref.htrans(r.P[:, k])
        T = T @ (ref.hrot(r.H[:, k], q[k]) if int(r.joint_type[k]) == 0 else ref.htrans(q[k]*r.H[:, k]))
        out['link_%d' % (k+1)] = T
    T = T @ ref.htrans(r.P[:, n])
    out['chain_tip'] = T
    if r.T_flange is not None:
        T = T @ ref.hom(r.T_flange.R, r.T_flange.p)
        out['flange'] = T
    if r.R_tool is not None:
        T = T @ ref.hom(r.R_tool, r.p_tool)
        out['tool_tcp'] = T
    return out


def close_pose(m, T, X, tol, s, what, **data):
    m.close(T.R, X[0:3, 0:3], tol, what + ' (orientation)', **data)
    m.close(T.p, X[0:3, 3], tol*s, what + ' (position)', **data)


def link_jac(r, q, upto):
    """world Jacobian of a link behind the first upto joints (None: the tip)"""
    if upto is None:
        return ref.robot_jac(r, q)
    part = rox.Robot(r.H, r.P, r.joint_type, T_base=r.T_base)
    J = np.zeros((6, len(q)))
    if upto:
        z = rox.Robot(r.H[:, :upto], np.hstack((r.P[:, :upto], np.zeros((3, 1)))), list(r.joint_type)[:upto], T_base=r.T_base)
        J[:, :upto] = ref.robot_jac(z, q[:upto])
    return J


# ------------------------------------------------------------------------------------------------ C25
C25 = prop('C25', 'Random robots of 1-8 revolute and prismatic joints with tool, flange, base, custom joint and robot names, as robot and '
           'as prepared environment, alone and two in one environment. The pose of every link in every frame and the Jacobian of links are '
           'compared with a reference and with the forward kinematics of the library. Distinct (robot, joints) counted.',
           need={'case:one': 200, 'frames compared': 1500, 'Jacobians compared': 500, 'case:two': 30, 'environment given': 50})


def check_kin(m, rng, tr, r, q, name, world='world'):
    s = scale(r)
    tol = 1e-7
    X = frames_of(r, q)
    tip = list(X)[-1]
    T = tr.fwdkin(q)
    close_pose(m, T, X[tip], tol, s, 'the pose of the tool is wrong')
    F = rox.fwdkin(r, q)
    close_pose(m, T, ref.hom(F.R, F.p), tol, s, 'the pose of the tool differs from the forward kinematics of the library')
    for l in X:
        m.seen('frames compared')
        close_pose(m, tr.fwdkin(q, None, name + '_' + l), X[l], tol, s, 'the pose of a link is wrong', link=l)
    for _ in range(3):
        a, b = pick(rng, list(X)), pick(rng, list(X))
        m.seen('frames compared')
        close_pose(m, tr.fwdkin(q, base_link_name=name + '_' + a, tip_link_name=name + '_' + b), ref.invhom(X[a]) @ X[b], tol, s,
                   'the pose of one link in another is wrong', base=a, tip=b)
    close_pose(m, tr.fwdkin(q, world), X[tip], tol, s, 'the pose of the tool in the world is wrong')
    J = tr.jacobian(q)
    R = ref.robot_jac(r, q)
    m.check(np.shape(J) == (6, len(q)), 'the Jacobian is not 6 x N')
    m.close(J[0:3], R[0:3], tol, 'the angular rows of the Jacobian are wrong')
    m.close(J[3:6], R[3:6], tol*s, 'the linear rows of the Jacobian are wrong')
    L = rox.robotjacobian(r, q)
    m.close(J, L, tol*s, 'the Jacobian differs from that of the library')
    m.seen('Jacobians compared')
    n = len(q)
    k = int(rng.integers(1, n+1))
    J = tr.jacobian(q, link_name='%s_link_%d' % (name, k))
    m.close(J, link_jac(r, q, k), tol*s, 'the Jacobian of a link is wrong', link=k)
    Rb = np.eye(3) if r.T_base is None else r.T_base.R
    J = tr.jacobian(q, base_link_name=name + '_base_link')
    m.close(J[0:3], Rb.T @ R[0:3], tol, 'the Jacobian in the base frame is wrong')
    m.close(J[3:6], Rb.T @ R[3:6], tol*s, 'the Jacobian in the base frame is wrong')
    m.seen('Jacobians compared', 2)


@C25.workload(4800)
def one(m, rng, i):
    r = full_robot(rng)
    name = pick(rng, NAMES)
    q = gen.config(rng, r)
    m.case('one', robot=r, q=q)
    tr = tess.TesseractRobot(r, name) if rng.random() < .6 else tess.TesseractRobot(r, robot_name=name, invkin_solver='KDLInvKinChainNR')
    if rng.random() < .3:
        tr = tess.TesseractRobot(robot_name=name, tesseract_env=tr.tesseract_env)
        m.seen('environment given')
    for _ in range(2):
        check_kin(m, rng, tr, r, q, name)
        q = gen.config(rng, r)
        if rng.random() < .1:
            z = np.rint(q)
            q = np.where((z < r.joint_lower_limit) | (z > r.joint_upper_limit), np.ceil(r.joint_lower_limit), z)
            q = q.astype(int) if (q <= r.joint_upper_limit).all() else gen.config(rng, r)
            m.seen('whole number joints', int(q.dtype.kind == 'i'))


@C25.workload(480)
def two(m, rng, i):
    """two robots in one environment do not disturb each other"""
    a, b = full_robot(rng), full_robot(rng)
    m.case('two', a=a, b=b)
    env = tess.robot_to_tesseract_env(a, 'a')
    m.check(env.applyCommands(tess.robot_to_tesseract_env_commands(b, 'b', include_world=False)), 'a second robot cannot be added')
    for name, r in (('a', a), ('b', b), ('a', a)):
        tr = tess.TesseractRobot(robot_name=name, tesseract_env=env)
        check_kin(m, rng, tr, r, gen.config(rng, r), name)


def hand_made(rng, r, name, solver=None, base='default', override=False):
    """an environment put together from the parts the library offers"""
    sg, links, joints, chain = tess.robot_to_scene_graph(r, True)
    pre = lambda names: ['%s_%s' % (name, x) for x in names]
    links, joints, chain = pre(links), pre(joints), pre(chain)
    base = {'default': None, 'world': 'world', 'base_link': name + '_base_link'}[base]
    b = links[0] if base is None else base
    info = None
    if override:
        make = {'OPWInvKin': lambda: tess.kinematics_plugin_invkin_opw_plugin_info_dict(name, chain[0], name + '_flange', tess.robot_to_opw_inv_kin_parameters(r)),
                'URInvKin': lambda: tess.kinematics_plugin_invkin_ur_plugin_info_dict(name, 'world', name + '_flange', tess.robot_to_ur_inv_kin_parameters(r)),
                'KDLInvKinChainLMA': lambda: tess.kinematics_plugin_invkin_kdl_plugin_info_dict(name, b, links[-1]),
                'KDLInvKinChainNR': lambda: tess.kinematics_plugin_invkin_kdl_plugin_info_dict(name, b, links[-1], 'KDLInvKinChainNR')}
        info = make[solver or 'KDLInvKinChainLMA']()
        solver = pick(rng, [None, solver])
    k = tess.tesseract_kinematics_information(r, name, links, joints, chain, solver, info, base, pick(rng, [None, links[-1]]))
    cmds = Commands()
    cmds.append(AddSceneGraphCommand(tess.world_scene_graph()))
    cmds.append(AddSceneGraphCommand(sg, tess.get_robot_world_to_base_joint(r, name), name + '_'))
    cmds.append(AddKinematicsInformationCommand(k))
    env = Environment()
    return env if env.init(cmds) else None


@C25.workload(480)
def parts(m, rng, i):
    r = full_robot(rng)
    name = pick(rng, NAMES)
    base = pick(rng, ['default', 'world', 'base_link'])
    m.case('parts', robot=r, base=base)
    env = hand_made(rng, r, name, pick(rng, [None, 'KDLInvKinChainNR']), base, rng.random() < .4)
    m.check(env is not None, 'the parts do not make an environment')
    tr = tess.TesseractRobot(robot_name=name, tesseract_env=env)
    m.check(tr.base_link_name == 'world', 'the robot has another base link', got=tr.base_link_name)
    q = gen.config(rng, r)
    X = frames_of(r, q)
    close_pose(m, tr.fwdkin(q), X[list(X)[-1]], 1e-7, scale(r), 'the pose of the tool is wrong')
    for l in X:
        m.seen('frames compared')
        close_pose(m, tr.fwdkin(q, None, name + '_' + l), X[l], 1e-7, scale(r), 'the pose of a link is wrong', link=l)
    J = tr.jacobian(q, 'world')
    m.close(J, ref.robot_jac(r, q), 1e-7*scale(r), 'the Jacobian is wrong')


# ------------------------------------------------------------------------------------------------ C27
C27 = prop('C27', 'Random rigid transforms both ways, random robots as scene graph and environment: names, kinds, limits, parents, origins of all '
           'joints, names returned, world link and base joint. Distinct inputs counted.',
           need={'case:transform': 300, 'case:graph': 200, 'joints compared': 800, 'case:environment': 100})


@C27.workload(12000)
def transforms(m, rng, i):
    T = gen.transform(rox, rng)
    m.case('transform', T=T)
    iso = tess.transform_to_isometry3d(T)
    M = iso.matrix()
    m.close(M[0:3, 0:3], T.R, 1e-11, 'the isometry has another orientation')
    m.close(M, ref.hom(T.R, T.p), 1e-11*(1 + np.abs(T.p).max()), 'the isometry is another transform')
    B = tess.isometry3d_to_transform(iso)
    m.close(B.R, T.R, 1e-11, 'there and back gives another orientation')
    m.close(B.p, T.p, 1e-12*(1 + np.abs(T.p).max()), 'there and back gives another position')
    U = gen.transform(rox, rng)
    C = tess.isometry3d_to_transform(tess.transform_to_isometry3d(T) * tess.transform_to_isometry3d(U))
    close_pose(m, C, ref.hom(T.R, T.p) @ ref.hom(U.R, U.p), 1e-7, 1 + np.abs(T.p).sum() + np.abs(U.p).sum(), 'the product of isometries is not the product of transforms')
    C = tess.isometry3d_to_transform(tess.transform_to_isometry3d(T).inverse())
    close_pose(m, C, ref.invhom(ref.hom(T.R, T.p)), 1e-7, 1 + np.abs(T.p).sum(), 'the inverse of the isometry is not the inverse of the transform')
    del iso
    m.close(B.p, T.p, 1e-12*(1 + np.abs(T.p).max()), 'the transform changes when the isometry goes away')


def expected_graph(r):
    """joint name -> (kind, parent, child, origin 4x4, axis, limits), link names, tip"""
    n = len(r.joint_type)
    jn = r.joint_names if r.joint_names is not None else ['joint_%d' % (k+1) for k in range(n)]
    links = ['base_link'] + ['link_%d' % (k+1) for k in range(n)]
    J = {}
    for k in range(n):
        J[jn[k]] = ('prismatic' if int(r.joint_type[k]) else 'revolute', links[k], links[k+1], ref.htrans(r.P[:, k]), r.H[:, k],
                    (r.joint_lower_limit[k], r.joint_upper_limit[k], r.joint_vel_limit[k], r.joint_acc_limit[k]))
    fixed = [(links[-1], 'chain_tip', ref.htrans(r.P[:, n]))]
    tip = 'chain_tip'
    if r.T_flange is not None:
        fixed.append((tip, 'flange', ref.hom(r.T_flange.R, r.T_flange.p)))
        tip = 'flange'
    if r.R_tool is not None:
        fixed.append((tip, 'tool_tcp', ref.hom(r.R_tool, r.p_tool)))
        tip = 'tool_tcp'
    return J, jn, links, fixed, tip


def members(v):
    return [v[i] for i in range(len(v))]


def check_graph(m, joints, have, r, pre=''):
    J, jn, links, fixed, tip = expected_graph(r)
    got = {j.getName(): j for j in joints}
    all_links = links + [f[1] for f in fixed]
    have = set(have)
    m.check({pre + l for l in all_links} <= have, 'links are missing', have=sorted(have))
    kinds = {'revolute': JointType_REVOLUTE, 'prismatic': JointType_PRISMATIC}
    for nm, (kind, pa, ch, X, h, lim) in J.items():
        m.check(pre + nm in got, 'a joint is missing', joint=nm)
        j = got[pre + nm]
        m.seen('joints compared')
        m.check(j.type == kinds[kind], 'wrong joint kind', joint=nm)
        m.check(j.parent_link_name == pre + pa and j.child_link_name == pre + ch, 'wrong parent or child', joint=nm)
        m.close(j.parent_to_joint_origin_transform.matrix(), X, 1e-9*(1 + np.abs(X).max()), 'wrong joint origin', joint=nm)
        m.close(np.asarray(j.axis).flatten(), h, 1e-12, 'wrong joint axis', joint=nm)
        z = j.limits
        m.close([z.lower, z.upper, z.velocity, z.acceleration], lim, 0, 'wrong joint limits', joint=nm)
        m.check(z.effort > 0, 'no effort limit')
    by_child = {j.child_link_name: j for j in got.values()}
    for pa, ch, X in fixed:
        j = by_child[pre + ch]
        m.check(j.type == JointType_FIXED and j.parent_link_name == pre + pa, 'wrong fixed joint', link=ch)
        m.close(j.parent_to_joint_origin_transform.matrix(), X, 1e-11*(1 + np.abs(X).max()), 'wrong fixed origin', link=ch)
    return all_links, jn, links, tip


@C27.workload(2400)
def graph(m, rng, i):
    r = full_robot(rng)
    m.case('graph', robot=r)
    out = tess.robot_to_scene_graph(r, True)
    m.check(len(out) == 4, 'names are not returned')
    sg, ln, jn, cl = out
    have = [l.getName() for l in members(sg.getLinks())]
    joints = members(sg.getJoints())
    all_links, ejn, chain, tip = check_graph(m, joints, have, r)
    m.check(len(have) == len(all_links) and len(joints) == len(all_links) - 1, 'there is more in the graph than the robot')
    m.check(list(ln) == all_links and list(jn) == list(ejn) and list(cl) == chain, 'wrong names returned', links=ln, joints=jn, chain=cl)
    sg2 = tess.robot_to_scene_graph(r)
    check_graph(m, members(sg2.getJoints()), [l.getName() for l in members(sg2.getLinks())], r)


@C27.workload(1200)
def environment(m, rng, i):
    r = full_robot(rng)
    name = pick(rng, NAMES)
    m.case('environment', robot=r)
    env, ln, jn = tess.robot_to_tesseract_env(r, name, return_names=True)
    J, ejn, links, fixed, tip = expected_graph(r)
    want = ['%s_%s' % (name, l) for l in links + [f[1] for f in fixed]]
    m.check(list(ln) == ['world'] + want and list(jn) == ['%s_%s' % (name, x) for x in ejn], 'wrong names returned', links=ln, joints=jn)
    m.check(set(env.getLinkNames()) == set(ln), 'the environment has other links', have=list(env.getLinkNames()))
    joints = [env.getJoint(x) for x in env.getJointNames()]
    check_graph(m, joints, env.getLinkNames(), r, name + '_')
    m.check(len(joints) == len(want), 'the environment has other joints')
    kg = env.getKinematicGroup(name)
    m.check(list(kg.getJointNames()) == list(jn), 'the group has other joints', have=list(kg.getJointNames()))
    m.check(kg.getBaseLinkName() == 'world' and list(kg.getAllPossibleTipLinkNames()) == [ln[-1]], 'the group has another base or tip')
    lim = kg.getLimits()
    m.close(lim.joint_limits, np.array([r.joint_lower_limit, r.joint_upper_limit]).T, 0, 'the group has other limits')
    bj = [j for j in joints if j.child_link_name == name + '_base_link']
    m.check(len(bj) == 1 and bj[0].parent_link_name == 'world' and bj[0].type == JointType_FIXED, 'the robot does not hang on the world')
    X = np.eye(4) if r.T_base is None else ref.hom(r.T_base.R, r.T_base.p)
    m.close(bj[0].parent_to_joint_origin_transform.matrix(), X, 1e-11*(1 + np.abs(X).max()), 'the base is not where it should be')
    cmds, l2, j2 = tess.robot_to_tesseract_env_commands(r, name, include_world=False, return_names=True)
    m.check(list(l2) == want and list(j2) == list(jn), 'wrong names without the world', links=l2)
    c2 = tess.robot_to_tesseract_env_commands(r, name)
    e2 = Environment()
    m.check(e2.init(c2) and set(e2.getLinkNames()) == set(ln), 'the commands make another environment')
    # the solver configuration is valid and about this robot
    base, t = pick(rng, [('world', want[-1]), (None, None), ('world', None), (None, want[-1]), (name + '_base_link', want[len(links)])])
    solver = pick(rng, [None, 'KDLInvKinChainLMA', 'KDLInvKinChainNR'])
    a = (r, name, want, list(jn), ['%s_%s' % (name, x) for x in links], solver, None, base, t)
    d = yaml.safe_load(tess.kinematics_plugin_info_string(*a))
    m.check(d == tess.kinematics_plugin_info_dict(*a), 'the string and the dictionary differ', d=d)
    base, t = base or want[0], t or want[-1]
    m.check(d['kinematic_plugins']['inv_kin_plugins'][name]['default'] == (solver or 'KDLInvKinChainLMA'), 'another solver is the default')
    k = d['kinematic_plugins']
    for part in ('fwd_kin_plugins', 'inv_kin_plugins'):
        m.check(list(k[part]) == [name], 'the solvers are for another robot', got=list(k[part]))
        for z in k[part][name]['plugins'].values():
            m.check(z['config']['base_link'] == base and z['config']['tip_link'] == t, 'a solver has another base or tip', got=z)
        m.check(k[part][name]['default'] in k[part][name]['plugins'], 'the default solver does not exist')


@C27.workload(240)
def mobile_refused(m, rng, i):
    """kinds of joints that the environment does not have"""
    r = full_robot(rng)
    n = len(r.joint_type)
    r.joint_type = list(r.joint_type)
    r.joint_type[int(rng.integers(n))] = pick(rng, [2, 3, 4, 7])
    m.case('mobile', robot=r)
    m.seen('joint kind refused')
    for f in (lambda: tess.robot_to_scene_graph(r), lambda: tess.robot_to_tesseract_env(r, 'robot'), lambda: tess.TesseractRobot(r, 'robot')):
        try:
            f()
        except Exception:
            continue
        m.check(False, 'a joint of a kind unknown to the environment is taken', kinds=r.joint_type)


# ------------------------------------------------------------------------------------------------ C31
C31 = prop('C31', 'Random robots with joint windows from a fraction of a turn to several turns, revolute and prismatic; configurations inside, '
           'the full lattice of turns is enumerated independently. Distinct inputs counted.',
           need={"case:redundant": 200, 'lattice points': 1000, 'none': 10})


@C31.workload(4800)
def redundant(m, rng, i):
    n = int(pick(rng, [1, 2, 3, 4, 6, 7]))
    r = full_robot(rng, n=n)
    jt = [int(x) for x in r.joint_type]
    while True:
        lo, hi, tot = np.zeros(n), np.zeros(n), 1
        for j in range(n):
            w = pick(rng, [.5*PI, PI, 1.5*PI, 2*PI, 2.5*PI, 3.5*PI])
            c = pick(rng, [0.0, 0.0, rng.uniform(-2, 2)])
            lo[j], hi[j] = c - w, c + w
            if jt[j] == 0:
                tot *= int(2*w/(2*PI)) + 1
        if tot <= 400:
            break
    r.joint_lower_limit, r.joint_upper_limit = lo, hi
    while True:
        q = rng.uniform(lo, hi)
        if all(abs(float(ref.wrap(q[j]-lo[j]))) > 1e-4 and abs(float(ref.wrap(q[j]-hi[j]))) > 1e-4 for j in range(n)):
            break
    m.case('redundant', robot=r, q=q)
    tr = tess.TesseractRobot(r, 'robot')
    out = tr.redundant_solutions(q) if rng.random() < .5 else tess.redundant_solutions(tr.tesseract_env.getKinematicGroup('robot'), q)
    want = [z for z in ref.lattice(q, lo, hi, [t == 0 for t in jt]) if np.abs(z - q).max() > 1e-6]
    m.seen('lattice points', len(want))
    m.seen('none', int(not want))
    got = [np.asarray(z, dtype=float) for z in out]
    for z in got:
        m.check(z.shape == (n,) and any(np.abs(z - y).max() < 1e-6 for y in want), 'not an equivalent configuration inside the limits', q=z)
    for z in want:
        m.check(any(np.abs(z - y).max() < 1e-6 for y in got), 'an equivalent configuration inside the limits is missing', missing=z, got=got)
    m.check(len(got) == len(want), 'an equivalent configuration is returned twice')


# ------------------------------------------------------------------------------------------------ C26
C26 = prop('C26', 'Random OPW arms (axis signs, offsets, all three home positions) and UR arms (both orientations, offsets) with tool, and base where '
           'the solver allows it, solved by OPWInvKin and URInvKin; random robots of 3-8 joints solved by both KDL solvers from near seeds. Every answer '
           'is put through the reference kinematics, also for the flange, in the frame of the base and in moving frames; the configuration the pose was made from must be among the answers away from '
           'singularities. Robots a solver cannot represent must be refused. Distinct (robot, joints) counted.',
           need={'case:OPWInvKin': 100, 'case:URInvKin': 100, 'case:KDLInvKinChainLMA': 50, 'case:KDLInvKinChainNR': 50, 'answers checked': 1500,
                 'own configuration': 200, 'far away': 20, 'case:refused': 100, 'other frames and tips': 200, 'moving frame refused': 50, 'parts solved': 200, 'second robot': 100})


def opw_robot(rng):
    wr, bend = pick(rng, [('x', 2), ('x', 3), ('z', 0), ('x', 9), ('z', 9)])
    s = rng.choice([-1., 1], 6) if rng.random() < .7 else np.ones(6)
    w = ex if wr == 'x' else ez
    H = np.array([s[0]*ez, s[1]*ey, s[2]*ey, s[3]*w, s[4]*ey, s[5]*w]).T
    c = rng.uniform(.3, 1, 8)
    off = lambda: pick(rng, [0, 1])*rng.uniform(-.2, .2)
    P = np.zeros((3, 7))
    P[:, 0] = c[0]*ez
    P[:, 1] = [off(), off(), off()]
    t = pick(rng, [5, 6])
    if bend == 9:        # links in any direction of the plane of the arm
        a, b = rng.uniform(-PI, PI, 2) if rng.random() < .6 else rng.integers(-4, 5, 2)*PI/4
        P[:, 2] = c[1]*(math.cos(a)*ex + math.sin(a)*ez) + off()*ey
        P[:, 3] = c[2]*(math.cos(b)*ex + math.sin(b)*ez) + off()*ey
        if rng.random() < .4:
            P[:, 4] = .2*w
        if np.hypot(P[0, 3] + P[0, 4], P[2, 3] + P[2, 4]) < .15:
            P[:, 4] = 0
        P[:, t] = pick(rng, [-1, 1])*rng.uniform(.05, .2)*w
    elif wr == 'x' and bend == 2:
        P[:, 2] = c[1]*ex + off()*ey
        P[:, 3] = c[2]*ex + off()*ez + off()*ey
        if rng.random() < .4:
            P[:, 4] = .2*ex
        P[:, t] = rng.uniform(.05, .2)*ex
    elif wr == 'x':
        P[:, 2] = c[1]*ez + off()*ey
        P[:, 3] = off()*ez + (c[2]*ex if rng.random() < .5 else 0) + off()*ey
        P[:, 4] = c[3]*ex
        P[:, t] = rng.uniform(.05, .2)*ex
    else:
        P[:, 2] = c[1]*ez + off()*ey + off()*ex
        P[:, 3] = c[2]*ez + off()*ex + off()*ey
        if rng.random() < .4:
            P[:, 4] = .2*ez
        P[:, t] = rng.uniform(.05, .2)*ez
    P = np.round(P, 6) if rng.random() < .7 else P
    kw = {}
    if rng.random() < .3:
        kw.update(R_tool=gen.R(rng), p_tool=rng.uniform(-.5, .5, 3))
    if rng.random() < .3:
        kw.update(T_base=rox.Transform(gen.R(rng), rng.uniform(-2, 2, 3)))
    lo, hi = six_limits(rng)
    return whole(rng, rox.Robot(H, P, [0]*6, lo, hi, np.ones(6), np.ones(6),
                                T_flange=rox.Transform(ref.rot(ey, PI/2) if wr == 'x' else np.eye(3), np.zeros(3)), **kw))


def six_limits(rng):
    if rng.random() < .6:
        return -2*PI*np.ones(6), 2*PI*np.ones(6)
    lo, hi = np.zeros(6), np.zeros(6)
    for j in range(6):
        c = pick(rng, [0, 0, rng.uniform(-1, 1)])
        w = pick(rng, [PI, .7*PI, 1.4*PI, 2*PI])
        lo[j], hi[j] = max(c - w, -2*PI), min(c + w, 2*PI)
    return lo, hi


def ur_robot(rng):
    c = rng.uniform(.1, .6, 8)
    H = np.array([ez, -ey, -ey, -ey, -ez, -ey]).T
    P = np.zeros((3, 7))
    P[2, 0], P[0, 2], P[0, 3], P[2, 4] = c[0], -c[1], -c[2], -c[4]
    P[1, 3] = -c[3]
    if rng.random() < .3:
        P[1, 1:4] = rng.uniform(-.2, .2, 3)
    if rng.random() < .3:
        P[1, 4] = .05
    if rng.random() < .3:
        P[1, 5], P[1, 6] = -c[5]*.4, -c[5]*.6
    else:
        P[1, pick(rng, [5, 6])] = -c[5]
    Rf = np.array([ex, ez, -ey]).T
    base = rox.Transform(ref.rot(ez, PI), np.zeros(3))
    if rng.random() < .4:
        R = ref.rot(ez, PI)
        H, P, Rf = R @ H, R @ P, R @ Rf
        base = pick(rng, [None, rox.Transform(np.eye(3), np.zeros(3))])
    kw = {}
    if rng.random() < .3:
        kw.update(R_tool=gen.R(rng), p_tool=rng.uniform(-.5, .5, 3))
    lo, hi = six_limits(rng)
    return whole(rng, rox.Robot(H, P, [0]*6, lo, hi, np.ones(6), np.ones(6), T_flange=rox.Transform(Rf, np.zeros(3)), T_base=base, **kw))


def sound(m, r, T, sols, ta, tp):
    lo, hi = np.asarray(r.joint_lower_limit), np.asarray(r.joint_upper_limit)
    m.check(isinstance(sols, list), 'the answers are not a list')
    for x in sols:
        x = np.asarray(x, dtype=float)
        m.check(x.shape == lo.shape and np.isfinite(x).all(), 'an answer is not one finite angle per joint', q=x)
        X = ref.robot_fk(r, x)
        k = 1 if ta > 1e-4 or np.linalg.svd(ref.robot_jac(bare(r), x), compute_uv=False)[-1] > .01 else 100     # Tesseract's solvers round near a singularity
        m.check(ref.angle_between(X[0:3, 0:3], T.R) <= k*ta, 'an answer does not reach the orientation', q=x)
        m.close(X[0:3, 3], T.p, k*tp*scale(r), 'an answer does not reach the position', q=x)
        m.check(((x >= lo - 1e-6) & (x <= hi + 1e-6)).all(), 'an answer is outside the joint limits', q=x)
        m.seen('answers checked')


@C26.workload(4800)
def closed_form(m, rng, i):
    solver = 'OPWInvKin' if i % 2 else 'URInvKin'
    r = opw_robot(rng) if i % 2 else ur_robot(rng)
    lo, hi = r.joint_lower_limit, r.joint_upper_limit
    name = pick(rng, NAMES)
    tr = tess.TesseractRobot(r, name, invkin_solver=solver)
    m.case(solver, robot=r, i=i)
    for _ in range(3):
        q = rng.uniform(lo + .02, hi - .02)
        X = ref.robot_fk(r, q)
        T = rox.Transform(X[0:3, 0:3], X[0:3, 3])
        close_pose(m, tr.fwdkin(q), X, 1e-7, scale(r), 'the pose of the tool is wrong')
        sols = tr.invkin(T, np.zeros(6) if rng.random() < .5 else rng.uniform(lo, hi))
        sound(m, r, T, sols, 1e-5, 1e-6)
        if np.linalg.svd(ref.robot_jac(bare(r), q), compute_uv=False)[-1] > .03:
            m.seen('own configuration')
            m.check(any(np.abs(ref.wrap(np.asarray(x) - q)).max() < 1e-3 for x in sols), 'the configuration the pose was made from is missing', q=q, sols=sols)
    # another working frame
    B = np.eye(4) if r.T_base is None else ref.hom(r.T_base.R, r.T_base.p)
    Y = ref.invhom(B) @ X
    s2 = tr.invkin(rox.Transform(Y[0:3, 0:3], Y[0:3, 3]), np.zeros(6), base_link_name=name + '_base_link')
    sound(m, r, T, s2, 1e-5, 1e-6)
    m.check(bool(s2) == bool(sols) or np.linalg.svd(ref.robot_jac(bare(r), q), compute_uv=False)[-1] < .03, 'no answer in the frame of the base')
    other_frames(m, rng, tr, r, q, name, ['flange'] if r.R_tool is not None else [], bool(sols))
    far = rox.Transform(T.R, T.p + gen.unit(rng)*(20 + 2*np.abs(r.P).sum()))
    m.seen('far away')
    m.check(len(tr.invkin(far, np.zeros(6))) == 0, 'a pose out of reach has answers')


def other_frames(m, rng, tr, r, q, name, tips, solvable):
    """the pose of another link, or in another frame: answered right or refused"""
    X = frames_of(r, q)
    last = list(X)[-1]
    for tip in tips + [last]:
        base = pick(rng, ['world', 'base_link'] + list(X) if tip == last else ['world', 'base_link'])
        Y = X[tip] if base == 'world' else ref.invhom(X[base]) @ X[tip]
        if np.abs(Y - np.eye(4)).max() < 1e-6:
            continue
        b = base if base == 'world' else name + '_' + base
        try:
            sols = tr.invkin(rox.Transform(Y[0:3, 0:3], Y[0:3, 3]), q + rng.uniform(-.01, .01, len(q)), b, name + '_' + tip)
        except Exception:
            m.check(base not in ('world', 'base_link'), 'a pose in a resting frame is refused', base=base, tip=tip)
            m.seen('moving frame refused')
            continue
        if base in ('world', 'base_link'):
            m.seen('other frames and tips')
            m.check(bool(sols) or not solvable, 'no answer for another frame or tip link', base=base, tip=tip)
        for x in sols:
            Z = frames_of(r, np.asarray(x, dtype=float))
            Z = Z[tip] if base == 'world' else ref.invhom(Z[base]) @ Z[tip]
            m.check(ref.angle_between(Y[0:3, 0:3], Z[0:3, 0:3]) < 5e-3, 'an answer does not place the link asked for in the frame asked for (orientation)', base=base, tip=tip, q=x)
            m.close(Y[0:3, 3], Z[0:3, 3], 1e-3*scale(r), 'an answer does not place the link asked for in the frame asked for (position)', base=base, tip=tip, q=x)


def bare(r):
    """the arm up to the wrist flange, in the units of its own size"""
    return rox.Robot(r.H, r.P, r.joint_type)


@C26.workload(2400)
def iterative(m, rng, i):
    solver = ['KDLInvKinChainLMA', 'KDLInvKinChainNR'][i % 2]
    r = full_robot(rng, n=int(rng.integers(3, 9)))
    lo, hi = np.asarray(r.joint_lower_limit), np.asarray(r.joint_upper_limit)
    q = rng.uniform(lo + .05, hi - .05)
    n = len(q)
    sv = np.linalg.svd(ref.robot_jac(r, q), compute_uv=False)
    m.case(solver, robot=r, q=q)
    tr = tess.TesseractRobot(r, 'robot', invkin_solver=solver)
    X = ref.robot_fk(r, q)
    T = rox.Transform(X[0:3, 0:3], X[0:3, 3])
    seed = q + rng.uniform(-1, 1, n)*pick(rng, [0, .001, .01])
    sols = tr.invkin(T, seed)
    sound(m, r, T, sols, 5e-3, 1e-3)
    regular = sv[min(n, 6)-1] > .15 and sv[0] < 50
    if regular:
        m.seen('own configuration')
        m.check(len(sols) > 0, 'no answer from a seed next to a regular configuration', q=q, seed=seed)
    other_frames(m, rng, tr, r, q, 'robot', [], regular)
    far = rox.Transform(T.R, T.p + gen.unit(rng)*(100 + 4*scale(r)))
    if rng.random() < .1:
        m.seen('far away')
        m.check(len(tr.invkin(far, seed)) == 0, 'a pose out of reach has answers')


@C26.workload(1200)
def parts_solved(m, rng, i):
    """environments put together from the parts, and more than one robot in an environment"""
    solver = ['OPWInvKin', 'URInvKin', 'KDLInvKinChainLMA', 'KDLInvKinChainNR'][i % 4]
    r = opw_robot(rng) if i % 4 == 0 else ur_robot(rng) if i % 4 == 1 else full_robot(rng, n=int(rng.integers(3, 9)))
    name = pick(rng, NAMES)
    base = pick(rng, ['default', 'world', 'base_link'])
    override = bool(rng.random() < .4)
    lo, hi = np.asarray(r.joint_lower_limit), np.asarray(r.joint_upper_limit)
    q = rng.uniform(lo + .03, hi - .03)
    m.case('parts', robot=r, solver=solver, base=base, override=override, q=q)
    env = hand_made(rng, r, name, solver, base, override)
    m.check(env is not None, 'the parts do not make an environment')
    if rng.random() < .4:
        m.seen('second robot')
        m.check(env.applyCommands(tess.robot_to_tesseract_env_commands(full_robot(rng), 'other', include_world=False)), 'a second robot cannot be added')
    tr = tess.TesseractRobot(robot_name=name, tesseract_env=env)
    X = ref.robot_fk(r, q)
    T = rox.Transform(X[0:3, 0:3], X[0:3, 3])
    numeric = i % 4 > 1
    seed = q + rng.uniform(-.01, .01, len(q)) if numeric else rng.uniform(lo, hi)
    sv = np.linalg.svd(ref.robot_jac(r if numeric else bare(r), q), compute_uv=False)
    for frame in ('world', name + '_base_link'):
        Y = X if frame == 'world' else ref.invhom(frames_of(r, q)['base_link']) @ X
        sols = tr.invkin(rox.Transform(Y[0:3, 0:3], Y[0:3, 3]), seed, frame)
        sound(m, r, T, sols, 5e-3, 1e-3)
        if sv[min(len(q), 6)-1] > (.15 if numeric else .03) and sv[0] < 50:
            m.seen('parts solved')
            m.check(len(sols) > 0, 'no answer', frame=frame)


BAD = ['opw axis', 'opw flange', 'opw no flange', 'opw flange offset', 'opw base offset', 'opw wrist offset', 'opw joints', 'opw wrist axes', 'opw prismatic', 'ur prismatic',
       'ur axis', 'ur sign', 'ur flange', 'ur base', 'ur base offset', 'ur no flange', 'ur elbow height', 'ur wrist x', 'ur shoulder x', 'solver',
       'opw tilted', 'ur tilted', 'ur joints', 'ur flange offset', 'opw forearm axis', 'opw bending axis', 'ur wrist z', 'nothing', 'twice']


@C26.workload(3000)
def refused(m, rng, i):
    """a robot that the closed-form solver cannot represent is not solved wrongly"""
    f = BAD[i % len(BAD)]
    r = opw_robot(rng) if f.startswith('opw') else ur_robot(rng)
    solver = 'OPWInvKin' if f.startswith('opw') else 'URInvKin'
    r.H, r.P = r.H.copy(), r.P.copy()
    d = pick(rng, [-1, 1])*rng.uniform(.02, .3)
    if f == 'opw axis':
        j = int(rng.integers(0, 3))
        r.H[:, j] = pick(rng, [ex, -ex]) if j else ey
    elif f == 'opw wrist axes':
        r.H[:, 5] = pick(rng, [ey, -ey])
        if rng.random() < .5:
            r.H[:, 3] = pick(rng, [ey, -ey])
    elif f == 'opw forearm axis':
        r.H[:, 3] = ez if abs(r.H[0, 5]) > .5 else ex
    elif f == 'opw bending axis':
        r.H[:, 4] = pick(rng, [ex, ez])
    elif f in ('opw tilted', 'ur tilted'):
        j = [int(rng.integers(6))] if rng.random() < .7 else pick(rng, [[3, 5], [1, 2]])
        r.H[:, j] = ref.rot(pick(rng, [ex, ey, ez, gen.axis(rng)]), 10.0**rng.uniform(-2, -.3)) @ r.H[:, j]
    elif f in ('opw prismatic', 'ur prismatic'):
        r.joint_type = [0]*6
        r.joint_type[int(rng.integers(6))] = 1
    elif f == 'opw flange':
        r.T_flange = rox.Transform(r.T_flange.R @ ref.rot(gen.axis(rng), pick(rng, [.1, 1, PI])), np.zeros(3))
    elif f in ('opw no flange', 'ur no flange'):
        r.T_flange = None
    elif f in ('opw flange offset', 'ur flange offset'):
        r.T_flange = rox.Transform(r.T_flange.R, d*gen.unit(rng))
    elif f == 'opw base offset':
        r.P[int(rng.integers(2)), 0] += d
    elif f == 'opw wrist offset':
        j = pick(rng, [4, 5, 6])
        r.P[1 if rng.random() < .5 else 2 if abs(r.H[0, 5]) > .5 else 0, j] += d
    elif f in ('opw joints', 'ur joints'):
        r = rox.Robot(r.H[:, :5], r.P[:, :6], [0]*5, -np.ones(5), np.ones(5), np.ones(5), np.ones(5), T_flange=r.T_flange)
    elif f == 'ur axis':
        r.H[:, int(rng.integers(6))] = ex
    elif f == 'ur sign':
        r.H[:, int(rng.integers(6))] *= -1
    elif f == 'ur flange':
        r.T_flange = rox.Transform(r.T_flange.R @ ref.rot(gen.axis(rng), pick(rng, [.1, 1, PI])), np.zeros(3))
    elif f == 'ur base':
        R = np.eye(3) if r.T_base is None else r.T_base.R
        r.T_base = rox.Transform(ref.rot(gen.axis(rng), pick(rng, [.1, 1, PI])) @ R, np.zeros(3))
    elif f == 'ur base offset':
        R = np.eye(3) if r.T_base is None else r.T_base.R
        r.T_base = rox.Transform(R, d*gen.unit(rng))
    elif f == 'ur elbow height':
        r.P[2, pick(rng, [1, 2, 3])] += d
    elif f == 'ur wrist x':
        r.P[0, pick(rng, [4, 5, 6])] += d
    elif f == 'ur wrist z':
        r.P[2, pick(rng, [5, 6])] += d
    elif f == 'ur shoulder x':
        r.P[0, pick(rng, [0, 1])] += d
    elif f == 'solver':
        solver = pick(rng, ['KDL', 'opwinvkin', '', 'IKFast'])
    m.case('refused', fault=f, robot=r)
    if f in ('nothing', 'twice'):
        m.seen('refused: ' + f)
        env = None if f == 'nothing' else tess.robot_to_tesseract_env(r, 'robot')
        m.raises(lambda: tess.TesseractRobot(None if env is None else r, 'robot', tesseract_env=env), 'neither or both of a robot and an environment are accepted')
        return
    try:
        tr = tess.TesseractRobot(r, 'robot', invkin_solver=solver)
    except Exception:
        m.seen('refused: ' + f)
        return
    m.check(f not in ('solver', 'opw joints', 'ur joints'), 'accepted: ' + f)
    # accepted, so it has to be right
    m.seen('accepted: ' + f)
    q = rng.uniform(-2, 2, 6)
    X = ref.robot_fk(r, q)
    sols = tr.invkin(rox.Transform(X[0:3, 0:3], X[0:3, 3]), np.zeros(6))
    for x in sols:
        Y = ref.robot_fk(r, x)
        m.check(ref.angle_between(X[0:3, 0:3], Y[0:3, 0:3]) < 1e-3, 'a robot the solver cannot represent is solved wrongly (%s, orientation)' % f, q=q, found=x)
        m.close(X[0:3, 3], Y[0:3, 3], 1e-3, 'a robot the solver cannot represent is solved wrongly (%s, position)' % f, q=q, found=x)
