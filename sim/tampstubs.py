"""Stand-ins for the parts of pybullet, pybullet_tools and pddlstream that the robot experiments' motion planners use:
plain geometry, a robot that is a free-flying gripper, and bodies that are boxes.  Anything else is a gap.
"""
import math
import types
from collections import namedtuple
from itertools import product

import numpy as np

from .core import StubGap
from .seams import cur

AABB = namedtuple('AABB', ['lower', 'upper'])
OOBB = namedtuple('OOBB', ['aabb', 'pose'])
Output = namedtuple('Output', ['outputs'])
GraspInfo = namedtuple('GraspInfo', ['get_grasps', 'approach_pose'])


# ------------------------------------------------------------------------------------------------ poses (quaternions x, y, z, w)
def Point(x=0.0, y=0.0, z=0.0):
    return np.array([x, y, z], float)


def Euler(roll=0.0, pitch=0.0, yaw=0.0):
    return np.array([roll, pitch, yaw], float)


def quat_from_euler(e):
    r, p, y = (float(v) / 2 for v in e)
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return (sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy)


def euler_from_quat(q):
    x, y, z, w = q
    s = max(-1.0, min(1.0, 2 * (w * y - z * x)))
    return (math.atan2(2 * (w * x + y * z), 1 - 2 * (x * x + y * y)), math.asin(s), math.atan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z)))


def matrix_from_quat(q):
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def Pose(point=None, euler=None):
    return (np.array(point if point is not None else Point(), float), quat_from_euler(euler if euler is not None else Euler()))


def unit_pose():
    return Pose()


def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return (aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw,
            aw * bw - ax * bx - ay * by - az * bz)


def multiply(*poses):
    out = poses[0]
    for p in poses[1:]:
        out = (np.array(out[0]) + matrix_from_quat(out[1]) @ np.array(p[0]), qmul(out[1], p[1]))
    return out


def invert(pose):
    q = (-pose[1][0], -pose[1][1], -pose[1][2], pose[1][3])
    return (-(matrix_from_quat(q) @ np.array(pose[0])), q)


def slerp(a, b, t):
    a, b = np.array(a, float), np.array(b, float)
    d = float(a @ b)
    if d < 0:
        b, d = -b, -d
    if d > 1 - 1e-12:
        v = a + t * (b - a)
    else:
        th = math.acos(d)
        v = (math.sin((1 - t) * th) * a + math.sin(t * th) * b) / math.sin(th)
    return tuple(v / np.linalg.norm(v))


def interpolate_poses(pose1, pose2, num_steps=2, **k):
    if k:
        raise StubGap('interpolate_poses %s' % sorted(k))
    for i in range(num_steps):
        f = float(i) / num_steps
        yield ((1 - f) * np.array(pose1[0]) + f * np.array(pose2[0]), slerp(pose1[1], pose2[1], f))
    yield pose2


# ------------------------------------------------------------------------------------------------ bodies
class Body(int):
    """A box with a pose; an integer like pybullet's bodies."""
    radius = None           # of an upright cylinder
    links = ()              # (half extents, pose in the body's frame) of a body made of boxes

    def __new__(cls, index, center, extent, yaw=0.0, name=None):
        self = int.__new__(cls, index)
        self.extent, self.name = np.array(extent, float), name
        self.pose = Pose(center, Euler(yaw=yaw))
        self.q = tuple(center[:2]) + (yaw,)
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Gripper(Body):
    """A free-flying gripper: its configuration is its pose."""
    q = (0.0,) * 6


class Conf:
    def __init__(self, values, joints=(0, 1, 2), body=None):
        self.values, self.joints, self.body = tuple(values), tuple(joints), body

    def assign(self):
        set_joint_positions(self.body, self.joints, self.values)


class Trajectory:
    def __init__(self, path):
        self.path = list(path)

    def apply(self, state, sample=1):
        for conf in self.path[::sample]:
            conf.assign()
            yield


def oobb_at(extent, pose):
    h = np.array(extent) / 2.0
    return OOBB(AABB(-h, h), pose)


def get_oobb(body):
    return oobb_at(body.extent, body.pose)


def boxes_of(body, link=None):
    """The oriented boxes a body consists of: [(half extents, pose)]"""
    if not body.links:
        return [(body.extent / 2, body.pose)]
    ls = body.links if link is None or link < 0 else [body.links[link]]
    return [(np.array(h, float), multiply(body.pose, pose)) for h, pose in ls]


def get_aabb(body, link=None, **k):
    v = np.array([x for h, pose in boxes_of(body, link) for x in get_oobb_vertices(OOBB(AABB(-h, h), pose))])
    return AABB(v.min(axis=0), v.max(axis=0))


def get_aabb_extent(aabb):
    return np.array(aabb[1]) - np.array(aabb[0])


def get_aabb_center(aabb):
    return (np.array(aabb[1]) + np.array(aabb[0])) / 2


def aabb_from_extent_center(extent, center=None):
    center = np.zeros(len(extent)) if center is None else np.array(center)
    h = np.array(extent) / 2.0
    return AABB(center - h, center + h)


def get_aabb_vertices(aabb):
    return [tuple(aabb[i[k]][k] for k in range(len(aabb[0]))) for i in product(range(len(aabb)), repeat=len(aabb[0]))]


def get_oobb_vertices(oobb):
    R, t = matrix_from_quat(oobb.pose[1]), np.array(oobb.pose[0])
    return [tuple(float(x) for x in R @ np.array(v) + t) for v in get_aabb_vertices(oobb.aabb)]


def get_box_geometry(width, length, height):
    return {'shapeType': 'box', 'halfExtents': [width / 2.0, length / 2.0, height / 2.0]}


def create_trajectory(robot, joints, path):
    return Trajectory([Conf(q, joints, robot) for q in path])


def joints_from_names(robot, names):
    return list(range(len(names)))


def get_pose(body):
    return body.pose


def set_pose(body, pose):
    body.pose = (np.array(pose[0], float), tuple(pose[1]))


# ------------------------------------------------------------------------------------------------ the gripper
def get_movable_joints(robot):
    return list(range(6))


def get_sample_fn(robot, joints, **k):
    return lambda: (0.0,) * 6


def set_joint_positions(robot, joints, q):
    if isinstance(robot, Gripper):
        robot.q = tuple(float(v) for v in q)[:6]
        robot.pose = Pose(q[:3], q[3:6])
        return
    now = list(robot.q)
    for j, v in zip(joints, q):
        now[j] = float(v)
    robot.q = tuple(now)
    robot.pose = Pose((now[0], now[1], robot.pose[0][2]), Euler(yaw=now[2]))


def get_joint_positions(robot, joints):
    return tuple(robot.q[j] for j in joints)


def inverse_kinematics(robot, link, pose, **k):
    no = getattr(cur(), 'unreachable', None)
    if no is not None and no():
        return None
    no = getattr(cur(), 'unreachable_pose', None)
    if no is not None and no(pose):
        return None
    return tuple(float(v) for v in pose[0]) + tuple(euler_from_quat(pose[1]))


def end_effector_from_body(body_pose, grasp_pose):
    return multiply(body_pose, invert(grasp_pose))


def approach_from_grasp(approach_pose, end_effector_pose):
    return multiply(approach_pose, end_effector_pose)


def _apart(ha, pa, hb, pb, grow):
    """Do two oriented boxes lie apart (by more than grow along some axis)?"""
    A, B = matrix_from_quat(pa[1]), matrix_from_quat(pb[1])
    d = np.array(pb[0]) - np.array(pa[0])
    axes = [A[:, i] for i in range(3)] + [B[:, i] for i in range(3)]
    for i in range(3):
        for j in range(3):
            x = np.cross(A[:, i], B[:, j])
            n = np.linalg.norm(x)
            if n > 1e-7:
                axes.append(x / n)
    return any(abs(d @ x) - abs(A.T @ x) @ ha - abs(B.T @ x) @ hb > grow for x in axes)


def pairwise_collision(a, b, max_distance=0.0, **k):
    if isinstance(a, Gripper) or isinstance(b, Gripper):
        return False
    if b.radius is not None and a.radius is None:
        a, b = b, a
    if a.radius is not None:
        if abs(a.pose[0][2] - b.pose[0][2]) > a.extent[2] / 2 + b.extent[2] / 2 + max_distance:
            return False
        if b.radius is not None:
            return float(np.hypot(*(np.array(a.pose[0]) - np.array(b.pose[0]))[:2])) <= a.radius + b.radius + max_distance
        rel = matrix_from_quat(b.pose[1]).T @ (np.array(a.pose[0]) - np.array(b.pose[0]))
        return float(np.linalg.norm(np.maximum(abs(rel[:2]) - b.extent[:2] / 2, 0))) <= a.radius + max_distance
    return any(not _apart(ha, pa, hb, pb, max_distance) for ha, pa in boxes_of(a) for hb, pb in boxes_of(b))


# ------------------------------------------------------------------------------------------------ building a world
TURTLEBOT, IIWA, STOVE = 'models/turtlebot/turtlebot_holonomic.urdf', 'models/drake/iiwa.urdf', 'models/stove.urdf'


def _new(cls, extent, pose=None):
    p = cur()
    b = cls(len(p.bodies) + 1 + p.removed, (0, 0, 0), extent)
    if pose is not None:
        set_pose(b, pose)
    p.bodies.append(b)
    return b


def create_box(w, l, h, **k):
    return _new(Body, (w, l, h))


def create_cylinder(radius, height, **k):
    b = _new(Body, (2 * radius, 2 * radius, height))
    b.radius = float(radius)
    return b


def load_model(path, pose=None, fixed_base=True, scale=1.0, **k):
    p = cur()
    p.world.sleep(p, 2.0 + p.world.entropy(p, 1)[0] / 16.0)         # models take a while to load
    name = str(path)
    if 'turtlebot' in name:
        b = _new(Body, (2 * 0.179 * scale, 2 * 0.179 * scale, 0.42 * scale), pose)
    elif 'iiwa' in name:
        b = _new(Gripper, (0, 0, 0))
        b.q = (0.0,) * 6
    elif 'stove' in name:
        b = _new(Body, (0.6, 0.8, 0.02), pose)
    elif 'floor' in name:
        b = _new(Body, (1.5, 1.5, 0.01), Pose((0, 0, -0.6)))
    else:
        raise StubGap('model %s' % name)
    b.name = name
    return b


def create_multi_body(linkPositions=(), linkOrientations=(), linkCollisionShapeIndices=(), basePosition=(0, 0, 0), **k):
    b = _new(Body, (0, 0, 0))
    b.links = [(tuple(h), (np.array(x, float), tuple(q))) for h, x, q in zip(linkCollisionShapeIndices, linkPositions, linkOrientations)]
    b.pose = Pose(basePosition)
    return b


def create_collision_shape(kind, halfExtents=None, **k):
    if kind != 3 or halfExtents is None:
        raise StubGap('collision shape %s' % kind)
    return tuple(float(x) for x in halfExtents)


def get_bodies():
    return list(cur().bodies)


def remove_body(body):
    p = cur()
    p.bodies = [b for b in p.bodies if b is not body]
    p.removed += 1


def get_point(body, **k):
    return np.array(body.pose[0], float)


def set_point(body, point):
    body.pose = (np.array(point, float), body.pose[1])


def get_center_extent(body, **k):
    lo, hi = get_aabb(body)
    return (lo + hi) / 2, hi - lo


def aabb_empty(aabb):
    return bool(np.less(aabb[1], aabb[0]).any())


def sample_aabb(aabb):
    return np.random.uniform(aabb[0], aabb[1])


def stable_z(body, surface, **k):
    return get_aabb(surface)[1][2] + (get_point(body) - get_aabb(body)[0])[2]


def sample_placement(body, surface, bottom_link=None, theta=None, scale=1.0, epsilon=1e-3, **k):
    if k:
        raise StubGap('sample_placement %s' % sorted(k))
    lo, hi = get_aabb(surface, link=bottom_link)
    theta = np.random.uniform(-np.pi, np.pi) if theta is None else theta
    rot = Euler(yaw=theta)
    set_pose(body, Pose(euler=rot))
    c, e = get_center_extent(body)
    a, b = (lo + e / 2)[:2], (hi - e / 2)[:2]
    if (b < a).any():
        return None
    mid = (a + b) / 2
    x, y = mid + scale * (np.random.uniform(a, b) - mid)
    pose = Pose(np.array([x, y, hi[2] + e[2] / 2 + epsilon]) + (get_point(body) - c), rot)
    set_pose(body, pose)
    return pose


def is_placement(body, surface, above=5e-3, below=2e-2, **k):
    lo, hi = get_aabb(body)
    slo, shi = get_aabb(surface)
    return bool((slo[:2] <= lo[:2]).all() and (hi[:2] <= shi[:2]).all() and -below <= lo[2] - shi[2] <= above)


def approximate_as_prism(body, body_pose=None, **k):
    return np.zeros(3), tuple(body.extent)


class _Quiet:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def restore(self):
        pass


class WorldSaver:
    """Remembers where everything is."""

    def __init__(self, bodies=None):
        self.where = [(b, b.pose, b.q) for b in cur().bodies]

    def restore(self):
        for b, pose, q in self.where:
            b.pose, b.q = pose, q

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.restore()
        return False


# ------------------------------------------------------------------------------------------------ motions and their execution
def connect(use_gui=False, **k):
    cur().gui = bool(use_gui)
    return 0


def has_gui(*a):
    return getattr(cur(), 'gui', False)


def plan_joint_motion(body, joints, end_conf, obstacles=(), attachments=(), self_collisions=True, custom_limits=None, **k):
    """A path from where the robot is: through chosen places, or none."""
    p = cur()
    if getattr(p, 'motion', None) is None:
        raise StubGap('plan_joint_motion')
    start = get_joint_positions(body, joints)
    vias = p.motion(body, start, tuple(float(x) for x in end_conf), list(obstacles), list(attachments))
    return None if vias is None else [start] + vias + [tuple(float(x) for x in end_conf)]


def plan_direct_joint_motion(*a, **k):
    return plan_joint_motion(*a, **k)


def get_refine_fn(body, joints, num_steps=0):
    n = num_steps + 1

    def fn(q1, q2):
        for i in range(n):
            f = (i + 1) / n
            yield tuple((1 - f) * np.array(q1, float) + f * np.array(q2, float)) if f < 1 else tuple(q2)
    return fn


def refine_path(body, joints, waypoints, num_steps):
    fn = get_refine_fn(body, joints, num_steps)
    ws = list(waypoints)
    return [q for a, b in zip(ws, ws[1:]) for q in fn(a, b)]


def wait_for_duration(duration, dt=0):
    p = cur()
    p.world.sleep(p, max(float(duration), 0.0))
    snap = getattr(p, 'snap', None)
    if snap is not None:
        snap()


def wait_if_gui(*a, **k):
    return None


def create_attachment(parent, parent_link, child):
    return Attachment(parent, parent_link, multiply(invert(parent.pose), child.pose), child)


class Refused(ValueError):
    """The simulated world cannot do what it was asked for."""


class State:
    def __init__(self, attachments=None, **k):
        self.attachments = dict(attachments or {})

    def assign(self):
        for a in self.attachments.values():
            a.assign()


class Attach:
    def __init__(self, robot, arm, grasp, body):
        self.robot, self.arm, self.grasp, self.body = robot, arm, grasp, body

    def apply(self, state, **k):
        if self.body in state.attachments:
            raise Refused('attached twice')
        state.attachments[self.body] = create_attachment(self.robot, self.arm, self.body)
        yield


class Detach:
    def __init__(self, robot, arm, body):
        self.robot, self.arm, self.body = robot, arm, body

    def apply(self, state, **k):
        if self.body not in state.attachments:
            raise Refused('not attached')
        del state.attachments[self.body]
        yield


def apply_commands(state, commands, time_step=None, pause=False, **k):
    for command in commands:
        for j, _ in enumerate(command.apply(state, **k)):
            state.assign()
            if j == 0:
                continue
            wait_for_duration(1e-2 if time_step is None else time_step)


# ------------------------------------------------------------------------------------------------ the planning language
PDDLProblem = namedtuple('PDDLProblem', ['domain_pddl', 'constant_map', 'stream_pddl', 'stream_map', 'init', 'goal'])


def create_parser(default_algorithm='adaptive'):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('-a', '--algorithm', type=str, default=default_algorithm)
    parser.add_argument('-u', '--unit', action='store_true')
    return parser


def read(path):
    with open(path, 'r') as f:
        return f.read()


def get_file_path(file, rel):
    import os
    return os.path.join(os.path.dirname(os.path.abspath(file)), rel)


def solve(problem, **k):
    return cur().solver(problem, k)


def print_solution(solution):
    plan, cost, evaluations = solution
    print()
    print('Solved: {}'.format(plan is not None))
    print('Cost: {:.3f}'.format(cost))
    print('Length: {}'.format(len(plan) if plan is not None else float('inf')))
    for i, a in enumerate(plan or []):
        print('{:2}) {}'.format(i + 1, a[0]))


class Attachment:
    def __init__(self, parent, parent_link, grasp_pose, child):
        self.parent, self.grasp_pose, self.child = parent, grasp_pose, child

    def assign(self):
        set_pose(self.child, multiply(self.parent.pose, self.grasp_pose))


def _gap(name):
    def f(*a, **k):
        raise StubGap('robot stand-in: %s' % name)
    f.__name__ = str(name)
    return f


def build_modules():
    mods = {}

    def mod(name, pkg=False, **attrs):
        m = types.ModuleType(name)
        if pkg:
            m.__path__ = []
        for k, v in attrs.items():
            setattr(m, k, v)

        def missing(attr, _n=name):
            if attr.startswith('__'):
                raise AttributeError(attr)
            return _gap('%s.%s' % (_n, attr))
        m.__getattr__ = missing
        mods[name] = m
        return m
    mod('pybullet', GEOM_BOX=3, JOINT_FIXED=4, createCollisionShape=create_collision_shape, createVisualShape=create_collision_shape,
        createMultiBody=create_multi_body, disconnect=lambda *a: None)
    mod('pybullet_tools', True)
    u = dict((n, globals()[n]) for n in (
        'AABB', 'OOBB', 'Pose', 'Point', 'Euler', 'GraspInfo', 'Attachment', 'get_aabb', 'get_aabb_extent', 'get_aabb_center', 'aabb_from_extent_center',
        'get_oobb', 'get_aabb_vertices', 'get_oobb_vertices', 'get_box_geometry', 'joints_from_names', 'get_pose', 'set_pose', 'unit_pose', 'multiply', 'invert',
        'quat_from_euler', 'euler_from_quat', 'matrix_from_quat', 'interpolate_poses', 'get_movable_joints', 'get_sample_fn', 'set_joint_positions',
        'get_joint_positions', 'inverse_kinematics', 'end_effector_from_body', 'approach_from_grasp', 'pairwise_collision',
        'create_box', 'create_cylinder', 'load_model', 'get_bodies', 'remove_body', 'get_point', 'set_point', 'get_center_extent', 'aabb_empty',
        'sample_aabb', 'stable_z', 'sample_placement', 'is_placement', 'approximate_as_prism'))
    u.update(TURTLEBOT_URDF=TURTLEBOT, DRAKE_IIWA_URDF=IIWA, STOVE_URDF=STOVE, TAN=(0.8, 0.7, 0.5, 1.0), YELLOW=(1.0, 1.0, 0.0, 1.0), GREEN=(0.0, 1.0, 0.0, 1.0),
             connect=connect, disconnect=lambda *a, **k: None, has_gui=has_gui, LockRenderer=_Quiet, WorldSaver=WorldSaver, Profiler=_Quiet,
             wait_if_gui=wait_if_gui, wait_for_user=wait_if_gui, wait_for_duration=wait_for_duration, plan_joint_motion=plan_joint_motion,
             plan_direct_joint_motion=plan_direct_joint_motion, refine_path=refine_path, get_refine_fn=get_refine_fn,
             get_link_pose=lambda b, l: b.pose, create_attachment=create_attachment, set_default_camera=lambda *a, **k: None, joint_from_name=lambda r, n: ['x', 'y', 'theta'].index(n),
             get_configuration=lambda r: tuple(r.q), get_body_name=lambda b: 'iiwa14' if isinstance(b, Gripper) else str(b.name),
             link_from_name=lambda r, n: 9, str_from_object=lambda o: str(sorted(o) if isinstance(o, (set, frozenset)) else o))
    mod('pybullet_tools.utils', INF=float('inf'), GREY=(0.5, 0.5, 0.5, 1.0), point_from_pose=lambda p: p[0],
        flatten=lambda it: (x for y in it for x in y), **u)
    mod('pybullet_tools.pr2_primitives', Trajectory=Trajectory, create_trajectory=create_trajectory, State=State, Attach=Attach, Detach=Detach,
        apply_commands=apply_commands)
    mod('pybullet_tools.pr2_utils', TOOL_POSE=Pose(), GRASP_LENGTH=0.03, MAX_GRASP_WIDTH=0.07)
    mod('pddlstream', True)
    mod('pddlstream.language', True)
    mod('pddlstream.algorithms', True)
    mod('pddlstream.algorithms.meta', solve=solve, create_parser=create_parser)
    mod('pddlstream.language.generator', from_fn=lambda fn: fn)
    mod('pddlstream.language.stream', StreamInfo=lambda **k: dict(k))
    mod('pddlstream.utils', read=read, get_file_path=get_file_path, INF=float('inf'), negate_test=lambda t: (lambda *a: not t(*a)))
    mod('pddlstream.language.constants', Output=lambda *a: Output(a), PDDLProblem=PDDLProblem, And=lambda *a: ('and',) + a, print_solution=print_solution)
    for name, m in mods.items():
        if '.' in name:
            setattr(mods[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
    return mods
