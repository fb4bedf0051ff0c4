PROPERTY = 'C26'
EDITS = [
    ('exps/tamp_environment/kuka_carry/domain.pddl', '''    :precondition (and (InsertMotion ?q1 ?t ?q2 ?o ?g)
                       (AtConf ?q1) (AtGrasp ?o ?g) (CanMove)
''', '''    :precondition (and (InsertMotion ?q1 ?t ?q2 ?o ?g)
                       (AtConf ?q1) (not (HandEmpty)) (CanMove)
'''),
]
NEEDS = 'a plan in which the arm waits in front of a container with an object, where the insertion of a different object has been planned'
BREAKS = 'A plan may carry out the insertion planned for one object while another is in hand.'
DEMO = r"""
from kit import *
with scratch() as t:
    import random
    from collections import namedtuple
    from fakelibs import pddl
    base = t + '/exps/tamp_environment/kuka_carry/'
    P = namedtuple('P', 'domain_pddl stream_pddl init goal')
    class Thing: pass
    start, sink = Thing(), [101, 102]
    init = [('CanMove',), ('Conf', start), ('AtConf', start), ('HandEmpty',)]
    for i, o in enumerate((1, 2)):
        p0, p1, p2, g, q0, q1, q2 = (Thing() for _ in range(7))
        init += [('Grasp', o, g), ('Graspable', o), ('Pose', o, p0), ('AtPose', o, p0), ('Conf', q0), ('Kin', o, p0, g, q0), ('Stackable', o, sink[i]), ('Sink', sink[i]),
                 ('Pose', o, p1), ('Pose', o, p2), ('Supported', o, p2, sink[i]), ('Conf', q1), ('Conf', q2), ('Kin', o, p1, g, q1), ('Kin', o, p2, g, q2),
                 ('PreInsert', q1), ('PostInsert', q2)]
    task = pddl.Task(P(open(base + 'domain.pddl').read(), open(base + 'stream.pddl').read(), init, ('and', ('Cleaned', 1), ('Cleaned', 2), ('AtConf', start))),
                     random.Random(1), lambda *a: (Thing(),))
    seen, todo = {task.state}, [task.state]
    while todo:
        s = todo.pop()
        in_hand = {f[1] for f in s if f[0] == 'atgrasp'}
        for a, b in task.steps(s):
            if a.name.startswith('move_'):
                moved = {b['?o']} if '?o' in b else set()
                check(moved == in_hand, '%s moves with %s while the arm holds %s' % (a.name, [task.objects[x] for x in moved], [task.objects[x] for x in in_hand]))
            n = task.apply(a, b, s)
            if n not in seen and len(seen) < 3000:
                seen.add(n)
                todo.append(n)
    check(len(seen) > 50, 'nothing moves')
"""
