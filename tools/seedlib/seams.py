"""The process the robot library stand-ins belong to: here simply this one."""
import time


class World:
    plan = {}
    factor = 0.0        # how much of the time models take to load is really slept

    def sleep(self, p, dt):
        time.sleep(dt * self.factor)

    def entropy(self, p, n):
        return b'\x20' * n


class Process:
    def __init__(self):
        self.quiet, self.bodies, self.removed, self.world = True, [], 0, World()
        self.solver = lambda problem, kw: (None, float('inf'), [])


P = Process()


def cur():
    return P

REAL = {'id': id}
