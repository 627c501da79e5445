"""What users of arboris write themselves: controllers, constraints and
observers, that also record how they are called."""
import numpy as np


def user_controller(forces, impedances, log=None, tag=None, name=None):
    """A controller whose n-th answer (after init) is forces[n], impedances[n]
    (the last ones go on). The very arrays are given at each call, as a
    controller with preallocated arrays does."""
    from arboris.core import Controller

    class UserController(Controller):
        def __init__(self):
            Controller.__init__(self, name)
            self.n = 0
            self.calls = []
            self.inits = 0

        def init(self, world):
            self.inits += 1
            self.n = 0
            if log is not None:
                log.append(('init', tag, world))

        def update(self, dt):
            k = self.n
            self.n += 1
            self.calls.append(dt)
            if log is not None:
                log.append(('update', tag, dt))
            return (forces[min(k, len(forces) - 1)],
                    impedances[min(k, len(impedances) - 1)])
    return UserController()


def user_constraint(jac, force, log=None, tag=None, active=True, name=None,
                    children=()):
    """A constraint with a given jacobian that applies a given force."""
    from arboris.core import Constraint

    class UserConstraint(Constraint):
        def __init__(self):
            Constraint.__init__(self, name)
            self._force = np.zeros(len(force))
            self._child_obj_to_reg.extend(children)
            self.active = active
            self.solves = []
            self.updates = []

        def init(self, world):
            if log is not None:
                log.append(('init', tag, world))

        @property
        def jacobian(self):
            return jac

        @property
        def ndol(self):
            return len(force)

        def update(self, dt):
            self._force[:] = 0.
            self.updates.append(dt)
            if log is not None:
                log.append(('update', tag, dt))

        def is_active(self):
            return self.active

        def solve(self, vel, admittance, dt):
            self.solves.append((vel.copy(), np.array(admittance), dt))
            d = np.asarray(force, float) - self._force
            self._force = self._force + d
            return d
    return UserConstraint()


def user_observer(log, tag, world, spy=None, name=None):
    from arboris.core import Observer

    class UserObserver(Observer):
        def __init__(self):
            Observer.__init__(self, name)

        def init(self, w, timeline):
            log.append(('obs init', tag, w, timeline))

        def update(self, dt):
            log.append(('obs update', tag, dt, world.current_time,
                        spy() if spy else None))

        def finish(self):
            log.append(('obs finish', tag, world.current_time))
    return UserObserver()
