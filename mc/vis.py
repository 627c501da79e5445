"""Access to the visualization modules: the package needs pydaenim, which is
not available and is only used to talk to an external viewer, so its modules
are loaded without the package itself."""
import importlib
import os
import sys
import types


def drawer():
    """The module arboris.visu.world_drawer."""
    import arboris
    if 'arboris.visu' not in sys.modules:
        pkg = types.ModuleType('arboris.visu')
        path = os.path.join(os.path.dirname(arboris.__file__), 'visu')
        pkg.__path__ = [path]
        pkg.__file__ = os.path.join(path, '__init__.py')
        sys.modules['arboris.visu'] = pkg
        arboris.visu = pkg
    return importlib.import_module('arboris.visu.world_drawer')


class Node(object):
    def __init__(self, kind, **args):
        self.kind = kind
        self.args = args
        self.parents = []
        self.children = []

    def all(self):
        yield self
        for c, _ in self.children:
            for n in c.all():
                yield n


def recorder(scale=1., options=None):
    """A driver that builds a tree of nodes."""
    wd = drawer()

    class Recorder(wd.DrawerDriver):
        def __init__(self):
            wd.DrawerDriver.__init__(self, scale, options)
            self.made = []
            self.ground = None
            self.finished = 0

        def _node(self, kind, **args):
            n = Node(kind, **args)
            self.made.append(n)
            return n

        def add_ground(self, up):
            self.ground = self._node('ground', up=up)
            return self.ground

        def init(self):
            pass

        def finish(self):
            self.finished += 1

        def create_transform(self, pose, is_constant, name=None):
            return self._node('transform', pose=pose.copy(),
                              constant=is_constant, name=name)

        def create_inertia(self, inertia, color, name=None):
            return self._node('inertia', inertia=inertia, color=color,
                              name=name)

        def create_frame_arrows(self):
            return self._node('arrows')

        def create_line(self, start, end, color, name=None):
            return self._node('line', start=start, end=end, color=color)

        def create_ellipsoid(self, radii, color, name=None):
            return self._node('ellipsoid', dims=radii, color=color)

        def create_box(self, half_extents, color, name=None):
            return self._node('box', dims=half_extents, color=color)

        def create_plane(self, coeffs, color, name=None):
            return self._node('plane', dims=coeffs, color=color)

        def create_cylinder(self, length, radius, color, name=None):
            return self._node('cylinder', dims=(length, radius), color=color)

        def add_child(self, parent, child, category=None):
            parent.children.append((child, category))
            child.parents.append(parent)
    return Recorder()
