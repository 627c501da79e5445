"""A small reader of collada files, independent from the writers."""
import xml.etree.ElementTree as ET
import numpy as np
from mc.worlds import require


def floats(s):
    return np.array([float(v) for v in (s or '').split()], float)


def tag(e):
    return e.tag.split('}')[-1] if isinstance(e.tag, str) else ''


def sub(e, name):
    return [c for c in e if tag(c) == name]


def matrix_of(e):
    t, v = tag(e), floats(e.text)
    if t == 'matrix':
        return v.reshape(4, 4)
    H = np.eye(4)
    if t == 'translate':
        H[:3, 3] = v
    elif t == 'scale':
        H[:3, :3] = np.diag(v)
    elif t == 'rotate':
        from mc import ref
        if v[3]:
            H[:3, :3] = ref.rotation_from(v[:3], np.radians(v[3]))
    return H


TRANSFORMS = ('matrix', 'translate', 'scale', 'rotate', 'lookat', 'skew')


class Drawn(object):
    """One thing drawn: geometry id, 4x4 map to the world, color, marks."""

    def __init__(self, geom, H, color, marks, path, key=None):
        self.geom, self.H, self.color = geom, H, color
        self.marks, self.path, self.key = marks, path, key


class Scene(object):
    def __init__(self, path):
        self.root = ET.parse(path).getroot()
        require(tag(self.root) == 'COLLADA', 'not a collada file')
        self.ids = {}
        for e in self.root.iter():
            i = e.get('id')
            if i is not None:
                self.ids.setdefault(i, []).append(e)
        for i, l in self.ids.items():
            if tag(l[0]) in ('geometry', 'material', 'effect', 'visual_scene',
                             'animation', 'float_array', 'sampler'):
                require(len(l) == 1, 'the id %s is used %d times' % (i, len(l)))
        inst = self.find('scene')
        url = sub(inst, 'instance_visual_scene')[0].get('url')
        self.scene = self.get(url)
        self.up = self.root.find('.//{*}up_axis').text

    def find(self, name):
        l = sub(self.root, name)
        require(len(l) == 1, '%d elements %s' % (len(l), name))
        return l[0]

    def get(self, url):
        require(url.startswith('#') and url[1:] in self.ids,
                'no element %r in the file' % url)
        return self.ids[url[1:]][0]

    # ------------------------------------------------------------ geometry
    def points(self, gid):
        """Vertices of a geometry."""
        mesh = sub(self.ids[gid][0], 'mesh')[0]
        pts = []
        for prim in mesh:
            if tag(prim) not in ('polylist', 'triangles', 'lines',
                                 'linestrips', 'polygons'):
                continue
            ins = sub(prim, 'input')
            v = [i for i in ins if i.get('semantic') == 'VERTEX'][0]
            width = 1 + max(int(i.get('offset', 0)) for i in ins)
            p = np.concatenate([floats(x.text) for x in sub(prim, 'p')]
                               ).astype(int)
            idx = p.reshape(-1, width)[:, int(v.get('offset', 0))]
            src = self.get(v.get('source'))
            pos = [i for i in sub(src, 'input')
                   if i.get('semantic') == 'POSITION'][0]
            arr = sub(self.get(pos.get('source')), 'float_array')[0]
            data = floats(arr.text).reshape(-1, 3)
            pts.append(data[idx])
        require(pts, 'no vertices in %s' % gid)
        return np.unique(np.concatenate(pts), axis=0)

    def color(self, inst):
        m = inst.find('.//{*}instance_material')
        if m is None:
            return None
        mat = self.get(m.get('target'))
        eff = self.get(sub(mat, 'instance_effect')[0].get('url'))
        d = eff.find('.//{*}diffuse/{*}color')
        return None if d is None else tuple(floats(d.text)[:3])

    # --------------------------------------------------------------- nodes
    def walk(self, moved=None):
        """Poses of the nodes that have an id and list of the things drawn.

        moved: {id: 4x4} values of the transforms 'matrix' of nodes."""
        self.nodes, self.drawn, self.above = {}, [], {}
        moved = dict(moved or {})
        used = set()

        def visit(e, H, marks, path, lib):
            i = e.get('id')
            key = None if lib else i
            for t in e:
                if tag(t) not in TRANSFORMS:
                    continue
                if key in moved and t.get('sid') == 'matrix':
                    H = H.dot(moved[key])
                    used.add(key)
                else:
                    H = H.dot(matrix_of(t))
            if key is not None:
                require(key not in self.nodes,
                        'two nodes have the id %r' % key)
                self.nodes[key] = H
                self.above[key] = path
                path = path + (key,)
            elif i is not None:
                path = path + ('*' + i,)
            for d in e.findall('./{*}extra/{*}technique/{*}Descriptions/'
                               '{*}Description'):
                marks = marks | {d.text}
            for c in e:
                if tag(c) == 'node':
                    visit(c, H, marks, path, lib)
                elif tag(c) == 'instance_node':
                    visit(self.get(c.get('url')), H, marks, path, True)
                elif tag(c) == 'instance_geometry':
                    g = self.get(c.get('url'))
                    self.drawn.append(Drawn(g.get('id'), H, self.color(c),
                                            marks, path, key))
        for n in sub(self.scene, 'node'):
            visit(n, np.eye(4), frozenset(), (), False)
        for k in moved:
            require(k in used, 'no transform %r to move in the scene '
                    '(the nodes are %s)' % (k, sorted(self.nodes)))
        return self

    # ------------------------------------------------------------- physics
    def bodies(self):
        """[(sid, mass, com, rotation, principal moments)]"""
        res = []
        for b in self.root.iter():
            if tag(b) != 'rigid_body':
                continue
            t = sub(b, 'technique_common')[0]
            H = np.eye(4)
            for e in sub(t, 'mass_frame')[0]:
                H = H.dot(matrix_of(e))
            res.append((b.get('sid'), float(sub(t, 'mass')[0].text), H[:3, 3],
                        H[:3, :3], floats(sub(t, 'inertia')[0].text)))
        return res

    # ---------------------------------------------------------- animations
    def animations(self):
        """{target: (times, values)}"""
        res = {}
        for a in self.root.iter():
            if tag(a) != 'animation':
                continue
            for ch in sub(a, 'channel'):
                sampler = self.get(ch.get('source'))
                src = {}
                for i in sub(sampler, 'input'):
                    s = self.get(i.get('source'))
                    arr = [c for c in s if tag(c).endswith('_array')][0]
                    words = (arr.text or '').split()
                    require(int(arr.get('count')) == len(words),
                            'count %s of an array of %d' % (
                                arr.get('count'), len(words)))
                    acc = s.find('./{*}technique_common/{*}accessor')
                    require(self.get(acc.get('source')) is arr,
                            'accessor of another array')
                    n = int(acc.get('count'))
                    st = int(acc.get('stride', 1))
                    require(n * st == len(words), 'accessor: %d x %d of %d' % (
                        n, st, len(words)))
                    src[i.get('semantic')] = (words, n, st)
                require(set(src) == {'INPUT', 'OUTPUT', 'INTERPOLATION'},
                        'inputs of the sampler: %s' % sorted(src))
                t = np.array([float(x) for x in src['INPUT'][0]])
                require(src['OUTPUT'][2] == 16, 'stride of the output')
                v = np.array([float(x) for x in src['OUTPUT'][0]]
                             ).reshape(-1, 4, 4)
                require(len(v) == len(t) == src['INTERPOLATION'][1],
                        'lengths of the animation')
                require(set(src['INTERPOLATION'][0]) <= {'STEP', 'LINEAR'},
                        'interpolation')
                k = ch.get('target')
                require(k not in res, 'two animations of %s' % k)
                res[k] = (t, v)
        return res
