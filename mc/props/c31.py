"""The same mechanism, described in other ways, has the same motion."""
import copy
import itertools
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc.mech import H, I4, MECHANISMS, mechanism, build
from mc import ref

META = dict(
    rule='every mechanism, in every initial state, is simulated as it is and '
         'under every change of description, alone and in every pair of '
         'kinds: links added in another order (all the ones that respect the '
         'tree), elements named otherwise, whole scene displaced, frames of '
         'the bodies moved, joints split in chains of simpler ones, bodies '
         'split in welded parts, mirrored, in other units of mass, length '
         'and time, with the controllers and constraints registered, or the '
         'joints of the controllers given, in another order, along other mechanisms, at '
         'another date; the results, brought back, are compared at each '
         'step; non-trivial: the mechanism moves',
    bounds='15 mechanisms of 1 to 5 bodies (controllers, limits, closures, '
           'contacts), 3 initial states, 14 kinds of changes (2 to 26 each), '
           '4 steps',
    assumptions=['the constraints are solved to convergence (1e-12)',
                 'changes of the unit of length are for mechanisms without '
                 'contact (the friction has a length in it)'],
)
CHUNK = 10
STEPS = 4
# precision: how the constraints, if any, are solved
PRECISION = {'chain': 1e-9, 'free': 1e-9, 'floating': 1e-9, 'tree': 1e-9,
             'star': 1e-9, 'rails': 1e-9}


# ------------------------------------------------------------ descriptions
# each returns another description, and the map of the results back

def kind_order(d, n):
    d['add'] = extensions(d)[n]
    return lambda r: r


def extensions(d):
    """The orders the links can be added in."""
    parents = [l['parent'] for l in d['links']]
    out = []
    for p in itertools.permutations(range(len(parents))):
        pos = {b: i for i, b in enumerate(p)}
        if all(parents[b] < 0 or pos[parents[b]] < pos[b] for b in p):
            out.append(p)
    return out[1:]


def kind_names(d, n):
    d['names'] = n + 1
    return lambda r: r


MOVES = [H((1, 0, 0), 0., (1., -2., 3.)), H((1, 2, -1), 1.1, (0., 0., 0.)),
         H((0, 1, 3), -2.4, (5., .3, -8.)), H((1, 0, 0), np.pi, (0, .2, 0)),
         H((0, 0, 1), np.pi / 2, (1., 0., 0.))]


def kind_displace(d, n):
    D = MOVES[n]
    for l in d['links']:
        if l['parent'] < 0:
            l['F0'] = D.dot(l['F0'])
    d['up'] = D[:3, :3].dot(d['up'])
    for s in d['sockets']:
        for a in (0, 2):
            if s[a] < 0:
                s[a + 1] = D.dot(s[a + 1])
    for s in d['shapes']:
        if s[1] < 0:
            s[2] = D.dot(s[2])
    Di = ref.hinv(D)

    def back(r):
        r['pose'] = [Di.dot(p) for p in r['pose']]
        return r
    return back


def kind_reframe(d, n):
    G = {}
    for i, l in enumerate(d['links']):
        # (one or all of the bodies)
        G[i] = MOVES[(n + 2 * i) % 5] if n < 3 or i == n - 3 else I4
        Ad = ref.ad_of_pose(G[i])
        l['M'] = Ad.T.dot(l['M']).dot(Ad)
        l['B'] = Ad.T.dot(l['B']).dot(Ad)
        l['F1'] = ref.hinv(G[i]).dot(l['F1'])
        if l['parent'] >= 0:
            l['F0'] = ref.hinv(G[l['parent']]).dot(l['F0'])
    for s in d['sockets']:
        for a in (0, 2):
            if s[a] >= 0:
                s[a + 1] = ref.hinv(G[s[a]]).dot(s[a + 1])
    for s in d['shapes']:
        if s[1] >= 0:
            s[2] = ref.hinv(G[s[1]]).dot(s[2])
    count = len(d['links'])

    def back(r):
        r['pose'] = [p.dot(ref.hinv(G[i])) for i, p in enumerate(r['pose'])]
        require(len(r['pose']) == count, 'bodies')
        return r
    return back


def kind_split(d, n):
    """Joints of several dofs as chains of simple joints; n = 1: also fixed
    bodies without mass in the middle of the links."""
    links, last, firsts = [], {-1: -1}, {}
    for i, l in enumerate(d['links']):
        prims = ref.JOINTS[l['joint']]
        chain = [(l['joint'], l['q'], l['dq'])]
        if l['joint'] != 'FreeJoint' and len(prims) > 1:
            chain = [('%s%sJoint' % ('RT'[kd == 't'], 'xyz'[ax]),
                      l['q'][m:m + 1], l['dq'][m:m + 1])
                     for m, (kd, ax) in enumerate(prims)]
        if n:
            chain.insert(0, ('FixedJoint', np.zeros(0), np.zeros(0)))
        firsts[i] = []
        p = last[l['parent']]
        for m, (j, q, dq) in enumerate(chain):
            end = m == len(chain) - 1
            Z = np.zeros((6, 6))
            links.append(dict(
                parent=p, joint=j, F0=l['F0'] if m == 0 else I4,
                F1=l['F1'] if end else I4, M=l['M'] if end else Z,
                B=l['B'] if end else Z, q=q, dq=dq))
            p = len(links) - 1
            if j != 'FixedJoint' or not n:
                firsts[i].append(p)
        last[i] = p
    d['drop'] = [last.get(i, -1) for i in d['drop']]
    d['links'] = links
    for c in d['pd']:
        c['joints'] = [x for i in c['joints'] for x in firsts[i]]
    d['limits'] = [[x, [lo[m]], [up[m]], [pr[m]]]
                   for i, lo, up, pr in d['limits']
                   for m, x in enumerate(firsts[i])]
    for s in d['sockets']:
        s[0], s[2] = last[s[0]], last[s[2]]
    for s in d['shapes']:
        s[1] = last[s[1]]

    def back(r):
        ids = [i for i in last if i >= 0]
        return dict(pose=[r['pose'][last[i]] for i in ids],
                    q=[np.concatenate([r['q'][x].ravel() for x in firsts[i]])
                       if len(firsts[i]) != 1 else r['q'][firsts[i][0]]
                       for i in ids],
                    dq=[np.concatenate([r['dq'][x] for x in firsts[i]])
                        for i in ids], ec=r['ec'])
    return back


def kind_weld(d, n):
    """Parts of the bodies are other bodies, fixed to them."""
    count = len(d['links'])
    for i in range(count):
        l = d['links'][i]
        if n < 2 and i % 2 != n:
            continue
        W, W2 = MOVES[(i + n) % 5], MOVES[(i + 2 * n + 1) % 5]
        f = (0.6, 1., 0.3)[(n + i) % 3]
        if l['joint'] == 'FreeJoint' and f == 1.:
            f = 0.5
        G = W.dot(ref.hinv(W2))         # pose of the part in the body
        Ad = ref.ad_of_pose(G)
        d['links'].append(dict(
            parent=i, joint='FixedJoint', F0=W, F1=W2,
            M=f * Ad.T.dot(l['M']).dot(Ad), B=Ad.T.dot(l['B']).dot(Ad),
            q=np.zeros(0), dq=np.zeros(0)))
        l['M'] = (1 - f) * l['M']
        l['B'] = 0. * l['B']
        if n == 2:
            # what was held by the body is held by the part
            for s in d['sockets']:
                for a in (0, 2):
                    if s[a] == i:
                        s[a], s[a + 1] = len(d['links']) - 1, \
                            ref.hinv(G).dot(s[a + 1])
            for s in d['shapes']:
                if s[1] == i:
                    s[1], s[2] = len(d['links']) - 1, ref.hinv(G).dot(s[2])
    return first(count)


def first(count):
    def back(r):
        return dict(pose=r['pose'][:count], q=r['q'][:count],
                    dq=r['dq'][:count], ec=r['ec'])
    return back


def kind_mirror(d, n):
    S = np.eye(3)
    S[n, n] = -1.
    S4, T = np.eye(4), np.zeros((6, 6))
    S4[:3, :3], T[:3, :3], T[3:, 3:] = S, -S, S

    def signs(joint):
        return np.array([(1. if (kd == 'r') == (ax == n) else -1.)
                         for kd, ax in ref.JOINTS[joint]])

    def position(l, q):
        return S4.dot(q).dot(S4) if l['joint'] == 'FreeJoint' else \
            signs(l['joint']) * q

    def velocity(l, v):
        return T.dot(v) if l['joint'] == 'FreeJoint' else \
            signs(l['joint']) * v
    links = [dict(l) for l in d['links']]
    for l in d['links']:
        for x in ('F0', 'F1'):
            l[x] = S4.dot(l[x]).dot(S4)
        for x in ('M', 'B'):
            l[x] = T.dot(l[x]).dot(T)
        l['q'], l['dq'] = position(l, l['q']), velocity(l, l['dq'])
    d['up'] = S.dot(d['up'])
    for c in d['pd']:
        s = np.concatenate([signs(d['links'][i]['joint'])
                            for i in c['joints']])
        for x in ('kp', 'kd'):
            c[x] = c[x] * np.outer(s, s)
        c['q'], c['v'] = s * c['q'], s * c['v']
    for c in d['limits']:
        s = signs(d['links'][c[0]]['joint'])
        lo, up = np.array(c[1]) * s, np.array(c[2]) * s
        c[1], c[2] = list(np.minimum(lo, up)), list(np.maximum(lo, up))
    for s in d['sockets']:
        s[1], s[3] = S4.dot(s[1]).dot(S4), S4.dot(s[3]).dot(S4)
    for s in d['shapes']:
        s[2] = S4.dot(s[2]).dot(S4)
        if s[0] == 'plane':
            s[3] = tuple(S.dot(s[3][:3])) + (s[3][3],)

    def back(r):
        return dict(pose=[S4.dot(p).dot(S4) for p in r['pose']],
                    q=[position(l, q) for l, q in zip(links, r['q'])],
                    dq=[velocity(l, v) for l, v in zip(links, r['dq'])],
                    ec=r['ec'])
    return back


def kind_mass(d, n):
    """Another unit of mass."""
    s = (1e-12, 7., 1e5)[n]
    for l in d['links']:
        l['M'], l['B'] = s * l['M'], s * l['B']
    for c in d['pd']:
        c['kp'], c['kd'] = s * c['kp'], s * c['kd']

    def back(r):
        r['ec'] /= s
        return r
    return back


def kind_length(d, n):
    """Another unit of length."""
    s = (0.05, 3., 300.)[n]
    T = np.diag([s, s, s, 1., 1., 1.])
    V = np.array([1., 1., 1., s, s, s])

    def scaled(P, f=s):
        P = P.copy()
        P[:3, 3] *= f
        return P

    def units(joint):
        return np.array([s if kd == 't' else 1. for kd, _ in
                         ref.JOINTS[joint]])
    joints = [l['joint'] for l in d['links']]
    for l in d['links']:
        l['F0'], l['F1'] = scaled(l['F0']), scaled(l['F1'])
        l['M'], l['B'] = T.dot(l['M']).dot(T), T.dot(l['B']).dot(T)
        if l['joint'] == 'FreeJoint':
            l['q'], l['dq'] = scaled(l['q']), V * l['dq']
        else:
            l['q'] = units(l['joint']) * l['q']
            l['dq'] = units(l['joint']) * l['dq']
    if d['gravity'] is not None:
        d['gravity'] *= s
    for c in d['pd']:
        u = np.concatenate([units(joints[i]) for i in c['joints']])
        for x in ('kp', 'kd'):
            c[x] = c[x] * s * s / np.outer(u, u)
        c['q'], c['v'] = u * c['q'], u * c['v']
    for c in d['limits']:
        u = units(joints[c[0]])
        for x in (1, 2, 3):
            c[x] = list(u * np.array(c[x]))
    for c in d['sockets']:
        c[1], c[3] = scaled(c[1]), scaled(c[3])

    def back(r):
        return dict(
            pose=[scaled(p, 1. / s) for p in r['pose']],
            q=[scaled(q, 1. / s) if j == 'FreeJoint' else q / units(j)
               for j, q in zip(joints, r['q'])],
            dq=[v / V if j == 'FreeJoint' else v / units(j)
                for j, v in zip(joints, r['dq'])], ec=r['ec'] / s ** 2)
    return back


def kind_time(d, n):
    """Another unit of time, another origin."""
    s = (1., 1., 0.25, 16.)[n]
    d['t0'] += (8., -0.5, 0., 1.)[n]
    d['dt'] *= s
    for l in d['links']:
        l['dq'], l['B'] = l['dq'] / s, l['B'] / s
    if d['gravity'] is not None:
        d['gravity'] /= s * s
    for c in d['pd']:
        c['kp'], c['kd'], c['v'] = c['kp'] / s ** 2, c['kd'] / s, c['v'] / s

    def back(r):
        r['dq'] = [v * s for v in r['dq']]
        r['ec'] *= s * s
        return r
    return back


def kind_swap(d, n):
    """The elements of the constraints and controllers in another order."""
    if n in (0, 2):
        d['sockets'].reverse()
        d['contacts'].reverse()
        for c in d['contacts']:
            if d['shapes'][c[0]][0] != d['shapes'][c[1]][0]:
                c[0], c[1] = c[1], c[0]
        d['limits'].reverse()
        d['pd'].reverse()
        d['reverse'] = True
    if n in (1, 2):
        for c in d['pd']:
            sizes = [ref.ndof(d['links'][i]['joint']) for i in c['joints']]
            ends = np.cumsum([0] + sizes)
            perm = [x for m in range(len(sizes) - 1, -1, -1)
                    for x in range(ends[m], ends[m + 1])]
            c['joints'].reverse()
            c['kp'] = c['kp'][np.ix_(perm, perm)]
            c['kd'] = c['kd'][np.ix_(perm, perm)]
            c['q'], c['v'] = c['q'][perm], c['v'][perm]
    if n > 2:
        # each order of the joints of the last controller (one dof each)
        c = d['pd'][-1]
        perm = list(itertools.permutations(range(len(c['joints']))))[n - 2]
        perm = list(perm)
        c['joints'] = [c['joints'][i] for i in perm]
        c['kp'] = c['kp'][np.ix_(perm, perm)]
        c['kd'] = c['kd'][np.ix_(perm, perm)]
        c['q'], c['v'] = c['q'][perm], c['v'][perm]
    return lambda r: r


def kind_others(d, n):
    """Other mechanisms in the same world."""
    count = len(d['links'])
    other = mechanism(('limits', 'tree', 'loop', 'slide')[n], n % 3)
    far = H((0, 0, 1), 0., (0, 300., 0))
    up = d['up']
    for l in other['links']:
        l = dict(l)
        if l['parent'] < 0:
            l['F0'] = far.dot(l['F0'])
        else:
            l['parent'] += count
        d['links'].append(l)
    for c in other['pd']:
        c['joints'] = [i + count for i in c['joints']]
        d['pd'].append(c)
    for c in other['limits']:
        d['limits'].append([c[0] + count] + c[1:])
    for s in other['sockets']:
        for a in (0, 2):
            if s[a] < 0:
                s[a + 1] = far.dot(s[a + 1])
            else:
                s[a] += count
        d['sockets'].append(s)
    shapes = len(d['shapes'])
    for s in other['shapes']:
        if s[1] < 0:
            s[2] = far.dot(s[2])
        else:
            s[1] += count
        d['shapes'].append(s)
    for c in other['contacts']:
        d['contacts'].append([c[0] + shapes, c[1] + shapes] + c[2:])
    d['up'] = up
    if n % 2:
        # added first
        d['add'] = list(range(count, len(d['links']))) + list(range(count))
    d['energy'] = False
    return first(count)


def kind_off(d, n):
    """What is disabled, or has nothing to act on, changes nothing."""
    d['idle'] = n + 1
    return lambda r: r


KINDS = {'order': kind_order, 'names': kind_names, 'displace': kind_displace,
         'reframe': kind_reframe, 'split': kind_split, 'weld': kind_weld,
         'mirror': kind_mirror, 'mass': kind_mass, 'length': kind_length,
         'time': kind_time, 'swap': kind_swap, 'others': kind_others,
         'off': kind_off}
# applied in this order
RANK = ['mirror', 'mass', 'length', 'time', 'swap', 'reframe', 'split',
        'weld', 'displace', 'others', 'order', 'names', 'off']


def sizes(name):
    d = mechanism(name, 0)
    s = {'order': len(extensions(d)), 'names': 3, 'displace': 5,
         'reframe': 3 + len(d['links']), 'split': 2, 'weld': 3, 'mirror': 3,
         'mass': 3, 'length': 3, 'time': 4, 'swap': 3 if d['pd'] else 1, 'others': 4, 'off': 2}
    if d['contacts']:
        s['length'] = 0
    if name == 'rails':
        # every order of the four joints
        s['swap'] = 2 + 24
    return s


def cases(tier):
    thorough = tier == 'thorough'
    n = 0
    for name in MECHANISMS:
        size = sizes(name)
        for k in range(3):
            for kind in RANK:
                for x in range(size[kind]):
                    yield {'s': name, 'k': k, 'c': [[kind, x]]}
            for a, b in itertools.combinations(RANK, 2):
                if 'order' in (a, b) and {a, b} & {'split', 'weld', 'others'}:
                    continue
                pairs = list(itertools.product(range(size[a]),
                                               range(size[b])))
                if not thorough:
                    n += 1
                    pairs = pairs[n % max(1, len(pairs))::11] if k else \
                        pairs[n % max(1, len(pairs))::5]
                for x, y in pairs:
                    yield {'s': name, 'k': k, 'c': [[a, x], [b, y]]}
            if thorough:
                for cs in itertools.combinations(RANK, 3):
                    if 'order' in cs and set(cs) & {'split', 'weld',
                                                    'others'}:
                        continue
                    if all(size[c] for c in cs):
                        n += 1
                        yield {'s': name, 'k': k, 'c': [
                            [c, (n * 7 + i) % size[c]]
                            for i, c in enumerate(cs)]}


_base = {}


def run(case):
    cov = Cov()
    name, k = case['s'], case['k']
    if (name, k) not in _base:
        _base[name, k] = simulate(mechanism(name, k), cov)
    want = copy.deepcopy(_base[name, k])
    d = mechanism(name, k)
    d = copy.deepcopy(d)
    backs = []
    energy = True
    for kind, x in case['c']:
        backs.append(KINDS[kind](d, x))
    got = simulate(d, cov)
    tol = PRECISION.get(name, 1e-6)
    energy = d.get('energy', True)
    what = '%s %d, %s: ' % (name, k, ', '.join('%s %d' % tuple(c)
                                             for c in case['c']))
    for t, (g, w) in enumerate(zip(got, want)):
        for b in reversed(backs):
            g = b(g)
        for i in range(len(w['q'])):
            at = '%s of link %d after %d steps'
            same(what + at % ('position', i, t), g['q'][i], w['q'][i], tol)
            same(what + at % ('velocity', i, t), g['dq'][i], w['dq'][i], tol,
                 max(1., np.abs(w['dq'][i]).max(initial=0.)))
            same(what + at % ('pose', i, t), g['pose'][i], w['pose'][i], tol)
            cov.check(3)
        if energy:
            same('%skinetic energy after %d steps' % (what, t), g['ec'],
                 w['ec'], tol, max(1., w['ec']))
            cov.check()
    cov.traces = 2
    cov.state(name, k, want[-1]['q'], want[-1]['dq'])
    cov.state(case['c'], got[-1]['q'], got[-1]['dq'])
    cov.nontrivial = any(np.abs(a - b).max(initial=0.) > 1e-4 for a, b in
                         zip(want[0]['dq'], want[-1]['dq'])) or \
        any(np.abs(v).max(initial=0.) > 0. for v in want[-1]['dq'])
    return cov


def simulate(d, cov):
    w, bodies, joints = build(d)
    out = []
    dt = d['dt']
    for t in range(STEPS + 1):
        w.update_dynamic()
        n = len(d['links'])
        out.append(dict(
            q=[np.array(joints[i].gpos, float) if
               d['links'][i]['joint'] != 'FixedJoint' else np.zeros(0)
               for i in range(n)],
            dq=[np.array(joints[i].gvel, float) if
                d['links'][i]['joint'] != 'FixedJoint' else np.zeros(0)
                for i in range(n)],
            pose=[np.array(bodies[i].pose) for i in range(n)],
            ec=float(w.gvel.dot(w.mass).dot(w.gvel) / 2)))
        w.update_controllers(dt)
        w.update_constraints(dt, maxiters=20000, tol=1e-13)
        w.integrate(dt)
        cov.step()
    return out
