"""Bounded spaces of worlds, shared by the kinematic and dynamic checks.

A case is {'l': links, 'h': [[k, vk, how], ...], 'mv': moving frames}: a world
and the history of the configurations it is taken through; the models are
updated and compared after every one (so a result kept from a former
configuration is noticed).
"""
import itertools
from mc import ref

RED = ['FreeJoint', 'RzRyRxJoint', 'RzJoint', 'TxJoint', 'FixedJoint']
MASS_SEQ = 'bazdpcbh'
VISC_SEQ = 'zdglznr'


def dress(parents, joints, fa, fb, s=0):
    links = []
    for i, (p, j) in enumerate(zip(parents, joints)):
        links.append([p, j, (fa + 2 * i) % 6 if fa >= 0 else 0,
                      (fb + i) % 6 if fb >= 0 else 0,
                      MASS_SEQ[(i + s) % len(MASS_SEQ)],
                      VISC_SEQ[(i + s) % len(VISC_SEQ)]])
    return links


def parent_vectors(n):
    """All the ways n bodies can be added one after another."""
    return itertools.product(*[range(-1, i) for i in range(n)])


def history(n, s=0):
    return [[(s + 3 * i) % 13, (s + i) % 7, i % 2] for i in range(n)]


def kinematic_worlds(tier):
    thorough = tier == 'thorough'
    J = ref.ALL_JOINTS
    # one body: every joint x every pair of anchor frames x every value
    n = 0
    for j in J:
        for f0 in range(6):
            for f1 in range(6):
                n += 1
                yield {'l': [[-1, j, f0, f1, MASS_SEQ[n % 8], VISC_SEQ[n % 7]]],
                       'h': [[k, (k + n) % 7, k % 2] for k in range(13)] +
                            [[0, 0, 0]], 'mv': n % 2}
    # two bodies: every pair of joints
    for ja, jb in itertools.product(J, J):
        for p in (0, -1):
            for fa, fb in ((0, 0), (1, 3), (3, -1), (-1, 2)) if not thorough \
                    else itertools.product((-1, 0, 1, 2, 3), repeat=2):
                n += 1
                yield {'l': dress((-1, p), (ja, jb), fa, fb, n),
                       'h': history(13 if thorough else 3, n), 'mv': n % 3 == 0}
    # three bodies: every shape x every triple of a reduced set of joints
    for ps in parent_vectors(3):
        for js in itertools.product(J if thorough else RED, repeat=3):
            n += 1
            yield {'l': dress(ps, js, n % 6, (n // 2) % 5 - 1, n),
                   'h': history(5 if thorough else 3, n), 'mv': n % 5 == 0}
    # four and five bodies: every shape
    for ps in parent_vectors(4):
        for s in (range(625) if thorough else range(14)):
            n += 1
            if thorough:
                js = [RED[(s // 5 ** i) % 5] for i in range(4)]
            else:
                js = [J[(s + 3 * i) % 14] for i in range(4)]
            yield {'l': dress(ps, js, n % 6, n % 4 - 1, n),
                   'h': history(2, n), 'mv': 0}
    for ps in parent_vectors(5):
        for s in (range(28) if thorough else range(3)):
            n += 1
            js = [J[(5 * s + n + 3 * i) % 14] for i in range(5)]
            yield {'l': dress(ps, js, n % 6, n % 4 - 1, n),
                   'h': history(2, n), 'mv': 0}
    # extreme sizes: far away or almost identical frames, velocities that are
    # tiny or large
    for j in J:
        for f0, f1 in ((6, 0), (7, 0), (0, 7), (7, 3), (6, 7), (1, 6)):
            n += 1
            yield {'l': [[-1, j, f0, f1, MASS_SEQ[n % 8], VISC_SEQ[n % 7]],
                         [0, J[n % 14], n % 8, (n // 2) % 6, 'b', 'g']],
                   'h': [[n % 13, 1, 0, 1e-8], [(n + 2) % 13, 4, 0, 1e-5],
                         [(n + 5) % 13, 2, 1, 1e-11], [3, 3, 0, 300.]],
                   'mv': n % 2}
    # large worlds: deep chains, wide stars, combs
    for size in ((8, 12, 25, 40) if not thorough else (6, 8, 12, 16, 25, 40, 60)):
        for shape in ('chain', 'star', 'comb', 'binary'):
            for s in (0, 5):
                ps = {'chain': [i - 1 for i in range(size)],
                      'star': [-1] + [0] * (size - 1),
                      'comb': [i - 1 if i % 2 == 0 else i - 2 + (i == 1)
                               for i in range(size)],
                      'binary': [-1 if i == 0 else (i - 1) // 2
                                 for i in range(size)]}[shape]
                ps = [min(p, i - 1) for i, p in enumerate(ps)]
                ps = [max(p, -1) for p in ps]
                js = [J[(s + 3 * i) % 14] for i in range(size)]
                n += 1
                yield {'l': dress(ps, js, s % 6, 2, s), 'h': history(2, s),
                       'mv': 0}
    for c in pattern_worlds(tier):
        yield c


def pattern_worlds(tier):
    """Worlds where some coordinates, velocities, components of the frames and
    of the centers of mass are null: every set of them, joint by joint."""
    from mc.worlds import PATTERN_FRAMES as F
    thorough = tier == 'thorough'
    J = ref.ALL_JOINTS
    n = 0
    for j in J:
        d = ref.ndof(j)
        for a, f0 in enumerate(F):
            n += 1
            f1 = F[(5 * a + n) % len(F)] if a % 3 else 0
            size = 2 ** d
            masks = [(x, (x * (37 + 2 * a) + a) % size) for x in range(size)] \
                if d > 2 else [(x, y) for x in range(size)
                               for y in range(size)]
            if not thorough:
                masks = masks[:: max(1, len(masks) // 16)]
            yield {'l': [[-1, j, f0, f1, PATTERN_MASS[n % 8], VISC_SEQ[n % 7]]],
                   'h': [[x % 4 + n, n, x % 2, 1., x, y] for x, y in masks],
                   'mv': n % 2, 'p': 1}
    for ja, jb in itertools.product(J, J):
        for k in range(len(F) if thorough else 2):
            n += 1
            d = ref.ndof(ja) + ref.ndof(jb)
            yield {'l': [[-1, ja, F[n % len(F)], F[(3 * n) % len(F)] * (n % 2),
                          PATTERN_MASS[n % 8], VISC_SEQ[n % 7]],
                         [-(n % 4 == 0), jb, F[(7 * n + 2) % len(F)],
                          F[(11 * n) % len(F)] * (n % 3 == 0),
                          PATTERN_MASS[(n + 3) % 8], VISC_SEQ[(n + 1) % 7]]],
                   'h': [[n + i, n + i, i % 2, 1., (n * 53 + i * 29) % 2 ** d,
                          (n * 71 + i * 43) % 2 ** d] for i in range(4)],
                   'mv': n % 3 == 0, 'p': 1}
    # only some of the joints move (or are away from their zeros)
    triples = [('FreeJoint', 'RzRyRxJoint', 'TxJoint'),
               ('TxTyTzJoint', 'FreeJoint', 'RzJoint'),
               ('RzJoint', 'RyJoint', 'TzJoint'),
               ('FreeJoint', 'FixedJoint', 'FreeJoint'),
               ('RyRxJoint', 'TzJoint', 'RzRyJoint')]
    for js in triples + [tuple(J[(n + 5 * i) % 14] for i in range(3))
                         for n in range(14)] * thorough:
        for ps in parent_vectors(3):
            n += 1
            blocks, d = [], 0
            for j in js:
                blocks.append(((1 << ref.ndof(j)) - 1) << d)
                d += ref.ndof(j)
            subsets = [sum(b for i, b in enumerate(blocks) if x >> i & 1)
                       for x in ((3, 6, 5, 1, 4, 2, 0, 7) if thorough else
                                 (3, 6, 5, 1 + n % 4, 7))]
            yield {'l': [[p, j, F[(3 * n + i) % len(F)], (n + i) % 5,
                          PATTERN_MASS[(n + i) % 8], VISC_SEQ[(n + i) % 7]]
                         for i, (p, j) in enumerate(zip(ps, js))],
                   'h': [[n + i, n + i, i % 2, 1., q, v] for i, (q, v) in
                         enumerate(zip(subsets[2:] + subsets[:2], subsets))],
                   'mv': n % 2, 'p': 1}
    for size in (8, 13):
        for star in (0, 1):
            n += 1
            js = [('RzJoint', 'RyJoint', 'TxJoint', 'RxJoint')[i % 4]
                  for i in range(size)]
            yield {'l': [[-1 if star else i - 1, j, (i + n) % 6, 0, 'b', 'z']
                         for i, j in enumerate(js)],
                   'h': [[i, i, 0, 1., q, v] for i, (q, v) in enumerate([
                       (0, (1 << size - 1) - 1), (1, (1 << size - 2) - 1),
                       (0, (1 << size) - 2), (3, 0x1f5f), (0x1555, 0x0aaa)])],
                   'mv': 0, 'p': 1}


PATTERN_MASS = 'XYZPQRIO'
MASSIVE_SEQ = 'bacdhb'


def massive(case):
    """The same world, with bodies that can be simulated (a body without
    rotational inertia at the end of a chain has no dynamics)."""
    links = [list(l) for l in case['l']]
    for i, l in enumerate(links):
        l[4] = MASSIVE_SEQ[(i + len(links) + l[2]) % 6]
    return links


def dynamic_worlds(tier):
    """Worlds that are integrated."""
    thorough = tier == 'thorough'
    J = ref.ALL_JOINTS
    n = 0
    for j in J:
        for f0 in range(6):
            for f1 in (0, 1, 3, 5):
                n += 1
                yield [[-1, j, f0, f1, MASSIVE_SEQ[n % 6], VISC_SEQ[n % 7]]], n
    for ja, jb in itertools.product(J, J):
        for p in (0, -1):
            for fa, fb in ((1, 3), (3, -1)) if not thorough \
                    else itertools.product((-1, 0, 1, 2, 3), repeat=2):
                n += 1
                yield massive({'l': dress((-1, p), (ja, jb), fa, fb, n)}), n
    for ps in parent_vectors(3):
        for js in itertools.product(J if thorough else RED, repeat=3):
            n += 1
            if not thorough and n % 2:
                continue
            yield massive({'l': dress(ps, js, n % 6, (n // 2) % 5 - 1, n)}), n
    for ps in parent_vectors(4):
        for s in (range(28) if thorough else range(4)):
            n += 1
            js = [J[(s + n + 3 * i) % 14] for i in range(4)]
            yield massive({'l': dress(ps, js, n % 6, n % 4 - 1, n)}), n
    for size in (7, 12, 20):
        for shape in ('chain', 'star', 'binary'):
            for s in range(3):
                ps = {'chain': [i - 1 for i in range(size)],
                      'star': [-1] + [0] * (size - 1),
                      'binary': [-1 if i == 0 else (i - 1) // 2
                                 for i in range(size)]}[shape]
                js = [J[(s + 3 * i) % 14] for i in range(size)]
                n += 1
                yield massive({'l': dress(ps, js, s % 6, 2, s)}), n
