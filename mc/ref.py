"""Reference semantics, written from the documentation only.

Everything is done in the ground frame with plain vectors (positions, axes,
cross products); no adjoint algebra and nothing of arboris is used, so that
an error of the recursions of arboris cannot be repeated here. Derivatives are
taken by complex steps (exact to rounding).
"""
import numpy as np

# joint name -> elementary motions, from the reference to the new frame
JOINTS = {
    'FixedJoint': [],
    'RzRyRxJoint': [('r', 2), ('r', 1), ('r', 0)],
    'RzRyJoint': [('r', 2), ('r', 1)],
    'RzRxJoint': [('r', 2), ('r', 0)],
    'RyRxJoint': [('r', 1), ('r', 0)],
    'RzJoint': [('r', 2)],
    'RyJoint': [('r', 1)],
    'RxJoint': [('r', 0)],
    'TxTyTzJoint': [('t', 0), ('t', 1), ('t', 2)],
    'TzJoint': [('t', 2)],
    'TyJoint': [('t', 1)],
    'TxJoint': [('t', 0)],
    # user-defined joint, see worlds.py
    'RxTyJoint': [('r', 0), ('t', 1)],
    'FreeJoint': None,
}
ALL_JOINTS = ['FreeJoint', 'FixedJoint', 'RzRyRxJoint', 'RzRyJoint',
              'RzRxJoint', 'RyRxJoint', 'RzJoint', 'RyJoint', 'RxJoint',
              'TxTyTzJoint', 'TzJoint', 'TyJoint', 'TxJoint', 'RxTyJoint']


def ndof(joint):
    return 6 if joint == 'FreeJoint' else len(JOINTS[joint])


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def erot(axis, a):
    """Elementary rotation; ``a`` may be complex."""
    c, s = np.cos(a), np.sin(a)
    R = np.zeros((3, 3), dtype=np.result_type(type(c), float))
    i, j, k = axis, (axis + 1) % 3, (axis + 2) % 3
    R[i, i] = 1.
    R[j, j] = R[k, k] = c
    R[k, j] = s
    R[j, k] = -s
    return R


def hom(R, p):
    R, p = np.asarray(R), np.asarray(p)
    H = np.zeros((4, 4), dtype=np.result_type(R, p))
    H[:3, :3] = R
    H[:3, 3] = p
    H[3, 3] = 1.
    return H


def hinv(H):
    R = H[:3, :3].T
    return hom(R, -R.dot(H[:3, 3]))


def expm_se3(tw):
    """Exponential of the 4x4 matrix of a twist: scaling and squaring of the
    plain power series."""
    tw = np.asarray(tw, dtype=float)
    A = np.zeros((4, 4))
    A[:3, :3] = hat(tw[:3])
    A[:3, 3] = tw[3:6]
    n = np.abs(tw[:3]).max()
    k = max(0, int(np.ceil(np.log2(n / 0.25)))) if n > 0.25 else 0
    A = A / 2. ** k
    E, T = np.eye(4), np.eye(4)
    for i in range(1, 19):
        T = T.dot(A) / i
        E = E + T
    for _ in range(k):
        E = E.dot(E)
    return E


def ad_of_pose(H):
    """6x6 map of the twists (frame b -> frame a) built column by column from
    the velocity of points: w_a = R w_b, v_a = R v_b + p x (R w_b)."""
    R, p = H[:3, :3], H[:3, 3]
    Ad = np.zeros((6, 6), dtype=H.dtype)
    for k in range(3):
        Ad[:3, k] = R[:, k]
        Ad[3:, k] = np.cross(p, R[:, k])
        Ad[3:, 3 + k] = R[:, k]
    return Ad


def joint_pose(name, q):
    if name == 'FreeJoint':
        return np.asarray(q)
    H = np.eye(4)
    for (kind, axis), a in zip(JOINTS[name], q):
        if kind == 'r':
            E = hom(erot(axis, a), np.zeros(3))
        else:
            p = np.zeros(3, dtype=np.result_type(type(a), float))
            p[axis] = a
            E = hom(np.eye(3), p)
        H = H.dot(E)
    return H


class Tree(object):
    """Reference tree. ``links``: list of dicts with keys parent (index or -1),
    joint (name), F0, F1 (4x4), in creation order."""

    def __init__(self, links):
        self.links = links
        self.n = len(links)
        children = {i: [] for i in range(-1, self.n)}
        for i, l in enumerate(links):
            children[l['parent']].append(i)
        self.children = children
        self.order = []
        self._df(-1)
        self.dof = {}
        n = 0
        for i in self.order:
            d = ndof(links[i]['joint'])
            self.dof[i] = slice(n, n + d)
            n += d
        self.ndof = n

    def _df(self, i):
        for c in self.children[i]:
            self.order.append(c)
            self._df(c)

    def ancestors(self, i):
        """i, its parent, ..."""
        while i != -1:
            yield i
            i = self.links[i]['parent']

    def fk(self, q):
        """Poses in the ground frame, and the axes of the dofs.

        q: {i: gpos}."""
        pose = {-1: np.eye(4)}
        axes = {}
        for i in self.order:
            l = self.links[i]
            H = pose[l['parent']].dot(l['F0'])
            ax = []
            if l['joint'] == 'FreeJoint':
                H = H.dot(q[i])
                for k in range(3):
                    ax.append(('r', H[:3, k], H[:3, 3]))
                for k in range(3):
                    ax.append(('t', H[:3, k], H[:3, 3]))
            else:
                for (kind, k), a in zip(JOINTS[l['joint']], q[i]):
                    ax.append((kind, H[:3, k], H[:3, 3]))
                    H = H.dot(joint_pose(
                        {('r', 0): 'RxJoint', ('r', 1): 'RyJoint',
                         ('r', 2): 'RzJoint', ('t', 0): 'TxJoint',
                         ('t', 1): 'TyJoint', ('t', 2): 'TzJoint'}[kind, k],
                        [a]))
            axes[i] = ax
            pose[i] = H.dot(hinv(l['F1']))
        return pose, axes

    def jacobians(self, q):
        """{i: 6 x ndof body jacobian} (twist of the body with regard to the
        ground, in the body frame)."""
        pose, axes = self.fk(q)
        res = {-1: np.zeros((6, self.ndof))}
        for i in self.order:
            R, p = pose[i][:3, :3], pose[i][:3, 3]
            J = np.zeros((6, self.ndof), dtype=pose[i].dtype)
            for a in self.ancestors(i):
                for k, (kind, u, o) in enumerate(axes[a]):
                    c = self.dof[a].start + k
                    if kind == 'r':
                        J[:3, c] = R.T.dot(u)
                        J[3:, c] = R.T.dot(np.cross(u, p - o))
                    else:
                        J[3:, c] = R.T.dot(u)
            res[i] = J
        return pose, res

    def djacobians(self, q, v):
        h = 1e-30
        qc = {}
        for i in self.order:
            vi = v[self.dof[i]]
            if self.links[i]['joint'] == 'FreeJoint':
                T = np.zeros((4, 4))
                T[:3, :3] = hat(vi[:3])
                T[:3, 3] = vi[3:]
                qc[i] = q[i] + 1j * h * q[i].dot(T)
            else:
                qc[i] = np.asarray(q[i]) + 1j * h * vi
        _, J = self.jacobians(qc)
        return {i: (J[i].imag / h if np.iscomplexobj(J[i]) else 0. * J[i])
                for i in J}

    def gvel(self, dq):
        v = np.zeros(self.ndof)
        for i in self.order:
            v[self.dof[i]] = dq[i]
        return v


def spatial_mass(m, c, Ic):
    """6x6 mass matrix at the body frame, from mass, com and inertia at com."""
    C = hat(c)
    M = np.zeros((6, 6))
    M[:3, :3] = np.asarray(Ic) - m * C.dot(C)
    M[:3, 3:] = m * C
    M[3:, :3] = -m * C
    M[3:, 3:] = m * np.eye(3)
    return M


def body_nleffects(m, c, Ic, w):
    """Matrix of the gyroscopic effects: rate of the momenta at the com,
    [w x Ic w; m w x v_c], brought to the body frame."""
    A = np.eye(6)
    A[3:, :3] = -hat(c)          # v_c = v + w x c
    W = hat(w)
    D = np.zeros((6, 6))
    D[:3, :3] = W.dot(np.asarray(Ic))
    D[3:, 3:] = m * W
    return A.T.dot(D).dot(A)


def rotation_from(axis, angle):
    """Rodrigues."""
    u = np.asarray(axis, float)
    u = u / np.sqrt(u.dot(u))
    K = hat(u)
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K.dot(K)
