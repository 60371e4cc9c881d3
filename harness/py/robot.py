"""Random robots, and a reference model of them in plain matrices, written from
the URDF specification. Shares nothing with the code under test."""
import numpy as np


def rx(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def ry(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, 0, s], [0, 1.0, 0], [-s, 0, c]])


def rz(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def rpy(v):
    return rz(v[2]) @ ry(v[1]) @ rx(v[0])


def axis_angle(u, t):
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(t) * k + (1 - np.cos(t)) * (k @ k)


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def quat_matrix(q):
    x, y, z, w = np.asarray(q) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def quat_rate(q, w):
    """Derivative of the quaternion (x, y, z, w) of a body turning at w (in the fixed frame): (w, 0) * q / 2."""
    x, y, z, s = q
    return 0.5 * np.array([w[0] * s + w[1] * z - w[2] * y, w[1] * s + w[2] * x - w[0] * z, w[2] * s + w[0] * y - w[1] * x,
                           -(w[0] * x + w[1] * y + w[2] * z)])


def rpy_rate(r, w):
    """Derivatives of the roll, pitch and yaw of a body with rotation r turning at w."""
    cp = np.hypot(r[0, 0], r[1, 0])
    cy, sy = r[0, 0] / cp, r[1, 0] / cp
    sp = -r[2, 0]
    roll = (cy * w[0] + sy * w[1]) / cp
    return np.array([roll, -sy * w[0] + cy * w[1], w[2] + sp * roll])


def num(x):
    return repr(float(x))


def vec(v):
    return " ".join(num(x) for x in v)


class Joint:
    pass


class Robot:
    """Link 0 is the root; link i > 0 hangs on joint i - 1."""

    def __init__(self, rng, links=None, mass=True):
        self.rng = rng
        n = links or int(rng.integers(*[(2, 9), (9, 31), (31, 65), (65, 200)][rng.choice(4, p=[0.8, 0.17, 0.028, 0.002])]))
        shape = rng.random()
        self.names = self._names(n, "l")
        jnames = self._names(n - 1, "j")
        self.parent = [-1]
        self.joints = []
        scale = 1.0 if rng.random() < 0.8 else 10.0 ** rng.uniform(-2, 2)
        self.scale = scale
        for i in range(1, n):
            p = i - 1 if shape < 0.35 else 0 if shape < 0.4 else int(rng.integers(max(0, i - 4), i))
            self.parent.append(p)
            j = Joint()
            j.name = jnames[i - 1]
            j.type = ["revolute", "continuous", "prismatic", "fixed"][rng.choice(4, p=[0.4, 0.2, 0.25, 0.15])]
            j.xyz = np.where(rng.random(3) < 0.15, 0.0, rng.uniform(-1, 1, 3)) * scale
            if rng.random() < 0.06:  # next to its parent, or upon it
                j.xyz = j.xyz * [0.0, 1e-2, 1e-3, 1e-5, 1e-8][rng.integers(5)]
            j.rpy = self.some_rpy()
            a = rng.normal(size=3)
            if rng.random() < 0.5:
                a = np.zeros(3)
                a[rng.integers(3)] = rng.choice([-1.0, 1.0])
            j.axis = a / np.linalg.norm(a)
            lo, hi = sorted(rng.uniform(-4, 4, 2))
            if rng.random() < 0.15:  # far apart, close together, on one side
                lo, hi = [(lo, hi * 10.0 ** rng.integers(1, 12)), (lo * 10.0 ** rng.integers(1, 300), hi), (lo, lo), (lo, lo + 1e-9), (0.0, abs(hi)), (-abs(lo), 0.0),
                          (1e-7, 2e-7), (-1e308, 1e308), (0.0, 2e6), (-1e16, 0.0), (0.0, 0.0), (0.0, 0.0)][rng.integers(12)]
                lo, hi = min(lo, hi), max(lo, hi)
            j.limits = (float(lo), float(hi))
            j.has_limits = j.type in ("revolute", "prismatic") or rng.random() < 0.4
            self.joints.append(j)
        unit = 1.0 if rng.random() < 0.8 else 10.0 ** rng.uniform(-10, 5)  # from micrograms to tonnes
        self.inertial = []
        for i in range(n):
            if rng.random() < 0.25 and not (mass and i == n - 1):
                self.inertial.append(None)
                continue
            m = float(10 ** rng.uniform(-1, 1)) if rng.random() < 0.9 or (mass and i == n - 1) else 0.0
            r = rpy(rng.uniform(-3, 3, 3))
            m *= unit * (1.0 if rng.random() < 0.9 else 10.0 ** rng.uniform(-6, -2))
            d = rng.uniform(0.1, 1, 3)
            if rng.random() < 0.3:  # symmetric and thin bodies, in their own axes
                r = np.eye(3)
                k = rng.integers(4)
                if k < 3:
                    d[k] = d[(k + 1) % 3]
                else:
                    d[rng.integers(3)] = 0.0
            d = d * scale * scale * max(m, 0.1 * unit)
            self.inertial.append(dict(m=m, xyz=rng.uniform(-1, 1, 3) * scale, rpy=self.some_rpy(), I=r @ np.diag([d[0] + d[1], d[0] + d[2], d[1] + d[2]]) @ r.T))
        self.n_original = n
        # configuration
        self.q = {j.name: 0.0 for j in self.joints if j.type != "fixed"}
        self.base = np.zeros(6)
        self.added = []  # (name, parent index, xyz, rpy)

    def some_rpy(self):
        k = self.rng.random()
        if k < 0.25:
            return np.zeros(3)
        if k < 0.5:
            v = np.zeros(3)
            v[self.rng.integers(3)] = self.rng.choice([np.pi / 2, -np.pi / 2, np.pi, 0.5])
            return v
        return self.rng.uniform(-3, 3, 3)

    def _names(self, n, prefix):
        s = set()
        while len(s) < n:
            s.add(prefix + "".join(self.rng.choice(list("abcxyz_019ABC"), int(self.rng.integers(1, 5)))))
        out = sorted(s)
        if self.rng.random() < 0.03:  # long ones that have their beginning in common
            stem = prefix + "_of_the_upper_left_arm" * int(self.rng.choice([2, 6, 12, 50]))
            out = [stem + x if self.rng.random() < 0.5 else x for x in out]
        self.rng.shuffle(out)
        return [str(x) for x in out]

    def xml(self):
        parts = []
        for i, name in enumerate(self.names[:self.n_original]):
            c = self.inertial[i]
            s = ""
            if c:
                o = "<origin xyz='%s' rpy='%s'/>" % (vec(c["xyz"]), vec(c["rpy"]))
                I = c["I"]
                s = "<inertial>%s<mass value='%s'/><inertia ixx='%s' ixy='%s' ixz='%s' iyy='%s' iyz='%s' izz='%s'/></inertial>" % (
                    (o, num(c["m"])) + tuple(num(I[k]) for k in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))))
            parts.append("<link name='%s'>%s</link>" % (name, s))
        for i, j in enumerate(self.joints):
            lim = "<limit lower='%s' upper='%s' effort='1' velocity='1'/>" % (num(j.limits[0]), num(j.limits[1])) if j.has_limits else ""
            ax = "<axis xyz='%s'/>" % vec(j.axis) if j.type != "fixed" else ""
            parts.append("<joint name='%s' type='%s'><parent link='%s'/><child link='%s'/><origin xyz='%s' rpy='%s'/>%s%s</joint>" % (
                j.name, j.type, self.names[self.parent[i + 1]], self.names[i + 1], vec(j.xyz), vec(j.rpy), ax, lim))
        order = list(range(len(parts)))
        self.rng.shuffle(order)
        return "<robot name='r'>" + "\n".join(parts[k] for k in order) + "</robot>"

    # ------------------------------------------------------------ reference
    def clone(self):
        r = Robot.__new__(Robot)
        r.__dict__.update(self.__dict__)
        r.q = dict(self.q)
        r.base = self.base.copy()
        r.added = list(self.added)
        r.names = list(self.names)
        return r

    def add(self, name, parent, xyz, rpy_):
        self.names.append(name)
        self.added.append((name, parent, np.array(xyz, float), np.array(rpy_, float)))

    def moving(self):
        return [j.name for j in self.joints if j.type != "fixed"]

    def poses(self):
        """Rotations and positions of all links (added ones last)."""
        R, p = [rpy(self.base[3:])], [self.base[:3].copy()]
        for i in range(1, self.n_original):
            j, k = self.joints[i - 1], self.parent[i]
            a = R[k] @ rpy(j.rpy)
            o = p[k] + R[k] @ j.xyz
            if j.type == "prismatic":
                o = o + a @ j.axis * self.q[j.name]
            elif j.type != "fixed":
                a = a @ axis_angle(j.axis, self.q[j.name])
            R.append(a)
            p.append(o)
        for name, k, xyz, v in self.added:
            R.append(R[k] @ rpy(v))
            p.append(p[k] + R[k] @ xyz)
        return R, p

    def chain(self, link):
        """Joints (by the index of their child link) between the root and the link."""
        out = []
        while link > 0:
            if link >= self.n_original:
                link = self.added[link - self.n_original][1]
                continue
            out.append(link)
            link = self.parent[link]
        return out

    def columns(self, joints, base):
        """Names of the configuration's entries: joint names, then base coordinates."""
        return list(joints) + {"FIXED": [], "PLANER": [0, 1, 5], "FLOATING": [0, 1, 2, 3, 4, 5]}[base]

    def twists(self, link, point, cols, R, p):
        """(velocity of the point fixed to the link, angular velocity) per column."""
        ch = {self.joints[c - 1].name: c for c in self.chain(link)}
        v = np.zeros((3, len(cols)))
        w = np.zeros((3, len(cols)))
        b = self.base
        for n, c in enumerate(cols):
            if isinstance(c, str):
                if c not in ch:
                    continue
                k = ch[c]
                j = self.joints[k - 1]
                ax = R[k] @ j.axis
                if j.type == "prismatic":
                    v[:, n] = ax
                else:
                    v[:, n] = cross(ax, point - p[k])
                    w[:, n] = ax
            elif c < 3:
                v[c, n] = 1
            else:
                ax = [rz(b[5]) @ ry(b[4]) @ np.array([1.0, 0, 0]), rz(b[5]) @ np.array([0, 1.0, 0]), np.array([0, 0, 1.0])][c - 3]
                v[:, n] = cross(ax, point - b[:3])
                w[:, n] = ax
        return v, w

    def mass(self):
        return sum(c["m"] for c in self.inertial if c)

    def com(self, cols, actions=()):
        """Center of mass (with forces as additional masses) and its Jacobian."""
        R, p = self.poses()
        m = 0.0
        s = np.zeros(3)
        J = np.zeros((3, len(cols)))
        for i, c in enumerate(self.inertial):
            if not c:
                continue
            x = p[i] + R[i] @ c["xyz"]
            m += c["m"]
            s += c["m"] * x
            J += c["m"] * self.twists(i, x, cols, R, p)[0]
        for link, f in actions:
            m += f
            s += f * p[link]
            J += f * self.twists(link, p[link], cols, R, p)[0]
        return s / m, J / m

    def inertia(self):
        R, p = self.poses()
        com = self.com([])[0]
        I = np.zeros((3, 3))
        for i, c in enumerate(self.inertial):
            if not c:
                continue
            x = p[i] + R[i] @ c["xyz"] - com
            a = R[i] @ rpy(c["rpy"])
            I += a @ c["I"] @ a.T + c["m"] * (x @ x * np.eye(3) - np.outer(x, x))
        return I

    def extent(self):
        return max(1.0, max(np.abs(x).max() for x in self.poses()[1]))

    def set(self, joints, q, base):
        for j, v in zip(joints, q):
            self.q[j] = float(v)
        b = [float(v) for v in q[len(joints):]]
        if base == "PLANER":
            self.base = np.array([b[0], b[1], 0, 0, 0, b[2]])
        elif base == "FLOATING":
            self.base = np.array(b)
