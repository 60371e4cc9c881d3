"""The checks W01 to W07: random histories of calls on the Python class, compared
call by call with the reference model (robot.py)."""
import copy
import gc
import os
import pickle
import zlib

import numpy as np

import tinyfk
from tinyfk import BaseType, KinematicModel, RotationType
from ctx import Violation
from robot import Robot, quat_matrix, quat_rate, rpy, rpy_rate

BASES = ["FIXED", "PLANER", "FLOATING"]
NB = {"FIXED": 0, "PLANER": 3, "FLOATING": 6}
REGISTRY = {}
TOL = 1e-9


class World:
    """A model under test and its reference."""

    def __init__(self, ctx, ref, model, ids=None):
        self.ctx, self.ref, self.m = ctx, ref, model
        self.jid = dict(zip(ref.moving(), model.get_joint_ids(ref.moving())))
        self.lid = list(model.get_link_ids(ref.names))


def new_world(ctx, mass=True, links=None):
    r = ctx.rng
    ref = Robot(r, links=links, mass=mass)
    xml = ref.xml()
    ctx.log(xml)
    if ctx.scratch and r.random() < 0.3:
        f = os.path.join(ctx.scratch, "model.urdf")
        with open(f, "w") as fp:
            fp.write(xml)
        m = KinematicModel(f)
    else:
        m = KinematicModel(xml_text=xml)
    return World(ctx, ref, m)


def some_joints(ctx, w):
    r = ctx.rng
    js = w.ref.moving()
    r.shuffle(js)
    k = r.random()
    if k < 0.4:
        return js
    return js[:int(r.integers(0, len(js) + 1))]


def some_q(ctx, w, joints, base):
    r = ctx.rng
    q = r.uniform(-3, 3, len(joints))
    k = r.random()
    if k < 0.08:
        q = np.zeros(len(joints))
    elif k < 0.16:
        q = r.choice([0, np.pi / 2, -np.pi / 2, np.pi, 2 * np.pi, 7.5], len(joints)).astype(float)
    elif k < 0.22:
        q *= 10
    b = np.zeros(0)
    if base == "PLANER":
        b = np.array([r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-4, 4)])
        if r.random() < 0.15:
            b = np.array([0.0, 0, r.choice([0, 1.0])])
    elif base == "FLOATING":
        b = np.concatenate([r.uniform(-5, 5, 3), [r.uniform(-3, 3), r.uniform(-1.5, 1.5), r.uniform(-3, 3)]])
        if r.random() < 0.15:
            b[3:] = r.choice([0, 0.3], 3)
    return np.concatenate([q, b])


def some_batch(ctx, w, joints, base, form=None):
    """(configurations as arrays, what is passed, its kind)"""
    r = ctx.rng
    k = r.random()
    n = 1 if k < 0.3 else int(r.integers(2, 5)) if k < 0.9 else int(r.integers(5, 12)) if k < 0.97 else 0
    qs = [some_q(ctx, w, joints, base) for _ in range(n)]
    if n == 4 and r.random() < 0.04:  # many of them
        n = int(r.choice([16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300]))
        qs = [some_q(ctx, w, joints, base) for _ in range(n)]
        ctx.count("large_batches")
    if n > 2 and r.random() < 0.2:
        qs[-1] = qs[0].copy()
    if n > 1 and len(qs[0]) and r.random() < 0.25:  # little different from the one before, in one coordinate or all
        i = int(r.integers(1, n))
        d = 10.0 ** r.uniform(-8, -1)
        qs[i] = qs[i - 1].copy()
        if r.random() < 0.5:
            qs[i][r.integers(len(qs[i]))] += d
        else:
            qs[i] = qs[i] + d * r.uniform(-1, 1, len(qs[i]))
        ctx.count("nearly_equal_configurations")
    form = int(r.integers(0, 9)) if form is None else form
    dim = len(joints) + NB[base]
    a = np.array(qs).reshape(n, dim)
    if n == 0 or dim == 0:
        return qs, a, "array of shape %s" % (a.shape,)
    if form == 0 and n == 1:
        return qs, qs[0].copy(), "one array"
    if form == 1 and n == 1:
        return qs, [float(x) for x in qs[0]], "one list"
    if form == 2:
        return qs, [q.copy() for q in qs], "list of arrays"
    if form == 3:
        return qs, [[float(x) for x in q] for q in qs], "list of lists"
    if form == 4:
        return qs, np.asfortranarray(a), "Fortran order"
    if form == 5:
        big = np.full((n * 2, dim * 3), 99.0)
        v = big[::2, 1::3]
        v[...] = a
        return qs, v, "strided view"
    if form == 6:
        a = a.astype(np.float32)
        return [x.astype(float) for x in a], a, "float32"
    if form == 7:
        a = np.round(a).astype(int)
        if base == "FLOATING":
            a[:, -2] = np.clip(a[:, -2], -1, 1)
        return [x.astype(float) for x in a], a, "integers"
    if r.random() < 0.5:
        a.flags.writeable = False
        return qs, a, "read-only array"
    return qs, a, "array"


def frozen(x):
    return pickle.dumps(x)


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def brief(ctx, s):
    ctx.log(s)


def some_links(ctx, w, n=None):
    r = ctx.rng
    if n is None:
        n = int(r.integers(1, 5)) if r.random() < 0.93 else int(r.integers(5, 20))
    return [int(r.integers(0, len(w.ref.names))) for _ in range(n)]


def show(x):
    return np.array2string(np.asarray(x, dtype=object), max_line_width=100000, threshold=200)


# ------------------------------------------------------------------ the calls
def check_poses(ctx, w, P, J, qs, links, joints, rot, base, with_j, what):
    """Every block of poses (and Jacobians) against the reference; leaves the reference at the last configuration."""
    dim = {"IGNORE": 3, "RPY": 6, "XYZW": 7}[rot]
    ctx.check(np.shape(P) == (len(qs) * len(links), dim), "pose-shape", lambda: "%s: poses of shape %s for %d configurations and %d links" % (what, np.shape(P), len(qs), len(links)))
    cols = w.ref.columns(joints, base)
    if with_j:
        ctx.check(np.shape(J) == (len(qs) * len(links) * dim, len(cols)), "jacobian-shape",
                  lambda: "%s: Jacobian of shape %s for %d configurations, %d links, %d columns" % (what, np.shape(J), len(qs), len(links), len(cols)))
    for i, q in enumerate(qs):
        w.ref.set(joints, q, base)
        R, p = w.ref.poses()
        ext = w.ref.extent()
        for k, link in enumerate(links):
            got = P[i * len(links) + k]
            where = lambda: "%s, configuration %d of %d, link %s" % (what, i, len(qs), w.ref.names[link])
            ctx.evaluations += 1
            ctx.check(close(got[:3], p[link], TOL * ext), "position", lambda: "%s: position %s instead of %s" % (where(), show(got[:3]), show(p[link])))
            cp = np.hypot(R[link][0, 0], R[link][1, 0])
            if rot == "RPY":
                ctx.check(close(rpy(got[3:]), R[link], 1e-7), "rotation", lambda: "%s: roll, pitch, yaw %s of a wrong rotation" % (where(), show(got[3:])))
            elif rot == "XYZW":
                ctx.check(abs(np.linalg.norm(got[3:]) - 1) < 1e-9 and close(quat_matrix(got[3:]), R[link], TOL), "rotation",
                          lambda: "%s: quaternion %s of a wrong rotation" % (where(), show(got[3:])))
            if not with_j:
                continue
            block = J[(i * len(links) + k) * dim:(i * len(links) + k + 1) * dim]
            v, om = w.ref.twists(link, p[link], cols, R, p)
            ctx.count("jacobian_blocks")
            ctx.check(close(block[:3], v, TOL * ext), "jacobian", lambda: "%s: derivative of the position %s instead of %s" % (where(), show(block[:3]), show(v)))
            if rot == "RPY" and cp > 1e-3:
                want = np.array([rpy_rate(R[link], om[:, c]) for c in range(len(cols))]).T.reshape(3, len(cols))
                ctx.check(close(block[3:], want, TOL / cp ** 2), "jacobian", lambda: "%s: derivative of roll, pitch, yaw %s instead of %s" % (where(), show(block[3:]), show(want)))
            if rot == "XYZW":
                want = np.array([quat_rate(got[3:], om[:, c]) for c in range(len(cols))]).T.reshape(4, len(cols))
                ctx.check(close(block[3:], want, TOL), "jacobian", lambda: "%s: derivative of the quaternion %s instead of %s" % (where(), show(block[3:]), show(want)))


def call_fk(ctx, w, check=True):
    r = ctx.rng
    joints, base, links = some_joints(ctx, w), BASES[r.integers(3)], some_links(ctx, w)
    rot = ["IGNORE", "RPY", "XYZW"][r.integers(3)]
    qs, arg, kind = some_batch(ctx, w, joints, base)
    with_j = bool(r.random() < 0.6)
    ids = [w.lid[x] for x in links]
    if len(ids) == 1 and r.random() < 0.5:
        ids = ids[0]
    jid = [w.jid[j] for j in joints]
    repeat = r.random() < 0.1 and len(qs) > 0
    what = "solve_fk(%s, %s base, %s, %d joints)" % (kind, base, rot, len(joints))
    brief(ctx, "%s links %s joints %s q %s" % (what, links, joints, show(arg)))
    before = frozen((arg, ids, jid))
    P, J = w.m.solve_fk(arg, ids, jid, RotationType[rot], BaseType[base], with_j)
    if not check:
        for q in qs:
            w.ref.set(joints, q, base)
        return
    ctx.check(frozen((arg, ids, jid)) == before, "input-changed", what + ": an argument was modified")
    check_poses(ctx, w, P, J, qs, links, joints, rot, base, with_j, what)
    ctx.count("fk_%s_%s" % (base, rot))
    ctx.count("form " + kind.split(" of shape")[0])
    ctx.nontrivial("%s %s %d %d %d %s" % (base, rot, len(qs), len(links), len(joints), kind[:12]))
    if repeat:
        # the poses kept for reuse are those of the last configuration
        last = qs[-1]
        if r.random() < 0.5:
            links = some_links(ctx, w)
        P, J = w.m.solve_fk(np.array([last]), [w.lid[x] for x in links], jid, RotationType[rot], BaseType[base], with_j, use_cache=True)
        check_poses(ctx, w, P, J, [last], links, joints, rot, base, with_j, what + " repeated with use_cache")
        ctx.count("cache_reuse")
    if not with_j and len(qs):
        ctx.count("without_jacobian")


def call_com(ctx, w, check=True):
    r = ctx.rng
    joints, base = some_joints(ctx, w), BASES[r.integers(3)]
    qs, arg, kind = some_batch(ctx, w, joints, base)
    jid = [w.jid[j] for j in joints]
    with_j = bool(r.random() < 0.7)
    actions = []
    if r.random() < 0.5:
        actions = [(x, float(r.uniform(0, 3) * w.ref.mass())) for x in some_links(ctx, w)]
        if r.random() < 0.3:
            actions[0] = (actions[0][0], -0.5 * w.ref.mass())
            if sum(f for _, f in actions) < -0.6 * w.ref.mass():
                actions = actions[:1]
        if r.random() < 0.35:
            f = actions[0][1]
            extra = some_links(ctx, w, 2)
            k = r.integers(6)
            if r.random() < 0.2:  # together they pull harder than the weight
                actions = [(x, -float(r.uniform(1.5, 4)) * w.ref.mass()) for x, _ in actions]
                ctx.count("com_pulled_up")
            elif k == 0:  # they add up to nothing
                f = abs(f)
                actions = [(actions[0][0], f), (extra[0], -f)]
            elif k == 1:
                actions = [(x, 0.0) for x, _ in actions]
            elif k == 2:
                actions = actions + [(actions[0][0], 0.25 * abs(f))]  # one link twice
            elif k == 3:
                actions[-1] = (actions[-1][0], 0.0)
            elif k == 4:
                actions = [(0, abs(f))] + [(extra[0], abs(f) * 1e-9)]
            else:
                actions = [(x, w.ref.mass() * 3.0 / len(w.ref.names)) for x in range(len(w.ref.names))]
    what = "solve_com_fk(%s, %s base, %d joints, %d forces)" % (kind, base, len(joints), len(actions))
    brief(ctx, "%s joints %s actions %s q %s" % (what, joints, actions, show(arg)))
    kw = {}
    if actions:
        kw = dict(action_link_ids=[w.lid[x] for x, _ in actions], action_forces=[f for _, f in actions])
    elif r.random() < 0.3:
        kw = dict(action_link_ids=[], action_forces=[])
    before = frozen((arg, jid, kw))
    P, J = w.m.solve_com_fk(arg, jid, base_type=BaseType[base], with_jacobian=with_j, **kw)
    if not check:
        for q in qs:
            w.ref.set(joints, q, base)
        return
    ctx.check(frozen((arg, jid, kw)) == before, "input-changed", what + ": an argument was modified")
    cols = w.ref.columns(joints, base)
    ctx.check(np.shape(P) == (len(qs), 3), "com-shape", lambda: "%s: centers of mass of shape %s for %d configurations" % (what, np.shape(P), len(qs)))
    if with_j:
        ctx.check(np.shape(J) == (3 * len(qs), len(cols)), "com-jacobian-shape", lambda: "%s: Jacobian of shape %s for %d configurations with %d columns" % (what, np.shape(J), len(qs), len(cols)))
    for i, q in enumerate(qs):
        w.ref.set(joints, q, base)
        c, jac = w.ref.com(cols, actions)
        ext = w.ref.extent() * 3
        ctx.evaluations += 1
        ctx.check(close(P[i], c, TOL * ext), "com", lambda: "%s, configuration %d of %d: %s instead of %s" % (what, i, len(qs), show(P[i]), show(c)))
        if with_j:
            ctx.count("com_jacobians")
            ctx.check(close(J[3 * i:3 * i + 3], jac, TOL * ext * 3), "com-jacobian", lambda: "%s, configuration %d of %d: Jacobian %s instead of %s" % (what, i, len(qs), show(J[3 * i:3 * i + 3]), show(jac)))
    ctx.count("com_" + base)
    if actions:
        ctx.count("com_with_forces")
    if len(qs) > 1:
        ctx.count("com_batches")
    ctx.nontrivial("%s %d %d %d %s" % (base, len(qs), len(joints), len(actions), kind[:12]))


def call_inertia(ctx, w, check=True):
    r = ctx.rng
    joints = some_joints(ctx, w)
    q = some_q(ctx, w, joints, "FIXED")
    jid = [w.jid[j] for j in joints]
    arg = q.copy() if r.random() < 0.5 else [float(x) for x in q]
    brief(ctx, "compute_total_inertia_matrix joints %s q %s" % (joints, show(q)))
    before = frozen((arg, jid))
    got = w.m.compute_total_inertia_matrix(arg, jid)
    w.ref.set(joints, q, "FIXED")
    if not check:
        return
    ctx.check(frozen((arg, jid)) == before, "input-changed", "compute_total_inertia_matrix: an argument was modified")
    want = w.ref.inertia()
    ctx.check(np.shape(got) == (3, 3), "inertia-shape", "total inertia of shape %s" % (np.shape(got),))
    ctx.evaluations += 1
    s = max(np.abs(want).max(), w.ref.mass() * w.ref.extent() ** 2)
    ctx.check(close(got, want, TOL * s), "inertia", lambda: "total inertia %s instead of %s" % (show(got), show(want)))
    ctx.check(close(got, np.transpose(got), TOL * s), "inertia-symmetry", lambda: "total inertia %s is not symmetric" % show(got))
    ctx.check(abs(w.m.total_mass - w.ref.mass()) <= 1e-10 * w.ref.mass(), "total-mass", lambda: "total mass %r instead of %r" % (w.m.total_mass, w.ref.mass()))
    ctx.count("inertia_base_moved" if np.abs(w.ref.base).max() > 0 else "inertia_base_at_origin")
    ctx.nontrivial(zlib.crc32(want.tobytes()))


def check_sqdists(ctx, w, V, J, qs, pairs, joints, base, with_j, what):
    n = len(pairs)
    cols = w.ref.columns(joints, base)
    V = np.asarray(V)
    ctx.check(V.size == len(qs) * n and (V.ndim == 1 or 1 in V.shape or V.size == 0), "sqdist-shape", lambda: "%s: %s values for %d configurations and %d pairs" % (what, V.shape, len(qs), n))
    V = V.reshape(-1)
    if with_j:
        ctx.check(np.shape(J) == (len(qs) * n, len(cols)), "gradient-shape", lambda: "%s: gradients of shape %s for %d configurations, %d pairs, %d columns" % (what, np.shape(J), len(qs), n, len(cols)))
    for i, q in enumerate(qs):
        w.ref.set(joints, q, base)
        R, p = w.ref.poses()
        ext = w.ref.extent()
        for k, (a, b) in enumerate(pairs):
            d = p[a] - p[b]
            where = lambda: "%s, configuration %d of %d, links %s and %s" % (what, i, len(qs), w.ref.names[a], w.ref.names[b])
            got = V[i * n + k]
            ctx.evaluations += 1
            ctx.check(abs(got - d @ d) <= TOL * ext * (np.sqrt(d @ d) + 1e-6 * ext) * 10, "sqdist", lambda: "%s: %r instead of %r" % (where(), got, d @ d))
            if a == b:
                ctx.count("pairs_of_one_link")
                ctx.check(got == 0, "sqdist", lambda: "%s: a link is %r away from itself" % (where(), got))
            if 0 < d @ d < 1e-4:
                ctx.count("pairs_close_together")
            if with_j:
                ctx.count("gradients")
                g = 2 * d @ (w.ref.twists(a, p[a], cols, R, p)[0] - w.ref.twists(b, p[b], cols, R, p)[0])
                ctx.check(close(J[i * n + k], g, TOL * ext * (np.sqrt(d @ d) + 1e-5 * ext) * 20), "gradient", lambda: "%s: gradient %s instead of %s" % (where(), show(J[i * n + k]), show(g)))


def call_sqdist(ctx, w, check=True):
    r = ctx.rng
    joints, base = some_joints(ctx, w), BASES[r.integers(3)]
    qs, arg, kind = some_batch(ctx, w, joints, base)
    jid = [w.jid[j] for j in joints]
    n = int(r.integers(1, 5)) if r.random() < 0.9 else int(r.integers(5, 20))
    pairs = list(zip(some_links(ctx, w, n), some_links(ctx, w, n)))
    if r.random() < 0.2:
        pairs[0] = (pairs[0][0], pairs[0][0])
    if n > 1 and r.random() < 0.3:
        pairs[1] = pairs[0][::-1]
    if r.random() < 0.4:  # a link and its parent
        a = int(r.integers(0, len(w.ref.names)))
        k = w.ref.n_original
        b = w.ref.parent[a] if a < k else w.ref.added[a - k][1]
        if b >= 0:
            pairs[-1] = (a, b) if r.random() < 0.5 else (b, a)
    with_j = bool(r.random() < 0.7)
    what = "compute_inter_link_sqdists(%s, %s base, %d joints)" % (kind, base, len(joints))
    brief(ctx, "%s joints %s pairs %s q %s" % (what, joints, pairs, show(arg)))
    ids = [(w.lid[a], w.lid[b]) for a, b in pairs]
    before = frozen((arg, ids, jid))
    V, J = w.m.compute_inter_link_sqdists(arg, ids, jid, BaseType[base], with_j)
    if not check:
        for q in qs:
            w.ref.set(joints, q, base)
        return
    ctx.check(frozen((arg, ids, jid)) == before, "input-changed", what + ": an argument was modified")
    check_sqdists(ctx, w, V, J, qs, pairs, joints, base, with_j, what)
    if len(qs) and r.random() < 0.15:
        # the poses kept for reuse are those of the last configuration
        if r.random() < 0.5:
            pairs = list(zip(some_links(ctx, w, n), some_links(ctx, w, n)))
        V, J = w.m.compute_inter_link_sqdists(np.array([qs[-1]]), [(w.lid[a], w.lid[b]) for a, b in pairs], jid, BaseType[base], with_j, use_cache=True)
        check_sqdists(ctx, w, V, J, [qs[-1]], pairs, joints, base, with_j, what + " repeated with use_cache")
        ctx.count("sqdist_cache_reuse")
    ctx.count("sqdist_" + base)
    ctx.nontrivial("%s %d %d %d %s" % (base, len(qs), len(joints), n, kind[:12]))


def call_set(ctx, w, check=False):
    r = ctx.rng
    joints, base = some_joints(ctx, w), BASES[r.integers(3)]
    q = some_q(ctx, w, joints, base)
    arg = q.copy() if r.random() < 0.7 else [float(x) for x in q]
    jid = [w.jid[j] for j in joints]
    brief(ctx, "set_q %s %s %s" % (joints, base, show(q)))
    before = frozen((arg, jid))
    w.m.set_q(jid, arg, BaseType[base])
    ctx.check(frozen((arg, jid)) == before, "input-changed", "set_q: an argument was modified")
    w.ref.set(joints, q, base)
    ctx.count("set_" + base)
    return arg, jid


ODD_NAMES = ["", " ", "new 1", "n\u00e9w", "\u65e5\u672c", "n" * 300, "a/b", "new_com", "0", "<new>", "l", "_com", "new\n", "None"]


def call_add(ctx, w, check=False):
    r = ctx.rng
    name = "new%d" % len(w.ref.added) + ("" if r.random() < 0.7 else "_x")
    if r.random() < 0.15:
        name = ODD_NAMES[r.integers(len(ODD_NAMES))]
    if name in w.ref.names:
        return
    parent = int(r.integers(0, len(w.ref.names)))
    xyz = r.uniform(-1, 1, 3)
    if r.random() < 0.2:  # next to the link, or upon it
        xyz = xyz * [0.0, 1e-2, 1e-3, 1e-4, 1e-6, 1e-9][r.integers(6)]
    v = None if r.random() < 0.3 else r.uniform(-3, 3, 3)
    brief(ctx, "add_new_link %s to %s at %s %s" % (name, w.ref.names[parent], show(xyz), v))
    args = [xyz, v]
    if r.random() < 0.3:
        args = [list(map(float, xyz)), None if v is None else list(map(float, v))]
    if v is None and r.random() < 0.5:
        w.m.add_new_link(name, w.lid[parent], args[0])
    else:
        w.m.add_new_link(name, w.lid[parent], args[0], args[1])
    w.ref.add(name, parent, xyz, np.zeros(3) if v is None else v)
    w.lid.append(w.m.get_link_ids([name])[0])
    ctx.count("links_added")
    return args


def call_clear(ctx, w, check=False):
    w.m.clear_cache()


OTHERS = [call_fk, call_com, call_inertia, call_sqdist, call_set, call_add, call_clear]


def history(ctx, main, n, weight=0.55):
    r = ctx.rng
    if r.random() < 0.006:  # now and then a long life
        w, n = new_world(ctx, links=int(r.integers(2, 8))), int(r.integers(150, 400))
        ctx.count("long_histories")
    else:
        w = new_world(ctx)
    for k in range(n):
        if r.random() < weight or k == n - 1:
            main(ctx, w, True)
        else:
            f = OTHERS[r.integers(len(OTHERS))]
            try:
                f(ctx, w, False)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001  another property's matter
                ctx.log("%s: %s" % (type(e).__name__, e))
                ctx.count("other_calls_failed")
                return
    ctx.sample(ctx.note[-1] if ctx.note else "")


def bundled(ctx, main):
    """The same history on one of the robots that come with the package."""
    import xml.etree.ElementTree as ET
    r = ctx.rng
    f = [tinyfk.pr2_urdfpath(), tinyfk.fetch_urdfpath()][r.integers(2)]
    t = ET.parse(f).getroot()
    ref = Robot.__new__(Robot)
    ref.rng = r
    links = [x for x in t if x.tag == "link"]
    joints = {x.find("child").get("link"): x for x in t if x.tag == "joint"}
    by = {x.get("name"): x for x in links}
    order, todo = [], [x.get("name") for x in links if x.get("name") not in joints]
    kids = {}
    for c, j in joints.items():
        kids.setdefault(j.find("parent").get("link"), []).append(c)
    while todo:
        k = todo.pop()
        order.append(k)
        todo += kids.get(k, [])
    def v3(e, k, d=(0, 0, 0)):
        return np.array([float(x) for x in e.get(k).split()]) if e is not None and e.get(k) else np.array(d, float)
    from robot import Joint
    ref.names, ref.parent, ref.joints, ref.inertial = list(order), [-1], [], []
    for n in order:
        i = by[n].find("inertial")
        if i is None:
            ref.inertial.append(None)
        else:
            I = i.find("inertia")
            g = {k: float(I.get(k)) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")}
            ref.inertial.append(dict(m=float(i.find("mass").get("value")), xyz=v3(i.find("origin"), "xyz"), rpy=v3(i.find("origin"), "rpy"),
                                     I=np.array([[g["ixx"], g["ixy"], g["ixz"]], [g["ixy"], g["iyy"], g["iyz"]], [g["ixz"], g["iyz"], g["izz"]]])))
        if n in joints:
            x = joints[n]
            j = Joint()
            j.name, j.type = x.get("name"), x.get("type")
            j.xyz, j.rpy = v3(x.find("origin"), "xyz"), v3(x.find("origin"), "rpy")
            j.axis = v3(x.find("axis"), "xyz", (1, 0, 0))
            ref.joints.append(j)
            ref.parent.append(order.index(x.find("parent").get("link")))
    ref.n_original, ref.added, ref.scale = len(order), [], 1.0
    ref.q = {j.name: 0.0 for j in ref.joints if j.type != "fixed"}
    ref.base = np.zeros(6)
    w = World(ctx, ref, KinematicModel(f))
    for _ in range(6):
        main(ctx, w, True)
        call_set(ctx, w)
        call_add(ctx, w)
    ctx.count("bundled_robots")


def reference_agrees(ctx):
    """The reference's derivatives against its own differences."""
    for _ in range(20):
        ref = Robot(ctx.rng)
        w = World.__new__(World)
        w.ref, w.ctx = ref, ctx
        joints = ref.moving()
        q = some_q(ctx, w, joints, "FLOATING")
        cols = ref.columns(joints, "FLOATING")
        link = int(ctx.rng.integers(len(ref.names)))
        ref.set(joints, q, "FLOATING")
        R, p = ref.poses()
        v, om = ref.twists(link, p[link], cols, R, p)
        com, jc = ref.com(cols, [(link, 0.7)])
        h = 1e-6
        for c in range(len(cols)):
            d = []
            for s in (h, -h):
                q2 = q.copy()
                q2[c] += s
                ref.set(joints, q2, "FLOATING")
                R2, p2 = ref.poses()
                d.append((p2[link], R2[link], ref.com(cols, [(link, 0.7)])[0]))
            e = 1e-6 * ref.extent() + 1e-6 * ref.scale
            rate = (d[0][1] - d[1][1]) / (2 * h) @ R[link].T
            spin = np.array([rate[2, 1] - rate[1, 2], rate[0, 2] - rate[2, 0], rate[1, 0] - rate[0, 1]]) / 2
            if not (close((d[0][0] - d[1][0]) / (2 * h), v[:, c], e) and close((d[0][2] - d[1][2]) / (2 * h), jc[:, c], e) and close(spin, om[:, c], 1e-6)):
                raise RuntimeError("the reference model contradicts itself")
        ctx.count("reference_self_tests")


def register(name, main, n, rule, weight=0.55):
    REGISTRY[name] = (lambda ctx: history(ctx, main, int(ctx.rng.integers(3, n)), weight),
                      [reference_agrees] + [lambda ctx: bundled(ctx, main)] * 4, rule)


register("W01", call_fk, 12, "one case: a random robot and a history of up to 11 calls; distinct by base type, rotation type, batch size, link and joint count and input form")
register("W02", call_com, 12, "one case: a random robot and a history of up to 11 calls; distinct by base type, batch size, joint and force count and input form")
register("W03", call_inertia, 14, "one case: a random robot and a history of up to 13 calls; distinct by the resulting inertia")
register("W04", call_sqdist, 12, "one case: a random robot and a history of up to 11 calls; distinct by base type, batch size, joint and pair count and input form")


# ------------------------------------------------------------------ state
def check_state(ctx, w, what, poses=True):
    """The whole configuration and all poses, without changing anything."""
    r = ctx.rng
    joints = w.ref.moving()
    r.shuffle(joints)
    if r.random() < 0.5:
        joints = joints[:int(r.integers(0, len(joints) + 1))]
    base = BASES[r.integers(3)]
    jid = [w.jid[j] for j in joints]
    got = np.asarray(w.m.get_q(jid, BaseType[base]))
    want = np.array([w.ref.q[j] for j in joints])
    ctx.evaluations += 1
    ctx.check(got.shape == (len(joints) + NB[base],), "state-shape", lambda: "%s: get_q gives %s values for %d joints and a %s base" % (what, got.shape, len(joints), base))
    ctx.check(np.array_equal(got[:len(joints)], want), "state", lambda: "%s: joint angles %s instead of %s" % (what, show(got[:len(joints)]), show(want)))
    b, g = w.ref.base, got[len(joints):]
    if base == "FLOATING":
        ctx.check(close(g[:3], b[:3], 0) and close(rpy(g[3:]), rpy(b[3:]), 1e-7), "state", lambda: "%s: base pose %s instead of %s" % (what, show(g), show(b)))
    if base == "PLANER" and b[3] == 0 and b[4] == 0:
        ctx.check(close(g[:2], b[:2], 0) and close([np.cos(g[2]), np.sin(g[2])], [np.cos(b[5]), np.sin(b[5])], 1e-9), "state",
                  lambda: "%s: planar base %s instead of %s" % (what, show(g), show(b[[0, 1, 5]])))
    ctx.count("states_read_" + base)
    if poses:
        links = list(range(len(w.ref.names)))
        P, J = w.m.solve_fk(np.zeros((1, 0)), [w.lid[x] for x in links], [], RotationType.XYZW, BaseType.FIXED)
        check_poses(ctx, w, P, J, [np.zeros(0)], links, [], "XYZW", "FIXED", False, what)


def raises(ctx, f, key, what):
    try:
        x = f()
    except Exception as e:  # noqa: BLE001
        ctx.count("raised_" + type(e).__name__)
        return
    ctx.fail(key, "%s did not raise (result %s)" % (what, show(x)[:200]))


def metadata(ctx, w):
    r = ctx.rng
    m, ref = w.m, w.ref
    ctx.evaluations += 1
    names = list(m.get_joint_names())
    ctx.check(sorted(names) == sorted(ref.moving()), "joint-names", lambda: "joint names %s instead of %s" % (sorted(names), sorted(ref.moving())))
    ids = list(m.get_joint_ids(names))
    ctx.check(ids == list(range(len(names))), "joint-ids", lambda: "the joints listed %s have the ids %s" % (names, ids))
    some = [x for x in names if r.random() < 0.6]
    r.shuffle(some)
    ids = list(m.get_joint_ids(some))
    ctx.check(ids == [names.index(x) for x in some], "joint-ids", lambda: "ids of %s: %s" % (some, ids))
    lim = m.get_joint_limits(ids)
    by = {j.name: j for j in ref.joints}
    ctx.check(len(lim) == len(some), "joint-limits", "as many limits as joints")
    for n, got in zip(some, lim):
        j = by[n]
        want = (None, None) if j.type == "continuous" else j.limits
        ctx.check(tuple(got) == tuple(want), "joint-limits", lambda: "limits %s of the %s joint %s instead of %s" % (got, j.type, n, want))
        ctx.count("limits_" + j.type)
    ids = list(m.get_link_ids(ref.names))
    ctx.check(ids == w.lid and len(set(ids)) == len(ids), "link-ids", lambda: "link ids %s, were %s" % (ids, w.lid))
    pick = some_links(ctx, w)
    ctx.check(list(m.get_link_ids([ref.names[x] for x in pick])) == [w.lid[x] for x in pick], "link-ids", "ids of several links at once")
    ctx.check(m.root_link_name == ref.names[0], "root-link", lambda: "root link %r instead of %r" % (m.root_link_name, ref.names[0]))
    k = r.random()
    bad = ["", "nothing", ref.names[0] + "x", ref.names[0][:-1] + "?", ref.names[-1] + " "][r.integers(5)]
    while bad in ref.names:
        bad += "?"
    if k < 0.3:
        raises(ctx, lambda: m.get_link_ids(ref.names[:1] + [bad]), "unknown-name", "get_link_ids with the unknown name %r" % bad)
    elif k < 0.6:
        jn = names[:1] + [bad + "j"]
        if bad + "j" not in names:
            raises(ctx, lambda: m.get_joint_ids(jn), "unknown-name", "get_joint_ids with the unknown name %r" % (bad + "j"))
        fixed = [j.name for j in ref.joints if j.type == "fixed"]
        if fixed:
            raises(ctx, lambda: m.get_joint_ids(fixed[:1]), "unknown-name", "get_joint_ids with the fixed joint %r" % fixed[0])
    else:
        dup = ref.names[r.integers(len(ref.names))]
        raises(ctx, lambda: m.add_new_link(dup, w.lid[0], [0.0, 0, 0], [0.0, 0, 0]), "duplicate-link", "adding a second link %r" % dup)
        ctx.count("duplicates")


def run_w05(ctx):
    w = new_world(ctx)
    r = ctx.rng
    metadata(ctx, w)
    check_state(ctx, w, "at the start")
    names = list(tinyfk._tinyfk.RobotModel(w.ref.xml()).get_link_names())
    ctx.check(all(i < len(names) and names[i] == n for i, n in zip(w.lid, w.ref.names)), "link-names", lambda: "link names %s do not agree with the ids %s of %s" % (names, w.lid, w.ref.names))
    for _ in range(int(r.integers(150, 400)) if r.random() < 0.005 else int(r.integers(3, 10))):
        k = r.random()
        if k < 0.55:
            call_set(ctx, w)
            ctx.nontrivial(zlib.crc32(np.array(list(w.ref.q.values()) + list(w.ref.base)).tobytes()))
            if r.random() < 0.3:
                check_read_back(ctx, w)
        elif k < 0.75:
            call_add(ctx, w)
        elif k < 0.85:
            w.m.clear_cache()
        check_state(ctx, w, "after the calls", r.random() < 0.7)
        if r.random() < 0.5:
            metadata(ctx, w)
    check_state(ctx, w, "at the end")
    ctx.sample(ctx.note[-1])


def check_read_back(ctx, w):
    """What was set, read with the same joints and base type."""
    r = ctx.rng
    joints, base = some_joints(ctx, w), BASES[r.integers(3)]
    q = some_q(ctx, w, joints, base)
    if base != "FIXED":
        q[-1] = np.clip(q[-1], -3.1, 3.1)
    jid = [w.jid[j] for j in joints]
    w.m.set_q(jid, q.copy(), BaseType[base])
    w.ref.set(joints, q, base)
    got = np.asarray(w.m.get_q(jid, BaseType[base]))
    ctx.evaluations += 1
    ctx.count("read_back_" + base)
    ctx.check(close(got, q, 1e-7), "read-back", lambda: "set %s with a %s base, read %s" % (show(q), base, show(got)))


REGISTRY["W05"] = (run_w05, [lambda ctx: None], "one case: a random robot and a history of settings and additions; distinct by the state reached")


# ------------------------------------------------------------------ copies
def run_w06(ctx):
    r = ctx.rng
    pool = [new_world(ctx)]
    check_state(ctx, pool[0], "new model")
    for step in range(int(r.integers(4, 16))):
        w = pool[r.integers(len(pool))]
        k = r.random()
        if k < 0.02:  # a long history
            n = int(r.choice([20, 40, 70, 130, 260, 300]))
            if r.random() < 0.3:
                for _ in range(min(n, 70)):
                    call_add(ctx, w)
            else:
                call_set(ctx, w)
                joints, base = some_joints(ctx, w), BASES[r.integers(3)]
                jid = [w.jid[j] for j in joints]
                for _ in range(n):
                    q = some_q(ctx, w, joints, base)
                    w.m.set_q(jid, q, BaseType[base])
                w.ref.set(joints, q, base)
            ctx.count("long_histories")
        elif k < 0.25:
            x = call_set(ctx, w)
            if r.random() < 0.5:  # the caller's arrays change afterwards
                arg, jid = x
                for i in range(len(arg)):
                    arg[i] = 77.0
                if r.random() < 0.5:
                    jid[:] = [10 ** 6] * len(jid)
                ctx.count("arguments_changed_later")
        elif k < 0.45:
            x = call_add(ctx, w)
            if x and r.random() < 0.5:
                for a in x:
                    if a is not None:
                        a[0], a[1], a[2] = 55.0, 44.0, 33.0
                ctx.count("arguments_changed_later")
        elif k < 0.6:
            bad_call(ctx, w)
        else:
            how = ["pickle", "pickle", "copy", "deepcopy", "twice", "file", "container"][r.integers(7)]
            brief(ctx, "copy of %d by %s" % (pool.index(w), how))
            try:
                if how == "pickle":
                    c = pickle.loads(pickle.dumps(w.m, int(r.integers(2, 6))))
                elif how == "copy":
                    c = copy.copy(w.m)
                elif how == "deepcopy":
                    c = copy.deepcopy(w.m)
                elif how == "twice":
                    c = pickle.loads(pickle.dumps(copy.copy(pickle.loads(pickle.dumps(w.m)))))
                elif how == "file" and ctx.scratch:
                    f = os.path.join(ctx.scratch, "model.pickle")
                    with open(f, "wb") as fp:
                        pickle.dump(w.m, fp)
                    with open(f, "rb") as fp:
                        c = pickle.load(fp)
                else:
                    c = copy.deepcopy({"a": [w.m]})["a"][0]
            except Exception as e:  # noqa: BLE001
                ctx.fail("copy-fails", "making a copy by %s: %s: %s" % (how, type(e).__name__, e))
            ctx.count("copies_by_" + how)
            new = World.__new__(World)
            new.ctx, new.ref, new.m, new.jid, new.lid = ctx, w.ref.clone(), c, dict(w.jid), list(w.lid)
            same(ctx, new, "the copy made by " + how)
            same(ctx, w, "the original after " + how)
            ctx.nontrivial("%s %d %d %d" % (how, len(w.ref.added), step, len(pool)))
            pool.append(new)
            if len(pool) > 5:
                del pool[r.integers(len(pool))]
                gc.collect()
                ctx.count("models_dropped")
        for x in pool:
            if x is w or r.random() < 0.4:
                same(ctx, x, "a model after calls on it or others")
    ctx.sample(ctx.note[-1])


def same(ctx, w, what):
    try:
        ids = list(w.m.get_link_ids(w.ref.names))
        names = w.m.get_joint_ids(w.ref.moving())
    except Exception as e:  # noqa: BLE001
        ctx.fail("names-lost", "%s: %s: %s" % (what, type(e).__name__, e))
    ctx.check(ids == w.lid, "copy-ids", lambda: "%s: link ids %s instead of %s" % (what, ids, w.lid))
    ctx.check(dict(zip(w.ref.moving(), names)) == w.jid, "copy-ids", lambda: "%s: joint ids differ" % what)
    check_state(ctx, w, what)
    for gone in ("new%d" % len(w.ref.added), "new%d_x" % len(w.ref.added)):
        if gone not in w.ref.names:
            raises(ctx, lambda: w.m.get_link_ids([gone]), "foreign-link", "%s: looking up the link %s that was not added to it" % (what, gone))


def bad_call(ctx, w):
    """A call that must fail and change nothing."""
    r = ctx.rng
    k = r.integers(4)
    joints = some_joints(ctx, w)
    base = BASES[r.integers(3)]
    q = some_q(ctx, w, joints, base)
    jid = [w.jid[j] for j in joints]
    ctx.count("failed_calls")
    if k == 0:
        dup = w.ref.names[r.integers(len(w.ref.names))]
        raises(ctx, lambda: w.m.add_new_link(dup, w.lid[0], [0.0, 1, 2], [0.0, 0, 0]), "bad-call-accepted", "adding a second link %r" % dup)
    elif k == 1:
        wrong = q[:-1] if len(q) and r.random() < 0.5 else np.concatenate([q, [0.3]])
        raises(ctx, lambda: w.m.set_q(jid, wrong, BaseType[base]), "bad-call-accepted", "set_q of %d values for %d" % (len(wrong), len(q)))
    elif k == 2:
        raises(ctx, lambda: w.m.add_new_link("bad", w.lid[0], [0.0, 1.0], [0.0, 0, 0]), "bad-call-accepted", "a position of two coordinates")
    else:
        raises(ctx, lambda: w.m.add_new_link("bad", w.lid[0], [0.0, 1.0, 2.0], [0.0, 0]), "bad-call-accepted", "an orientation of two angles")


REGISTRY["W06"] = (run_w06, [lambda ctx: None], "one case: a random robot, a history of additions, settings, failing calls and copies, on up to 5 copies; distinct by way of copying, links added and step")


# ------------------------------------------------------------------ wrong sizes
def wrong_len(ctx, n):
    r = ctx.rng
    c = [x for x in (0, n - 1, n - 2, n + 1, n + 2, n + 3, n + 6, n - 3, n - 6, 2 * n, n + 50) if x >= 0 and x != n]
    return int(c[r.integers(len(c))])


def run_w07(ctx):
    w = new_world(ctx)
    r = ctx.rng
    low = tinyfk._tinyfk
    direct = low.RobotModel(w.ref.xml())
    nj, nl = len(w.ref.moving()), max(w.lid) + 1
    call_set(ctx, w)
    all_j = list(range(nj))
    odd_added = []
    for _ in range(int(r.integers(6, 20))):
        joints, base = some_joints(ctx, w), BASES[r.integers(3)]
        dim = len(joints) + NB[base]
        n = wrong_len(ctx, dim)
        k = int(r.integers(1, 4))
        jid = [w.jid[j] for j in joints]
        links = [w.lid[x] for x in some_links(ctx, w)]
        good = np.array([some_q(ctx, w, joints, base) for _ in range(k)]).reshape(k, dim)
        bad = r.uniform(-1, 1, (k, n))
        if r.random() < 0.3:
            bad = [row.tolist() for row in bad]
        elif r.random() < 0.3 and k > 1:
            bad = [list(map(float, x)) for x in good]
            i = int(r.integers(0, k))
            bad[i] = [0.1] * n
        elif r.random() < 0.2 and n > 0:
            bad = np.full(n, 0.2) if r.random() < 0.5 else [0.2] * n
        bt = BaseType[base]
        wb = base != "FIXED"
        rot = [RotationType.IGNORE, RotationType.RPY, RotationType.XYZW][r.integers(3)]
        wj = bool(r.random() < 0.5)
        bad_id = [10 ** 9, 2 ** 40, -1, None][r.integers(4)]
        m = w.m
        # the same arguments for the class below, which always has six base coordinates
        low_dim = len(joints) + 6 * wb
        low_n = wrong_len(ctx, low_dim)
        low_bad = [[0.1] * low_n] if r.random() < 0.5 else [[0.1] * low_dim, [0.1] * low_n][::int(r.choice([-1, 1]))]
        low_good = [[0.1] * low_dim]
        bl = links[:-1] + [bad_id if bad_id is not None else nl + int(r.integers(0, 3)) + 2 * len(w.ref.names)]
        bj = (jid[:-1] if jid else []) + [bad_id if bad_id is not None else nj + int(r.integers(0, 3))]
        qj = np.zeros((1, len(bj) + NB[base]))
        forces = [1.0] * wrong_len(ctx, len(links))
        calls = [
            ("solve_fk of wrong length", lambda: m.solve_fk(bad, links, jid, rot, bt, wj)),
            ("solve_com_fk of wrong length", lambda: m.solve_com_fk(bad, jid, base_type=bt, with_jacobian=wj)),
            ("compute_inter_link_sqdists of wrong length", lambda: m.compute_inter_link_sqdists(bad, [(x, links[0]) for x in links], jid, bt, wj)),
            ("set_q of wrong length", lambda: m.set_q(jid, np.full(n, 0.5), bt)),
            ("compute_total_inertia_matrix of wrong length", lambda: m.compute_total_inertia_matrix(np.full(wrong_len(ctx, len(jid)), 0.5), jid)),
            ("solve_com_fk with forces that do not match", lambda: m.solve_com_fk(good, jid, links, forces, bt, wj)),
            ("solve_com_fk with forces but no links", lambda: m.solve_com_fk(good, jid, None, [1.0], bt, wj)),
            ("solve_com_fk with links but no forces", lambda: m.solve_com_fk(good, jid, links, None, bt, wj)),
            ("solve_fk with an unknown link id", lambda: m.solve_fk(good, bl, jid, rot, bt, wj)),
            ("solve_fk with a single unknown link id", lambda: m.solve_fk(good, bl[-1], jid, rot, bt, wj)),
            ("solve_fk with an unknown joint id", lambda: m.solve_fk(qj, links, bj, rot, bt, wj)),
            ("solve_com_fk with an unknown joint id", lambda: m.solve_com_fk(qj, bj, base_type=bt, with_jacobian=wj)),
            ("solve_com_fk with an unknown link id", lambda: m.solve_com_fk(good, jid, bl, [1.0] * len(bl), bt, wj)),
            ("compute_inter_link_sqdists with an unknown joint id", lambda: m.compute_inter_link_sqdists(qj, [(links[0], links[0])], bj, bt, wj)),
            ("compute_inter_link_sqdists with an unknown link id", lambda: m.compute_inter_link_sqdists(good, [(bl[-1], links[0]), (links[0], bl[-1])][::int(r.choice([-1, 1]))], jid, bt, wj)),
            ("set_q with an unknown joint id", lambda: m.set_q(bj, qj[0], bt)),
            ("get_q with an unknown joint id", lambda: m.get_q(bj, bt)),
            ("get_joint_limits with an unknown joint id", lambda: m.get_joint_limits(bj)),
            ("compute_total_inertia_matrix with an unknown joint id", lambda: m.compute_total_inertia_matrix(np.zeros(len(bj)), bj)),
            ("add_new_link with an unknown parent id", lambda: m.add_new_link("orphan", bl[-1], [0.0, 0, 0], [0.0, 0, 0])),
            ("add_new_link with a position of wrong length", lambda: m.add_new_link("orphan", links[0], [0.0] * wrong_len(ctx, 3))),
            ("add_new_link with an orientation of wrong length", lambda: m.add_new_link("orphan", links[0], [0.0] * 3, [0.0] * wrong_len(ctx, 3))),
            ("a file that is not there", lambda: KinematicModel(os.path.join(ctx.scratch or "/nonexistent", "no", "such.urdf"))),
            ("a directory as the file", lambda: KinematicModel(ctx.scratch or "/")),
            ("a file with no description", lambda: KinematicModel(bad_file(ctx, w))),
            ("an unparsable description", lambda: KinematicModel(xml_text=bad_xml(ctx, w))),
            ("RobotModel.set_base_pose of wrong length", lambda: direct.set_base_pose([0.1] * wrong_len(ctx, 6))),
            ("RobotModel.set_joint_angles of wrong length", lambda: direct.set_joint_angles(all_j, [0.1] * wrong_len(ctx, nj))),
            ("RobotModel.solve_forward_kinematics of wrong length", lambda: direct.solve_forward_kinematics(low_bad, links_of(direct, w), jid, rot.value, wb, wj, False)),
            ("RobotModel.solve_com_forward_kinematics of wrong length", lambda: direct.solve_com_forward_kinematics(low_bad, jid, [], [], wb, wj)),
            ("RobotModel.solve_com_forward_kinematics with forces that do not match", lambda: direct.solve_com_forward_kinematics(low_good, jid, [0, 0], [1.0] * wrong_len(ctx, 2), wb, wj)),
            ("RobotModel.compute_total_inertia_matrix of wrong length", lambda: direct.compute_total_inertia_matrix([0.1] * wrong_len(ctx, nj), all_j)),
            ("RobotModel.compute_inter_link_squared_dists of wrong length", lambda: direct.compute_inter_link_squared_dists(low_bad, [0], [0], jid, wb, wj, False)),
            ("RobotModel.compute_inter_link_squared_dists with lists that do not match", lambda: direct.compute_inter_link_squared_dists(low_good, [0, 0], [0] * wrong_len(ctx, 2), jid, wb, wj, False)),
        ]
        what, f = calls[r.integers(len(calls))]
        # an addition that fails must not have changed anything either
        brief(ctx, "%s: base %s, %d joints, %s; links %s ids %s" % (what, base, len(joints), show(bad), bl, bj))
        try:
            x = f()
        except Exception as e:  # noqa: BLE001
            ctx.count("rejected " + what)
            ctx.nontrivial("%s %s %s %d" % (what, type(e).__name__, base, n))
            ctx.evaluations += 1
        else:
            ctx.fail("accepted", "%s did not raise (%s base, %d joints, got %s)" % (what, base, len(joints), show(bad)[:300]))
        check_state(ctx, w, "after " + what)
        raises(ctx, lambda: m.get_link_ids(["orphan"]), "failed-call-took-effect", "looking up a link whose addition had failed, after " + what)
        if r.random() < 0.2:  # whatever name is given, the link is there or it is not
            odd = ODD_NAMES[r.integers(len(ODD_NAMES))]
            known = [x for x in [odd] if x in w.ref.names or x in odd_added]
            brief(ctx, "RobotModel.add_new_link(%r)" % odd)
            try:
                direct.add_new_link(odd, 0, [0.1, 0.2, 0.3], [0.0, 0, 0])
                ok = True
            except Exception:  # noqa: BLE001
                ok = False
            ctx.check(not (ok and known), "accepted", lambda: "a second link %r was accepted" % odd)
            ctx.count("odd_names")
            if ok:
                odd_added.append(odd)
            elif not known:
                raises(ctx, lambda: direct.get_link_ids([odd]), "failed-call-took-effect", "looking up the link %r, whose addition had failed" % odd)
        P, J = direct.solve_forward_kinematics(np.zeros((1, 0)), links_of(direct, w), [], low.RotationType.XYZW, False, False, False)
        fresh = Robot.clone(w.ref)
        fresh.q = {k: 0.0 for k in fresh.q}
        fresh.base = np.zeros(6)
        v = World.__new__(World)
        v.ctx, v.ref = ctx, fresh
        check_poses(ctx, v, P, J, [np.zeros(0)], list(range(fresh.n_original)), [], "XYZW", "FIXED", False, "the model at zero, after " + what)
    # still good for correct calls
    call_fk(ctx, w, True)
    ctx.sample(ctx.note[-1])


def links_of(direct, w):
    return direct.get_link_ids(w.ref.names[:w.ref.n_original])


def bad_file(ctx, w):
    f = os.path.join(ctx.scratch or "/tmp", "bad.urdf")
    with open(f, "w") as fp:
        fp.write("" if ctx.rng.random() < 0.3 else bad_xml(ctx, w))
    return f


def bad_xml(ctx, w):
    r = ctx.rng
    x = w.ref.xml()
    return ["<robot", "no xml", "<a/>", x[:len(x) // 2], x.replace("</robot>", ""), "<robot name='r'></robot>", x.replace("<parent", "<parents", 1),
            x.replace("link name=", "link nome=", 1)][r.integers(8)]


REGISTRY["W07"] = (run_w07, [lambda ctx: None], "one case: a random robot and up to 19 calls with one argument of wrong length or an unknown id; distinct by call, exception, base type and length")

import home  # noqa: E402
REGISTRY.update(home.REGISTRY)
