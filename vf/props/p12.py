"""P12 - location on the icosahedral mesh"""
import random
import numpy as np, z3
from .. import sdt, sym, snp, load
from ..contract import Contract, NS, Reject, Obl, oblige, decide
from ..snp import as_sarr
from ..load import Inv
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list

CONTRACTS, contract = contract_list()
ME = 'eustace.analysis.mesh.'
MESH, GEO, LOC, PYX = ME + 'mesh', ME + 'geometry', ME + 'locator', ME + 'locator_search_planes'
PRELOAD = (MESH, GEO, LOC, PYX)
BUDGET = dict(quick=dict(search=60), thorough=dict(search=400))
ASSUMPTIONS = ('arithmetic of the geometry proofs is real arithmetic; the bounded checks run the floating point code with tolerances of 1e-9 relative to the triangle',
               'triangles are not degenerate and their plane does not hold the origin (det(p0, p1, p2) < 0: clockwise from outside)')
U = np.uint64

# ------------------------------------------------------------------ the mesh, rebuilt independently
def root():
    """twelve vertices, twenty clockwise triangles"""
    g = (1 + 5 ** .5) / 2
    p = []
    for s in (1, -1):
        for t in (1, -1): p += [(s * g, t, 0), (t, 0, s * g), (0, s * g, t)]
    p = np.array(p, float); p /= np.linalg.norm(p, axis=1)[:, None]
    return p
def unit(v): return v / np.linalg.norm(v, axis=-1, keepdims=True)
def children(p0, p1, p2, project=True):
    f = unit if project else (lambda v: v)
    m01, m12, m20 = f((p0 + p1) / 2), f((p1 + p2) / 2), f((p2 + p0) / 2)
    return [(p0, m01, m20), (m01, p1, m12), (m20, m12, p2), (m12, m20, m01)]
def corners(mesh, t): return tuple(mesh.points[mesh.triangles[t, k].astype(int)] for k in (1, 2, 3))
def descend(mesh0, number, level, project=True):
    """corners of the triangle of this number, from the numbered triangles of the icosahedron"""
    b = int(number) >> 58
    tri = corners(mesh0, np.array([b])); tri = tuple(x[0] for x in tri)
    for l in range(1, level + 1): tri = children(*tri, project=project)[(int(number) >> (58 - 2 * l)) & 3]
    return tri
def weights(tri, v):
    """coefficients of the direction v in the corners, scaled to sum one"""
    w = np.linalg.solve(np.array(tri, np.longdouble).astype(float).T, v)
    return w / w.sum()
def directions(r, mesh, n):
    """points of the sphere, on purpose often at vertices, on edges and next to them"""
    out = []
    P = mesh.points; E = mesh.edges.astype(int)
    for _ in range(n):
        k = r.random()
        if k < .25: v = np.array([r.gauss(0, 1) for _ in range(3)])
        elif k < .5: v = P[r.randrange(len(P))].copy()
        elif k < .75:
            e = E[r.randrange(len(E))]; t = r.choice([.5, .25, r.random(), 1e-9]); v = t * P[e[0]] + (1 - t) * P[e[1]]
        else: v = np.array([r.choice([0, 0, 1, -1, .5, -1 / 3]) for _ in range(3)], float)
        if r.random() < .3: v = v + r.choice([1e-17, 1e-16, 2e-16, 1e-15, 1e-12, 1e-8]) * np.array([r.gauss(0, 1) for _ in range(3)])
        n2 = np.linalg.norm(v)
        if n2 > 1e-3: out.append(v / n2 * (r.choice([1, 1, 1, 2.5, .1]) if r.random() < .3 else 1))
    return np.array(out) if out else np.array([[0., 0., 1.]])

@contract
class Topology(Contract):
    """every level: the triangles are those of the level above cut in four at shared midpoints, numbered parent then child, all clockwise, and cover the sphere; every edge joins exactly its two triangles; no vertex is duplicated"""
    name = 'mesh.subdivision'; functions = tuple(MESH + ':' + f for f in ('MeshIcosahedron.build', 'MeshIcosahedron.golden_ratio_basis', 'MeshIcosahedron.rotate_y', 'MeshIcosahedron.inter_vertex_angle', 'MeshIcosahedronSubdivision.build', 'MeshIcosahedronSubdivision.subdivide'))
    prove = False; weight = .1
    assumptions = ('mesh.subdivision: levels 0 to 5 (20480 triangles), both orientations, with and without projection; deeper levels are not enumerated',)
    def setup(self, B): return NS(level=B.choice('level', [0, 1, 2, 3, 4, 5]), poles=B.choice('poles', [False, True]), project=B.choice('project', [True, True, False]))
    def run(self, M, a):
        m = M(MESH).MeshIcosahedronSubdivision
        top = m.build(a.level, project_onto_sphere=a.project, face_centre_at_poles=a.poles)
        up = m.build(a.level - 1, project_onto_sphere=a.project, face_centre_at_poles=a.poles) if a.level else None
        return top, up
    def post(self, C, a, out):
        m, up = out.value
        L = a.level
        P, T, E = m.points, m.triangles.astype(np.int64), m.edges.astype(np.int64)
        C.holds('level', int(m.level) == L)
        C.holds('counts', P.shape == (10 * 4 ** L + 2, 3) and T.shape == (20 * 4 ** L, 4) and E.shape == (30 * 4 ** L, 6))
        C.holds('corners_exist', T[:, 1:].min() >= 0 and T[:, 1:].max() < len(P) and len(np.unique(T[:, 1:])) == len(P))
        C.holds('no_duplicate_vertices', len(np.unique(np.round(P, 9), axis=0)) == len(P))
        if a.project or L == 0: C.holds('on_sphere', np.allclose(np.linalg.norm(P, axis=1), 1, rtol=0, atol=1e-12))
        num = np.sort(T[:, 0].astype(np.uint64) >> U(58 - 2 * L))
        C.holds('numbers', np.array_equal(num, np.concatenate([(np.arange(4 ** L) + b * 4 ** L) for b in range(20)]).astype(np.uint64)) and not np.any(T[:, 0].astype(np.uint64) & U((1 << (58 - 2 * L)) - 1)))
        c = [P[T[:, k]] for k in (1, 2, 3)]
        C.holds('clockwise', bool(np.all(np.einsum('ij,ij->i', c[0], np.cross(c[1], c[2])) < 0)))
        # solid angles sum to the sphere, so the triangles cover it without overlap
        d = np.abs(np.einsum('ij,ij->i', c[0], np.cross(c[1], c[2])))
        n = [np.linalg.norm(x, axis=1) for x in c]
        den = n[0] * n[1] * n[2] + np.einsum('ij,ij->i', c[0], c[1]) * n[2] + np.einsum('ij,ij->i', c[1], c[2]) * n[0] + np.einsum('ij,ij->i', c[2], c[0]) * n[1]
        C.holds('cover', abs(2 * np.arctan2(d, den).sum() - 4 * np.pi) < 1e-8)
        # edges: side k of a triangle goes from corner k to corner k + 1; forwards in the first, backwards in the second triangle
        row = {int(x): i for i, x in enumerate(T[:, 0])}
        C.holds('edge_triangles', all(int(x) in row for x in E[:, 2]) and all(int(x) in row for x in E[:, 4]))
        r0, r1 = np.array([row[int(x)] for x in E[:, 2]]), np.array([row[int(x)] for x in E[:, 4]])
        C.holds('edge_sides', E[:, [3, 5]].min() >= 0 and E[:, [3, 5]].max() <= 2)
        C.holds('edge_forward', np.array_equal(T[r0, 1 + E[:, 3]], E[:, 0]) and np.array_equal(T[r0, 1 + (E[:, 3] + 1) % 3], E[:, 1]))
        C.holds('edge_backward', np.array_equal(T[r1, 1 + E[:, 5]], E[:, 1]) and np.array_equal(T[r1, 1 + (E[:, 5] + 1) % 3], E[:, 0]))
        C.holds('edge_once', len(set(zip(np.r_[r0, r1].tolist(), np.r_[E[:, 3], E[:, 5]].tolist()))) == 60 * 4 ** L)
        if L == 0:
            C.holds('regular', np.allclose(np.linalg.norm(P[E[:, 0]] - P[E[:, 1]], axis=1), 2 / np.sqrt(1 + ((1 + 5 ** .5) / 2) ** 2), atol=1e-12))
            if a.poles: C.holds('face_at_pole', bool(np.any(np.all(np.abs(unit(sum(c))[:, :2]) < 1e-9, axis=1))))
            return
        # children of every triangle of the level above, corner by corner
        V = up.triangles.astype(np.int64)
        C.holds('parent_vertices_kept', np.allclose(P[:len(up.points)], up.points, rtol=0, atol=1e-15))
        q = children(*[up.points[V[:, k]] for k in (1, 2, 3)], project=a.project)
        for k in range(4):
            t = np.array([row.get(int(x) | (k << (58 - 2 * L)), -1) for x in V[:, 0]])
            C.holds('child_%d_exists' % k, bool(np.all(t >= 0)))
            C.holds('child_%d_corners' % k, all(np.allclose(P[T[t, 1 + j]], q[k][j], rtol=0, atol=1e-12) for j in range(3)))

# ------------------------------------------------------------------ exhaustive search
def dot3(p, n): return p[0] * n[0] + p[1] * n[1] + p[2] * n[2]
def row(A, j): return [A.elem(j, k) if hasattr(A, 'elem') else A[int(j), k] for k in range(3)]

@contract
class SearchPlanes(Contract):
    """each point gets the first triangle whose three planes it is not outside of; a point outside of all keeps its index"""
    name = 'locator_search_planes'; functions = (PYX + ':locator_search_planes_exhaustive',)
    weight = 2
    def setup(self, B):
        m, n = B.size('m', 0, 6), B.size('n', 0, 5)
        g = lambda r, *k: float(r.choice([-1, 0, 1, .5, -.5]))
        a = NS(m=m, n=n, ix=B.array('ix', (n,), 'i8', lo=-5, hi=50), v=B.array('v', (n, 3), 'f8', lo=-2, hi=2, gen=g))
        a.N = [B.array('n%d' % k, (m, 3), 'f8', lo=-2, hi=2, gen=g) for k in range(3)]
        a.old = a.ix.copy()
        a.symbolic = B.symbolic
        f = B.func('first', 1, 'i') if B.symbolic else None
        def first(j):
            if not B.symbolic: return next((i for i in range(m) if bool(self.inside(a, i, j))), m)
            x = f(j)
            sym.ctx().assume(And(x >= 0, x <= m, Or(Eq(x, m), self.inside(a, x, j))))
            return x
        a.first = first
        return a
    def inside(self, a, i, j):
        p = row(a.v, j)
        return And(*[dot3(p, row(N, i)) <= 0 for N in a.N])
    def minimal(self, a, i, j): sym.ctx().assume(Implies(And(i >= 0, i < a.first(j)), Not(self.inside(a, i, j))))
    def want(self, a, j): return If(a.first(j) < a.m, a.first(j), a.old.elem(j) if a.symbolic else a.old[int(j)])
    def get_invariants(self, B, a):
        def inv(view):
            if view.ordinal == 0:
                return Inv(arrays=[(a.ix, lambda j: If(j < view.k, self.want(a, j), a.old.elem(j)))])
            j = view.entry['j']
            self.minimal(a, view.k, j)
            return Inv(facts=[a.first(j) >= view.k])
        return {'*': inv}
    def run(self, M, a):
        M(PYX).locator_search_planes_exhaustive(a.ix, a.N[0], a.N[1], a.N[2], a.v)
        return a.ix
    def post(self, C, a, out):
        ix = out.value
        C.forall('first_containing', (a.n,), lambda j: Eq(ix.elem(j) if a.symbolic else ix[int(j)], self.want(a, j)))

def triangle(B, a):
    g = lambda r: r.choice([-1., 1., .5, r.uniform(-2, 2), r.uniform(-1, 1)])
    a.p = [[B.real('p%d%d' % (i, k), gen=g) for k in range(3)] for i in range(3)]
    a.w = [B.real('w%d' % i, gen=lambda r: r.choice([0., 0., 1., r.uniform(-1, 1), r.uniform(0, 2)])) for i in range(3)]
    det = dot3(a.p[0], cr(a.p[1], a.p[2]))
    B.assume(det < 0 if B.symbolic else det < -1e-3)
    a.det = det
    a.v = [sum_(a.w[i] * a.p[i][k] for i in range(3)) for k in range(3)]
def sum_(l):
    l = list(l); t = l[0]
    for x in l[1:]: t = t + x
    return t
def cr(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def array(B, rows): return snp.array(rows) if B.symbolic else np.array(rows, float)

@contract
class Located(Contract):
    """on a mesh, every direction (vertices, edges and next to them too) is in a triangle that contains it, and its weights there reproduce it"""
    name = 'locator.exhaustive'; functions = (LOC + ':TriangleLocator.__init__', LOC + ':TriangleLocator.locate_vector_indices_exhaustive', LOC + ':TriangleLocator.barycentric_coordinates_at_indices', GEO + ':barycentric_coordinates_planar')
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), level=B.choice('level', [0, 1, 2, 3]), poles=B.choice('poles', [False, True]))
    def run(self, M, a):
        r = random.Random(a.seed)
        a.mesh = M(MESH).MeshIcosahedronSubdivision.build(a.level, face_centre_at_poles=a.poles)
        l = M(LOC).TriangleLocator(a.mesh)
        a.v = directions(r, a.mesh, 12)
        if r.random() < .3: a.v = a.mesh.points.copy()
        i = l.locate_vector_indices_exhaustive(a.v)
        if np.any(i < 0): return i, None, None
        return i, l.barycentric_coordinates_at_indices(i, a.v), l.barycentric_coordinates_at_indices(i[:0], a.v[:0])
    def post(self, C, a, out):
        i, w, none = out.value
        C.holds('located', bool(np.all((i >= 0) & (i < len(a.mesh.triangles)))))
        C.holds('one_row_each', w.shape == (len(i), 3) and none.shape == (0, 3))
        c = corners(a.mesh, i)
        for k in range(len(i)): check_weights(C, [x[k] for x in c], a.v[k], w[k])

def check_weights(C, tri, v, w, tol=1e-9):
    e = weights(tri, v)
    side = np.linalg.norm(tri[0] - tri[1])
    C.holds('contains', bool(np.all(e >= -tol / side)))
    C.holds('weights_not_negative', bool(np.all(w >= 0)))
    C.holds('weights_sum_to_one', abs(w.sum() - 1) < 1e-9)
    C.holds('weights_reproduce', bool(np.all(np.abs(w - e) < max(1e-6 if side < 1e-3 else 0, tol / side))))

@contract
class Shapes(Contract):
    """arrays of other shapes are refused"""
    name = 'locator.shapes'; functions = (LOC + ':TriangleLocator.locate_vector_indices_exhaustive', LOC + ':TriangleLocator.barycentric_coordinates_at_indices')
    prove = False; weight = .3
    def setup(self, B): return NS(v=B.choice('v', [(3,), (2, 2), (2, 4), (1, 2, 3), (3, 1)]), i=B.choice('i', [(1,), (3,), (2, 1), (0,)]), which=B.choice('which', [0, 1, 2]))
    def run(self, M, a):
        l = M(LOC).TriangleLocator(M(MESH).MeshIcosahedron.build())
        if a.which == 0: return l.locate_vector_indices_exhaustive(np.ones(a.v))
        if a.which == 1: return l.barycentric_coordinates_at_indices(np.zeros((2,), int), np.ones(a.v))
        return l.barycentric_coordinates_at_indices(np.zeros(a.i, int), np.ones((2, 3)))
    def post(self, C, a, out): C.holds('refused', out.raises(ValueError))

@contract
class AtIndices(Contract):
    """the corners used for a point are those of its own triangle, in order"""
    name = 'locator.corners'; functions = (LOC + ':TriangleLocator.barycentric_coordinates_at_indices',)
    def setup(self, B):
        P, T, n = B.size('P', 1, 8), B.size('T', 1, 8), B.size('n', 1, 6)
        a = NS(B=B, n=n, points=B.array('points', (P, 3), 'f8', lo=-2, hi=2), tri=B.array('tri', (T, 4), 'i8', lo=0, hi=P - 1), ix=B.array('ix', (n,), 'i8', lo=0, hi=T - 1), v=B.array('v', (n, 3), 'f8', lo=-2, hi=2), log=[])
        return a
    def run(self, M, a):
        l = object.__new__(M(LOC).TriangleLocator)
        l.mesh = NS(points=a.points, triangles=a.tri)
        def f(*x): a.log.append(x); return 'value'
        return l.barycentric_coordinates_at_indices(a.ix, a.v, f) if a.B.symbolic else l.barycentric_coordinates_at_indices(a.ix, a.v, evaluation_method=f)
    def post(self, C, a, out):
        C.holds('value', out.value == 'value' and len(a.log) == 1 and a.log[0][3] is a.v)
        at = (lambda A, *k: A.elem(*k)) if C.symbolic else (lambda A, *k: A[tuple(int(x) for x in k)])
        for k in range(3):
            C.holds('one_corner_per_point', And(Eq(a.log[0][k].shape[0], a.n), Eq(a.log[0][k].shape[1], 3)))
            C.forall('corner_%d' % k, (a.n, 3), lambda j, c, k=k: Eq(at(a.log[0][k], j, c), at(a.points, at(a.tri, at(a.ix, j), k + 1), c)))

# ------------------------------------------------------------------ weights
def identity(name, x, y):
    """an identity of polynomials; then usable"""
    x, y = lift(x), lift(y)
    z = z3.simplify(x - y, som=True)
    oblige(name, wrapz(z == 0)); sym.ctx().assume(x == y)
def abstractly(name, facts, goal, terms):
    """the goal follows from facts known in this context, for any values of the terms; then usable"""
    for i, f in enumerate(facts): oblige('%s.fact%d' % (name, i), f)
    new = [z3.FreshReal('t') for _ in terms]
    sub = lambda f: z3.substitute(sym.zbool(f), *[(lift(t), x) for t, x in zip(terms, new)])
    r, m = decide([sub(f) for f in facts], sub(goal), 20000)
    sym.ctx().obls.append(Obl(name, 'discharged' if r == 'unsat' else 'unknown'))
    sym.ctx().assume(goal)

@contract
class Normals(Contract):
    """a direction is not outside of the plane of a side (which the search tests) exactly if its coefficient in the opposite corner is not negative"""
    name = 'locator.normals'; functions = (LOC + ':TriangleLocator.__init__', GEO + ':dividerows')
    weight = 2; timeout_ms = 20000
    def setup(self, B):
        a = NS(B=B); triangle(B, a)
        return a
    def run(self, M, a):
        l = M(LOC).TriangleLocator(M(MESH).Mesh(array(a.B, a.p), np.array([[0, 0, 1, 2]], U), None))
        return [l.normal0, l.normal1, l.normal2]
    def post(self, C, a, out):
        N = out.value
        for k, (x, y) in enumerate(((0, 1), (1, 2), (2, 0))):
            w = a.w[3 - x - y]
            if not C.symbolic:
                C.holds('unit', abs(np.linalg.norm(N[k][0]) - 1) < 1e-9)
                if abs(w) > 1e-6: C.holds('inside', (float(np.dot(a.v, N[k][0])) <= 0) == (w >= 0))
                continue
            c = cr(a.p[x], a.p[y]); z = 3 - x - y
            cc = sum_(i * i for i in c)
            L = wrapz(sym.zsqrt(lift(cc)))
            identity('normals.height', dot3(a.p[z], c), a.det); identity('normals.coefficient', dot3(a.v, c), w * a.det)
            some = Or(*[Not(Eq(i, 0)) for i in c])
            # (the height just established is negative, so the product of the sides cannot vanish)
            abstractly('normals.not_zero', [dot3(a.p[z], c) < 0], some, list(a.p[z]) + c)
            abstractly('normals.square', [some], cc > 0, c)
            abstractly('normals.length', [cc > 0, Implies(cc >= 0, And(L >= 0, Eq(L * L, cc)))], L > 0, [L, cc])
            n = [wrapz(lift(i) / lift(L)) for i in c]
            for i in range(3): C.holds('normalised', wrapz(z3.simplify(lift(N[k].elem(0, i)), som=True) == z3.simplify(lift(n[i]), som=True)))
            v = a.v
            abstractly('normals.product', [Eq(dot3(v, c), w * a.det), L > 0], Eq(dot3(v, n) * L, w * a.det), c + v + [L, a.det])
            abstractly('normals.sign', [Eq(dot3(v, n) * L, w * a.det), L > 0, a.det < 0], Eq(dot3(v, n) <= 0, w >= 0), n + v + [L, a.det])
            C.holds('inside', Eq(dot3(v, n) <= 0, w >= 0))

@contract
class Area(Contract):
    """the triangle of two corners and a point of the plane has the share of the whole area that is the point's weight of the third corner"""
    name = 'geometry.triangle_area_euclidean'; functions = (GEO + ':triangle_area_euclidean',)
    weight = 2; timeout_ms = 15000
    def setup(self, B):
        a = NS(B=B, side=B.choice('side', [0, 1, 2])); triangle(B, a)
        a.u = [a.w[0], a.w[1], 1 - a.w[0] - a.w[1]]
        for u in a.u: B.assume(u >= 0)
        return a
    def run(self, M, a):
        x, y = [(1, 2), (2, 0), (0, 1)][a.side]
        a.vp = [sum_(a.u[i] * a.p[i][k] for i in range(3)) for k in range(3)]
        return M(GEO).triangle_area_euclidean(*[array(a.B, [q]) for q in (a.p[x], a.p[y], a.vp)])
    def post(self, C, a, out):
        r = out.value
        d = lambda x, y: [p - q for p, q in zip(x, y)]
        n = cr(d(a.p[1], a.p[0]), d(a.p[2], a.p[0]))
        if not C.symbolic:
            C.holds('share', r.shape == (1,) and abs(r[0] - .5 * a.u[a.side] * np.linalg.norm(n)) < 1e-6)
            return
        x, y = [(1, 2), (2, 0), (0, 1)][a.side]
        c = cr(d(a.p[y], a.p[x]), d(a.vp, a.p[x]))
        u, nn, cc = a.u[a.side], sum_(i * i for i in n), sum_(i * i for i in c)
        for k in range(3): identity('area.normal', c[k], u * n[k])
        abstractly('area.square', [Eq(c[k], u * n[k]) for k in range(3)], Eq(cc, u * u * nn), c + n + [u])
        root, whole = wrapz(sym.zsqrt(lift(cc))), wrapz(sym.zsqrt(lift(nn)))
        abstractly('area.root', [Eq(cc, u * u * nn), cc >= 0, nn >= 0, u >= 0, And(root >= 0, Eq(root * root, cc)), And(whole >= 0, Eq(whole * whole, nn))], Eq(root, u * whole), [root, whole, cc, nn, u])
        got = r.elem(0)
        C.holds('share', Or(wrapz(z3.simplify(lift(got) - lift(root * .5), som=True) == 0), Eq(got, u * whole * .5)))

@contract
class Planar(Contract):
    """for a direction in the triangle: the weights are its coefficients scaled to sum one, so they are not negative and the weighted corners lie along it"""
    name = 'geometry.barycentric_coordinates_planar'; functions = tuple(GEO + ':' + f for f in ('barycentric_coordinates_planar', 'scalerows', 'dividerows'))
    weight = 2; timeout_ms = 15000
    assumptions = ('geometry.barycentric_coordinates_planar: triangle_area_euclidean as proved by its own contract (share of the area = weight of the third corner)',)
    def setup(self, B):
        a = NS(B=B); triangle(B, a)
        for w in a.w: B.assume(w >= 0)
        B.assume(sum_(a.w) > (0 if B.symbolic else 1e-3))
        return a
    def stubs(self, B, a):
        if not B.symbolic: return {}
        a.size = B.real('size'); B.assume(a.size > 0)
        a.known = False
        def area(x, y, z):
            s = sum_(a.w)
            d = lambda x, y: [p - q for p, q in zip(x, y)]
            n = cr(d(a.p[1], a.p[0]), d(a.p[2], a.p[0]))
            top, bottom = dot3(a.p[0], n), dot3(a.v, n)
            K = wrapz(lift(top) / lift(bottom))
            if not a.known:
                identity('planar.height', top, a.det); identity('planar.scale', bottom, s * top)
                abstractly('planar.factor', [Eq(bottom, s * top), top < 0, s > 0], Eq(K * s, 1), [top, bottom])
                a.known = True
            corner = lambda q: next((i for i in range(3) if all(z3.is_true(z3.simplify(lift(q.elem(0, k)) == lift(a.p[i][k]))) for k in range(3))), None)
            i, j = corner(as_sarr(x)), corner(as_sarr(y))
            if i is None or j is None or i == j: raise sym.OutOfSubset('area of other points')
            for k in range(3):
                e = as_sarr(z).elem(0, k)
                if not z3.is_true(z3.simplify(z3.simplify(lift(e), som=True) == z3.simplify(lift(K * a.v[k]), som=True))):
                    oblige('planar.point_in_plane', Eq(e * s, a.v[k]))      # the point handed over is the direction's point in the plane
                else: abstractly('planar.point_in_plane', [Eq(K * s, 1)], Eq(K * a.v[k] * s, a.v[k]), [K, a.v[k]])
            return snp.array([wrapz(lift(a.w[3 - i - j]) / lift(s)) * a.size * .5])
        return {GEO + ':triangle_area_euclidean': area}
    def run(self, M, a): return M(GEO).barycentric_coordinates_planar(*[array(a.B, [p]) for p in a.p], array(a.B, [a.v]))
    def post(self, C, a, out):
        r = out.value; s = sum_(a.w)
        if not C.symbolic:
            C.holds('shape', r.shape == (1, 3))
            for i in range(3): C.holds('weight_%d' % i, abs(r[0, i] - a.w[i] / s) < 1e-6)
            return
        for i in range(3): C.holds('weight_%d' % i, Eq(r.elem(0, i) * s, a.w[i]))

@contract
class SubNumber(Contract):
    """every point goes to the first corner triangle whose line it is not short of, else to the middle one"""
    name = 'locator.triangle_barycentre_subdivision_number'; functions = (LOC + ':TriangleLocatorHierarchical.triangle_barycentre_subdivision_number',)
    weight = 2
    def setup(self, B):
        n = B.size('n', 0, 7)
        return NS(B=B, n=n, b=B.array('b', (n, 3), 'f8', lo=-1, hi=2, gen=lambda r, *k: r.choice([0., .25, .5, 1., r.random()])))
    def run(self, M, a): return M(LOC).TriangleLocatorHierarchical.triangle_barycentre_subdivision_number(a.b)
    def number(self, a, j):
        x = row(a.b, j)
        return If(x[0] - x[1] - x[2] >= 0, 0, If(x[1] - x[2] - x[0] >= 0, 1, If(x[2] - x[0] - x[1] >= 0, 2, 3)))
    def post(self, C, a, out):
        r = out.value
        if not C.symbolic:
            C.holds('one_each', r.shape == (a.n,) and r.dtype == np.uint64)
            C.forall('number', (a.n,), lambda j: int(r[j]) == self.number(a, j))
            return
        q = next((q for q in getattr(sym.ctx(), 'compressions', []) if len(q.shape) == 1), None)
        use = None
        if q is not None:                       # one entry per row of four: the k-th entry found is in row k
            def H(k):
                for x in range(4): q.before(4 * k + x)
                return Eq(q.before(4 * k), k)
            use = C.induction('one_per_row', a.n, H)
            use(a.n)
        C.holds('one_each', Eq(r.shape[0], a.n))
        def number(j):
            if use: use(j)
            return Eq(r.elem(j), self.number(a, j))
        C.forall('number', (a.n,), number)

@contract
class SubTriangle(Contract):
    """the corners become those of the chosen child: two midpoints and the corner, or three midpoints, on the sphere"""
    name = 'locator.triangle_points_to_subtriangle'; functions = (LOC + ':TriangleLocatorHierarchical.triangle_points_to_subtriangle', GEO + ':dividerows')
    weight = 2
    def setup(self, B):
        n = B.size('n', 0, 6)
        g = lambda r, *k: r.choice([1., -1., .5, r.uniform(.1, 2)])
        a = NS(B=B, n=n, p=[B.array('p%d' % k, (n, 3), 'f8', lo=-2, hi=2, gen=g) for k in range(3)], s=B.array('s', (n,), 'u8' if not B.symbolic else 'i8', lo=0, hi=3))
        a.old = [x.copy() for x in a.p]
        return a
    def run(self, M, a):
        r = M(LOC).TriangleLocatorHierarchical.triangle_points_to_subtriangle(a.p[0], a.p[1], a.p[2], a.s)
        return r
    def post(self, C, a, out):
        out.value
        if not C.symbolic:
            for j in range(a.n):
                q = children(*[x[j] for x in a.old], project=False)[int(a.s[j])]
                if any(np.linalg.norm(x) < 1e-6 for x in q): continue
                C.holds('corners', all(np.allclose(a.p[k][j], unit(q[k]), rtol=0, atol=1e-12) for k in range(3)))
            return
        def corner(k, j, n):
            P = [lambda i, x=x: x.elem(j, i) for x in a.old]
            mid = lambda x, y: (lambda i: (P[x](i) + P[y](i)) * .5)
            pick = [[P[0], mid(0, 1), mid(0, 2), mid(1, 2)], [mid(0, 1), P[1], mid(1, 2), mid(0, 2)], [mid(0, 2), mid(1, 2), P[2], mid(0, 1)]][k]
            return [pick[n](i) for i in range(3)]
        for k in range(3):
            def goal(j, k=k):
                out = []
                for n in range(4):
                    v = corner(k, j, n)
                    for c in range(3):
                        want = lift(v[c]) / sym.zsqrt(lift(sum_(x * x for x in v)))
                        got = z3.substitute(lift(a.p[k].elem(j, c)), (lift(a.s.elem(j)), z3.IntVal(n)))
                        out.append(Implies(Eq(a.s.elem(j), n), wrapz(z3.simplify(got, som=True) == z3.simplify(want, som=True))))
                return And(*out)
            C.forall('corner_%d' % k, (a.n,), goal)

@contract
class SubWeights(Contract):
    """weights in the child reproduce the same point of the plane and are not negative in the child the number names"""
    name = 'locator.triangle_barycentre_subdivide'; functions = (LOC + ':TriangleLocatorHierarchical.triangle_barycentre_subdivide',)
    def setup(self, B):
        n = B.size('n', 0, 6)
        return NS(B=B, n=n, b=B.array('b', (n, 3), 'f8', lo=0, hi=2, gen=lambda r, *k: r.choice([0., .25, .5, r.random()])), s=B.array('s', (n,), 'u8' if not B.symbolic else 'i8', lo=0, hi=3))
    def run(self, M, a): return M(LOC).TriangleLocatorHierarchical.triangle_barycentre_subdivide(a.b, a.s)
    def post(self, C, a, out):
        r = out.value
        near = (lambda x, y: Eq(x, y)) if C.symbolic else (lambda x, y: abs(x - y) < 1e-12)
        C.holds('shape', And(Eq(r.shape[0], a.n), Eq(r.shape[1], 3)))
        s = (lambda j: a.s.elem(j)) if C.symbolic else (lambda j: int(a.s[j]))
        # corners of child k in the corners of the triangle
        K = [[(1, 0, 0), (.5, .5, 0), (.5, 0, .5)], [(.5, .5, 0), (0, 1, 0), (0, .5, .5)], [(.5, 0, .5), (0, .5, .5), (0, 0, 1)], [(0, .5, .5), (.5, 0, .5), (.5, .5, 0)]]
        for c in range(3):
            def same(j, c=c):
                x, y = row(a.b, j), row(r, j)
                t = [sum_(y[i] * K[k][i][c] for i in range(3)) for k in range(4)]
                return near(If(Eq(s(j), 0), t[0], If(Eq(s(j), 1), t[1], If(Eq(s(j), 2), t[2], t[3]))), x[c])
            C.forall('reproduces_%d' % c, (a.n,), same)
        def positive(j):
            x, y = row(a.b, j), row(r, j)
            inside = [x[0] >= x[1] + x[2], x[1] >= x[2] + x[0], x[2] >= x[0] + x[1]]
            mid = And(*[Not(i) for i in inside])
            ok = Or(*[And(Eq(s(j), k), i) for k, i in enumerate(inside)], And(Eq(s(j), 3), mid))
            return Implies(And(ok, *[i >= 0 for i in x]), And(*[i >= (0 if C.symbolic else -1e-12) for i in y]))
        C.forall('not_negative', (a.n,), positive)

@contract
class Hierarchical(Contract):
    """down to every level: the number names a triangle of the subdivided mesh that contains the direction, and the weights are those of that triangle; so also when weights by spherical areas are asked for"""
    name = 'locator.hierarchical'; functions = (LOC + ':TriangleLocatorHierarchical.locate_vector_hierarchical', LOC + ':TriangleLocatorHierarchical.triangle_points_to_subtriangle', LOC + ':TriangleLocatorHierarchical.triangle_barycentre_subdivision_number')
    prove = False; weight = 1.5
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), level=B.choice('level', [0, 1, 2, 3, 5, 9, 15, 22, 29]), poles=B.choice('poles', [False, True]), spherical=B.choice('spherical', [False, False, True]))
    def run(self, M, a):
        r = random.Random(a.seed)
        m = M(MESH)
        a.top = m.MeshIcosahedronSubdivision.build(0, face_centre_at_poles=a.poles)
        near = m.MeshIcosahedronSubdivision.build(min(a.level, 3), face_centre_at_poles=a.poles)
        a.v = directions(r, near, 10)
        before = a.top.points.copy()
        k = dict(evaluation_method=M(GEO).barycentric_coordinates_spherical) if a.spherical else {}
        if a.level == 29 and r.random() < .5 and not k: t = M(LOC).TriangleLocatorHierarchical(a.top).locate_vector_hierarchical(a.v)
        else: t = M(LOC).TriangleLocatorHierarchical(a.top).locate_vector_hierarchical(a.v, levels=a.level, **k)
        a.kept = np.array_equal(before, a.top.points)
        return t
    def post(self, C, a, out):
        t, w = out.value
        C.holds('mesh_kept', a.kept)
        C.holds('one_each', t.shape == (len(a.v),) and w.shape == (len(a.v), 3))
        for k in range(len(a.v)):
            n = int(t[k])
            C.holds('number', n >> 58 < 20 and not n & ((1 << (58 - 2 * a.level)) - 1))
            tri = descend(a.top, n, a.level)
            if not a.spherical: check_weights(C, tri, a.v[k], w[k]); continue
            e = weights(tri, a.v[k])
            C.holds('spherical_contains', bool(np.all(e >= -1e-9 / np.linalg.norm(tri[0] - tri[1]))))
            if a.level <= 5 and e.min() > 1e-3: C.holds('spherical_weights', bool(np.all(w[k] >= 0)) and abs(w[k].sum() - 1) < 1e-6)

@contract
class Geometry(Contract):
    """latitude and longitude to a direction and back; the centre of a circle is at the same distance of the three corners; areas"""
    name = 'geometry.conversions'; functions = tuple(GEO + ':' + f for f in ('cartesian_to_polar2d', 'polar2d_to_cartesian', 'triangle_circumcentre', 'triangle_area_euclidean', 'triangle_area_spherical', 'normalised_cross_product', 'vector_angle', 'norm2'))
    prove = False
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9))
    def run(self, M, a):
        r = np.random.RandomState(a.seed % 2**31); g = M(GEO); n = r.randint(1, 6)
        a.ll = np.column_stack([r.choice([-89.5, 0, 45, 89.5, 12.25, -60], n) + r.uniform(-.2, .2, n), r.uniform(-179.9, 179.9, n)])
        a.c = g.polar2d_to_cartesian(a.ll)
        a.back = g.cartesian_to_polar2d(a.c * r.choice([1., 2.5]))
        a.t = r.randn(n, 9)
        a.centre = g.triangle_circumcentre(a.t)
        p = [a.t[:, 0:3], a.t[:, 3:6], a.t[:, 6:9]]
        a.area = g.triangle_area_euclidean(*p)
        a.u = [unit(x) for x in p]
        N = [g.normalised_cross_product(a.u[0], a.u[1]), g.normalised_cross_product(a.u[1], a.u[2]), g.normalised_cross_product(a.u[2], a.u[0])]
        a.sph = g.triangle_area_spherical(*N); a.N = N
        a.angle = g.vector_angle(p[0], p[1])
        return True
    def post(self, C, a, out):
        out.value
        la, lo = np.radians(a.ll).T
        C.holds('direction', np.allclose(a.c, np.column_stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]), atol=1e-12))
        C.holds('and_back', np.allclose(a.back, a.ll, atol=1e-7))
        p = [a.t[:, 0:3], a.t[:, 3:6], a.t[:, 6:9]]
        d = [np.linalg.norm(x - a.centre, axis=1) for x in p]
        s = 1 + d[0]
        if np.all(np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0]), axis=1) > 0.1): C.holds('circumcentre', np.allclose(d[0], d[1], rtol=1e-6) and np.allclose(d[0], d[2], rtol=1e-6) and bool(np.all(np.abs(np.einsum('ij,ij->i', a.centre - p[0], np.cross(p[1] - p[0], p[2] - p[0]))) < 1e-6 * s)))
        C.holds('area', np.allclose(a.area, np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0]), axis=1) / 2))
        u = a.u
        det = np.einsum('ij,ij->i', u[0], np.cross(u[1], u[2]))
        ang = 2 * np.arctan2(np.abs(det), 1 + np.einsum('ij,ij->i', u[0], u[1]) + np.einsum('ij,ij->i', u[1], u[2]) + np.einsum('ij,ij->i', u[2], u[0]))
        C.holds('spherical_area', np.allclose(a.sph, ang, atol=1e-6))
        C.holds('angle', np.allclose(a.angle, np.degrees(np.arctan2(np.linalg.norm(np.cross(p[0], p[1]), axis=1), np.einsum('ij,ij->i', p[0], p[1]))), atol=1e-5))
