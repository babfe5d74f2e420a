"""P20 - hyperparameters are estimated by the marginal likelihood: its value, its true gradient, what is fed to the optimiser and how local estimates merge"""
import json, math, os, random, shutil, tempfile
import numpy as np
import scipy.sparse
from .. import sym, snp, smat, load
from ..contract import Contract, NS, Reject, oblige, oblige_forall
from ..load import Inv, SymSeq
from ..smat import SMat
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only
from .p15 import dense, col, small, quiet

CONTRACTS, contract = contract_list()
ADV = 'eustace.analysis.advanced_standard.'
CF, OP, SPA, QI, SD, LV, VI, OS, OI, LO, SL = [ADV + n for n in 'linalg.costfunction linalg.optimize linalg.sparse linalg.qinv components.spatialdelayed elements.local_view stats.spde.spherical_view optimizationsystem fileio.optimization_inputs elements.local linalg.linearsystem'.split()]
PRELOAD = (CF, OP, SPA, QI, SD, LV, VI, OS, OI)
F8 = np.float64
BUDGET = dict(quick=dict(search=60), thorough=dict(search=300))
ASSUMPTIONS = ['the sparse Cholesky factorisation (sksparse) solves the system it is given and returns the log determinant of its matrix',
               'd logdet(Q) = trace(Q^-1 dQ) and d(Q^-1) = -Q^-1 dQ Q^-1 (matrix calculus)',
               'the partial inverse agrees with the inverse wherever the precision is nonzero (decided by qinv, bounded), and precision derivatives are zero where the precision is',
               'floating-point sums and products are treated as exact real arithmetic in the proofs; the bounded search allows a relative difference of 1e-6 (1e-4 against numerical derivatives)']

# ------------------------------------------------------------------ the cost function

class Solver:
    """the factorisation of a matrix that is one generator"""
    def __init__(self, A):
        it = A.items() if isinstance(A, SMat) else []
        if len(it) != 1 or len(it[0][0]) != 1 or not (isinstance(it[0][1], int) and it[0][1] == 1) or it[0][0][0].inv is None: raise sym.OutOfSubset('factorisation of a composite matrix')
        g = it[0][0][0]
        self.inverse = SMat([((smat.Gen(g.inv, g.args, True, False, g.name),), 1)], A.shape)
        self.det = wrapz(sym.uf('logdet[%s]' % g.name, *([z.sort() for z in g.args] + [sym.RS]))(*g.args) if g.args else z3real('logdet[%s]' % g.name))
    def solve_A(self, b): return self.inverse.dot(b)
    __call__ = solve_A
    def logdet(self): return self.det
def z3real(n):
    import z3
    return z3.Real(n)
class Cholmod:
    @staticmethod
    def cholesky(A, **k): return Solver(A)
class Sksparse: cholmod = Cholmod
class Qinv:
    @staticmethod
    def Q_inv(Q, fQ=None): return (Solver(Q) if fQ is None else fQ).inverse

class Gauss:
    """a Gaussian process with precision Q(theta) observed m times; the likelihood is computed from the joint covariance of the observations"""
    def __init__(self, seed, n, npar, m):
        r = random.Random(seed); self.n, self.npar = n, npar
        base = np.array([[abs(small(r)) for _ in range(n)] for _ in range(n)])          # no cancellation: the pattern of each term lies inside that of the precision
        self.K = [np.eye(n) * (1.0 + r.random())] + [(lambda L: L.dot(L.T))(np.where(np.array([[r.random() < .5 for _ in range(n)] for _ in range(n)]), base, 0)) for _ in range(npar)]
        self.reps = []
        for _ in range(m):
            k = r.randint(1, n + 2)
            J = np.array([[small(r) * r.uniform(.9, 1.1) for _ in range(n)] for _ in range(k)]); R = np.diag([r.choice([.5, 1.0, 2.0, 4.0]) for _ in range(k)])
            self.reps.append(NS(J=J, R=R, y=np.array([small(r) for _ in range(k)]), mu=np.array([small(r) for _ in range(n)]), x=np.array([small(r) for _ in range(n)])))
        self.theta = np.array([r.choice([0.0, .3, -.5, 1.0]) for _ in range(npar)])
        self.theta2 = self.theta + np.array([r.choice([.2, -.4, .7]) for _ in range(npar)])
        self.scale = r.choice([1.0, 2.0, .5])
    def Q(self, theta, scale): return scipy.sparse.csc_matrix(scale * (self.K[0] + sum(math.exp(t) * K for t, K in zip(np.ravel(theta), self.K[1:]))))
    def dQ(self, theta, scale, p): return scipy.sparse.csc_matrix(scale * math.exp(np.ravel(theta)[p]) * self.K[1 + p])
    def nll(self, rep, theta):
        S = np.linalg.inv(dense(self.Q(theta, self.scale))); V = rep.J.dot(S).dot(rep.J.T) + np.linalg.inv(rep.R); d = rep.y - rep.J.dot(rep.mu)
        return .5 * np.linalg.slogdet(V)[1] + .5 * d.dot(np.linalg.solve(V, d))
    def gradient(self, rep, theta, h=1e-4):
        def at(p, e): t = np.array(theta, dtype=float); t[p] += e; return self.nll(rep, t)
        return np.array([(8 * (at(p, h) - at(p, -h)) - (at(p, 2 * h) - at(p, -2 * h))) / (12 * h) for p in range(self.npar)])
    def inc(self, rep): return rep.J.T.dot(rep.R).dot(rep.y), scipy.sparse.csc_matrix(rep.J.T.dot(rep.R).dot(rep.J))
def near(a, b, tol): return bool(np.allclose(a, b, rtol=tol, atol=tol * 10))

class Algebra:
    """the same process in the free algebra: precision Q with inverse P, posterior precision A(n) = Q + increment(n) with inverse S(n)"""
    def __init__(self, B, npar):
        self.p = p = B.size('p', 1); self.npar = npar
        self.Qm = SMat.gen('Q', (p, p), (), True, True, inv='P'); self.Pm = SMat.gen('P', (p, p), (), True, True, inv='Q')
        v = lambda nm: (lambda n: SMat.gen(nm, (p,), (n,), False, False))
        self.mu, self.i, self.x = v('mu'), v('i'), v('x')
        self.A = lambda n: SMat.gen('A', (p, p), (n,), True, True, inv='S'); self.S = lambda n: SMat.gen('S', (p, p), (n,), True, True, inv='A')
        self.D = lambda k: SMat.gen('D%s' % k, (p, p), (), True, True)
        self.inc = lambda n: self.A(n) - self.Qm
        self.theta = B.array('theta', (npar,), F8)
    def Q(self, theta, tag): oblige(self.label + '.model_arguments', And(theta is self.theta, tag == 'tag')); return self.Qm
    def dQ(self, theta, tag, k): oblige(self.label + '.model_arguments', And(theta is self.theta, tag == 'tag', isinstance(k, int) and 0 <= k < self.npar)); return self.D(k)
    # negative log marginal likelihood (up to what does not depend on the parameters), conditioned at x
    def nll(self, n):
        b = self.Qm.dot(self.mu(n)) + self.i(n); x = self.x(n)
        return (Solver(self.A(n)).logdet() - Solver(self.Qm).logdet()) / 2 + (self.mu(n).dot(self.Qm.dot(self.mu(n))) - b.dot(self.S(n).dot(b))) / 2 + x.dot(self.i(n)) - x.dot(self.inc(n).dot(x)) / 2
    def dnll(self, n, k):
        b = self.Qm.dot(self.mu(n)) + self.i(n); D = self.D(k); m = self.S(n).dot(b); db = D.dot(self.mu(n))
        tr = lambda M: M.diagonal().sum()
        # d(b'Sb) = 2 db'Sb - b'S D S b
        return (tr(self.S(n).dot(D)) - tr(self.Pm.dot(D))) / 2 + (self.mu(n).dot(D.dot(self.mu(n))) - (2 * db.dot(m) - m.dot(D.dot(m)))) / 2
SYMSTUBS = lambda: {CF + ':sksparse': Only(Sksparse), CF + ':qinv': Only(Qinv), SPA + ':qinv': Only(Qinv), SPA + ':cholmod': Only(Cholmod)}

@contract
class Cost(Contract):
    """differences of the cost are differences of the negative log marginal likelihood of the observations, whatever the set point; the gradient is its derivative"""
    name = 'cost.single'; functions = (CF + ':MarginalGaussianCF.cost_function', CF + ':MarginalGaussianCF.cost_derivative', CF + ':MarginalGaussianCF.gaussian_loglikelihood', CF + ':MarginalGaussianCF.gaussian_loglikelihood_derivative', SPA + ':trace_iQ_dQdp', CF + ':MarginalGaussianCF.__init__')
    search = True
    def setup(self, B):
        npar = B.choice('npar', [1, 2, 3])
        if B.symbolic: a = NS(G=Algebra(B, npar)); a.G.label = self.name; return a
        return NS(G=Gauss(B.int('seed', 0, 10**9), B.int('n', 1, 5), npar, 1), col=B.choice('col', [False, True]))
    def stubs(self, B, a): return SYMSTUBS() if B.symbolic else {}
    def run(self, M, a):
        G, F = a.G, M(CF).MarginalGaussianCF
        if isinstance(G, Algebra):
            f = F(G.x(0), G.Q, G.dQ); args = (G.mu(0), G.i(0), G.inc(0), ('tag',))
            return f.cost_function(G.theta, *args), f.cost_derivative(G.theta, *args)
        rep = G.reps[0]; i, q = G.inc(rep); c = (lambda v: np.asmatrix(v).T) if a.col else (lambda v: v.copy())
        f = F(c(rep.x), G.Q, G.dQ); args = (c(rep.mu), c(i), q, (G.scale,))
        g = F(c(rep.x + 1.5), G.Q, G.dQ)
        return quiet(lambda: (f.cost_function(G.theta, *args) - f.cost_function(G.theta2, *args), g.cost_function(G.theta, *args) - g.cost_function(G.theta2, *args), f.cost_derivative(G.theta, *args), g.cost_derivative(G.theta2, *args), np.array(args[0]), np.array(args[1]), dense(args[2])))
    def post(self, C, a, out):
        G, v = a.G, out.value
        if C.symbolic:
            C.holds('negative_log_marginal_likelihood', Eq(v[0], G.nll(0)))
            C.holds('gradient_has_an_entry_per_parameter', Eq(v[1].shape[0], G.npar))
            for k in range(G.npar): C.holds('gradient', Eq(elem(v[1], k), G.dnll(0, k)))
            return
        r = G.reps[0]
        want = G.nll(r, G.theta) - G.nll(r, G.theta2)
        C.holds('negative_log_marginal_likelihood', near(v[0], want, 1e-6)); C.holds('any_set_point', near(v[1], want, 1e-6))
        for g, t in ((v[2], G.theta), (v[3], G.theta2)): C.holds('gradient', np.shape(g) == (G.npar,) and near(g, G.gradient(r, t), 1e-4))
        i, q = G.inc(r)
        C.holds('inputs_kept', np.array_equal(v[4].ravel(), r.mu) and np.array_equal(v[5].ravel(), i) and np.array_equal(v[6], dense(q)))

@contract
class Replicates(Contract):
    """replicates are independent: their costs and gradients add, each with its own observations, prior mean and set point"""
    name = 'cost.replicates'; functions = (CF + ':MarginalGaussianReplicateCF_InMemory.cost_function', CF + ':MarginalGaussianReplicateCF_InMemory.cost_derivative', CF + ':MarginalGaussianCF.gaussian_loglikelihood', CF + ':MarginalGaussianCF.gaussian_loglikelihood_derivative', SPA + ':trace_iQ_dQdp')
    def setup(self, B):
        npar = B.choice('npar', [1, 2, 3])
        if B.symbolic:
            a = NS(G=Algebra(B, npar), m=B.size('m', 1)); G = a.G; G.label = self.name
            a.total = B.fold('cost', lambda: 0, lambda k, v: v + G.nll(k), 'r', 0)
            a.dtotal = [B.fold('gradient%d' % q, lambda: 0, lambda k, v, q=q: v + G.dnll(k, q), 'r', 0) for q in range(npar)]
            return a
        m = B.int('m', 1, 4)
        return NS(G=Gauss(B.int('seed', 0, 10**9), B.int('n', 1, 5), npar, m), m=m)
    def stubs(self, B, a): return SYMSTUBS() if B.symbolic else {}
    def get_invariants(self, B, a):
        G = a.G
        def cost(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, (int, float)) and v == 0 and not isinstance(v, bool) and n in view.locals and n != 'likelihood_term']
            return Inv(locals={acc[0]: a.total(view.k)} if len(acc) == 1 else {}, facts=[] if len(acc) == 1 else [False])
        def der(view):
            arrs = [v for v in view.entry.values() if isinstance(v, snp.SArr) and v.ndim == 1 and v is not G.theta]
            def fn(q):
                out = a.dtotal[-1](view.k)
                for j in range(G.npar - 1): out = If(Eq(q, j), a.dtotal[j](view.k), out)
                return out
            return Inv(arrays=[(arrs[0], fn)]) if len(arrs) == 1 else Inv(facts=[False])
        return {CF + ':MarginalGaussianReplicateCF_InMemory.cost_function': cost, CF + ':MarginalGaussianReplicateCF_InMemory.cost_derivative': der, 'MarginalGaussianReplicateCF_InMemory.cost_function': cost, 'MarginalGaussianReplicateCF_InMemory.cost_derivative': der}
    def run(self, M, a):
        G = a.G; f = M(CF).MarginalGaussianReplicateCF_InMemory(G.Q, G.dQ)
        if isinstance(G, Algebra):
            args = [SymSeq(a.m, s) for s in (G.x, G.mu, G.i, G.inc)] + [('tag',)]
            return quiet(lambda: (f.cost_function(G.theta, *args), f.cost_derivative(G.theta, *args)))
        i, q = zip(*[G.inc(r) for r in G.reps])
        args = ([r.x.copy() for r in G.reps], [r.mu.copy() for r in G.reps], list(i), list(q), (G.scale,))
        return quiet(lambda: (f.cost_function(G.theta, *args) - f.cost_function(G.theta2, *args), f.cost_derivative(G.theta, *args)))
    def post(self, C, a, out):
        G, v = a.G, out.value
        if C.symbolic:
            C.holds('sum_over_replicates', Eq(v[0], a.total(a.m)))
            C.holds('gradient_has_an_entry_per_parameter', Eq(v[1].shape[0], G.npar))
            for k in range(G.npar): C.holds('gradient_sum_over_replicates', Eq(elem(v[1], k), a.dtotal[k](a.m)))
            return
        C.holds('sum_over_replicates', near(v[0], sum(G.nll(r, G.theta) - G.nll(r, G.theta2) for r in G.reps), 1e-6))
        C.holds('gradient_sum_over_replicates', np.shape(v[1]) == (G.npar,) and near(v[1], sum(G.gradient(r, G.theta) for r in G.reps), 1e-4))

# ------------------------------------------------------------------ partial inverses

def precision(r, n):
    """symmetric positive definite with a random pattern; half of them with exact cancellations in the factor"""
    L = np.eye(n)
    for i in range(n):
        for j in range(i):
            if r.random() < r.choice([.2, .5]): L[i, j] = r.choice([.5, -.5, 1, -1]) if r.random() < .7 else r.uniform(-1, 1)
    Q = L.dot(L.T)
    if r.random() < .3:
        for i in range(n):
            for j in range(i):
                if r.random() < .5: Q[i, j] = Q[j, i] = 0
        Q = Q + np.eye(n) * n * 2
    p = list(range(n)); r.shuffle(p)
    return Q[np.ix_(p, p)]

@contract
class PartialInverse(Contract):
    """equal to the inverse wherever the precision is nonzero; traces against derivatives, and marginal variances, follow"""
    name = 'qinv'; functions = (QI + ':Q_inv', SPA + ':trace_iQ_dQdp', SPA + ':marginal_variance_Q_inv')
    prove = False; weight = 4
    assumptions = ('the partial inverse (Cython over an external factorisation) is exercised on precisions of up to 9 unknowns with random patterns (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), n=B.int('n', 1, 9))
    def run(self, M, a):
        import sksparse.cholmod as ch
        r = random.Random(a.seed); a.Q = Q = precision(r, a.n); q = scipy.sparse.csc_matrix(Q); keep = q.copy()
        f = ch.cholesky(q)
        S = M(QI).Q_inv(q); S2 = M(QI).Q_inv(q, f)
        a.D = D = np.where(Q != 0, np.array([[r.choice([1.0, -2.0, .5, 0.0]) for _ in range(a.n)] for _ in range(a.n)]), 0); D = D + D.T; a.D = D
        d = scipy.sparse.csc_matrix(D); T = M(SPA).trace_iQ_dQdp
        rows = [i for i in range(a.n)]
        # designs that touch neighbouring unknowns only
        A = np.zeros((3, a.n))
        for k in range(3):
            i = r.randrange(a.n); nb = [j for j in range(a.n) if Q[i, j] != 0 and j != i]
            A[k, i] = r.choice([1.0, .5, -1.0])
            if nb: A[k, r.choice(nb)] = .25
        a.A = A
        return dense(S), dense(S2), [T(q, d), T(q, d, fQ=f), T(q, d, fQ=f, iQp=S), T(q, d, iQp=S)], np.asarray(M(SPA).marginal_variance_Q_inv(q)).ravel(), (keep != q).nnz
    def post(self, C, a, out):
        S, S2, t, v, changed = out.value
        I = np.linalg.inv(a.Q); tol = 1e-7 * (1 + np.abs(I).max())
        for s in (S, S2): C.holds('inverse_on_the_pattern', s.shape == I.shape and bool(np.abs(np.where(a.Q != 0, s - I, 0)).max() < tol))
        C.holds('symmetric', np.allclose(S, S.T))
        for x in t: C.holds('trace', near(x, np.trace(I.dot(a.D)), 1e-7))
        C.holds('marginal_variance', near(v, np.diag(I), 1e-7)); C.holds('input_kept', changed == 0)
@contract
class MarginalOfDesign(Contract):
    """the variance of a linear combination is that under the full inverse, or the request is refused"""
    name = 'marginal_variance'; functions = (SPA + ':marginal_variance_Q_inv',)
    prove = False; weight = 2
    assumptions = ('exercised on precisions of up to 9 unknowns with random patterns (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), n=B.int('n', 1, 9))
    def run(self, M, a):
        r = random.Random(a.seed); a.Q = precision(r, a.n)
        a.A = np.array([[r.choice([0, 0, 0, 1.0, .5]) for _ in range(a.n)] for _ in range(3)])
        return np.asarray(M(SPA).marginal_variance_Q_inv(scipy.sparse.csc_matrix(a.Q), scipy.sparse.csr_matrix(a.A))).ravel()
    def post(self, C, a, out):
        need = a.A.T.dot(a.A) != 0
        if out.raised: C.holds('refused_only_outside_the_pattern', bool((need & (np.abs(a.Q) == 0)).any()) or bool((np.abs(np.linalg.inv(a.Q))[need] < 1e-9).any())); return
        C.holds('variance', near(out.value, np.diag(a.A.dot(np.linalg.inv(a.Q)).dot(a.A.T)), 1e-7))

# ------------------------------------------------------------------ optimisation

class Minimizer:
    def __init__(self, a): self.a = a
    @property
    def optimize(self): return self
    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        self.a.call = NS(fun=fun, x0=x0, args=args, method=method, jac=jac, tol=tol, options=options)
        for p in self.a.path: callback(p)
        return self.a.result
@contract
class Optimize(Contract):
    """the optimiser minimises the given cost with its own derivative and arguments from the given start; the path and the result are kept"""
    name = 'optimizer'; functions = (OP + ':Optimizer.__init__', OP + ':Optimizer.fit', OP + ':Optimizer.reporter')
    weight = .3
    def setup(self, B): return NS(path=[B.array('p%d' % k, (2,), F8) for k in range(B.int('steps', 0, 3) if not B.symbolic else 2)], start=B.array('start', (2,), F8), args=('u', 'v'), result=NS(), verbose=B.choice('verbose', [False, True]), given=B.choice('given', [False, True]))
    def stubs(self, B, a): return {OP + ':scipy': Only(Minimizer(a))}
    def run(self, M, a):
        a.cost = NS(cost_function=object(), cost_derivative=object())
        k = dict(method='X', tol=.5, options={'o': 1}) if a.given else {}
        o = M(OP).Optimizer(a.start, a.cost, cost_function_args=a.args, verbose=a.verbose, **k)
        quiet(o.fit); quiet(o.fit)
        return o
    def post(self, C, a, out):
        o, c = out.value, a.call
        C.holds('cost', c.fun is a.cost.cost_function); C.holds('derivative', c.jac is a.cost.cost_derivative)
        C.holds('start', c.x0 is a.start); C.holds('arguments', tuple(c.args) == a.args)
        if a.given: C.holds('method', c.method == 'X' and c.tol == .5 and c.options == {'o': 1})
        C.holds('result', o.result is a.result)
        C.holds('path', len(o.optim_path) == len(a.path) + 1 and o.optim_path[0] is a.start and all(x is y for x, y in zip(o.optim_path[1:], a.path)))

@contract
class ComponentOptimize(Contract):
    """every stored time step is a replicate with its own update and state; the component's model is evaluated at the tried values; the estimate is kept only on success"""
    name = 'component.optimize'; functions = (SD + ':DelayedSpatialComponentSolution.optimize',)
    prove = False
    assumptions = ('up to 5 stored time steps, 4 unknowns (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), m=B.int('m', 1, 5), p=B.int('p', 1, 4), ok=B.choice('ok', [True, False]))
    def stubs(self, B, a):
        class Opt:
            def __init__(s, initial, cost, *x, **k):
                a.initial, a.cost = np.array(initial), cost; a.args = k.get('cost_function_args')
                s.optim_path = []; s.result = NS(success=a.ok, x=np.array([5.0, 6.0]))
            def fit(s):
                # the optimiser tries some values
                a.tried = [(a.cost.Q_function(np.array([1.0, 2.0]), *a.args[4]), a.cost.dQ_function(np.array([3.0, 4.0]), *(a.args[4] + (1,))))]
        return {OP + ':Optimizer': Opt}
    def run(self, M, a):
        r = random.Random(a.seed); p = a.p
        times = r.sample(range(30000), a.m); L = M(SL)
        a.u = {t: (scipy.sparse.csc_matrix(np.diag([float(r.randint(1, 9)) for _ in range(p)])), np.array([[small(r)] for _ in range(p)]), np.array([small(r) for _ in range(p)])) for t in times}; a.times = times
        class Store:
            def timeindices_read(s): return list(times)
            def measurement_read(s, t): return L.MeasurementUpdate(a.u[t][0], a.u[t][1])
            def partial_state_read(s, t): return a.u[t][2]
            state_read = partial_state_read
        class H:
            v = np.array([.25, .75])
            def get_array(s): return s.v.copy()
            def set_array(s, x): s.v = np.array(x)
        h = H()
        class E:
            def isnonlinear(s): return False
            def element_prior(s, hyper):
                x = hyper.get_array().copy()
                return NS(prior_precision=lambda: ('Q', tuple(x)), prior_precision_derivative=lambda k: ('dQ', tuple(x), k))
        quiet(lambda: M(SD).DelayedSpatialComponentSolution(E(), h, Store()).optimize())
        return h.get_array()
    def post(self, C, a, out):
        x, mu, i, q, _ = a.args
        same = len(x) == len(mu) == len(i) == len(q) == a.m
        C.holds('a_replicate_per_step', same)
        for k, t in enumerate(a.times):
            P, v, s = a.u[t]
            C.holds('own_information', np.array_equal(dense(q[k]), dense(P)) and np.array_equal(np.atleast_1d(i[k]).ravel(), v.ravel()))
            C.holds('own_state_as_set_point', np.array_equal(np.ravel(x[k]), s)); C.holds('zero_prior_mean', np.shape(mu[k]) == np.shape(s) and not np.any(mu[k]))
        C.holds('model_at_tried_values', a.tried == [(('Q', (1.0, 2.0)), ('dQ', (3.0, 4.0), 1))])
        C.holds('starts_from_current_values', np.array_equal(a.initial, [.25, .75]))
        C.holds('kept_only_on_success', np.array_equal(out.value, [5.0, 6.0] if a.ok else [.25, .75]))

@contract
class Estimate(Contract):
    """end to end: the estimated values of a small local model are a stationary point of the likelihood of the observations given"""
    name = 'component.estimate'; functions = (SD + ':DelayedSpatialComponentSolution.optimize', OP + ':Optimizer.fit', CF + ':MarginalGaussianReplicateCF_InMemory.cost_function')
    prove = False; weight = .1
    assumptions = ('one model of 3 unknowns and 2 parameters, up to 4 replicates (bounded); the external minimiser is real',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), m=B.int('m', 2, 4))
    def run(self, M, a):
        L = M(SL); G = Gauss(a.seed, 3, 2, a.m); a.G = G
        class H:
            v = np.array([.25, .75])
            def get_array(s): return s.v.copy()
            def set_array(s, x): s.v = np.array(x)
        h = H()
        for rep in G.reps: rep.mu = np.zeros(3)
        class Store:
            def timeindices_read(s): return list(range(a.m))
            def measurement_read(s, t): i, q = G.inc(G.reps[t]); return L.MeasurementUpdate(q, i.reshape(-1, 1))
            def partial_state_read(s, t): return G.reps[t].x
        class E:
            def isnonlinear(s): return False
            def element_prior(s, hyper):
                x = hyper.get_array().copy()
                return NS(prior_precision=lambda: G.Q(x, G.scale), prior_precision_derivative=lambda k: G.dQ(x, G.scale, k))
        import numpy.linalg
        try: quiet(lambda: M(SD).DelayedSpatialComponentSolution(E(), h, Store()).optimize())
        except np.linalg.LinAlgError: raise Reject()
        except Exception as e:
            if 'cholmod' in type(e).__module__.lower(): raise Reject()
            raise
        return h.get_array()
    def post(self, C, a, out):
        G, v = a.G, out.value
        at = lambda t: sum(G.nll(r, t) for r in G.reps)
        start = np.array([.25, .75])
        if np.array_equal(v, start): return                         # not converged
        if np.abs(v).max() > 8: return                              # ran off to the edge of the model: no interior optimum
        g = sum(G.gradient(r, v) for r in G.reps)
        C.holds('stationary', np.abs(g).max() < 5e-3); C.holds('no_worse_than_the_start', at(v) <= at(start) + 1e-6)

# ------------------------------------------------------------------ merging of local estimates

@contract
class Merge(Contract):
    """at every vertex of the sphere the merged value is the mean over the views which contain it, equally weighted; every method and order of accumulation agrees"""
    name = 'merge'; functions = (VI + ':SphereMeshViewGlobal.merge_local_parameterisations', VI + ':SphereMeshViewGlobal.accumulate_local_parameterisations', VI + ':SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho', VI + ':SphereMeshViewGlobal.finalise_local_parameterisation_q', VI + ':SphereMeshView.get_vertex_mappings')
    prove = False; weight = .25
    assumptions = ('meshes up to level 2; up to 8 views besides those which cover the sphere (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), level=B.choice('level', [1, 2]))
    def run(self, M, a):
        r = random.Random(a.seed); V = M(VI)
        cover = [('s', 0, k) for k in range(20)] if r.random() < .7 else [('l', 0, k) for k in (0, 7, 12)]
        kinds = cover + [(r.choice('sl'), r.choice([0, 1]), None) for _ in range(r.randint(0, 8))]
        r.shuffle(kinds)
        views = [(V.SphereMeshViewSuperTriangle if k == 's' else V.SphereMeshViewLocal)(a.level, l, r.randrange(20 * 4**l) if i is None else i) for k, l, i in kinds]
        hyper = [np.array([r.uniform(-1, 2), r.uniform(-2, 1)]) for _ in views]
        glob = V.SphereMeshViewGlobal(a.level)
        n = a.n = glob.n_latent_variables()
        a.members = [[k for k, v in enumerate(views) if vertex in set(np.ravel(v.active_vertex_indices).tolist())] for vertex in range(n)]
        a.hyper = [h.copy() for h in hyper]
        acc = (None, None, None)
        for v, h in zip(views, hyper): acc = V.SphereMeshViewGlobal.accumulate_local_parameterisations(*(acc + (v, h)))
        with np.errstate(all='ignore'):
            first = r.random() < .5                # the accumulated sums can be finalised either way, in any order
            if first: q = V.SphereMeshViewGlobal.finalise_local_parameterisation_q(*acc)
            s = V.SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho(*acc)
            if not first: q = V.SphereMeshViewGlobal.finalise_local_parameterisation_q(*acc)
            d = glob.merge_local_parameterisations(views, hyper); e = glob.merge_local_parameterisations(views, hyper, merge_method='exp_average')
        return q, s, d, e, hyper
    def post(self, C, a, out):
        q, s, d, e, hyper = out.value
        on = [v for v in range(a.n) if a.members[v]]
        mean = lambda j, f: np.array([np.mean([f(a.hyper[k][j]) for k in a.members[v]]) for v in on])
        ap = lambda D, x: np.asarray(D.tocsr()[on].dot(np.where(np.isfinite(x), x, 0))).ravel()
        want = [np.log(mean(j, math.exp)) for j in (0, 1)]
        for j in (0, 1):
            C.holds('accumulated', np.allclose(np.asarray(s[j]).ravel()[on], want[j]))
            C.holds('parameters_and_designs', np.allclose(ap(q[1 + j], q[0]), want[j]))
            C.holds('average_of_exponentials', np.allclose(ap(e[1 + j], e[0]), want[j]))
            C.holds('average_of_logarithms', np.allclose(ap(d[1 + j], d[0]), mean(j, float)))
        C.holds('inputs_kept', all(np.array_equal(x, y) for x, y in zip(hyper, a.hyper)))

@contract
class Save(Contract):
    """expanded and combined hyperparameters survive get, set, save and load"""
    name = 'hyperparameters.save'; functions = (LV + ':ExpandedLocalHyperparameters.get_array', LV + ':ExpandedLocalHyperparameters.set_array', LV + ':ExpandedLocalHyperparameters.values_from_npy_savefile', LV + ':ExpandedLocalHyperparameters.values_to_npy_savefile', LV + ':ExtendedCombinationHyperparameters.values_from_npy_savefile', LV + ':ExtendedCombinationHyperparameters.values_to_npy_savefile')
    prove = False; weight = .3
    assumptions = ('up to 6 expanded values, 3 combined elements (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), n=B.int('n', 1, 6), m=B.int('m', 1, 3))
    def run(self, M, a):
        r = random.Random(a.seed); V = M(LV); LH = M(LO).LocalHyperparameters
        vec = lambda: np.array([r.uniform(-3, 3) for _ in range(a.n)])
        d = tempfile.mkdtemp()
        try:
            a.s, a.r = vec(), vec()
            h = V.ExpandedLocalHyperparameters(a.s.copy(), a.r.copy()); g = V.ExpandedLocalHyperparameters(vec(), vec())
            h.values_to_npy_savefile(d + '/e.npy'); g.values_from_npy_savefile(d + '/e.npy')
            a.c = [(r.uniform(-3, 3), r.uniform(-3, 3)) for _ in range(a.m)]
            parts = [LH(*c) for c in a.c]; new = [LH(0.0, 0.0) for _ in a.c]
            # an expanded part in the middle keeps its place
            at = r.randint(0, a.m); parts.insert(at, h); new.insert(at, V.ExpandedLocalHyperparameters(vec(), vec()))
            C0, C1 = V.ExtendedCombinationHyperparameters(parts), V.ExtendedCombinationHyperparameters(new)
            C0.values_to_npy_savefile(d + '/c.npy'); C1.values_from_npy_savefile(d + '/c.npy')
        finally: shutil.rmtree(d)
        n2 = new[:at] + new[at + 1:]
        return h.get_array(), g, [(x.log_sigma, x.log_rho) for x in n2], new[at]
    def post(self, C, a, out):
        arr, g, c, x = out.value
        C.holds('array', np.array_equal(arr, np.concatenate([a.s, a.r])))
        for y in (g, x): C.holds('expanded', np.array_equal(y.log_sigma, a.s) and np.array_equal(y.log_rho, a.r) and np.array_equal(y.get_array(), arr))
        C.holds('combined', [tuple(map(float, v)) for v in c] == a.c)

@contract
class Inputs(Contract):
    """the inputs described for a day are those used for that day, at that day's time index"""
    name = 'inputs'; functions = (OS + ':OptimizationSystem.process_inputs', OS + ':OptimizationSystem.update_component', OS + ':OptimizationSystem.optimize_component', OI + ':input_summary', OI + ':merge_input_summaries', OI + ':generate_input_descriptor')
    prove = False; weight = .3
    assumptions = ('up to 6 days with up to 3 sources each (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), m=B.int('m', 1, 6), save=B.choice('save', [True, False]))
    def stubs(self, B, a):
        class Loader:
            def __init__(s, time_index=None, **k): s.time_index, s.k = time_index, k
        return {OS + ':AnalysisSystemInputLoaderRawBinary_OneDay': Only(Loader)}
    def run(self, M, a):
        import datetime
        r = random.Random(a.seed); S = M(OS).OptimizationSystem
        days = [datetime.datetime(1850, 1, 1) + datetime.timedelta(days=d) for d in r.sample(range(60000), a.m)]
        a.src = {d: [dict(observable_filename='f%d' % r.randrange(99), bias=k) for k in range(r.randint(0, 3))] for d in days}
        d = tempfile.mkdtemp()
        try:
            files = []
            for k, day in enumerate(days):
                files.append('%s/x/%d.json' % (d, k)); M(OI).input_summary(day, files[-1], a.src[day])
            M(OI).merge_input_summaries(files, d + '/y/all.json')
            desc = M(OI).generate_input_descriptor(d + '/y/all.json')
        finally: shutil.rmtree(d)
        log = a.log = []
        class H:
            def values_to_npy_savefile(s, f): log.append(('save', f))
        class Sol:
            def __init__(s, k): s.k = k
            def optimize(s): log.append(('optimize', s.k))
        comps = [NS(component_solution=lambda k=k: Sol(k), storage=NS(hyperparameters=H())) for k in range(2)]
        s = S(comps, 'tas')
        s.update_component_time = lambda loaders, c, t: log.append(('time', c, t, [(l.time_index, l.k) for l in loaders]))
        s.update_component_solution = lambda c: log.append(('solve', c))
        a.keys = list(desc.keys()); a.used = r.sample(a.keys, r.randint(1, len(a.keys)))
        s.update_component(desc, 1, a.used)
        s.optimize_component(1, 'file') if a.save else s.optimize_component(1)
        a.days = days
        return a.keys
    def post(self, C, a, out):
        import datetime
        C.holds('order_kept', out.value == [d.isoformat() for d in a.days])
        by = {d.isoformat(): d for d in a.days}
        want = [('time', 1, (by[k] - datetime.datetime(1850, 1, 1)).days, [((by[k] - datetime.datetime(1850, 1, 1)).days, s) for s in a.src[by[k]]]) for k in a.used]
        want += [('solve', 1), ('optimize', 1)] + ([('save', 'file')] if a.save else [])
        C.holds('own_inputs_at_own_time', a.log == want)
