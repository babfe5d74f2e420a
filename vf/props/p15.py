"""P15 - each analysis update is the exact Gaussian update by the observations"""
import contextlib, io, sys
import numpy as np
import scipy.sparse
from .. import sym, snp, smat, load
from ..contract import Contract, NS, Reject, oblige, oblige_forall
from ..load import Inv, SymSeq
from ..smat import SMat, FoldMat
from ..sym import And, Or, Not, Implies, If, Eq, wrapz, lift
from .common import contract_list, elem, Only

CONTRACTS, contract = contract_list()
ADV = 'eustace.analysis.advanced_standard.'
LS, SP, ST, SD, AS, CO = ADV + 'linalg.linearsystem', ADV + 'components.spatial', ADV + 'components.spacetime', ADV + 'components.spatialdelayed', ADV + 'analysissystem', ADV + 'components.component'
MEM, FILES, EL = ADV + 'components.storage_inmemory', ADV + 'components.storage_files', ADV + 'elements.element'
PW, XC, WR, BATCH = ADV + 'linalg.pardisowrapper', ADV + 'linalg.extendedcholmodwrapper', ADV + 'linalg.wrapper', ADV + 'components.storage_files_batch'
PRELOAD = (LS, SP, ST, SD, AS, MEM, FILES, PW, BATCH)
F8 = np.float64
ASSUMPTIONS = ['floating-point sums and products are treated as exact real arithmetic in the proofs; the bounded search allows a relative difference of 1e-7',
               'the observation precision matrix is symmetric', 'scipy.sparse implements the matrix algebra (+, *, dot, transpose) it documents; matrix identities are proved in the free algebra with transposition over generator matrices of any size',
               'the direct solver (PARDISO) solves the linear system it is given']

# ------------------------------------------------------------------ matrices in both modes

def small(r): return r.choice([0.0, 0.0, 1.0, -1.0, 2.0, .5, r.randint(-8, 8) / 4.0])
def mat(B, name, shape, symmetric=False, sparse=True, args=()):
    """generator matrix, or a random one"""
    if B.symbolic: return SMat.gen(name, shape, args, symmetric, sparse)
    d = B.array(name, shape, F8, gen=small)
    if symmetric: d = (d + d.T) / 2 + 6 * np.eye(shape[0])
    if not sparse: return d
    return {'c': scipy.sparse.csc_matrix, 'r': scipy.sparse.csr_matrix}[B.choice(name + '_fmt', ['c', 'r'])](d)
def dense(x): return np.asarray(x.todense()) if scipy.sparse.issparse(x) else np.asarray(x)
def col(x):
    d = dense(x); return d.reshape(-1)
def same(C, name, got, want, vector=False):
    if C.symbolic:
        if not isinstance(got, SMat): C.holds(name, False); return
        if vector and len(got.shape) != len(want.shape): want = want.ravel() if len(got.shape) == 1 else want.reshape((want.shape[0], 1))
        C.holds(name, want._vf_eq(got)); return
    g, w = (col(got), col(want)) if vector else (dense(got), dense(want))
    C.holds(name, g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-7))
def copies(B, x): return x.copy()
def quiet(f):
    o, sys.stdout = sys.stdout, io.StringIO()
    try: return f()
    finally: sys.stdout = o

def increments(J, R, y): return J.T.dot(R).dot(J), J.T.dot(R).dot(y.reshape((y.shape[0], 1)))

@contract
class Create(Contract):
    """design' precision design, and design' precision observation"""
    name = 'measurement.create'; functions = (LS + ':MeasurementUpdate.create_from_system_observations', LS + ':MeasurementUpdate.__init__')
    def setup(self, B):
        n, p = B.size('n', 1), B.size('p', 1)
        a = NS(n=n, p=p, J=mat(B, 'J', (n, p)), R=mat(B, 'R', (n, n), True), y=mat(B, 'y', (n,), sparse=False))
        a.J0, a.R0, a.y0 = a.J.copy(), a.R.copy(), a.y.copy()
        return a
    def run(self, M, a): return M(LS).MeasurementUpdate.create_from_system_observations(a.J, a.R, a.y)
    def post(self, C, a, out):
        P, v = increments(a.J0, a.R0, a.y0)
        r = out.value
        same(C, 'precision', r.information_precision, P); same(C, 'information', r.information_vector, v)
        for k in 'JRy': same(C, 'inputs_kept', getattr(a, k), getattr(a, k + '0'))

@contract
class Append(Contract):
    """updates add; a new system starts without information"""
    name = 'measurement.append'; functions = (LS + ':MeasurementUpdate.append_measurement_update', LS + ':MeasurementUpdate.create_blank', LS + ':LinearSystem.__init__', LS + ':LinearSystem.append_measurement_update')
    def setup(self, B):
        p = B.size('p', 1)
        a = NS(p=p, u=[(mat(B, 'P%d' % k, (p, p), True), mat(B, 'v%d' % k, (p, 1), sparse=B.choice('s%d' % k, [True, False]))) for k in range(3)])
        a.u0 = [(x.copy(), y.copy()) for x, y in a.u]
        return a
    def run(self, M, a):
        L = M(LS)
        prior = NS(prior_number_of_state_parameters=lambda: a.p)
        s = L.LinearSystem(prior)
        blank = s.measurement.information_precision.copy(), s.measurement.information_vector.copy()
        ms = [L.MeasurementUpdate(*u) for u in a.u]
        for m in ms[:2]: s.append_measurement_update(m)
        two = s.measurement.information_precision.copy(), s.measurement.information_vector.copy()
        m = L.MeasurementUpdate(a.u[2][0].copy(), a.u[2][1].copy()); m.append_measurement_update(ms[0])
        return s.prior is prior, blank, two, (m.information_precision, m.information_vector)
    def post(self, C, a, out):
        kept, b, t, m = out.value
        z = SMat.zero if C.symbolic else (lambda s: np.zeros(s))
        C.holds('prior_kept', kept)
        same(C, 'blank', b[0], z((a.p, a.p))); same(C, 'blank', b[1], z((a.p, 1)))
        u = a.u0
        add = lambda x, y: x + y if C.symbolic else dense(x) + dense(y)
        for i in (0, 1):
            same(C, 'sum', t[i], add(u[0][i], u[1][i])); same(C, 'appended', m[i], add(u[2][i], u[0][i]))
            for k in (1, 0): same(C, 'increments_kept', a.u[k][i], u[k][i])

class Solver:
    """stands for the direct solver: remembers what it was asked to solve"""
    def __init__(self, A): self.A = A
    def solve_A(self, b): return ('solution', self.A, b)
    def diag_inv_A(self): raise NotImplementedError
    def solve_backward_substitution(self, v): return ('sample', self.A, v)
class SolverFactory:
    @staticmethod
    def cholesky(A, **k): return Solver(A)

@contract
class CholeskySystem(Contract):
    """the system solved is prior plus information precision, with the information vector on the right"""
    name = 'solution.system'; functions = (LS + ':LinearSystemSolution_Cholesky.__init__', LS + ':LinearSystemSolution_Cholesky.maximum_a_posteriori', LS + ':LinearSystemSolution_Cholesky.white_noise_to_posterior_distribution')
    search = True
    def setup(self, B):
        p = B.size('p', 1)
        return NS(p=p, Q=mat(B, 'Q', (p, p), True), P=mat(B, 'P', (p, p), True), v=mat(B, 'v', (p, 1), sparse=False), w=mat(B, 'w', (p, 2), sparse=False))
    def stubs(self, B, a): return {LS + ':directsolver': Only(SolverFactory)}
    def run(self, M, a):
        L = M(LS)
        s = L.LinearSystem(NS(prior_number_of_state_parameters=lambda: a.p, prior_precision=lambda: a.Q))
        s.measurement = L.MeasurementUpdate(a.P, a.v)
        x = L.LinearSystemSolution_Cholesky(s)
        return x.posterior_precision, x.maximum_a_posteriori(), x.white_noise_to_posterior_distribution(a.w), x.number_of_state_parameters
    def post(self, C, a, out):
        A, (t, A1, b), (t2, A2, w), n = out.value
        want = a.Q + a.P
        for x in (A, A1, A2): same(C, 'posterior_precision', x, want)
        same(C, 'right_hand_side', b, a.v, vector=True); same(C, 'white_noise', w, a.w)
        C.holds('labels', And(t == 'solution', t2 == 'sample', Eq(n, a.p)))

@contract
class CholeskySolve(Contract):
    """with the real solver: MAP solves the posterior system, marginal deviations are those of its inverse"""
    name = 'solution.solve'; functions = (LS + ':LinearSystemSolution_Cholesky.maximum_a_posteriori', LS + ':LinearSystemSolution_Cholesky.marginal_std', LS + ':LinearSystemSolution_Cholesky.white_noise_to_posterior_distribution', LS + ':LinearSystemSolution_Cholesky.approximated_marginal_std', LS + ':LinearSystemSolution.random_sample')
    prove = False; weight = .5
    assumptions = ('the external direct solver is exercised on systems of up to 6 unknowns (bounded)',)
    def setup(self, B):
        p = B.int('p', 1, 6)
        d = lambda nm: (lambda x: x.dot(x.T))(B.array(nm, (p, p), F8, gen=small))
        return NS(p=p, Q=scipy.sparse.csr_matrix(d('Q') + np.eye(p)), P=scipy.sparse.csr_matrix(d('P')), v=B.array('v', (p, 1), F8, gen=small), w=B.array('w', (p, 2), F8, gen=small))
    def run(self, M, a):
        L = M(LS)
        s = L.LinearSystem(NS(prior_number_of_state_parameters=lambda: a.p, prior_precision=lambda: a.Q))
        s.append_measurement_update(L.MeasurementUpdate(a.P, a.v))
        x = L.LinearSystemSolution_Cholesky(s)
        state = np.random.get_state(); np.random.seed(a.p)
        try: a.rough = x.approximated_marginal_std(2000); a.some = x.random_sample(2000)
        finally: np.random.set_state(state)
        return x.maximum_a_posteriori(), x.marginal_std(), x.white_noise_to_posterior_distribution(a.w)
    def post(self, C, a, out):
        x, s, w = out.value
        A = dense(a.Q) + dense(a.P); inv = np.linalg.inv(A)
        C.holds('map', np.allclose(A.dot(col(x)), col(a.v), atol=1e-6))
        C.holds('marginal_std', np.allclose(np.square(col(s)), np.diag(inv), rtol=1e-6))
        sd = np.sqrt(np.diag(inv)); some = dense(a.some)          # 2000 draws: deviations known to 1.6 %, means to 2.2 % of a deviation; ten times that is allowed
        C.holds('approximate_std', col(a.rough).shape == (a.p,) and bool(np.all(np.abs(col(a.rough) / sd - 1) < .16)))
        C.holds('draws', some.shape == (a.p, 2000) and bool(np.all(np.abs(some.mean(axis=1)) < .22 * sd)) and bool(np.all(np.abs(some.std(axis=1) / sd - 1) < .16)))
        C.holds('sample', np.allclose(dense(w).T.dot(A).dot(dense(w)), a.w.T.dot(a.w), atol=1e-6))

@contract
class Solvers(Contract):
    """the wrappers of the direct solvers: solutions solve the system whatever the shape and layout of the right-hand side, substitution applies a factor L of A = L L', the diagonal of the inverse
    is the same for every block size, nothing given is changed, and systems that do not fit are refused"""
    name = 'solver.wrappers'; prove = False
    functions = tuple(PW + ':PardisoWrapper.' + x for x in ('cholesky', '__init__', 'solve_A', 'diag_inv_A', 'solve_backward_substitution', 'solve_forward_substitution', '_call_pardiso')) + tuple(XC + ':ExtendedCholmodWrapper.' + x for x in ('cholesky', 'solve_A', 'solve_backward_substitution', 'LLt_vector_instruction', 'LLt_solve_L', 'LLt_solve_Lt', 'apply_P', 'apply_Pt', 'P', 'logdet')) + (WR + ':SolverLibraryWrapper.as_matrix', WR + ':SolverLibraryWrapper.return_like')
    assumptions = ('systems of up to 9 unknowns with the solver libraries installed here (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', ['pardiso', 'pardiso', 'cholmod']))
    def run(self, M, a):
        r = np.random.RandomState(a.seed % 2**31); n = a.n = r.randint(1, 10)
        d = r.uniform(-1, 1, (n, n)) * (r.rand(n, n) < r.choice([.2, .6, 1])); a.A = d.dot(d.T) + np.diag(r.uniform(.3, 2, n)) ; a.A = (a.A + a.A.T) / 2
        par = a.kind == 'pardiso'; A = (scipy.sparse.csr_matrix if par else scipy.sparse.csc_matrix)(a.A)
        if par and r.rand() < .4:          # the same matrix with each row's entries in another order
            order = np.concatenate([A.indptr[i] + r.permutation(A.indptr[i + 1] - A.indptr[i]) for i in range(n)]); A = scipy.sparse.csr_matrix((A.data[order], A.indices[order], A.indptr), shape=(n, n))
        a.before = A.toarray(); k = r.choice([1, 2, 3, n])
        shape = a.form = ['vector', 'column', 'matrix', 'fortran', 'view'][r.randint(5)]
        b = r.uniform(-3, 3, (n,) if shape == 'vector' else (n, 1) if shape == 'column' else (n, k))
        if shape == 'fortran': b = np.asfortranarray(b)
        if shape == 'view': b = np.repeat(b, 2, axis=1)[:, ::2]
        a.b = b.copy(); give = b
        if par and shape == 'matrix' and r.rand() < .4: give = scipy.sparse.csc_matrix(b)
        def go():
            W = M(PW).PardisoWrapper if par else M(XC).ExtendedCholmodWrapper
            w = W.cholesky(A)
            res = NS(x=w.solve_A(give), bk=w.solve_backward_substitution(give))
            if par:
                res.fw = w.solve_forward_substitution(give); res.diag = [w.diag_inv_A(z) for z in (None, 1, 2, max(1, n - 1), n, n + 1)] + [w.diag_inv_A()]
                a.refused = [_refused(lambda: W.cholesky(scipy.sparse.csr_matrix(np.ones((n, n + 1)))))] + [_refused(lambda: getattr(w, f)(np.zeros(n + 1))) for f in ('solve_A', 'solve_backward_substitution', 'solve_forward_substitution')]
            else: res.perm, res.logdet, res.pb, res.ptpb = w.P(), w.logdet(), w.apply_P(give), w.apply_Pt(w.apply_P(give))
            res.again = w.solve_A(give)
            return res
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); res = quiet(go)
        a.after, a.bafter = A.toarray(), dense(give)
        return res
    def post(self, C, a, out):
        s = out.value; n = a.n; ok = lambda x, y: np.asarray(x).shape == np.asarray(y).shape and np.allclose(x, y, rtol=1e-6, atol=1e-7)
        two = lambda x: np.asarray(x).reshape(n, -1); inv = np.linalg.inv(a.A); B = two(a.b)
        C.holds('solution', ok(np.asarray(dense(s.x)), np.linalg.solve(a.A, a.b))); C.holds('again', ok(dense(s.again), dense(s.x)))
        bk = two(dense(s.bk))
        C.holds('backward', np.asarray(dense(s.bk)).shape == a.b.shape and ok(bk.T.dot(a.A).dot(bk), B.T.dot(B)))
        if a.kind == 'pardiso':
            fw = two(dense(s.fw)); C.holds('forward', np.asarray(dense(s.fw)).shape == a.b.shape and ok(fw.T.dot(fw), B.T.dot(inv).dot(B)))
            C.holds('diagonal', all(ok(np.asarray(x).ravel(), np.diag(inv)) for x in s.diag)); C.holds('refused', all(a.refused))
        else:
            C.holds('permutation', sorted(s.perm) == list(range(n)) and ok(two(dense(s.pb)), B[np.asarray(s.perm)]) and ok(dense(s.ptpb), a.b)); C.holds('determinant', np.allclose(s.logdet, np.linalg.slogdet(a.A)[1], atol=1e-8))
        C.holds('kept', np.array_equal(a.after, a.before) and np.array_equal(np.asarray(a.bafter).reshape(a.b.shape), a.b))

# ------------------------------------------------------------------ components

class Recorder:
    """solution storage that remembers what is written"""
    def __init__(self, state=None, updates=None, times=()): self.log, self.state, self.updates, self.times = [], state, updates, times
    def state_read(self): return self.state
    def state_write(self, x): self.log.append(('state', x)); self.state = x
    def measurement_write(self, m, t): self.log.append(('measurement', m, t))
    def measurement_read(self, t): return self.updates(t)
    def timeindices_read(self): return self.times
    def partial_state_read(self, t): self.log.append(('read', t)); return self.state
    def partial_state_write(self, x, t): self.log.append(('partial', x, t)); self.state = x
    def __getattr__(self, n):
        if n.endswith('_write'): return lambda *a: self.log.append((n,) + a)
        raise AttributeError(n)

class Problem:
    """an element with its observations: linear or nonlinear"""
    def __init__(self, B, tag='', nonlinear=None):
        self.n, self.p = B.size('n' + tag, 1, 5) if not B.symbolic else B.size('n' + tag, 1), B.size('p', 1, 4) if not B.symbolic else B.size('p', 1)
        n, p = self.n, self.p
        self.J, self.R, self.y, self.o = mat(B, 'J' + tag, (n, p)), mat(B, 'R' + tag, (n, n), True), mat(B, 'y' + tag, (n,), sparse=False), mat(B, 'o' + tag, (n,), sparse=False)
        self.f, self.Q = mat(B, 'f' + tag, (n,), sparse=False), mat(B, 'Q', (p, p), True)
        self.x, self.init = mat(B, 'x', (p,), sparse=False), mat(B, 'x0', (p,), sparse=False)
        self.nonlinear = B.choice('nonlinear', [False, True]) if nonlinear is None else nonlinear
        self.t = B.int('t' + tag, 0, 5)
        self.y0, self.o0 = self.y.copy(), self.o.copy()
        self.jac, self.evals, self.designed, self.priors = [], [], [], []
        self.hyper = object()
    def rename_p(self, p): pass
    def element(self):
        P = self
        class Design:
            def design_jacobian(s, currentstate): P.jac.append(currentstate); return P.J
            def design_function(s, state, rectified=False): P.evals.append(state); return P.f.copy()
            def design_initial_state(s): return P.init
            def isnonlinear(s): return P.nonlinear
        class Element:
            def element_design(s, obs): P.designed.append(obs); return Design()
            def element_prior(s, h): P.priors.append(h); return NS(prior_number_of_state_parameters=lambda: P.p, prior_precision=lambda: P.Q)
            def isnonlinear(s): return P.nonlinear
        return Element()
    def observations(self):
        return NS(time_index=lambda: self.t, observation_vector=lambda: self.y, observation_precision=lambda: self.R, number_of_observations=lambda: self.n)
    def expected(self, nonlinear=False):
        rel = self.y0 - self.o0
        if nonlinear: rel = rel - self.f
        return increments(self.J, self.R, rel)

@contract
class SpatialProcess(Contract):
    """processing an observation set adds exactly its increment to the current time step; another time step is refused"""
    name = 'spatial.process_observations'; functions = (SP + ':SpatialComponentSolution.process_observations', SP + ':SpatialComponentSolution.__init__')
    def setup(self, B):
        a = NS(P=Problem(B, nonlinear=False), state=B.choice('state', ['none', 'open']), t2=B.int('t2', 0, 5))
        a.A, a.b = mat(B, 'A', (a.P.p, a.P.p), True), mat(B, 'b', (a.P.p, 1), sparse=False)
        a.A0, a.b0 = a.A.copy(), a.b.copy()
        return a
    def run(self, M, a):
        S, L = M(SP), M(LS)
        a.store = Recorder()
        s = S.SpatialComponentSolution(a.P.element(), a.P.hyper, a.store)
        if a.state == 'open':
            s.localsystem_cache = L.LinearSystem(s.prior); s.localsystem_cache.measurement = L.MeasurementUpdate(a.A, a.b)
            s.localsystem_time_index = a.t2
        a.obs = a.P.observations()
        a.s = s
        quiet(lambda: s.process_observations(a.obs, a.P.o))
        return s
    def post(self, C, a, out):
        if a.state == 'open' and out.raised:
            C.holds('refused_only_other_time', And(out.raises(ValueError), Not(Eq(a.t2, a.P.t))))
            same(C, 'refused_unchanged', a.s.localsystem_cache.measurement.information_precision, a.A0); return
        s = out.value
        if a.state == 'open': C.holds('other_time_refused', Eq(a.t2, a.P.t))
        P, v = a.P.expected()
        if a.state == 'open': P, v = P + a.A0, v + a.b0
        m = s.localsystem_cache.measurement
        same(C, 'precision', m.information_precision, P); same(C, 'information', m.information_vector, v)
        C.holds('time', Eq(s.localsystem_time_index, a.P.t)); C.holds('prior', s.localsystem_cache.prior is s.prior and a.P.priors == [a.P.hyper])
        C.holds('design_of_these_observations', a.P.designed == [a.obs]); C.holds('nothing_written', a.store.log == [])
        same(C, 'observations_kept', a.P.y, a.P.y0); same(C, 'offset_kept', a.P.o, a.P.o0)

class FakeSolution:
    made = None
    def __init__(self, system, printstats=False): self.system = system; FakeSolution.made.append(system); self.number_of_state_parameters = 2
    def maximum_a_posteriori(self): return Tok(('map', self.system))
    def marginal_std(self): return Tok(('std', self.system))
    def approximated_marginal_std(self, *a): return Tok(('approx', self.system))
    def white_noise_to_posterior_distribution(self, v): return Tok(('sample', self.system))
    def random_sample(self, n): return Tok(('sample', self.system))
class Tok:
    """value of the solver, kept symbolic"""
    def __init__(self, v): self.v = v
    def __array__(self, *a, **k):
        o = np.empty((), object); o[()] = self; return o
    def vf_numpy(self, name, f, *a, **k): return self
    def squeeze(self): return self
def tok(x):
    if isinstance(x, np.ndarray) and x.dtype == object: x = x.item()
    return x.v if isinstance(x, Tok) else x

@contract
class SpatialStep(Contract):
    """completing a step stores the solution of exactly that system at its own time, once, and starts afresh; without observations nothing is stored"""
    name = 'spatial.update_time_step'; functions = (SP + ':SpatialComponentSolution.update_time_step', SP + ':SpatialComponentSolution.update')
    def setup(self, B): return NS(open=B.bool('open') if not B.symbolic else B.choice('open', [True, False]), t=B.int('t', 0, 9), unc=B.choice('unc', [False, True]), method=B.choice('method', ['EXACT', 'APPROXIMATED']), sample=B.choice('sample', [False, True]))
    def stubs(self, B, a): FakeSolution.made = []; return {LS + ':LinearSystemSolution_Cholesky': FakeSolution}
    def run(self, M, a):
        a.store = Recorder()
        s = M(SP).SpatialComponentSolution(NS(element_prior=lambda h: None), None, a.store, compute_uncertainties=a.unc, method=a.method, compute_sample=a.sample)
        a.sys = object()
        if a.open: s.localsystem_cache, s.localsystem_time_index = a.sys, a.t
        quiet(s.update_time_step); s.update()
        return s
    def post(self, C, a, out):
        s = out.value
        C.holds('reset', s.localsystem_cache is None and s.localsystem_time_index is None)
        log = [(e[0], tok(e[1]), e[2]) for e in a.store.log]
        if not a.open: C.holds('nothing_stored', log == [] and FakeSolution.made == []); return
        C.holds('solved_once', FakeSolution.made == [a.sys])
        want = [('partial', ('map', a.sys))]
        if a.unc: want.append(('partial_state_marginal_std_write', ('std' if a.method == 'EXACT' else 'approx', a.sys)))
        if a.sample: want.append(('partial_state_sample_write', ('sample', a.sys)))
        C.holds('stored', sorted(str((e[0], e[1][0])) for e in log) == sorted(str((w[0], w[1][0])) for w in want) and all(e[1][1] is a.sys for e in log))
        C.holds('time', And(*[Eq(e[2], a.t) for e in log]))

class Process(Contract):
    """each observation set adds its increment relative to the other components (and, for a nonlinear element, to its own linearisation point); another time step is refused"""
    cls = None; mod = None; partial = False
    def setup(self, B):
        a = NS(P=Problem(B), has_state=B.choice('has_state', [False, True]), open=B.choice('open', [False, True]), timed=B.choice('timed', [False, True]), t2=B.int('t2', 0, 5))
        a.A, a.b = mat(B, 'A', (a.P.p, a.P.p), True), mat(B, 'b', (a.P.p, 1), sparse=False)
        a.A0, a.b0 = a.A.copy(), a.b.copy()
        return a
    def run(self, M, a):
        a.store = Recorder(a.P.x if a.has_state else None)
        s = getattr(M(self.mod), self.cls)(a.P.element(), a.P.hyper, a.store)
        if a.open: s.measurement = M(LS).MeasurementUpdate(a.A, a.b)
        if a.timed: s.measurement_time_index = a.t2
        a.obs = a.P.observations()
        quiet(lambda: s.process_observations(a.obs, a.P.o))
        return s
    def post(self, C, a, out):
        if a.timed and out.raised: C.holds('refused_only_other_time', And(out.raises(ValueError), Not(Eq(a.t2, a.P.t)))); return
        s = out.value
        if a.timed: C.holds('other_time_refused', Eq(a.t2, a.P.t))
        P, v = a.P.expected(a.P.nonlinear)
        if a.open: P, v = P + a.A0, v + a.b0
        same(C, 'precision', s.measurement.information_precision, P); same(C, 'information', s.measurement.information_vector, v)
        C.holds('time', Eq(s.measurement_time_index, a.P.t)); C.holds('design_of_these_observations', a.P.designed == [a.obs])
        log = [e for e in a.store.log if e[0] != 'read']
        if self.partial: C.holds('read_own_time', And(*[Eq(e[1], a.P.t) for e in a.store.log if e[0] == 'read']))
        if a.P.nonlinear:
            at = a.P.x if a.has_state else a.P.init
            C.holds('linearised_at_state', len(a.P.jac) >= 1 and all(x is at for x in a.P.jac) and len(a.P.evals) == 1 and a.P.evals[0] is at)
            C.holds('initial_state_kept', len(log) == (0 if a.has_state else 1) and all(e[0] in ('state', 'partial') and e[1] is at for e in log))
            if self.partial: C.holds('initial_state_time', And(*[Eq(e[2], a.P.t) for e in log]))
        else: C.holds('nothing_written', log == [])
        same(C, 'observations_kept', a.P.y, a.P.y0); same(C, 'offset_kept', a.P.o, a.P.o0)
@contract
class SpaceTimeProcess(Process): name = 'spacetime.process_observations'; functions = (ST + ':SpaceTimeComponentSolution.process_observations', ST + ':SpaceTimeComponentSolution.__init__'); cls = 'SpaceTimeComponentSolution'; mod = ST
@contract
class DelayedProcess(Process): name = 'delayed.process_observations'; functions = (SD + ':DelayedSpatialComponentSolution.process_observations', SD + ':DelayedSpatialComponentSolution.__init__'); cls = 'DelayedSpatialComponentSolution'; mod = SD; partial = True

@contract
class SpaceTimeStep(Contract):
    """the step's accumulated update is stored under its own time and a new one is begun; a step without observations stores nothing"""
    name = 'spacetime.update_time_step'; functions = (ST + ':SpaceTimeComponentSolution.update_time_step',)
    def setup(self, B): return NS(t=B.int('t', 0, 9), observed=B.choice('observed', [True, False]))
    def run(self, M, a):
        a.store = Recorder(); a.m = object()
        s = M(ST).SpaceTimeComponentSolution(None, None, a.store)
        if a.observed: s.measurement, s.measurement_time_index = a.m, a.t
        s.update_time_step(); return s
    def post(self, C, a, out):
        s = out.value
        C.holds('reset', s.measurement is None and s.measurement_time_index is None)
        if not a.observed: C.holds('nothing_stored', a.store.log == []); return
        C.holds('stored', len(a.store.log) == 1 and a.store.log[0][:2] == ('measurement', a.m)); C.holds('time', Eq(a.store.log[0][2], a.t))

def updates(B, a):
    """k-th stored update: (P(k), v(k)); any number of them"""
    a.m = B.size('m', 0, 5) if not B.symbolic else B.size('m', 0)
    p = a.p
    if B.symbolic:
        a.Pk = lambda k: SMat.gen('Pk', (p, p), (k,), True); a.vk = lambda k: SMat.gen('vk', (p, 1), (k,), False, False)
        a.foldP = B.fold('P', lambda: 0, lambda k, v: v + wrapz(a.Pk(k).value()), 'r', 0); a.foldv = B.fold('v', lambda: 0, lambda k, v: v + wrapz(a.vk(k).value()), 'r', 0)
        a.times = SymSeq(a.m, lambda k: k)
        a.sumP = lambda k: FoldMat(a.foldP(k), (p, p)); a.sumv = lambda k: FoldMat(a.foldv(k), (p, 1), False)
    else:
        Pl, vl = [mat(B, 'P%d' % k, (p, p), True) for k in range(a.m)], [mat(B, 'v%d' % k, (p, 1), sparse=False) for k in range(a.m)]
        ids = [B.int('time%d' % k, 0, 50) for k in range(a.m)]
        if len(set(ids)) != len(ids): ids = list(range(a.m))
        a.Pk, a.vk = (lambda t: Pl[ids.index(t)]), (lambda t: vl[ids.index(t)])
        a.times = ids; a.Pl, a.vl = Pl, vl
        a.Pl0, a.vl0 = [x.copy() for x in Pl], [x.copy() for x in vl]
        a.sumP = lambda k: sum((dense(x) for x in a.Pl0[:k]), np.zeros((p, p))); a.sumv = lambda k: sum(a.vl0[:k], np.zeros((p, 1)))

@contract
class SpaceTimeUpdate(Contract):
    """the solved system is the prior with the sum of all stored updates, each once; nonlinear solutions are relative to the linearisation point"""
    name = 'spacetime.update'; functions = (ST + ':SpaceTimeComponentSolution.update',)
    def setup(self, B):
        a = NS(p=B.size('p', 1, 4), nonlinear=B.choice('nonlinear', [False, True]), unc=B.choice('unc', ['no', 'EXACT', 'APPROXIMATED']), sample=B.choice('sample', [False, True]))
        updates(B, a)
        a.x = mat(B, 'x', (a.p,), sparse=False); a.sol = mat(B, 'sol', (a.p,), sparse=False)
        a.made = []
        return a
    def stubs(self, B, a):
        class Sol(FakeSolution):
            def __init__(s, system, printstats=False): s.system = system; a.made.append(system); s.number_of_state_parameters = 2
            def maximum_a_posteriori(s): return a.sol.copy()
        return {LS + ':LinearSystemSolution_Cholesky': Sol}
    def get_invariants(self, B, a):
        def inv(view):
            L = load.sload(LS)
            s = [v for v in view.entry.values() if isinstance(v, L.LinearSystem)]
            if not s: return Inv(facts=[False])
            return Inv(attrs=[(s[0].measurement, 'information_precision', a.sumP(view.k)), (s[0].measurement, 'information_vector', a.sumv(view.k))])
        return {'*': inv}
    def run(self, M, a):
        L = M(LS)
        a.prior = NS(prior_number_of_state_parameters=lambda: a.p)
        a.store = Recorder(a.x, lambda t: L.MeasurementUpdate(a.Pk(t), a.vk(t)), a.times)
        s = M(ST).SpaceTimeComponentSolution(NS(element_prior=lambda h: a.prior, isnonlinear=lambda: a.nonlinear), None, a.store, compute_uncertainties=a.unc != 'no', method=a.unc if a.unc != 'no' else 'EXACT', compute_sample=a.sample)
        quiet(s.update); return s
    def post(self, C, a, out):
        out.value
        C.holds('solved_once', len(a.made) == 1 and a.made[0].prior is a.prior)
        m = a.made[0].measurement
        same(C, 'precision', m.information_precision, a.sumP(a.m)); same(C, 'information', m.information_vector, a.sumv(a.m))
        w = [e for e in a.store.log if e[0] == 'state']
        C.holds('one_state', len(w) == 1)
        same(C, 'state', w[0][1], a.sol + a.x if a.nonlinear else a.sol)
        rest = [(e[0], tok(e[1])[0]) for e in a.store.log if e[0] != 'state']
        want = ([('state_marginal_std_write', 'std' if a.unc == 'EXACT' else 'approx')] if a.unc != 'no' else []) + ([('state_sample_write', 'sample')] if a.sample else [])
        C.holds('uncertainty_and_sample', sorted(rest) == sorted(want))
        if not C.symbolic:
            for x, y in zip(a.Pl + a.vl, a.Pl0 + a.vl0): same(C, 'stored_updates_kept', x, y)

@contract
class Merge(Contract):
    """merging gives the sum of all stored updates and leaves them as they are"""
    name = 'spacetime.merge_updates'; functions = (ST + ':SpaceTimeComponentSolution.merge_updates',)
    def setup(self, B):
        a = NS(p=B.size('p', 1, 4)); updates(B, a); a.read = {}
        if B.symbolic: B.assume(a.m >= 1)
        return a
    def get_invariants(self, B, a):
        def inv(view):
            L = load.sload(LS)
            name = [n for n, v in view.locals.items() if (v is None or isinstance(v, L.MeasurementUpdate)) and n in view.entry and view.entry[n] is None]
            if len(name) != 1: return Inv(facts=[False])
            k = view.k
            if isinstance(k, int) and k == 0: return Inv(locals={name[0]: None})
            if sym.ctx().branch(lift(k) <= 0):
                a.foldP(k), a.foldv(k)
                return Inv(locals={name[0]: None})
            m = L.MeasurementUpdate(a.sumP(k), a.sumv(k))
            m._vf_eq = lambda o: isinstance(o, L.MeasurementUpdate) and And(m.information_precision._vf_eq(o.information_precision), m.information_vector._vf_eq(o.information_vector))
            return Inv(locals={name[0]: m}, attrs=[(m, 'information_precision', m.information_precision), (m, 'information_vector', m.information_vector)])
        return {'*': inv}
    def run(self, M, a):
        L = M(LS)
        def read(t):
            if isinstance(t, int) and not isinstance(a.times, SymSeq):
                if t not in a.read: a.read[t] = L.MeasurementUpdate(a.Pk(t), a.vk(t))
                return a.read[t]
            return L.MeasurementUpdate(a.Pk(t), a.vk(t))
        return M(ST).SpaceTimeComponentSolution(None, None, Recorder(None, read, a.times)).merge_updates()
    def post(self, C, a, out):
        r = out.value
        if not C.symbolic and a.m == 0: C.holds('nothing', r is None); return
        same(C, 'precision', r.information_precision, a.sumP(a.m)); same(C, 'information', r.information_vector, a.sumv(a.m))
        for n, (t, u) in enumerate(sorted(a.read.items(), key=lambda e: list(a.times).index(e[0]))):
            same(C, 'stored_updates_kept', u.information_precision, a.Pl0[n]); same(C, 'stored_updates_kept', u.information_vector, a.vl0[n])

@contract
class DelayedUpdate(Contract):
    """each stored step is solved by itself with the prior and its own update only, and stored under its own time"""
    name = 'delayed.update'; functions = (SD + ':DelayedSpatialComponentSolution.update',)
    def setup(self, B):
        a = NS(p=B.size('p', 1, 4), nonlinear=B.choice('nonlinear', [False, True]), unc=B.choice('unc', ['no', 'EXACT', 'APPROXIMATED']), sample=B.choice('sample', [False, True]))
        updates(B, a); a.made = []
        a.B = B
        a.stored = snp.filled((a.m,), 0, np.int64) if B.symbolic and hasattr(snp, 'filled') else None
        a.count = B.array('count', (a.m,), np.int64, lo=0, hi=0)
        return a
    def xk(self, B, a, t): return SMat.gen('xk', (a.p,), (t,), False, False) if B.symbolic else np.arange(a.p) + float(t)
    def solk(self, B, a, system):
        if B.symbolic: return ('system', system)
    def stubs(self, B, a):
        ct = self
        class Sol(FakeSolution):
            def __init__(s, system, printstats=False): s.system = system; a.made.append(system); s.number_of_state_parameters = 2
            def maximum_a_posteriori(s):
                m = s.system.measurement
                if B.symbolic:
                    ok = And(s.system.prior is a.prior, m.information_precision._vf_eq(a.Pk(a.now)), m.information_vector._vf_eq(a.vk(a.now))) if a.now is not None else False
                    oblige('delayed.update.system_of_this_step', ok)
                else:
                    if not (np.allclose(dense(m.information_precision), dense(a.Pk(a.now))) and np.allclose(col(m.information_vector), col(a.vk(a.now))) and s.system.prior is a.prior): a.bad = True
                return ct.sol(B, a, a.now)
        return {LS + ':LinearSystemSolution_Cholesky': Sol}
    def sol(self, B, a, t): return SMat.gen('solk', (a.p,), (t,), False, False) if B.symbolic else np.sin(np.arange(a.p) + 3.0 * t)
    def get_invariants(self, B, a):
        def inv(view): return Inv(arrays=[(a.count, lambda t: If(t < view.k, 1, 0))])
        return {'*': inv}
    def run(self, M, a):
        L, ct, B = M(LS), self, a.B
        a.prior = NS(prior_number_of_state_parameters=lambda: a.p); a.now = None; a.bad = False; a.log = []
        class Store:
            def timeindices_read(s): return a.times
            def measurement_read(s, t): a.now = t; return L.MeasurementUpdate(a.Pk(t), a.vk(t))
            def partial_state_read(s, t): return ct.xk(B, a, t)
            def partial_state_write(s, x, t):
                want = ct.sol(B, a, t) + ct.xk(B, a, t) if a.nonlinear else ct.sol(B, a, t)
                if B.symbolic:
                    oblige('delayed.update.state', And(Eq(t, a.now), want._vf_eq(x) if isinstance(x, SMat) else False))
                    a.count[t] = a.count[t] + 1
                else: a.log.append((t, np.allclose(x, want)))
            def __getattr__(s, n):
                if n.endswith('_write'): return lambda *x: (oblige('delayed.update.time', Eq(x[-1], a.now)) if B.symbolic else a.log.append((n, x[-1], tok(x[0])[0])))
                raise AttributeError(n)
        s = M(SD).DelayedSpatialComponentSolution(NS(element_prior=lambda h: a.prior, isnonlinear=lambda: a.nonlinear), None, Store(), compute_uncertainties=a.unc != 'no', method=a.unc if a.unc != 'no' else 'EXACT', compute_sample=a.sample)
        if B.symbolic: s.__class__
        quiet(s.update)
        return True
    def post(self, C, a, out):
        out.value
        if C.symbolic: C.forall('each_once', (a.m,), lambda t: Eq(elem(a.count, t), 1)); return
        C.holds('systems', not a.bad and len(a.made) == a.m)
        C.holds('each_once', [e for e in a.log if isinstance(e[0], int)] == [(t, True) for t in a.times])
        std = sorted(e for e in a.log if not isinstance(e[0], int) and 'std' in e[0])
        C.holds('std', std == sorted(('partial_state_marginal_std_write', t, 'std' if a.unc == 'EXACT' else 'approx') for t in a.times) if a.unc != 'no' else std == [])
        smp = [e[1] for e in a.log if not isinstance(e[0], int) and 'sample' in e[0]]
        C.holds('sample', smp == (list(a.times) if a.sample else []))

class Expected(Contract):
    """the estimate at observations is the design at the stored state of their time, and zero (or the initial value of a nonlinear element) while there is none"""
    cls = None; mod = None; partial = True
    def setup(self, B):
        a = NS(P=Problem(B, nonlinear=None if not self.partial else False), has_state=B.choice('has_state', [False, True]))
        return a
    def run(self, M, a):
        a.store = Recorder(a.P.x if a.has_state else None)
        s = getattr(M(self.mod), self.cls)(a.P.element(), a.P.hyper, a.store)
        a.obs = a.P.observations()
        return s.solution_observation_expected_value(a.obs)
    def post(self, C, a, out):
        r = out.value
        if a.has_state or (a.P.nonlinear and not self.partial):
            at = a.P.x if a.has_state else a.P.init
            same(C, 'value', r, a.P.f); C.holds('at_state', len(a.P.evals) == 1 and a.P.evals[0] is at and a.P.designed == [a.obs])
        else:
            C.forall('zero', (a.P.n,), lambda i: Eq(elem(r, i), 0)); C.holds('size', Eq(r.shape[0], a.P.n))
        if self.partial: C.holds('own_time', And(*[Eq(e[1], a.P.t) for e in a.store.log]))
        C.holds('nothing_written', all(e[0] == 'read' for e in a.store.log))
@contract
class SpatialExpected(Expected): name = 'spatial.expected_value'; functions = (SP + ':SpatialComponentSolution.solution_observation_expected_value',); cls = 'SpatialComponentSolution'; mod = SP
@contract
class SpaceTimeExpected(Expected): name = 'spacetime.expected_value'; functions = (ST + ':SpaceTimeComponentSolution.solution_observation_expected_value',); cls = 'SpaceTimeComponentSolution'; mod = ST; partial = False
@contract
class DelayedExpected(Expected): name = 'delayed.expected_value'; functions = (SD + ':DelayedSpatialComponentSolution.solution_observation_expected_value',); cls = 'DelayedSpatialComponentSolution'; mod = SD

# ------------------------------------------------------------------ the analysis system

NULL = NS(write=lambda *a: None, flush=lambda: None)
def offset_fold(B, a):
    """sum over the other components of their estimate at observation i of loader k (and time t)"""
    return lambda ci: B.fold('offset', lambda *c: 0, lambda j, v, *c: If(Eq(j, ci), v, v + a.ev(j, *c)), 'r', a.cells)

class System(Contract):
    """every observation set of every loader is processed once, relative to the sum of all other components' estimates; then the step is completed once"""
    timed = False
    def setup(self, B):
        a = NS(B=B, nc=B.size('nc', 1, 4), nl=B.size('nl', 1, 4))
        a.ci = B.int('ci', 0, a.nc - 1); a.t = B.int('t', 0, 9)
        a.cells = 2
        a.nobs = B.func('nobs', 1, 'i', gen=lambda r, *k: r.choice([0, 1, 2, 3])); a.ev = B.func('ev', 3, 'r', gen=lambda r, *k: r.randint(-20, 20) / 4.0)
        if B.symbolic:
            f = a.nobs
            a.nobs = lambda k: (lambda v: (sym.ctx().define(('nobs', lift(v).get_id()), lambda: lift(v) >= 0), v)[1])(f(k))
        a.sum = offset_fold(B, a)(a.ci)
        a.calls = B.array('calls', (a.nl,), np.int64, lo=0, hi=0)
        a.done = B.array('done', (1,), np.int64, lo=0, hi=0)
        a.shape2 = B.choice('matrix', [False, True]) if not B.symbolic else False
        a.loaded, a.wrong, a.order = [], [], []
        return a
    def component(self, a, j):
        B, ct = a.B, self
        class Solution:
            def solution_observation_expected_value(s, inputs):
                k = inputs.k
                if B.symbolic:
                    oblige('system.estimate_of_other_component', Not(Eq(j, a.ci)))
                    return snp.from_fn((a.nobs(k),), lambda ix: sym.toreal(lift(a.ev(j, k, wrapz(ix[0])))), 'r')
                v = np.array([a.ev(j, k, i) for i in range(a.nobs(k))], F8)
                return np.matrix(v).T if a.shape2 else v
            def process_observations(s, inputs, offset):
                k = inputs.k
                if B.symbolic:
                    oblige('system.process.component', And(Eq(j, a.ci), Eq(elem(a.done, 0), 0)))
                    oblige_forall('system.process.offset', (a.nobs(k),), lambda i: Eq(elem(offset, i), a.sum(a.nc, k, i)))
                    oblige('system.process.offset_size', Eq(offset.shape[0], a.nobs(k)) if len(offset.shape) == 1 else False)
                    a.calls[k] = a.calls[k] + 1
                else:
                    a.calls[k] += 1
                    want = np.array([sum(a.ev(q, k, i) for q in range(a.nc) if q != a.ci) for i in range(a.nobs(k))])
                    if j != a.ci or a.done[0] or np.shape(offset) != want.shape or not np.allclose(offset, want): a.wrong.append(k)
            def update_time_step(s):
                if B.symbolic: oblige('system.step.component', Eq(j, a.ci))
                elif j != a.ci: a.wrong.append('step')
                a.done[0] = a.done[0] + 1
        return NS(component_solution=lambda: Solution())
    def loader(self, a, k):
        def load_(observable, t, log=None):
            if a.B.symbolic: oblige('system.load', And(observable == 'OBS', Eq(t, a.t)))
            else: a.loaded.append((observable, t))
            return NS(k=k, number_of_observations=lambda: a.nobs(k), time_index=lambda: t)
        return NS(load_observation_structure=load_, datetime_at_time_index=lambda t: 'date')
    def get_invariants(self, B, a):
        def inv(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, snp.SArr) and v.code == 'r']
            inner = [v for n, v in view.entry.items() if isinstance(v, NS) and hasattr(v, 'k')]
            if inner and acc: return Inv(locals={acc[0]: snp.from_fn((a.nobs(inner[0].k),), lambda ix: sym.toreal(lift(a.sum(view.k, inner[0].k, wrapz(ix[0])))), 'r')})
            return Inv(arrays=[(a.calls, lambda q: If(And(q < view.k, a.nobs(q) > 0), 1, 0))])
        return {'*': inv}
    def system(self, M, a):
        if a.B.symbolic: comps, loads = SymSeq(a.nc, lambda j: self.component(a, j)), SymSeq(a.nl, lambda k: self.loader(a, k))
        else: comps, loads = [self.component(a, j) for j in range(a.nc)], [self.loader(a, k) for k in range(a.nl)]
        return M(AS).AnalysisSystem(comps, 'OBS', NULL), loads

@contract
class ComponentTime(System):
    name = 'system.update_component_time'; functions = (AS + ':AnalysisSystem.update_component_time', AS + ':AnalysisSystem.__init__')
    def stubs(self, B, a): return {AS + ':memory_usage_megabytes': Only(lambda: 1)}
    def run(self, M, a):
        s, loads = self.system(M, a)
        s.update_component_time(loads, a.ci, a.t); return True
    def post(self, C, a, out):
        out.value
        C.forall('each_observed_set_once', (a.nl,), lambda k: Eq(elem(a.calls, k), If(a.nobs(k) > 0, 1, 0)) if C.symbolic else a.calls[k] == (1 if a.nobs(k) > 0 else 0))
        C.holds('completed_once', Eq(elem(a.done, 0), 1))
        C.holds('right_data', a.wrong == [] and all(x == ('OBS', a.t) for x in a.loaded))

@contract
class ComponentAll(Contract):
    """updating a component processes every time index once, in order, and then solves it once; updating the system does so for every component in turn"""
    name = 'system.update'; functions = (AS + ':AnalysisSystem.update_component', AS + ':AnalysisSystem.update', AS + ':AnalysisSystem.update_component_solution')
    def setup(self, B):
        a = NS(B=B, nc=B.size('nc', 1, 4), nt=B.size('nt', 0, 5), which=B.choice('which', ['component', 'all', 'solve']))
        a.ci = B.int('ci', 0, a.nc - 1)
        a.times = B.func('times', 1, 'i')
        a.calls = B.array('calls', (a.nt,), np.int64, lo=0, hi=0); a.solved = B.array('solved', (a.nc,), np.int64, lo=0, hi=0)
        a.log = []
        return a
    def get_invariants(self, B, a):
        def inv(view):
            if a.which == 'all': return Inv(arrays=[(a.solved, lambda c: If(c < view.k, 1, 0))])
            return Inv(arrays=[(a.calls, lambda q: If(q < view.k, 1, 0))])
        return {'*': inv}
    def run(self, M, a):
        B = a.B
        comps = SymSeq(a.nc, lambda j: NS(component_solution=lambda: NS(update=lambda: solve(j)))) if B.symbolic else [NS(component_solution=lambda j=j: NS(update=lambda: solve(j))) for j in range(a.nc)]
        class T:        # a time index that knows its place
            def __init__(s, q): s.q = q
        loads = object()
        s = M(AS).AnalysisSystem(comps, 'OBS', NULL)
        times = SymSeq(a.nt, T) if B.symbolic else [T(q) for q in range(a.nt)]
        def solve(j):
            if B.symbolic:
                if a.which == 'component': oblige('system.update.solved_after_all_times', Eq(j, a.ci)); oblige_forall('system.update.all_processed', (a.nt,), lambda q: Eq(elem(a.calls, q), 1))
                a.solved[j] = a.solved[j] + 1
            else: a.log.append(('solve', j)); a.solved[j] += 1
        def ctime(l, ci, t):
            if B.symbolic: oblige('system.update.time_call', And(l is loads, Eq(ci, a.ci))); a.calls[t.q] = a.calls[t.q] + 1
            else: a.log.append(('time', ci, t.q, l is loads))
        def comp(l, ci, t):
            if B.symbolic: oblige('system.update.component_call', l is loads and t is times); a.solved[ci] = a.solved[ci] + 1
            else: a.log.append(('component', ci, l is loads and t is times))
        if a.which == 'component': s.update_component_time = ctime; s.update_component(loads, a.ci, times)
        elif a.which == 'all': s.update_component = comp; s.update(loads, times)
        else: s.update_component_solution(a.ci)
        return True
    def post(self, C, a, out):
        out.value
        if C.symbolic:
            if a.which == 'component': C.forall('every_time_once', (a.nt,), lambda q: Eq(elem(a.calls, q), 1))
            if a.which == 'all': C.forall('every_component_once', (a.nc,), lambda j: Eq(elem(a.solved, j), 1))
            else: C.forall('solved_once', (a.nc,), lambda j: Eq(elem(a.solved, j), If(Eq(j, a.ci), 1, 0)))
            return
        want = {'component': [('time', a.ci, q, True) for q in range(a.nt)] + [('solve', a.ci)], 'all': [('component', j, True) for j in range(a.nc)], 'solve': [('solve', a.ci)]}[a.which]
        C.holds('history', a.log == want)

@contract
class ComponentTimes(Contract):
    """a batch of time steps: every observation set of every time once, relative to the other components; a spatial component completes each step, a space-time component the whole batch once"""
    name = 'system.update_component_times'; functions = (AS + ':AnalysisSystem.update_component_times',)
    def setup(self, B):
        a = NS(B=B, nc=B.size('nc', 1, 3), nt=B.size('nt', 1, 4), NL=B.size('NL', 1, 3), kind=B.choice('kind', ['spatial', 'spacetime']))
        a.ci = B.int('ci', 0, a.nc - 1)
        gen = lambda f: dict(gen=f)
        nobs, nl, T = B.func('nobs', 2, 'i', gen=lambda r, *k: r.choice([0, 1, 2])), B.func('nl', 1, 'i', gen=lambda r, q: r.randint(1, a.NL)), B.func('T', 1, 'i', gen=lambda r, q: 10 + 3 * q)
        def bounded(f, lo, hi=None):
            if not B.symbolic: return f
            def g(*k):
                v = f(*k); z = lift(v)
                sym.ctx().define(('bound', z.get_id()), lambda: sym.z3.And(z >= lo, z <= lift(hi)) if hi is not None else z >= lo)
                return v
            return g
        a.nobs, a.nl, a.T = bounded(nobs, 0), bounded(nl, 1, a.NL), bounded(T, 0)
        a.ev = B.func('ev', 4, 'r', gen=lambda r, *k: r.randint(-20, 20) / 4.0)
        a.sum = B.fold('offset', lambda *c: 0, lambda j, v, *c: If(Eq(j, a.ci), v, v + a.ev(j, *c)), 'r', 3)
        a.G = B.fold('open', lambda q: -1, lambda k, v, q: If(a.nobs(q, k) > 0, a.T(q), v), 'i', 1)
        a.calls = B.array('calls', (a.nt, a.NL), np.int64, lo=0, hi=0); a.steps = B.array('steps', (1,), np.int64, lo=0, hi=0); a.open = B.array('open', (1,), np.int64, lo=-1, hi=-1)
        a.wrong = []
        return a
    def stubs(self, B, a): return {AS + ':memory_usage_megabytes': Only(lambda: 1)}
    def need(self, a, name, cond):
        if a.B.symbolic: oblige('system.times.' + name, cond)
        elif not cond: a.wrong.append(name)
    def solution(self, a, j):
        ct, B = self, a.B
        class Solution:
            def __getattr__(s, n):
                if n == 'measurement_time_index': return None
                raise AttributeError(n)
            def __setattr__(s, n, v):
                if n == 'measurement_time_index' and v is None: a.kind == 'spacetime' and a.open.__setitem__(0, -1)
            def solution_observation_expected_value(s, inputs):
                ct.need(a, 'estimate_of_other_component', Not(Eq(j, a.ci)))
                if B.symbolic: return snp.from_fn((a.nobs(inputs.q, inputs.k),), lambda ix: sym.toreal(lift(a.ev(j, inputs.q, inputs.k, wrapz(ix[0])))), 'r')
                return np.array([a.ev(j, inputs.q, inputs.k, i) for i in range(a.nobs(inputs.q, inputs.k))], F8)
            def process_observations(s, inputs, offset):
                q, k = inputs.q, inputs.k
                ct.need(a, 'component', Eq(j, a.ci)); ct.need(a, 'one_time_at_once', Or(Eq(a.open[0], -1), Eq(a.open[0], a.T(q))))
                if B.symbolic: oblige_forall('system.times.offset', (a.nobs(q, k),), lambda i: Eq(elem(offset, i), a.sum(a.nc, q, k, i)))
                else: ct.need(a, 'offset', np.shape(offset) == (a.nobs(q, k),) and np.allclose(offset, [sum(a.ev(c, q, k, i) for c in range(a.nc) if c != a.ci) for i in range(a.nobs(q, k))]))
                ct.need(a, 'not_after_completion', Eq(a.steps[0], q if a.kind == 'spatial' else 0))
                a.calls[q, k] = a.calls[q, k] + 1; a.open[0] = a.T(q)
            def update_time_step(s):
                ct.need(a, 'step_component', Eq(j, a.ci))
                a.steps[0] = a.steps[0] + 1
                a.open[0] = -1
        return Solution()
    def get_invariants(self, B, a):
        def before(q, k):
            return lambda Q, K: If(And(K < a.nl(Q), a.nobs(Q, K) > 0, Or(Q < q, And(Eq(Q, q), K < k))), 1, 0)
        def inv(view):
            acc = [n for n, v in view.entry.items() if isinstance(v, snp.SArr) and v.code == 'r']
            inner = [v for n, v in view.entry.items() if isinstance(v, NS) and hasattr(v, 'k')]
            if inner and acc:
                i = inner[0]
                return Inv(locals={acc[0]: snp.from_fn((a.nobs(i.q, i.k),), lambda ix: sym.toreal(lift(a.sum(view.k, i.q, i.k, wrapz(ix[0])))), 'r')})
            mid = [v for n, v in list(view.entry.items()) + [('', view.seq)] if isinstance(v, SymSeq) and hasattr(v, 'q')]
            if mid: q = mid[0].q; return Inv(arrays=[(a.calls, before(q, view.k)), (a.open, lambda i: a.G(view.k, q))], facts=[Or(Eq(a.G(view.k, q), -1), Eq(a.G(view.k, q), a.T(q)))])
            k = view.k
            op = (lambda i: -1) if a.kind == 'spatial' else (lambda i: If(k <= 0, -1, a.G(a.nl(k - 1), k - 1)))
            return Inv(arrays=[(a.calls, before(k, 0)), (a.open, op), (a.steps, lambda i: k if a.kind == 'spatial' else 0)])
        return {'*': inv}
    def run(self, M, a):
        B = a.B
        cls = M(SP).SpatialComponent if a.kind == 'spatial' else M(ST).SpaceTimeComponent
        def component(j):
            c = cls.__new__(cls); c.component_solution = lambda: self.solution(a, j); return c
        def loader(q, k):
            def load_(observable, t, log=None):
                self.need(a, 'load', And(observable == 'OBS', Eq(t, a.T(q))))
                return NS(q=q, k=k, number_of_observations=lambda: a.nobs(q, k), time_index=lambda: t)
            return NS(load_observation_structure=load_, datetime_at_time_index=lambda t: 'date')
        if B.symbolic:
            def at(q): s = SymSeq(a.nl(q), lambda k: loader(q, k)); s.q = q; return s
            comps, loads, times = SymSeq(a.nc, component), SymSeq(a.nt, at), SymSeq(a.nt, lambda q: a.T(q))
        else: comps, loads, times = [component(j) for j in range(a.nc)], [[loader(q, k) for k in range(a.nl(q))] for q in range(a.nt)], [a.T(q) for q in range(a.nt)]
        s = M(AS).AnalysisSystem(comps, 'OBS', NULL)
        quiet(lambda: s.update_component_times(loads, a.ci, times))
        return True
    def post(self, C, a, out):
        out.value
        want = lambda q, k: If(And(k < a.nl(q), a.nobs(q, k) > 0), 1, 0) if C.symbolic else int(k < a.nl(q) and a.nobs(q, k) > 0)
        C.forall('each_observed_set_once', (a.nt, a.NL), lambda q, k: Eq(elem(a.calls, q, k), want(q, k)))
        C.holds('steps', Eq(elem(a.steps, 0), a.nt if a.kind == 'spatial' else 1)); C.holds('right_data', a.wrong == [])

# ------------------------------------------------------------------ histories with the real components, storages and solver

class Lin:
    """linear (or affine-nonlinear) element whose design depends on the observation set"""
    def __init__(self, p, nonlinear=False): self.p, self.nl = p, nonlinear
    def isnonlinear(self): return self.nl
    def design_of(self, obs): return obs.J[self.p]
    def element_design(self, obs):
        J = self.design_of(obs); nl = self.nl; p = self.p
        f = (lambda x: J.dot(col(x)) + 0.05 * np.sin(J.dot(col(x)))) if nl else (lambda x: J.dot(col(x)))
        jac = (lambda x: (1 + 0.05 * np.cos(J.dot(col(x))))[:, None] * J) if nl else (lambda x: J)
        return NS(design_function=lambda x, rectified=False: f(x) if not rectified else np.abs(J).dot(col(x)), design_jacobian=lambda currentstate: scipy.sparse.csr_matrix(jac(currentstate)), design_initial_state=lambda: np.full(p, .25), isnonlinear=lambda: nl, f=f, jac=jac)
    def element_prior(self, h): return NS(prior_number_of_state_parameters=lambda: self.p, prior_precision=lambda: scipy.sparse.csr_matrix(np.diag(1.0 + np.arange(self.p))))

@contract
class History(Contract):
    """random histories of the whole analysis system against an independent dense computation"""
    name = 'system.history'; prove = False; weight = .35
    functions = tuple(SP + ':' + x for x in ('SpatialComponent.component_solution', 'SpatialComponent.__init__', 'SpatialComponentSolution.update_time_step')) + tuple(ST + ':' + x for x in ('SpaceTimeComponent.component_solution', 'SpaceTimeComponent.__init__', 'SpaceTimeComponentSolution.update')) + tuple(
        MEM + ':' + x for x in ('ComponentStorage_InMemory', 'SpaceTimeComponentSolutionStorage_InMemory', 'SpatialComponentSolutionStorage_InMemory')) + (AS + ':AnalysisSystem.update', AS + ':AnalysisSystem.update_component_times', CO + ':Component.__init__')
    assumptions = ('whole-system histories (up to 3 components, 3 times, 3 observation sources, 2 iterations) are bounded concrete runs with the real solver',)
    def setup(self, B):
        a = NS(kinds=[B.choice('kind%d' % k, ['spatial', 'spacetime', 'nonlinear']) for k in range(B.int('nc', 1, 3))], times=sorted({B.int('time%d' % k, 0, 30) for k in range(3)}), nl=B.int('nl', 1, 3), loops=B.int('loops', 1, 2), batch=B.choice('batch', [False, True]), merge=B.choice('merge', [False, True]))
        a.p = [2 + k for k in range(len(a.kinds))]
        a.data = {}
        for t in a.times:
            for l in range(a.nl):
                n = B.int('n_%d_%d' % (t, l), 0, 3)
                tag = '_%d_%d' % (t, l)
                d = B.array('R' + tag, (n, n), F8, gen=small)
                a.data[t, l] = NS(J={p: B.array('J%d%s' % (p, tag), (n, p), F8, gen=small) for p in a.p}, R=scipy.sparse.csr_matrix(d.dot(d.T) / 4 + np.eye(n)) if n else None, y=B.array('y' + tag, (n,), F8, gen=lambda r: r.randint(-12, 12) / 4.0), n=n, t=t)
        if 'nonlinear' in a.kinds and not any(d.n for d in a.data.values()): raise Reject()      # nothing to linearise about
        return a
    def run(self, M, a):
        S, P, T, A = M(MEM), M(SP), M(ST), M(AS)
        comps, a.stores = [], []
        for k, p in zip(a.kinds, a.p):
            e = Lin(p, k == 'nonlinear')
            st = S.SpatialComponentSolutionStorage_InMemory() if k == 'spatial' else S.SpaceTimeComponentSolutionStorage_InMemory()
            a.stores.append(st)
            comps.append((P.SpatialComponent if k == 'spatial' else T.SpaceTimeComponent)(S.ComponentStorage_InMemory(e, None), st))
        def obs(t, l):
            d = a.data[t, l]
            return NS(J=d.J, time_index=lambda: t, number_of_observations=lambda: d.n, observation_vector=lambda: d.y, observation_precision=lambda: d.R)
        class Loader:
            def __init__(s, l, t=None): s.l, s.t = l, t
            def load_observation_structure(s, observable, t, log=None):
                if s.t is not None and s.t != t: raise ValueError('time')
                return obs(t, s.l)
            def datetime_at_time_index(s, t): return t
        s = A.AnalysisSystem(comps, 'x', NULL)
        def go():
            for _ in range(a.loops):
                if not a.batch: s.update([Loader(l) for l in range(a.nl)], a.times)
                else:
                    for c in range(len(comps)):
                        s.update_component_times([[Loader(l, t) for l in range(a.nl)] for t in a.times], c, a.times)
                        s.update_component_solution(c)
                if a.merge:
                    for c, k in zip(comps, a.kinds):
                        if k != 'spatial': c.component_solution().merge_updates()
        quiet(go)
        a.obs = obs
        return [ [dict((t, col(x)) for t, x in st.state_at_time.items())] if k == 'spatial' else [None if st.state is None else col(st.state)] for st, k in zip(a.stores, a.kinds)]
    def post(self, C, a, out):
        got = out.value
        els = [Lin(p, k == 'nonlinear') for k, p in zip(a.kinds, a.p)]
        state = [dict() if k == 'spatial' else {'x': None} for k in a.kinds]
        def est(c, o):
            d = els[c].element_design(o)
            x = state[c].get(o.time_index()) if a.kinds[c] == 'spatial' else state[c]['x']
            if x is None: return d.f(np.full(a.p[c], .25)) if a.kinds[c] == 'nonlinear' else np.zeros(o.number_of_observations())
            return d.f(x)
        for _ in range(a.loops):
            for c, k in enumerate(a.kinds):
                Q = np.diag(1.0 + np.arange(a.p[c])); A, b = Q.copy(), np.zeros(a.p[c])
                seen = False
                start = state[c].get('x') if k != 'spatial' else None
                if k == 'nonlinear' and start is None: start = np.full(a.p[c], .25)
                for t in a.times:
                    At, bt, any_ = Q.copy(), np.zeros(a.p[c]), False
                    for l in range(a.nl):
                        o = a.obs(t, l)
                        if not o.number_of_observations(): continue
                        any_ = seen = True
                        d = els[c].element_design(o)
                        J = d.jac(start if k == 'nonlinear' else None); R = dense(o.observation_precision())
                        rel = o.observation_vector() - sum(est(j, o) for j in range(len(els)) if j != c)
                        if k == 'nonlinear': rel = rel - d.f(start)
                        At += J.T.dot(R).dot(J); bt += J.T.dot(R).dot(rel)
                    A += At - Q; b += bt
                    if k == 'spatial' and any_: state[c][t] = np.linalg.solve(At, bt)
                if k != 'spatial':
                    x = np.linalg.solve(A, b)
                    if k == 'nonlinear':
                        if not seen and state[c]['x'] is None: raise Reject()
                        x = x + start
                    state[c]['x'] = x
        for c, k in enumerate(a.kinds):
            if k == 'spatial':
                C.holds('times', set(got[c][0]) == set(state[c]))
                for t in state[c]: C.holds('state', np.allclose(got[c][0][t], state[c][t], rtol=1e-6, atol=1e-6))
            else: C.holds('state', got[c][0] is not None and np.allclose(got[c][0], state[c]['x'], rtol=1e-6, atol=1e-6))

# ------------------------------------------------------------------ storage

@contract
class Samples(Contract):
    """stored samples of a component are draws about its solution with the covariance of that solution: whitened by the precision of the solved system (of the prior for prior samples) they have
    mean zero and unit covariance, and each requested sample is a draw of its own"""
    name = 'components.samples'; prove = False
    functions = (SP + ':SpatialComponentSolution.update_time_step', ST + ':SpaceTimeComponentSolution.update', LS + ':LinearSystemSolution_Cholesky.white_noise_to_posterior_distribution')
    assumptions = ('1000 draws of up to 4 parameters from a seeded generator, moments compared within eight standard errors (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', ['spatial', 'spacetime', 'prior']))
    def run(self, M, a):
        r = np.random.RandomState(a.seed % 2**31); p = a.p = r.randint(1, 5); n = r.randint(1, 5); L = M(LS)
        spd = lambda k: (lambda d: d.dot(d.T) + np.diag(r.uniform(.3, 3, k)))(r.uniform(-1, 1, (k, k)))
        Q = spd(p); Q = (Q + Q.T) / 2; J = r.uniform(-2, 2, (n, p)); R = np.diag(r.uniform(.2, 4, n)); y = r.uniform(-3, 3, n)
        csr = scipy.sparse.csr_matrix; a.A = Q if a.kind == 'prior' else Q + J.T.dot(R).dot(J)
        prior = NS(prior_number_of_state_parameters=lambda: p, prior_precision=lambda: csr(Q))
        design = NS(design_jacobian=lambda currentstate: csr(J), design_function=lambda *k, **w: np.zeros(n), design_initial_state=lambda: np.zeros(p), isnonlinear=lambda: False)
        element = NS(element_prior=lambda h: prior, element_design=lambda o: design, isnonlinear=lambda: False)
        obs = NS(time_index=lambda: 3, observation_vector=lambda: y, observation_precision=lambda: csr(R), number_of_observations=lambda: n)
        store = Recorder(np.zeros(p), lambda t: store.kept, [3]); before = np.random.get_state(); np.random.seed(r.randint(2**31 - 1))
        store.kept = None
        def keep(m, t): store.kept = m
        store.measurement_write = keep
        def go():
            if a.kind == 'spatial': s = M(SP).SpatialComponentSolution(element, None, store, compute_sample=True, sample_size=1000)
            else: s = M(ST).SpaceTimeComponentSolution(element, None, store, compute_sample=True, sample_size=1000, compute_prior_sample=a.kind == 'prior')
            s.process_observations(obs, np.zeros(n)); s.update_time_step(); s.update()
        try: quiet(go)
        finally: np.random.set_state(before)
        return [e for e in store.log if 'sample_write' in e[0]]
    def post(self, C, a, out):
        w = out.value
        C.holds('stored_once', [e[0] for e in w] == [dict(spatial='partial_state_sample_write', spacetime='state_sample_write', prior='state_prior_sample_write')[a.kind]])
        x = np.asarray(dense(w[0][1])); C.holds('shape', x.shape == (a.p, 1000))
        u = np.linalg.cholesky(a.A).T.dot(x)          # unit normal when x has precision A
        C.holds('mean', bool(np.all(np.abs(u.mean(axis=1)) < 8 / np.sqrt(1000.)))); C.holds('covariance', bool(np.all(np.abs(u.dot(u.T) / 1000. - np.eye(a.p)) < 8 * np.sqrt(2 / 1000.))))
        C.holds('own_draws', len({c.tobytes() for c in x.T.copy()}) == 1000)

def _refused(f):
    try: f()
    except (ValueError, KeyError): return True
    return False
@contract
class Storage(Contract):
    """what is stored for a quantity and time is what is read back for them, whatever else is stored; other times find nothing or are refused"""
    name = 'storage'; prove = False
    functions = tuple(FILES + ':' + x for x in ('writepickle', 'readpickle', 'SpaceTimeComponentSolutionStorage_Files', 'SpatialComponentSolutionStorage_Files', 'DelayedSpatialComponentSolutionStorage_Files', 'DelayedSpatialComponentSolutionStorageFlexible_Files')) + tuple(MEM + ':' + x for x in ('SpaceTimeComponentSolutionStorage_InMemory', 'SpatialComponentSolutionStorage_InMemory')) + tuple(BATCH + ':' + x for x in ('writepickle', 'readpickle', 'SpatialComponentSolutionStorageIndexed_Files', 'SpaceTimeComponentSolutionStorageBatched_Files'))
    assumptions = ('histories of up to 12 writes (bounded)',)
    def setup(self, B): return NS(seed=B.int('seed', 0, 10**9), kind=B.choice('kind', ['spacetime', 'spatial', 'delayed', 'flexible', 'memory_spacetime', 'memory_spatial', 'indexed', 'batched']), n=B.int('n', 1, 12))
    def run(self, M, a):
        import random, shutil, tempfile
        r = random.Random(a.seed); F, S, L = M(FILES), M(MEM), M(LS)
        d = tempfile.mkdtemp(); a.bad = bad = []; count = [0]
        def value():
            count[0] += 1
            return np.array([count[0] + .5] + [r.uniform(-5, 5) for _ in range(r.randint(0, 3))])
        def update(): return L.MeasurementUpdate(scipy.sparse.csr_matrix(np.diag(value())), value().reshape(-1, 1))
        def eq(x, y):
            if hasattr(y, 'information_vector'): return hasattr(x, 'information_vector') and np.array_equal(dense(x.information_precision), dense(y.information_precision)) and np.array_equal(x.information_vector, y.information_vector)
            return y is None and x is None or y is not None and x is not None and np.array_equal(x, y)
        times = r.sample(range(40000), 4)
        if a.kind in ('delayed', 'indexed') and r.random() < .5: times = [0, 1, 2, 3]
        spatial = a.kind in ('spatial', 'memory_spatial')
        Q = {'state': 'partial_state', 'std': 'partial_state_marginal_std', 'sample': 'partial_state_sample', 'prior': 'partial_state_prior_sample'} if spatial else {'state': 'state', 'std': 'state_marginal_std', 'sample': 'state_sample', 'prior': 'state_prior_sample'}
        if a.kind == 'delayed': Q = {'state': r.choice(['state', 'partial_state']), 'std': r.choice(['state_marginal_std', 'partial_state_marginal_std']), 'sample': 'state_sample'}
        if a.kind == 'flexible': Q = {'state': r.choice(['state', 'partial_state']), 'std': r.choice(['state_marginal_std', 'partial_state_marginal_std']), 'sample': r.choice(['state_sample', 'partial_state_sample']), 'prior': 'partial_state_prior_sample'}
        if a.kind == 'indexed': Q = {q: r.choice([x, 'partial_' + x]) for q, x in Q.items()}
        arg = {'state': 'statefilename', 'std': 'marginal_std_filename', 'sample': 'sample_filename', 'prior': 'prior_sample_filename'}
        keyed = a.kind not in ('spacetime', 'memory_spacetime', 'batched')
        name = lambda q, t: '%s/%s/%s_%s.bin' % (d, q, q, t)
        kept = {}
        if a.kind.startswith('memory'): mem = S.SpatialComponentSolutionStorage_InMemory() if spatial else S.SpaceTimeComponentSolutionStorage_InMemory()
        if a.kind == 'batched':
            held = M(BATCH).SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=r.random() < .5, **{arg[q] + w: name(q, '') for q in arg for w in ('_read', '_write')})
            fresh = M(BATCH).SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=r.random() < .5, **{arg[q] + '_read': name(q, '') for q in arg})
        def store(t):
            """(writing storage, reading storage) for the time"""
            if a.kind.startswith('memory'): return mem, mem
            if a.kind == 'batched': return held, held if a.reread else fresh
            if a.kind == 'indexed':
                k = dict(state='state', marginal_std_='std', sample_='sample', prior_sample_='prior', measurement='m'); I = M(BATCH).SpatialComponentSolutionStorageIndexed_Files
                def make(w):             # each storage may list the days, with their files, in its own order
                    plain = times == [0, 1, 2, 3] and r.random() < .5; order = list(times) if plain else r.sample(times, len(times))
                    return I(**dict({n + 'filelist_' + w: [name(v, u) for u in order] for n, v in k.items()}, **({} if plain else dict(time_list=order))))
                return make('write'), make('read')
            if a.kind == 'flexible':
                if a.tag is None: a.tag = 0
                k = dict(state='state', marginal_std='std', sample='sample', prior_sample='prior', measurement='m')
                pat = lambda w: {n + '_%s_pattern' % w: [d, '%Y', v + '.%Y%m%d.bin'] for n, v in k.items()}
                return F.DelayedSpatialComponentSolutionStorageFlexible_Files(**pat('write')), F.DelayedSpatialComponentSolutionStorageFlexible_Files(**pat('read'))
            if a.kind == 'delayed':
                k = dict(statefile='state', marginal_std_file='std', sample_file='sample', measurementfile='m')
                aslist = times == [0, 1, 2, 3] and r.random() < .5
                look = lambda v: [name(v, u) for u in times] if aslist else {u: name(v, u) for u in times}
                rd = lambda v: look(v) if v == 'm' or aslist else {u: f for u, f in look(v).items() if (v, u) in kept}
                D = F.DelayedSpatialComponentSolutionStorage_Files
                return D(**{n + 'dictionary_write': look(v) for n, v in k.items()}), D(**{n + 'dictionary_read': rd(v) for n, v in k.items()})
            k = {arg[q] + '_write': name(q, t if keyed else '') for q in Q}; j = {arg[q] + '_read': name(q, t if keyed else '') for q in Q if (q, t if keyed else None) in kept}
            if a.kind == 'spatial': return F.SpatialComponentSolutionStorage_Files(time_index=t, **k), F.SpatialComponentSolutionStorage_Files(time_index=t, **j)
            C = F.SpaceTimeComponentSolutionStorage_Files
            return C(measurement_time_index_write=t, measurementfilename_write=name('m', t), **k), C(measurementfilelist_read=[name('m', u) for u in times], **j)
        a.tag = None; a.reread = r.random() < .5
        measures = a.kind in ('indexed', 'spacetime', 'memory_spacetime', 'memory_spatial', 'delayed', 'flexible')
        try:
            for _ in range(a.n):
                t = r.choice(times); q = r.choice(sorted(Q) + (['m'] if measures else []))
                w = store(t)[0]
                if q == 'm': v = update(); w.measurement_write(v, t)
                else:
                    v = value(); f = getattr(w, Q[q] + '_write'); f(v.copy(), t) if keyed else f(v.copy())
                kept[q, t if keyed or q == 'm' else None] = v
            for q in sorted(Q):
                for t in times if keyed else [None]:
                    rd = store(t)[1]
                    if a.kind in ('indexed', 'batched') and (q, t) not in kept: continue
                    if a.kind == 'delayed' and (q, t) not in kept and isinstance(rd.statefiledictionary_read, dict) and t in getattr(rd, {'state': 'statefiledictionary_read', 'std': 'marginal_std_filedictionary_read', 'sample': 'sample_filedictionary_read'}[q]): continue
                    f = getattr(rd, Q[q] + '_read'); g = f(t) if keyed else f()
                    if not eq(g, kept.get((q, t))): bad.append(('read', q, t))
            if measures:
                for k, t in enumerate(times):
                    if ('m', t) in kept:
                        g = store(t)[1].measurement_read(k if a.kind == 'spacetime' else t)
                        if not eq(g, kept['m', t]): bad.append(('update', t))
                if a.kind.startswith('memory') and sorted(mem.timeindices_read()) != sorted(t for q, t in kept if q == 'm'): bad.append('times')
                if a.kind == 'delayed' and list(store(0)[1].timeindices_read()) != sorted(times): bad.append('times')
                if a.kind == 'spacetime' and list(store(0)[1].timeindices_read()) != [0, 1, 2, 3]: bad.append('times')
            t = times[0]; w, rd = store(t); v = value()
            if a.kind == 'spatial':
                for q in Q:
                    if not _refused(lambda: getattr(w, Q[q] + '_write')(v, t + 1)): bad.append(('other time written', q))
                    if (q, t) in kept and not _refused(lambda: getattr(rd, Q[q] + '_read')(t + 1)): bad.append(('other time read', q))
            if a.kind == 'indexed' and not (all(_refused(lambda: getattr(w, Q[q] + '_write')(v, 50000)) and _refused(lambda: getattr(rd, Q[q] + '_read')(50000)) for q in Q) and _refused(lambda: w.measurement_write(update(), 50000)) and _refused(lambda: rd.measurement_read(50000))): bad.append('other time')
            if a.kind == 'spacetime' and not (_refused(lambda: w.measurement_write(update(), t + 1)) and _refused(lambda: rd.measurement_read(4)) and _refused(lambda: rd.measurement_read(-1))): bad.append('other time')
            if a.kind == 'delayed' and not (_refused(lambda: w.state_write(v, 50000)) and _refused(lambda: w.state_sample_write(v, 50000)) and _refused(lambda: rd.measurement_read(50000)) and rd.state_read(50000) is None): bad.append('other time')
        finally: shutil.rmtree(d)
        return bad
    def post(self, C, a, out): C.holds('read_back', out.value == [])
