"""Specification terms shared by the contracts."""
from pyvc.term import *


def lag(tau, n, k, x):
    """k-th Lagrange cardinal polynomial of the nodes tau(0..n-1) at x"""
    r = fresh('r')
    return prod_(r, ZERO, n, ite(eq(r, k), R(1), div(sub(x, tau(r)), sub(tau(k), tau(r)))))


def wden(tau, n, k):
    """reciprocal of the k-th barycentric weight"""
    r = fresh('r')
    return prod_(r, ZERO, n, ite(eq(r, k), R(1), sub(tau(k), tau(r))))


def lamw(tau, n, k):
    return div(R(1), wden(tau, n, k))


def bary(tau, n, x):
    """sum of lambda_j / (x - tau_j)"""
    j = fresh('j')
    return sum_(j, ZERO, n, div(lamw(tau, n, j), sub(x, tau(j))))


def nodal(tau, n, x):
    r = fresh('r')
    return prod_(r, ZERO, n, sub(x, tau(r)))


def fn(name):
    return lambda *i: app(name, *i)


def dmat(tau, n, j, k):
    """differentiation matrix (Lean: dmat, deriv_exact)"""
    i = fresh('i')
    off = lambda j, k: div(div(lamw(tau, n, k), lamw(tau, n, j)), sub(tau(j), tau(k)))
    return ite(eq(j, k), neg(sum_(i, ZERO, n, ite(eq(i, j), R(0), off(j, i)))), off(j, k))


class BaryLemma:
    """Lean: bary_sum.  If x is none of the distinct nodes tau(0..n-1):
    sum_j lambda_j / (x - tau_j) = 1 / prod_r (x - tau_r)"""
    name = 'bary_sum'

    def __init__(self, name, n):
        self.name_, self.n = name, n
        self.tau = fn(name)
        self.busy = False

    def __call__(self, atom, ctx):
        from pyvc.prove import simp, big_atoms
        if atom.op != 'sum' or self.busy:
            return None
        v, lo, hi, body = atom.args
        if lo is not ZERO or hi is not self.n:
            return None
        tv = self.tau(v)
        for s in subterms(body):
            if s.op != 'add' or tv not in subterms(s):
                continue
            for sg in (1, -1):
                x = add(s, tv) if sg > 0 else neg(sub(s, tv))
                if v in fv(x) or x.sort != 'R' or any(t.op == 'app' and t.args[0] == self.name_ and False for t in subterms(x)):
                    continue
                self.busy = True
                try:
                    c = simp(bary(self.tau, self.n, x), ctx)
                    if c is not atom and simp(atom, ctx) is not c:
                        continue
                    r = fresh('r')
                    if not ctx.proves(forall(r, ZERO, self.n, ne(x, self.tau(r)))):
                        w = fresh('r')
                        if not ctx.rng(w, ZERO, self.n).proves(ne(x, self.tau(w))):
                            continue
                finally:
                    self.busy = False
                return div(R(1), nodal(self.tau, self.n, x))
        return None
