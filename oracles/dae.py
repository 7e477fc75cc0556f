"""DAE models shared by the oracles of C15 and C16."""
import numpy as np
import casadi as cs
from .common import *
from casadi_extras import dae_model as D

CLS = dict(Dae=D.Dae, SemiExplicitDae=D.SemiExplicitDae, ImplicitDae=D.ImplicitDae)
COLUMN = ('x', 'z', 'u', 'ode', 'alg', 'xdot', 'dae')
PURE = ('x', 'z', 'u', 'p', 't', 'tdp')
OPT = dict(Dae=('z', 'u', 'p', 't', 'quad', 'tdp'), SemiExplicitDae=('z', 'u', 'p', 't', 'quad', 'tdp', 'alg'), ImplicitDae=('z', 'u', 'p', 't', 'quad', 'tdp'))
NEED = dict(Dae=('x',), SemiExplicitDae=('x', 'ode'), ImplicitDae=('x', 'xdot', 'dae'))


def quantity(k, r, c, valid, kind='MX'):
    X = getattr(cs, kind)
    s = X.sym(k, r, c)
    if valid is True:
        return s
    if valid == 'vertcat':
        return cs.vertcat(*[X.sym('%s%d' % (k, i), 1, c) for i in range(r)]) if r and c == 1 else s
    if valid == 'const':
        return X(cs.DM(np.ones((r, c))))
    if valid == 'slice' and kind == 'MX':
        return X.sym(k, r + 1, c)[:r, :]
    if valid == 'sparse' and r and c:
        # structural zeros in an expression
        return X(cs.Sparsity.triplet(r, c, [0], [0])) if r == 1 else cs.vertcat(X(1, c), s[1:, :])
    return 2 * s + 1


def is_pure(v):
    return v is True or v == 'vertcat'
