"""Thin access to the public API of the code under test (imported lazily, in workers only)."""
import io, contextlib, logging, sys
import numpy as onp


def quiet():
    logging.disable(logging.CRITICAL)


quiet()
import jax
import jax.numpy as np
jax.config.update('jax_enable_x64', True)
import jax_fem
from jax_fem.problem import Problem
from jax_fem.fe import FiniteElement
from jax_fem.generate_mesh import Mesh
from jax_fem import solver as solver_mod
from jax_fem.solver import solver, ad_wrapper
from .core import REPO
assert jax_fem.__file__.startswith(REPO.rstrip('/') + '/'), jax_fem.__file__


def mk(m):
    """Library mesh of a vmon mesh."""
    return Mesh(m.points, m.cells, m.t)


def fe_of(m, vec=1, **kw):
    return FiniteElement(mesh=mk(m), vec=vec, dim=m.dim, ele_type=m.t, **kw)


def csr(A):
    import scipy.sparse
    indptr, indices, data = A.getValuesCSR()
    return scipy.sparse.csr_matrix((data.copy(), indices.copy(), indptr.copy()), shape=A.getSize())


def flat(sol_list):
    return onp.concatenate([onp.asarray(s).reshape(-1) for s in sol_list])


@contextlib.contextmanager
def captured():
    """Collects what the library prints / logs inside the block (Python level)."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf
