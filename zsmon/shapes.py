"""Random shape configurations for distributions."""
import numpy as np
from zsmon import dists as ds

HOWS = ('static', 'unknown', 'rank', 'partial')


def thin(rng, shape, keep_rank=False):
    """A shape that broadcasts to ``shape``."""
    s = [1 if rng.rand() < .35 else int(v) for v in shape]
    if not keep_rank and s:
        s = s[rng.randint(0, len(s) + 1):]
    return tuple(s)


def batch_shape(rng, zero=False, max_rank=3):
    r = rng.choice([0, 1, 1, 2, 2, 3][:3 + max_rank])
    dims = list(rng.permutation([2, 3, 4, 5])[:r])
    for i in range(len(dims)):
        u = rng.rand()
        if u < .15:
            dims[i] = 1
        elif zero and u < .25:
            dims[i] = 0
    return tuple(int(d) for d in dims)


def config(rng, spec, zero=False):
    """Batch shapes per parameter whose broadcast is the batch shape, and the
    shape of a value."""
    b = batch_shape(rng, zero)
    ev = spec.ev(rng)
    free = [p for p in spec.params if p not in spec.scalar_params]
    if spec.broadcasts and len(free) > 1:
        shapes = {p: thin(rng, b) for p in free}
        full = free[rng.randint(len(free))]
        u = rng.rand()
        if u < .6:
            shapes[full] = b
        # the batch shape is whatever the parameters broadcast to
        b = np.broadcast_shapes(*shapes.values())
    else:
        shapes = {p: b for p in free}
    for p in spec.scalar_params:
        shapes[p] = ()
    u = rng.rand()
    if u < .35:
        g = b
    elif u < .6:
        g = tuple(int(v) for v in rng.randint(1, 4, rng.randint(1, 3))) + b
    elif u < .75:
        g = thin(rng, b, keep_rank=True)
    elif u < .85:
        g = thin(rng, b)
    else:
        lead = tuple(int(v) for v in rng.randint(1, 4, rng.randint(1, 3)))
        g = lead + thin(rng, b, keep_rank=True)
    return {'batch': tuple(b), 'shapes': shapes, 'given': g, 'ev': ev}


def grid_values(spec, rng, p, cfg, regime, **kw):
    """Values of shape given + value_shape inside the support of every batch
    position they are broadcast against."""
    shape = tuple(cfg['given']) + tuple(spec.value_shape(cfg['ev']))
    if spec.name == 'Uniform':
        hi = np.min(p['maxval']) if p['maxval'].size else 1.
        lo = np.max(p['minval']) if p['minval'].size else 0.
        return lo + (hi - lo) * rng.uniform(.01, .95, shape)
    if spec.name in ('Normal', 'FoldNormal', 'Laplace'):
        x = rng.normal(0, 2., shape)
        return np.abs(x) if spec.name == 'FoldNormal' else x
    if spec.name in ('Gamma', 'InverseGamma'):
        return rng.uniform(.2, 4., shape)
    if spec.name == 'Poisson':
        return rng.randint(0, 12, shape).astype(float)
    if spec.name in ('MultivariateNormalCholesky', 'MatrixVariateNormalCholesky'):
        return rng.normal(0, 2., shape)
    return np.asarray(spec.values(rng, p, shape, regime, cfg['ev'], **kw), float)
