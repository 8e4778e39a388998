"""Generators and reference model for domain decomposition."""
import numpy


def gen_edges(rng, n, kind, box, periodic):
    if kind == 'uniform':
        e = numpy.linspace(0, box, n + 1)
    else:
        w = rng.uniform(0.02, 1, size=n) ** rng.choice([1, 3])
        if kind == 'degenerate' and n > 1:
            k = rng.randint(1, n)
            w[rng.permutation(n)[:k]] = 0
        e = numpy.concatenate([[0], numpy.cumsum(w)])
        e = e / e[-1] * box
        e[-1] = box
    if not periodic:
        e = e + rng.choice([0.0, -0.7 * box, 3.0 * box])
    return e


def gen_grid(rng, size):
    ndim = int(rng.choice([1, 2, 2, 2, 3, 3, 4, 5]))
    mode = rng.choice(['fit', 'fewer', 'more', 'any'])
    while True:
        shape = [int(x) for x in rng.randint(1, 6 if ndim < 4 else 7 - ndim, size=ndim)]
        p = int(numpy.prod(shape))
        if mode == 'fit' and p != size:
            # a factorisation of the communicator size
            shape = [1] * ndim
            n = size
            f = 2
            while n > 1:
                while n % f:
                    f += 1
                shape[rng.randint(ndim)] *= f
                n //= f
            p = size
        if mode == 'fewer' and p > size:
            shape[rng.randint(ndim)] = 1
            if numpy.prod(shape) > size:
                mode = 'any'
                continue
        if mode == 'more' and p <= size:
            shape = [s + 1 for s in shape]
        break
    periodic = bool(rng.randint(3))
    box = [float(b) for b in 10.0 ** rng.uniform(-2, 3) * rng.choice([1.0, 1.0, 0.3, 2.0], size=ndim)]
    edges = []
    for j in range(ndim):
        kind = str(rng.choice(['uniform', 'irregular', 'degenerate']))
        edges.append(gen_edges(rng, shape[j], kind, box[j], periodic).tolist())
    ndom = int(numpy.prod(shape))
    a = str(rng.choice(['default', 'default', 'permute', 'random']))
    assign = None
    if a == 'permute' and ndom <= size:
        assign = [int(x) for x in rng.permutation(size)[:ndom]]
    elif a == 'random' or a == 'permute':
        assign = [int(x) for x in rng.randint(0, size, size=ndom)]
    return dict(edges=edges, periodic=periodic, assign=assign, ndim=ndim)


def gen_pos(rng, grid, n, extra=0, wide=True):
    """positions that like edges, wrap-around and far-away places"""
    edges = grid['edges']
    ndim = len(edges)
    pos = numpy.empty((n, ndim + extra))
    for j in range(ndim + extra):
        e = numpy.array(edges[j] if j < ndim else [0.0, 1.0])
        lo, hi = e[0], e[-1]
        L = hi - lo
        kind = rng.randint(0, 10, size=n)
        u = rng.uniform(lo, hi, size=n)
        one = e[rng.randint(0, len(e), size=n)]
        near = one + L * 10.0 ** rng.uniform(-17, -3, size=n) * rng.choice([-1, 1], size=n)
        far = u + L * rng.randint(-3, 4, size=n)
        tiny = lo - L * 10.0 ** rng.uniform(-25, -15, size=n)
        x = u
        if wide:
            x = numpy.where(kind == 0, one, x)
            x = numpy.where(kind == 1, near, x)
            x = numpy.where(kind == 2, far, x)
            x = numpy.where(kind == 3, tiny, x)
            x = numpy.where(kind == 4, one + L * rng.randint(-2, 3, size=n), x)
        pos[:, j] = x
    return pos


def make_grid(GridND, grid, comm):
    edges = [numpy.array(e) for e in grid['edges']]
    kw = {}
    if grid['assign'] is not None:
        kw['DomainAssign'] = numpy.array(grid['assign'], dtype='int32')
    # domains are periodic unless told otherwise; half of the grids rely on that
    if not (grid['periodic'] and sum(len(e) for e in edges) % 2):
        kw['periodic'] = bool(grid['periodic'])
    if sum(len(e) for e in edges) % 3:
        # all processes, unless told otherwise
        kw['comm'] = comm
    return GridND(edges, **kw)


def axis_overlap(x, s, e, periodic, eps):
    """(must, may): N x ndomain booleans: does [x-s, x+s] meet [e_k, e_k+1)?"""
    a = e[:-1][None, :]
    b = e[1:][None, :]
    x = numpy.asarray(x, 'f8')[:, None]
    must = numpy.zeros((x.shape[0], a.shape[1]), bool)
    may = must.copy()
    real = (b > a)
    if not periodic:
        must = (x + s > a + eps) & (x - s < b - eps)
        may = (x + s > a - eps) & (x - s < b + eps)
    else:
        L = e[-1]
        x = numpy.remainder(x, L)
        m = int(numpy.ceil(s / L)) + 1
        for i in range(-m, m + 1):
            must |= (x + s > a + i * L + eps) & (x - s < b + i * L - eps)
            may |= (x + s > a + i * L - eps) & (x - s < b + i * L + eps)
    return must & real, may & real


def domain_sets(pos, smoothing, grid, eps_rel):
    """(must, may): N x prod(shape) booleans over domains in C order"""
    ndim = len(grid['edges'])
    must = may = None
    for j in range(ndim):
        e = numpy.array(grid['edges'][j])
        L = e[-1] - e[0]
        eps = eps_rel * max(L, abs(e[0]), abs(e[-1]), 0)
        # rounding of a position far away from the grid; the remainder of a
        # representable number is exact, so only the smoothing interval rounds
        x = pos[:, j]
        eps = eps + eps_rel * smoothing[j]
        m1, m2 = axis_overlap(x, smoothing[j], e, grid['periodic'], eps)
        if must is None:
            must, may = m1, m2
        else:
            must = (must[:, :, None] & m1[:, None, :]).reshape(len(pos), -1)
            may = (may[:, :, None] & m2[:, None, :]).reshape(len(pos), -1)
    return must, may


def rank_sets(must, may, assign, size):
    """N x size booleans"""
    rm = numpy.zeros((must.shape[0], size), bool)
    ra = rm.copy()
    for d, r in enumerate(assign):
        rm[:, r] |= must[:, d]
        ra[:, r] |= may[:, d]
    return rm, ra


def split_counts(rng, n, size):
    kind = rng.randint(4)
    if kind == 0:
        c = rng.multinomial(n, [1.0 / size] * size)
    elif kind == 1:
        c = numpy.zeros(size, int)
        c[rng.randint(size)] = n
    else:
        p = rng.uniform(0, 1, size) ** 3
        p[rng.randint(size)] = 0 if size > 1 else 1
        p = p / p.sum() if p.sum() > 0 else numpy.ones(size) / size
        c = rng.multinomial(n, p)
    return [int(x) for x in c]
