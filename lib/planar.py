"""Small 2D meshes with lattice vertices."""
import itertools


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def grid(rng, nx, ny, warp=0, step=1):
    """a grid of 2 nx ny triangles with random diagonals; interior vertices displaced on the lattice as long as no
    triangle is inverted"""
    P = [[step * x, step * y] for y in range(ny + 1) for x in range(nx + 1)]
    T = []
    for y in range(ny):
        for x in range(nx):
            a = y * (nx + 1) + x
            b, c, d = a + 1, a + nx + 1, a + nx + 2
            T += [[a, b, d], [a, d, c]] if rng.random() < .5 else [[a, b, c], [b, d, c]]
    for _ in range(warp):
        v = rng.randrange(len(P))
        old = list(P[v])
        P[v] = [old[0] + rng.randint(-2, 2), old[1] + rng.randint(-2, 2)]
        if any(v in t and orient(*[P[w] for w in t]) <= 0 for t in T):
            P[v] = old
    return P, T


def flip(rng, P, T, n):
    """random edge flips inside convex quadrilaterals"""
    for _ in range(n):
        E = {}
        for k, t in enumerate(T):
            for a, b in ((0, 1), (1, 2), (2, 0)):
                E.setdefault(frozenset((t[a], t[b])), []).append(k)
        inner = [(e, k) for e, k in E.items() if len(k) == 2]
        if not inner:
            return T
        e, (k, m) = rng.choice(sorted(inner, key=lambda x: sorted(x[0])))
        a, b = sorted(e)
        c = next(v for v in T[k] if v not in e)
        d = next(v for v in T[m] if v not in e)
        n1, n2 = [c, d, b], [d, c, a]
        s = [orient(*[P[v] for v in x]) for x in (n1, n2)]
        if s[0] * s[1] > 0 and frozenset((c, d)) not in E:
            T[k], T[m] = (n1, n2) if s[0] > 0 else (n1[::-1], n2[::-1])
    return T


def drop(rng, T, p):
    return [t for t in T if rng.random() >= p]


def compact(P, T):
    used = sorted({v for t in T for v in t})
    m = {v: k for k, v in enumerate(used)}
    return [P[v] for v in used], [[m[v] for v in t] for t in T]


def shuffle(rng, P, T):
    ids = list(range(len(P)))
    rng.shuffle(ids)
    Q = [None] * len(P)
    for k, x in enumerate(P):
        Q[ids[k]] = list(x)
    T = [[ids[v] for v in t] for t in T]
    T = [t[r:] + t[:r] for t in T for r in [rng.randrange(3)]]
    rng.shuffle(T)
    return Q, T


def mesh(rng, nx=None, ny=None, step=None, hole=True):
    nx, ny = nx or rng.randint(2, 6), ny or rng.randint(2, 6)
    P, T = grid(rng, nx, ny, warp=rng.choice((0, 10, 40)), step=step or rng.choice((1, 2, 4)))
    T = flip(rng, P, T, rng.choice((0, 5, 30)))
    if hole and rng.random() < .5:
        T = drop(rng, T, rng.choice((.05, .15)))
        P, T = compact(P, T)
    return shuffle(rng, P, T)
