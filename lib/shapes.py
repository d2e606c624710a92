"""Shapes of Shapes.tla as objects of the code."""


def make(s, u, **kw):
    import SeismicMesh as sm
    from SeismicMesh import geometry as g
    a = [x * u for x in s["a"]]
    k = s["kind"]
    if k == "box":
        return (sm.Rectangle if len(a) == 4 else sm.Cube)(tuple(a), **kw)
    if k == "ball":
        return (sm.Disk if len(a) == 3 else sm.Ball)(a[:-1], a[-1], **kw)
    if k == "torus":
        return sm.Torus(a[0], a[1], **kw)
    if k == "cylinder":
        return sm.Cylinder(h=2 * a[0], r=a[1], **kw)
    if k == "prism":
        return sm.Prism(a[0], a[1], **kw)
    if k in ("union", "intersection", "difference"):
        raise ValueError(k)
    raise ValueError(k)


def tree(t, u, smoothness=None):
    import SeismicMesh as sm
    if t["kind"] in ("union", "intersection", "difference"):
        f = {"union": sm.Union, "intersection": sm.Intersection, "difference": sm.Difference}[t["kind"]]
        of = [tree(x, u) for x in t["of"]]
        return f(of) if smoothness is None else f(of, smoothness=smoothness)
    return make(t, u)


def signs(v, tol):
    import numpy as np
    v = np.asarray(v, dtype=float).ravel()
    return [0 if abs(x) <= tol else (1 if x > 0 else -1) if x == x else 9 for x in v.tolist()]
