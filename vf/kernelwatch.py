"""Watches calls of the CAD kernel while the code under test runs: which answers are wrong?"""
import numpy as np


def flat(wire):
    """polygon of a kernel wire"""
    from shapely.geometry import Polygon

    xy = []
    for e in wire.Edges():
        n = 2 if e.geomType() == "LINE" else 64
        xy.append([e.positionAt(t).toTuple()[:2] for t in np.linspace(0, 1, n)])
    # chain
    path = list(xy.pop(0))
    while xy:
        end = np.array(path[-1])
        k, rev = min(((k, r) for k in range(len(xy)) for r in (0, 1)), key=lambda q: np.hypot(*(np.array(xy[q[0]][-1 if q[1] else 0]) - end)))
        seg = xy.pop(k)
        path += list(reversed(seg))[1:] if rev else seg[1:]
    return Polygon(path).buffer(0)


class KernelWatch:
    """Watches Wire.offset2D of the CAD kernel: which offsets does it get wrong, judged by
    an exact offset of the same outline?"""

    def __enter__(self):
        import cadquery as cq

        self.wrong = {}
        self.orig = orig = cq.Wire.offset2D

        def offset2D(wire, d, kind="arc"):
            p = flat(wire)
            key = (round(p.area, 3), round(p.length, 3), round(p.centroid.x, 2) if not p.is_empty else 0, round(d, 4))
            want = p.buffer(d, quad_segs=64)
            self.wrong[key] = f"outline with bounds {[round(v, 3) for v in p.bounds]} offset by {d:.4f}"
            try:
                got = orig(wire, d, kind)
            except Exception:
                if want.buffer(-0.004).is_empty:
                    self.wrong.pop(key, None)
                raise
            have = None
            shapes = []
            for g in got:
                if len(g.Edges()):
                    q = flat(g)
                    if q.geom_type != "Polygon" or abs(q.length - g.Length()) > 0.01 + 0.01 * q.length:
                        self.wrong[key + ("tangled",)] = f"the wire that resulted from the {self.wrong[key]}"
                    shapes.append(q)
            for g in sorted(shapes, key=lambda g: g.area):
                have = g if have is None else have.symmetric_difference(g)
            diff = want if have is None else want.symmetric_difference(have)
            if diff.buffer(-0.004).is_empty:
                self.wrong.pop(key, None)
            return got

        cq.Wire.offset2D = offset2D
        return self

    def __exit__(self, *a):
        import cadquery as cq

        cq.Wire.offset2D = self.orig


class CombineWatch:
    """Watches Workplane.combine for faces in the XY plane: is the result their union?"""

    def __enter__(self):
        import cadquery as cq
        from shapely.geometry import Polygon
        from shapely.ops import unary_union

        self.wrong = {}
        self.orig = orig = cq.Workplane.combine

        def poly(f):
            p = flat(f.outerWire())
            for w in f.innerWires():
                p = p.difference(flat(w))
            return p.buffer(0)

        def combine(wp, *a, **kw):
            faces = [f for f in wp.objects if isinstance(f, cq.Face)]
            if len(faces) != len(wp.objects) or any(f.BoundingBox().zlen > 1e-4 for f in faces):
                return orig(wp, *a, **kw)
            label = f"union of {len(faces)} faces"
            self.wrong[label] = f"the {label}"
            if not all(f.isValid() for f in faces):
                self.wrong[label] = "the outline of a projected face (invalid)"
                return orig(wp, *a, **kw)
            want = unary_union([poly(f) for f in faces])
            res = orig(wp, *a, **kw)
            got = [poly(f) for o in res.objects for f in o.Faces()]
            have = unary_union(got) if got else Polygon()
            if want.symmetric_difference(have).buffer(-0.02).is_empty and abs(sum(g.area for g in got) - want.area) < 0.02 + 0.002 * want.area:
                self.wrong.pop(label)
            return res

        cq.Workplane.combine = combine
        return self

    def __exit__(self, *a):
        import cadquery as cq

        cq.Workplane.combine = self.orig
