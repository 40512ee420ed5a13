"""Sampled planar distance queries (STRtree based, no polygon buffering of tool paths:
GEOS buffers of self-touching lines are not reliable enough to decide anything)."""
from __future__ import annotations

import math

import numpy as np
import shapely
from shapely.geometry import Polygon

from . import gcode


def rings(poly):
    for g in getattr(poly, "geoms", [poly]):
        if g.is_empty:
            continue
        yield np.asarray(g.exterior.coords)[:, :2]
        for i in g.interiors:
            yield np.asarray(i.coords)[:, :2]


class Segs:
    """distance index over a bag of segments (N,4)"""

    def __init__(self, segs):
        segs = np.asarray(segs, float).reshape(-1, 4)
        self.n = len(segs)
        self.segs = segs
        if self.n:
            g = shapely.linestrings(segs.reshape(-1, 2, 2))
            self.geoms = g
            self.tree = shapely.STRtree(g)

    def dist(self, pts):
        pts = np.asarray(pts, float).reshape(-1, 2)
        if not self.n:
            return np.full(len(pts), np.inf)
        if not len(pts):
            return np.zeros(0)
        P = shapely.points(pts)
        idx, d = self.tree.query_nearest(P, return_distance=True, all_matches=False)
        out = np.full(len(pts), np.inf)
        out[idx[0]] = d
        return out

    @classmethod
    def of_rings(cls, rr):
        s = [np.hstack([r[:-1], r[1:]]) for r in rr if len(r) > 1]
        return cls(np.vstack(s) if s else np.zeros((0, 4)))

    @classmethod
    def of_polygon(cls, poly):
        return cls.of_rings(list(rings(poly)))


def inside(poly, pts):
    pts = np.asarray(pts, float).reshape(-1, 2)
    shapely.prepare(poly)
    return shapely.contains_xy(poly, pts[:, 0], pts[:, 1])


class Region:
    """signed clearance of points inside a polygon with holes"""

    def __init__(self, poly):
        self.poly = poly
        self.b = Segs.of_polygon(poly)

    def clearance(self, pts):
        """>0 inside: distance to the boundary; <0 outside"""
        pts = np.asarray(pts, float).reshape(-1, 2)
        d = self.b.dist(pts)
        return np.where(inside(self.poly, pts), d, -d)


def move_polyline(m, tol=2e-4):
    return np.asarray([p[:2] for p in gcode.points(m, tol)], float)


def densify(pl, step):
    """points along a polyline no further than step apart"""
    out = []
    for a, b in zip(pl, pl[1:]):
        n = max(1, int(math.ceil(np.hypot(*(b - a)) / step)))
        t = np.arange(n)[:, None] / n
        out.append(a + (b - a) * t)
    out.append(pl[-1:])
    return np.vstack(out)


def path_segs(moves, tol=2e-4):
    s = []
    for m in moves:
        pl = move_polyline(m, tol)
        s.append(np.hstack([pl[:-1], pl[1:]]))
    return Segs(np.vstack(s) if s else np.zeros((0, 4)))


def grid(poly, n=2500, jitter=0.37):
    """about n grid points inside the bounds of poly"""
    x0, y0, x1, y1 = poly.bounds
    w, h = max(x1 - x0, 1e-9), max(y1 - y0, 1e-9)
    k = math.sqrt(w * h / n)
    xs = np.arange(x0 + jitter * k, x1, k)
    ys = np.arange(y0 + jitter * k, y1, k)
    X, Y = np.meshgrid(xs, ys)
    return np.column_stack([X.ravel(), Y.ravel()])


def boundary_points(poly, n=600):
    out = []
    L = poly.length
    for r in rings(poly):
        ls = shapely.linestrings(r)
        k = max(8, int(n * ls.length / max(L, 1e-9)))
        out.append(shapely.get_coordinates(shapely.line_interpolate_point(ls, np.linspace(0, ls.length, k, endpoint=False))))
    return np.vstack(out) if out else np.zeros((0, 2))
