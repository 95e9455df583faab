"""P19: geometry of trust regions."""
import itertools
import math

import numpy as np

from mc import geo
from mc.core import Res, Sub, h64, need

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all bound patterns, centers and radii on the real region code against an independent reference"
RULE = "bound patterns per coordinate x centers x radii x dimension; non-trivial: every case (shape, frame and mappings are judged for each)"
ASSUMPTIONS = ["comparison with a relative tolerance of 1e-9", "bounds with positive distance to each other"]
INF = np.inf

# (lower, upper) relative to the center in multiples of the radius
PAT = {
    "-": (-INF, INF), "f": (-100.0, 100.0), "0": (0.0, INF), "o": (-INF, 0.0), "n": (-0.4, 0.3), "L": (-0.5, INF), "U": (-INF, 0.5),
    "=": (-1.0, INF), "e": (-INF, 1.0), "j": (-1.05, 1.1), "a": (-1.0, 1.0), "z": (0.0, 0.2), "s": (-0.95, INF), "t": (-INF, 0.9),
}
RADII = [2.0, 0.25, 1e-6, 512.0]
CENTERS = {1: [[0.0], [-3.0]], 2: [[0.0, 0.0], [4.0, -0.5]], 3: [[1.0, -2.0, 0.5]]}


def spec_of(pats, center, radius, missing):
    lb = [c + PAT[p][0] * radius if math.isfinite(PAT[p][0]) else -INF for p, c in zip(pats, center)]
    ub = [c + PAT[p][1] * radius if math.isfinite(PAT[p][1]) else INF for p, c in zip(pats, center)]
    s = {"center": center, "radius": radius, "lb": lb, "ub": ub}
    if missing in ("lower", "both"):
        s["lb"] = None
    if missing in ("upper", "both"):
        s["ub"] = None
    return s


def c_regions(tier):
    for d in (1, 2, 3):
        names = list(PAT) if d < 3 or tier != "quick" else ["-", "f", "0", "n", "=", "j", "U"]
        for pats in itertools.product(names, repeat=d):
            for missing in ("none", "lower", "upper", "both"):
                yield {"pats": "".join(pats), "missing": missing}


def close(a, b, scale):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-9 * np.maximum(scale, np.abs(b)))


def check_region(spec):
    """Everything that must hold for one region; returns violations."""
    d, r = len(spec["center"]), spec["radius"]
    shape, cen, rad = geo.ref_frame(spec)
    reg = geo.region(spec)
    lb = np.full(d, -INF) if spec["lb"] is None else np.array(spec["lb"])
    ub = np.full(d, INF) if spec["ub"] is None else np.array(spec["ub"])
    v = []
    # x - (c + 1*r) is subject to rounding: both answers are right exactly at the border
    gap = min(np.min(np.array(spec["center"]) - lb), np.min(ub - np.array(spec["center"])))
    border = math.isfinite(gap) and gap != r and abs(gap - r) < 1e-9 * r
    if border:
        return [], shape
    if reg.shape != shape:
        return [f"shape is {reg.shape} instead of {shape}"], shape
    if not close(reg.effective_center, cen, r):
        v.append(f"effective center is {np.asarray(reg.effective_center).tolist()} instead of {cen.tolist()}")
    if not close(np.broadcast_to(reg.effective_radius, d), rad, 0):
        v.append(f"effective radius is {np.asarray(reg.effective_radius).tolist()} instead of {rad.tolist()}")
    if not np.array_equal(reg.center, spec["center"]) or reg.radius != r:
        v.append("center or radius were changed")
    if shape == "cube":
        cb = reg.cube_bounds
        if not (close(cb.lower, cen - rad, r) and close(cb.upper, cen + rad, r)):
            v.append(f"rectangle is [{cb.lower.tolist()}, {cb.upper.tolist()}] instead of [{(cen - rad).tolist()}, {(cen + rad).tolist()}]")
        if (cb.lower < lb).any() or (cb.upper > ub).any():
            v.append("the rectangle leaves the bounds")
        if not close(reg.cube_center, cen, r):
            v.append("wrong center of the rectangle")
    else:
        for att in ("cube_bounds", "cube_center"):
            try:
                getattr(reg, att)
                v.append(f"a spherical region has {att}")
            except AttributeError:
                pass
    # mappings
    unit = geo.grid(d, [-1.0, -0.5, 0.0, 1 / 3, 1.0])
    if shape == "sphere":
        n = np.linalg.norm(unit, axis=1)
        unit = unit / np.maximum(n, 1.0)[:, None]
    keep = unit.copy()
    x = reg.map_from_unit(unit)
    want = cen + rad * unit
    if not close(x, want, r):
        v.append(f"map_from_unit({unit[0].tolist()}) = {x[0].tolist()} instead of {want[0].tolist()}")
    if (x < lb).any() or (x > ub).any():
        v.append("map_from_unit leaves the bounds")
    back = reg.map_to_unit(x)
    cond = float(np.max(np.abs(x)) / np.min(rad) + 1)
    if not np.all(np.abs(back - unit) <= 1e-12 * cond):
        v.append("map_to_unit does not undo map_from_unit")
    again = reg.map_from_unit(back)
    if not np.all(np.abs(again - x) <= 1e-12 * cond * np.max(rad)):
        v.append("map_from_unit does not undo map_to_unit")
    one = reg.map_from_unit(unit[1])
    if one.shape != (d,) or not np.array_equal(one, x[1]):
        v.append("single points are mapped differently")
    if not np.array_equal(reg.map_to_unit(x[1]), back[1]):
        v.append("single points are mapped differently to the unit space")
    if not np.array_equal(unit, keep):
        v.append("the mapping modified its argument")
    out = reg.map_to_unit(cen + rad * np.full(d, 2.0))
    if not np.all(np.abs(out - 2.0) <= 1e-12 * cond):
        v.append("points outside of the region are not mapped affinely")
    if shape == "cube":
        far = reg.map_from_unit(np.full(d, 3.0))
        if (far > cen + rad + 1e-9 * r).any():
            v.append("map_from_unit does not clip points outside of the unit cube")
    # rebuild by replacement
    for other in (r * 0.5, r * 4):
        a = reg._replace(radius=other)
        b = geo.region({**spec, "radius": other})
        if a.shape != b.shape or not np.array_equal(a.effective_center, b.effective_center) or not np.array_equal(a.effective_radius, b.effective_radius):
            v.append("replacing the radius gives another region than building it")
    c2 = np.clip(np.array(spec["center"]) + 0.1 * r, lb, ub)
    a, b = reg._replace(center=c2), geo.region({**spec, "center": c2.tolist()})
    if a.shape != b.shape or not np.array_equal(a.effective_center, b.effective_center) or not np.array_equal(a.effective_radius, b.effective_radius):
        v.append("replacing the center gives another region than building it")
    if not np.array_equal(reg.center, spec["center"]) or reg.shape != shape:
        v.append("replacing changed the old region")
    return v, shape


def r_regions(case):
    d = len(case["pats"])
    viol, shapes, states = [], [], []
    for c in CENTERS[d]:
        for r in RADII:
            spec = spec_of(case["pats"], c, r, case["missing"])
            v, s = check_region(spec)
            shapes.append(s)
            states.append(h64(spec))
            if v:
                viol.append(f"{spec}: {v[0]}")
    return Res(viol[:3], outcome=h64(shapes), states=states, transitions=len(states), sample=case)


def c_volume(tier):
    for d in range(1, 21 if tier == "quick" else 61):
        yield {"d": d}


def r_volume(case):
    d = case["d"]
    m = "tranquilo.volume"
    vol, rad = need(m, "get_volume"), need(m, "get_radius")
    c2s, s2c = need(m, "get_radius_of_sphere_with_volume_of_cube"), need(m, "get_radius_of_cube_with_volume_of_sphere")
    scale = need(m, "get_radius_after_volume_scaling")
    v, states = [], []
    lv = {"sphere": lambda r: d / 2 * math.log(math.pi) - math.lgamma(d / 2 + 1) + d * math.log(r), "cube": lambda r: d * math.log(2 * r)}

    def rel(a, b, what):
        if not (math.isfinite(a) and abs(a - b) <= 1e-9 * abs(b)):
            v.append(f"d={d}: {what} is {a} instead of {b}")

    for r in (0.01, 0.3, 1.0, 2.5, 40.0):
        states.append(h64(d, r))
        for s in ("sphere", "cube"):
            rel(vol(r, d, s), math.exp(lv[s](r)), f"volume of the {s} with radius {r}")
            rel(rad(vol(r, d, s), d, s), r, f"radius of the {s} with the volume of radius {r}")
        rc = s2c(r, d)
        rel(math.exp(lv["cube"](rc)), math.exp(lv["sphere"](r)), f"volume of the cube for the sphere {r}")
        rel(c2s(rc, d), r, "sphere of the cube of the sphere")
        rel(s2c(c2s(r, d), d), r, "cube of the sphere of the cube")
        for f in (0.1, 1.0, 3.0):
            rel(math.exp(lv["cube"](s2c(r, d, scaling_factor=f))), f * math.exp(lv["sphere"](r)), f"scaled volume ({f}) of the cube")
            rel(math.exp(lv["sphere"](c2s(r, d, scaling_factor=f))), f * math.exp(lv["cube"](r)), f"scaled volume ({f}) of the sphere")
            rel(math.exp(lv["sphere"](scale(r, d, f))), f * math.exp(lv["sphere"](r)), f"radius after scaling by {f}")
    if vol(1.0, d, "sphere") > vol(1.0, d, "cube") * (1 + 1e-12):
        v.append("the ball is larger than the cube around it")
    try:
        vol(1.0, d, "pyramid")
        v.append("unknown shapes are accepted")
    except ValueError:
        pass
    try:
        rad(1.0, d, "pyramid")
        v.append("unknown shapes are accepted by get_radius")
    except ValueError:
        pass
    return Res(v[:3], outcome=d, states=states, transitions=13 * len(states), sample=case)


def c_bounds(tier):
    vals = [None, [-INF, -INF], [-INF, 0.0], [-1.0, 0.0]]
    for lo in vals:
        for hi in vals:
            yield {"lo": lo, "hi": None if hi is None else [-x for x in hi]}


def r_bounds(case):
    Bounds = need("tranquilo.bounds", "Bounds")
    a = [None if b is None else np.array(b) for b in (case["lo"], case["hi"])]
    b = Bounds(*a)
    want = any(x is not None and np.isfinite(x).any() for x in a)
    v = []
    if bool(b.has_any) != want:
        v.append(f"has_any is {b.has_any} for {case}")
    for other in (None, np.array([-3.0, -INF]), np.array([-INF, -INF])):
        n = b._replace(lower=other)
        w = any(x is not None and np.isfinite(x).any() for x in (other, a[1]))
        if bool(n.has_any) != w:
            v.append(f"has_any is {n.has_any} after replacing the lower bounds of {case} by {other}")
        n = b._replace(upper=None if other is None else -other)
        w = any(x is not None and np.isfinite(x).any() for x in (a[0], other))
        if bool(n.has_any) != w:
            v.append(f"has_any is {n.has_any} after replacing the upper bounds of {case}")
    return Res(v[:2], outcome=want, states=[h64(case)], transitions=7, sample=case)


SUBS = [
    Sub("regions", c_regions, r_regions, what="bound patterns x centers x radii in dimensions 1-3"),
    Sub("volume", c_volume, r_volume, what="volumes and conversions per dimension"),
    Sub("bounds", c_bounds, r_bounds, what="presence of bounds"),
]
