"""Earth models for the checks: the two standard ones and synthetic ones."""
import os
from core import *

HEAD = "synthetic - P\nsynthetic - S\n"


def text(rows):
    """rows: (depth, vp, vs)"""
    return HEAD + "".join("%s %s %s 3.0\n" % r for r in rows)


CORE = [(2889, 8.0, 0.0), (5153.9, 10.2, 0.0), (5153.9, 11.0, 3.5),
        (6371, 11.3, 3.7)]

SYN = {
    # one crust, one mantle, core
    "simple": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.0, 4.5),
               (2889, 13.7, 7.2)] + CORE,
    # a low velocity zone between two discontinuities, P and S
    "lvz": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.1, 4.6), (80, 8.2, 4.65),
            (80, 7.4, 4.2), (220, 7.5, 4.25), (220, 8.6, 4.7),
            (2889, 13.7, 7.2)] + CORE,
    # gradual ones, S deeper than P
    "soft": [(0, 5.8, 3.4), (40, 6.5, 3.8), (40, 8.1, 4.6),
             (100, 8.15, 4.62), (160, 7.5, 4.5), (220, 8.6, 4.2),
             (300, 8.9, 4.75), (700, 11.0, 6.1), (2889, 13.7, 7.2)] + CORE,
    # everything of constant velocity
    "steps": [(0, 6.0, 3.5), (30, 6.0, 3.5), (30, 8.0, 4.5), (410, 8.0, 4.5),
              (410, 9.5, 5.2), (660, 9.5, 5.2), (660, 12.0, 6.6),
              (2889, 12.0, 6.6), (2889, 8.5, 0.0), (5153.9, 8.5, 0.0),
              (5153.9, 11.0, 3.5), (6371, 11.0, 3.5)],
    # a fast lid, several discontinuities, kinks without jumps
    "lid": [(0, 5.0, 2.9), (10, 5.5, 3.1), (10, 6.2, 3.6), (33, 7.0, 4.0),
            (33, 8.0, 4.5), (60, 8.6, 4.9), (120, 8.2, 4.4), (200, 8.3, 4.5),
            (410, 9.0, 4.9), (410, 9.4, 5.1), (520, 9.7, 5.3),
            (660, 10.2, 5.6), (660, 10.8, 6.0), (2740, 13.6, 7.25),
            (2891, 13.7, 7.26), (2891, 8.06, 0.0), (5149.5, 10.35, 0.0),
            (5149.5, 11.03, 3.5), (6371, 11.26, 3.66)],
    # low velocity zone right above the core: no diffraction
    "dlvz": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.0, 4.5),
             (2700, 13.8, 7.3), (2889, 12.5, 6.6)] + CORE,
    # slow crust bottom
    "slowcrust": [(0, 6.0, 3.5), (15, 6.4, 3.7), (15, 5.6, 3.2),
                  (35, 5.8, 3.3), (35, 8.0, 4.5), (660, 10.4, 5.7),
                  (660, 10.8, 6.0), (2889, 13.7, 7.2)] + CORE,
    # another radius
    "venus": [(0, 6.0, 3.5), (30, 7.0, 4.0), (30, 8.0, 4.5), (700, 10.4, 5.7),
              (700, 10.8, 6.0), (2840.5, 13.4, 7.1), (2840.5, 8.3, 0.0),
              (4900, 10.1, 0.0), (4900, 11.0, 3.5), (6051.8, 11.2, 3.6)],
}

EXTRA = {   # for the structural checks only
    "nocrust": [(0, 7.8, 4.4), (660, 10.4, 5.7), (660, 10.8, 6.0),
                (2889, 13.7, 7.2)] + CORE,
    "noinner": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.0, 4.5),
                (2889, 13.7, 7.2), (2889, 8.0, 0.0), (6371, 10.6, 0.0)],
    "melt": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.0, 4.5), (350, 8.6, 4.7),
             (350, 7.0, 0.0), (400, 7.1, 0.0), (400, 8.9, 4.8),
             (2889, 13.7, 7.2)] + CORE,
    "fastcrust": [(0, 7.0, 4.0), (35, 7.2, 4.1), (35, 6.9, 3.9),
                  (300, 9.0, 5.0), (2889, 13.7, 7.2)] + CORE,
    # small, with its core far from where that of the Earth is, and large
    "mars": [(0, 6.0, 3.5), (50, 7.0, 4.0), (50, 7.8, 4.4),
             (1700, 9.5, 5.2), (1700, 6.0, 0.0), (3000, 7.0, 0.0),
             (3000, 8.0, 4.0), (3389.5, 8.2, 4.1)],
    "large": [(0, 5.8, 3.4), (35, 6.5, 3.8), (35, 8.0, 4.5), (2889, 13.7, 7.2),
              (2889, 8.0, 0.0), (5153.9, 10.2, 0.0), (5153.9, 11.0, 3.5),
              (6378.137, 11.3, 3.7)],
    "homog": [(0, 10.0, 5.0), (2889, 10.0, 5.0), (2889, 8.0, 0.0),
              (5153.9, 8.0, 0.0), (5153.9, 11.0, 3.5), (6371, 11.0, 3.5)],
    "jumpy": [(0, 5.8, 3.4), (20, 5.8, 3.4), (20, 6.5, 3.2), (35, 6.5, 3.2),
              (35, 6.2, 3.9), (90, 8.0, 3.9), (90, 8.0, 4.5),
              (2889, 13.7, 7.2)] + CORE,
}


def syn_path(name, rows=None):
    rows = rows if rows is not None else (SYN.get(name) or EXTRA[name])
    d = os.path.join(scratch(), "tvel")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".tvel")
    with open(path, "w") as f:
        f.write(text(rows))
    return path


def path_of(name):
    return tvel_path(name) if name in ("iasp91", "ak135") else syn_path(name)


COARSE = dict(min_delta_p=1.0, max_delta_p=60.0, max_depth_interval=600.0,
              max_range_interval=20.0, max_interp_error=1.0)
MIDDLE = dict(min_delta_p=0.5, max_delta_p=25.0, max_depth_interval=250.0,
              max_range_interval=6.0, max_interp_error=0.3)


def radius(model):
    """The largest depth of the velocities."""
    return float(model.sMod.vMod.layers[-1].botDepth)


def get(specs, strict=True):
    """specs: (name, params).  -> list of models, or Raised unless strict."""
    return build_many([(path_of(n), p) for n, p in specs], strict)
