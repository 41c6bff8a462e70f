import sys
sys.path.insert(0, H)
from sa import spec as _spec
from sa.domain import DV as _DV


def _cells(fn, pred, a):
    out = []
    for w in (32, 64, 128):
        for c in _spec.math_cells(w):
            if c.fn == fn and pred(*[x.atoms[0] for x in c.args]):
                out.append("%sd%d(%s) %s" % (fn, w, c.name, a))
    return out


for a, p in (("result", "S01"), ("errno", "S02")):
    finding("KF01-" + a, p,
            "fmod(finite x, +-Inf) returns NaN and sets EDOM where C23 requires x with errno unchanged; the library's own fmod tests require the NaN, so it cannot be repaired without editing them",
            _cells("fmod", lambda x, y: x.kind in ("zero", "fin") and y.kind == "inf", a))
