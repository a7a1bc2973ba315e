"""Frame conditions: which objects a call writes."""

from pyvc.interp import Frame, Heap


def frame_start():
    """from here on writes are recorded (proofs only)"""


def frame_ok(*allowed):
    """only objects created since, and those allowed, were written"""
    return True


def setup_frame(en):
    def start(en, args, kw):
        rec = []
        en.recorders.append(rec)
        en.ghost["frame"] = (Heap.n, rec)
        return None

    def check(en, args, kw):
        base, rec = en.ghost["frame"]
        return all(o.serial > base or any(o is a for a in args) or isinstance(o, Frame) for o, _ in rec)
    en.models.fn[frame_start] = start
    en.models.fn[frame_ok] = check
