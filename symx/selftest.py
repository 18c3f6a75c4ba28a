"""sanity of the machinery itself: the engine must find planted faults, prove easy facts, and not be vacuous"""
import math
from . import core, engine, npshim


def good(c):
    x = c.real("x", -3, 3); y = c.real("y", 0, 2)
    c.le("abs", abs(x), 3)
    r = core.sqrt_(x * x + y * y)
    c.ge("norm", r, y)
    t = c.angle("t", 0, math.pi)
    c.eq("unit", core.sin_(t) ** 2 + core.cos_(t) ** 2, 1)
    a = npshim.arr([x, y, 1.0])
    c.eq("sum", npshim.np_sum(a), x + y + 1)
    c.eq("fold", (x % 1.0 + 1.0) % 1.0, x % 1.0)


def bad(c):
    x = c.real("x", 0, 10)
    if x > 7:
        c.le("wrong", x, 9)
    else:
        c.le("right", x, 7)


def crash(c):
    x = c.real("x", 0, 3)
    [1, 2, 3][int(x)]


def main():
    e = engine.Explorer(good, {}); e.run()
    assert not e.candidates and not e.unknowns and not e.unsupported and e.stats.paths > 3, (e.candidates, e.unknowns, e.unsupported)
    e = engine.Explorer(bad, {}); e.run()
    assert [c.name for c in e.candidates] == ["wrong"] and e.candidates[0].vals[0]["x"] > 9, e.candidates
    e = engine.Explorer(crash, {}); e.run()
    assert [c.name for c in e.candidates] == ["exception:IndexError"], [c.name for c in e.candidates]
    from . import runner
    print("selftest ok; rayflare from", runner.import_rayflare(), "solver", core.z3.get_version_string())
    return 0
