import sys
from . import runner


def go():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return runner.replay(a[1])
    if a and a[0] == "--selftest":
        from . import selftest
        return selftest.main()
    prop, tier = a[0], (a[1] if len(a) > 1 and not a[1].startswith("-") else "quick")
    only = a[a.index("-k") + 1] if "-k" in a else None
    return runner.main(prop, tier, only=only, verbose="-v" in a)


try:
    rc = go()
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
