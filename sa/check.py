#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's
current source by static analysis; exit 0 held, 1 VIOLATION, 3 no answer."""
import argparse, importlib, os, signal, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import an
from report import Report, known_findings
from props import REGISTRY


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--no-extract", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rep = Report(a.prop, tier)
    if a.no_extract:
        import json

        D = json.load(open(os.path.join(an.BUILD, "all.json")))
    else:
        D = an.extract()
    P = an.Program(D)
    mod, fn, kw = REGISTRY[a.prop]
    m = importlib.import_module("props." + mod)

    def late(*_):
        raise TimeoutError("time")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("RPHON_TIME", 780)))
    try:
        getattr(m, fn)(P, rep, **kw)
    except (RecursionError, TimeoutError) as e:
        rep.undec("analysis", "gave up: %s" % type(e).__name__)
    except an.Anchor as e:
        rep.fail("anchor|" + str(e), "the construct the rule is anchored in is missing: " + str(e))
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        rep.undec("analysis", "gave up: %s %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
        if os.environ.get("RPHON_DEBUG"):
            raise
    signal.alarm(0)
    sys.exit(rep.finish(known_findings(a.prop)))


if __name__ == "__main__":
    main()
