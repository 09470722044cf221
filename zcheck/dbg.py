"""developer helper: analyse harnesses selected by name prefix and print everything"""
import sys, os, time, re
from . import harness as HN, catalog
from .harness import *


def main():
    pat = sys.argv[1]
    verbose = "-v" in sys.argv
    os.makedirs("/tmp/zw", exist_ok=True)
    tool = HN.build_tool("/tmp/zw/irdump")
    hs = [h for h in catalog.all_harnesses() if (h.name == pat if "=" in sys.argv else re.match(pat, h.name))]
    import multiprocessing as mp
    if verbose:
        for h in hs:
            m = HN.compile_unit(tool, "/tmp/zw", "dbg", [h], catalog.flags(h))
            v, s, rets = h.analyze(m)
            print("==", h.name, s)
            for r in rets:
                print("  exit", r.code, [l for l in r.sys.lins()][:12])
                for ev in r.events:
                    print("      ", ev)
            for x in v:
                print("  VIOL", x[0], x[1], HN.fmt_loc(x[2]))
        return
    jobs = [(tool, "/tmp/zw", "d%d" % k, [h], catalog.flags(h), 120) for k, h in enumerate(hs)]
    with mp.Pool(8) as p:
        for res in p.imap_unordered(HN.run_unit, jobs):
            for r in res:
                print(r["name"], r["status"], "%.1fs" % r.get("wall", 0), {k: v for k, v in r["stats"].items() if k in ("exits", "outcomes", "obligations", "discharged")}, r.get("text", "")[:600])
                if r.get("tb") and "-t" in sys.argv:
                    print(r["tb"])
                for v in r["viol"][:6]:
                    print("    ", v)


if __name__ == "__main__":
    main()
