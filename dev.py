"""developer runner: python3-vt dev.py NAME [caseidx] ; prints obligations"""
import sys, time
sys.path.insert(0, "/verif")
from vt import loader, symharness, api, sym
loader.load()
api.load_all()
name = sys.argv[1]
only = [int(x) for x in sys.argv[2:]]
tot = 0
for c in api.CONTRACTS:
    if c.name != name:
        continue
    for i, case in enumerate(c.cases):
        if only and i not in only:
            continue
        r = symharness.run_case(c, case, budget=c.timeout)
        st = {}
        for o in r["obls"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
        print(i, case, "paths", r["paths"], "completed", r["completed"], st, "%.2fs" % r["secs"], r["unsupported"][:3])
        seen = set()
        for o in r["obls"]:
            if o["status"] != "proved" and o["name"] not in seen:
                seen.add(o["name"])
                print("    ", o["status"], o["name"], "|", (o.get("detail") or "")[:600])
                if only:
                    print("        pc:", o.get("pc"))
                    print("        in:", o.get("inputs"))
        if only:
            print("entered", r["entered"])
            be={}
            for o in r["obls"]: be[o["backend"]]=be.get(o["backend"],0)+1
            print(be, sym.STATS)
