"""Development aid: verify every unit once and evaluate the lemmas of all properties (no native runs).
usage: PV_REPO=tree python3-vt tools/overview.py   -> leads (with the properties that would report them) and undecided items"""
import sys, os, re, json, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pvc import main, plan, ir
sys.modules["__main__"].MOD = None
class All(main.Run):
    def __init__(s):
        ls = []
        for p, d in plan.PLANS.items():
            for f in d.get("lemmas", ()): ls.append((p, d, f))
        def sub(p, d, f):
            def g(s):
                sel = d["cfgs"] if d.get("cfgs") else plan.ALL
                keep, k0, u0, us = s.cfgs, len(s.leads), len(s.undecided), s.units
                if p == "C18": s.units = [r for r in us if not re.match("construction|destruction|AlignedArray", r.name)]
                s.cfgs = [c for c in keep if sel(c)]
                s.plan = d
                try: f(s)
                finally: s.cfgs, s.units = keep, us; s.plan = plan.PLANS["OVERVIEW"]
                for l in s.leads[k0:]: l["prop"] = p
                for l in s.undecided[u0:]: l["prop"] = p
            return g
        plan.PLANS["OVERVIEW"] = dict(cfgs=plan.ALL, steps="prove", cascade=True, nosse=True, api=plan.API, extra=["precision", "aa"], native=[], lemmas=[sub(*x) for x in ls],
            kinds=("bounds", "overflow", "alignment", "uninitialised", "precondition", "composition", "postcondition"))
        super().__init__("OVERVIEW", "thorough", 1)
s = All()
def stop(r):
    """PV_STOP: end at the first failed unit"""
    for q in (r.values() if type(r) is dict else [r]):
        if isinstance(q, dict) and (q.get("fails") or q.get("status") == "unsupported"):
            print(("LEAD - %s %s" % (q.get("name"), q["fails"][:1])) if q.get("fails") else "UNDECIDED - %s %s" % (q.get("name"), q.get("reason")))
            sys.stdout.flush()
            import multiprocessing
            for c in multiprocessing.active_children(): c.kill()
            shutil.rmtree(s.tmp, ignore_errors=True)
            os._exit(0)
if os.environ.get("PV_STOP"): s.watch = stop
ll, err = main.compile_ir(s.tmp)
if ll is None: print("does not compile:", err[:3000]); sys.exit(2)
main.MOD = ir.Module(open(ll).read())
try: s.verify()
finally: shutil.rmtree(s.tmp, ignore_errors=True)
seen = set()
for l in s.leads:
    k = (l["kind"], l["text"][:60], l.get("prop"))
    print("LEAD", l.get("prop", "-"), "CREDIBLE" if l["credible"] else "", l["unit"], l["kind"], l["text"][:200], (l.get("model") or "") if k not in seen else "")
    seen.add(k)
for u in s.undecided: print("UNDECIDED", u.get("prop", "-"), u["unit"], u["reason"][:200])
print("notes", s.notes[:5])
g = sum(v[0] for r in s.units for v in (r.get("obl") or {}).values()); d = sum(v[1] for r in s.units for v in (r.get("obl") or {}).values())
print("obligations %d/%d lemmas %d/%d leads %d undecided %d time %.0f" % (d, g, sum(1 for _, ok in s.lemmas if ok is True), len(s.lemmas), len(s.leads), len(s.undecided), time.time() - main.T0))
