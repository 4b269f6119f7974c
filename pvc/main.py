"""check <property>: verify the current /repo against the contracts of one property.

Order of decision:
 1. every obligation of the property's units discharged and every lemma proved      -> held (exit 0)
 2. an obligation failed: its counterexample is replayed on the compiled code       -> VIOLATION if it fails there
    an exact refutation that cannot be replayed                                     -> VIOLATION .. no-failing-input-found
 3. the verifier could not decide (outside its reach, time)                         -> bounded check of the compiled code,
    labelled bounded in the evidence (exit 0 if it finds nothing)
A short run of the compiled code accompanies every proof, as a test of the trusted base."""
import sys, os, time, json, shutil, subprocess, tempfile, re, hashlib, signal, threading
from concurrent.futures import ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED, TimeoutError as FTimeout
from concurrent.futures.process import BrokenProcessPool
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, VERIF)
from pvc import ir, units, lemmas, freq, aa
from pvc.vals import *
from pvc.units import configs, cname, UP, DOWN, IIR, FIR
from pvc.plan import PLANS

T0 = time.time()
NPROC = int(os.environ.get("PV_NPROC") or max(2, min(8, os.cpu_count() or 2)))

# ------------------------------------------------------------------ building
def inc():
    return ["-I" + REPO + "/include"]
def compile_ir(tmp, extra=()):
    out = os.path.join(tmp, "driver%d.ll" % len(extra))
    p = subprocess.run(["clang++", "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-S", "-emit-llvm",
        "-ffp-contract=off", "-fno-discard-value-names", "-w"] + list(extra) + inc() + [os.path.join(VERIF, "harness", "driver.cc"), "-o", out], capture_output=True, text=True, timeout=300)
    if p.returncode: return None, p.stderr
    return out, ""
BUILDS = {"lib": ("library", ["clang++", "-DPV_LIBRARY"]), "opt": ("optimised clang", ["clang++", "-O2", "-DNDEBUG"]), "gcc": ("optimised gcc", ["g++", "-O2", "-DNDEBUG"]), "cxx17": ("C++17", ["g++", "-O3", "-std=c++17"])}
def source_tokens(cc):
    """the tokens of /repo's files as the compiler sees them, without the keyword 'inline'"""
    p = subprocess.run(cc[:1] + ["-std=c++11", "-E", "-w", "-I" + os.path.join(VERIF, "harness", "neutral")] + cc[1:] + inc() + [os.path.join(VERIF, "harness", "driver.cc")], capture_output=True, text=True, timeout=120)
    if p.returncode: return None
    out, on, root = [], False, os.path.realpath(REPO) + "/"
    for l in p.stdout.splitlines():
        if l.startswith("# "):
            m = re.match(r'# \d+ "((?:[^"\\]|\\.)*)"', l)
            if m: on = os.path.realpath(m.group(1)).startswith(root)
        elif on: out += [t for t in re.findall(r'"(?:[^"\\]|\\.)*"|\w+|\S', l) if t != "inline"]
    return out
NATIVE = {
    "nosse": ["-O2", "-g", "-U__SSE__"],
    "lib": ["-O2", "-g", "-DPV_LIBRARY", REPO + "/include/pandaresampler/pandaresampler.cc"],
    "opt": ["-O2", "-DNDEBUG"],
    "gcc": ["-O2", "-DNDEBUG"],
    "cxx17": ["-O3", "-std=c++17"],
    "plain": ["-O2", "-g"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=enum"],
    "msan": ["-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
class Native:
    """builds of the native harness, made in the background"""
    def __init__(s, tmp, kinds):
        s.tmp, s.procs, s.err = tmp, {}, {}
        for k in kinds: s.start(k)
    def start(s, k):
        out = os.path.join(s.tmp, "native_" + k)
        lg = open(out + ".log", "w")
        s.procs[k] = (subprocess.Popen(["nice", "-n", "5", BUILDS[k][1][0] if k in BUILDS else "clang++", "-w", "-std=c++11"] + NATIVE[k] + inc() + [os.path.join(VERIF, "harness", "native.cc"), "-o", out, "-lpthread"], stdout=lg, stderr=subprocess.STDOUT), out)
    def get(s, k, timeout=400):
        p, out = s.procs[k]
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); return None
        if rc:
            s.err[k] = open(out + ".log").read()[-2000:]
            return None
        return out
    def kill(s):
        for p, _ in s.procs.values():
            if p.poll() is None: p.kill(); p.wait()

def carg(c): return "cfg=" + ",".join(map(str, c))

class Run:
    watch = None
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.plan = PLANS[prop]
        s.tmp = tempfile.mkdtemp(prefix="pvc_%s_" % prop)
        s.leads, s.undecided, s.units, s.lemmas = [], [], [], []
        s.native_log, s.native_runs, s.native_fail = [], 0, None
        s.notes, s.ucfg = [], {}
        s.deadline = T0 + (420 if tier == "quick" else 1500)
    def log(s, t):
        print("[%5.1f] %s" % (time.time() - T0, t), flush=True)

    # -------------------------------------------------------------- pool
    def pool(s, tasks, what):
        """run tasks (key, function name, args) -> {key: result}; what cannot be run is left out"""
        out = {}
        if not tasks: return out
        ex = ProcessPoolExecutor(min(NPROC, len(tasks)))
        futs = {}
        try:
            for k, fn, args in tasks: futs[ex.submit(TASKS[fn], *args)] = k
            left = set(futs)
            while left:
                t = s.deadline - time.time()
                if t <= 0: s.notes.append("%s: out of time, %d left" % (what, len(left))); break
                done, left = wait(left, timeout=t, return_when=FIRST_COMPLETED)
                for f in done:
                    try:
                        out[futs[f]] = f.result()
                        if s.watch: s.watch(out[futs[f]])
                    except BrokenProcessPool: s.notes.append("%s: a worker died" % what); left = set(); break
                    except Exception as e: s.notes.append("%s: %s: %s" % (what, type(e).__name__, e))
        finally:
            ps = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            if len(out) < len(tasks):
                for p in ps:
                    try: p.kill()
                    except Exception: pass
        return out

    # -------------------------------------------------------------- leads
    def lead(s, unit, kind, text, cfgs=(), blocks=(), credible=False, **kw):
        s.leads.append(dict(unit=unit, kind=kind, text=text, cfgs=list(cfgs), blocks=[list(b) for b in blocks], credible=credible, **kw))
    def undecide(s, unit, why):
        s.undecided.append(dict(unit=unit, reason=why))
    def take(s, r, cfgs=(), frames=None, relevant=None):
        """account for a unit's result"""
        s.units.append(r)
        if r.status == "unsupported": s.undecide(r.name, r.reason)
        if r.status == "failed" or r.fails:
            for f in r.fails[:6]:
                bl, huge = [], False
                m = f["model"]
                if m and frames:
                    for n in frames(m):
                        if n is None: continue
                        if n > 3_000_000: huge = True; continue
                        bl += [[n], [n, 37, n], [3, n, 200], [200, n, n, 5]]
                cred = huge and not bl and not f["loose"] and f["kind"] in (relevant or s.plan.get("kinds", ()))
                s.lead(r.name, f["kind"], "%s: %s" % (f["where"], f["msg"]), cfgs, bl, cred, model=m)
    def where(s, r): return s.ucfg.get(r.name, [])
    def lemma(s, name, ok, text="", cfgs=(), credible=True, **kw):
        s.lemmas.append((name, ok))
        if ok is True: return
        if ok is None: s.undecide(name, text or "not decided")
        else: s.lead(name, "lemma", text, cfgs, kw.pop("blocks", ()), credible, **kw)

    # -------------------------------------------------------------- native code
    def native(s, nat, kinds, secs, cfgs=None, blocks=(), extra=(), split=True, label="", per=1):
        """run the compiled code; the first failure is kept"""
        allc = [c for c in (cfgs if cfgs else configs())]
        jobs = []
        n = max(1, NPROC // len(kinds) // per) if split else 1
        for kd in kinds:
            exe = nat.get(kd)
            if exe is None:
                s.notes.append("native build %s failed: %s" % (kd, s.err_tail(nat, kd))); continue
            for i in range(min(n, len(allc))):
                part = allc[i::n] if split else (allc if cfgs else [])
                jobs.append((kd, [exe, s.prop] + [carg(c) for c in part] + ["blocks=" + ",".join(map(str, b)) for b in blocks] + list(extra) + ["seed=%d" % (s.seed + i), "secs=%g" % secs]))
        run = []
        for i, (kd, cmd) in enumerate(jobs):
            lg = os.path.join(s.tmp, "run%d_%d.log" % (s.native_runs, i))
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="", TSAN_OPTIONS="halt_on_error=1")
            f = open(lg, "w")
            run.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=s.tmp, env=env, start_new_session=True), kd, cmd, lg, f))
        s.native_runs += 1
        end = time.time() + secs + 90
        ok = 0
        for p, kd, cmd, lg, f in run:
            try: rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: pass
                p.wait(); rc = None
            f.close()
            txt = open(lg, errors="replace").read()
            if rc == 0: ok += 1; continue
            if rc is None:
                s.notes.append("a native run did not finish in time (%s)" % kd); continue
            fail = [l for l in txt.splitlines() if l.startswith("FAIL")]
            san = [l for l in txt.splitlines() if "Sanitizer" in l or "runtime error" in l]
            if rc == 2 and not fail: s.notes.append("native harness: bad usage"); continue
            if rc in (-9,) and not fail: s.notes.append("a native run was killed (%s)" % kd); continue
            if s.native_fail is None:
                s.native_fail = dict(build=kd, cmd=cmd, rc=rc, text=(fail + san)[:3] or ["ends with status %s" % rc], output=txt[-6000:])
        s.native_log.append(dict(label=label, builds=list(kinds), processes=len(run), ok=ok, secs=secs, configurations=len(allc), hinted_blocks=len(blocks)))
        return s.native_fail
    def longest(s, hc):
        """cheap configurations that run the code in question"""
        def want(c):
            if c[1] != 2 and s.prop in ("C02", "C03", "C04"): return False
            return {"C02": c[0] == 0 and c[4] == 1, "C03": c[0] == 1 and c[4] == 1, "C04": c[4] == 0}.get(s.prop, True)
        best = {}
        for c in list(hc) or configs():
            k = (c[0], c[1], c[3], c[4])
            if c[1] > 1 and want(c) and (k not in best or c[2] < best[k][2]): best[k] = c
        return sorted(best.values(), key=lambda c: (c[1], c[2]))[:8] or None
    def err_tail(s, nat, kd): return nat.err.get(kd, "timeout")[-300:]

    # -------------------------------------------------------------- everything
    def main(s):
        nat = None
        try:
            kinds = s.plan["native"]
            nat = Native(s.tmp, kinds)
            ll, err = compile_ir(s.tmp)
            if ll is None:
                s.undecide("driver", "the driver does not compile: " + err[:500])
            else:
                global MOD
                MOD = ir.Module(open(ll).read())
                s.log("translated")
                try: s.verify()
                except Exception as e:
                    import traceback
                    s.undecide("verifier", "internal: %s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3].strip()))
            return s.verdict(nat, kinds)
        finally:
            if nat: nat.kill()
            shutil.rmtree(s.tmp, ignore_errors=True)

    def verify(s):
        P = s.plan
        # configurations and their steps
        cfgs = [c for c in configs() if P["cfgs"](c)] if P.get("cfgs") else []
        s.cfgs = cfgs
        prep = s.pool([(c, "prep", (c,)) for c in cfgs], "construction")
        s.keys = {}
        for c in cfgs:
            r = prep.get(c)
            if r is None: s.undecide(cname(c), "construction not examined"); continue
            if r.status != "proved":
                s.units.append(r)
                s.undecide(r.name, r.reason); continue
            s.keys[c] = r["keys"]
        rep = {}
        users = {}
        for c, ks in s.keys.items():
            for i, k in enumerate(ks):
                rep.setdefault(k, (c, i))
                users.setdefault(k, []).append((c, i))
        s.users = users
        mode = P.get("steps")
        tasks = []
        if mode:
            prove = mode == "prove" or s.tier == "thorough"
            secs = 300 if s.tier == "quick" else 900
            order = sorted(rep.items(), key=lambda kv: (-kv[1][0][4], -(kv[1][0][0]), -kv[1][0][2] / (kv[1][1] + 1)))
            tasks += [(("step", k), "stage", (c, i, prove, secs)) for k, (c, i) in order]
        if P.get("cascade"):
            tasks += [(("casc", c), "cascade", (c,)) for c in cfgs if c in s.keys]
        for n in P.get("extra", ()): tasks.append((("extra", n), n, ()))
        res = s.pool(tasks, "verification")
        s.log("%d units" % len(res))
        s.step = {}
        for k, (c, i) in rep.items():
            if not mode: break
            r = res.get(("step", k))
            if r is None: s.undecide("step %d of %s" % (i + 1, cname(c)), "not verified"); continue
            s.step[k] = r
            def frames(m, us=users[k]):
                v = m.get("m")
                if v is None: return [None]
                out = set()
                for c, i in us:
                    sh = i if c[0] == UP else {1: 0, 2: 1, 4: 2, 8: 3}[c[1]] - 1 - i
                    out.add((v + (1 << sh) - 1) >> sh)
                return sorted(out)
            s.ucfg[r.name] = [c for c, _ in users[k]]
            s.take(r, s.ucfg[r.name], frames)
        for c in cfgs:
            if not P.get("cascade") or c not in s.keys: continue
            r = res.get(("casc", c))
            if r is None: s.undecide("composition of " + cname(c), "not verified"); continue
            s.ucfg[r.name] = [c]
            s.take(r, [c], lambda m: [m.get("m")])
        for n in P.get("extra", ()):
            r = res.get(("extra", n))
            if r is None: s.undecide(n, "not verified"); continue
            for u in r.values(): s.take(u, (), lambda m: [v for q, v in sorted(m.items()) if q in ("bits", "value", "n")])
            s.extra = getattr(s, "extra", {}); s.extra[n] = r
        # construction, queries, reset, destruction
        s.api = {}
        if P.get("api"):
            t = []
            for c in s.keys:
                sc = [s.step[k].get("scells") if k in s.step and s.step[k].get("scells") else None for k in s.keys[c]]
                t.append((c, "api", (c, sc if all(v is not None for v in sc) else None)))
            got = s.pool(t, "interface")
            for c in s.keys:
                r = got.get(c)
                if r is None: s.undecide("interface of " + cname(c), "not verified"); continue
                s.api[c] = r
                for part in P["api"]:
                    if part in r: s.ucfg[r[part].name] = [c]; s.take(r[part], [c])
                    else: s.undecide("%s of %s" % (part, cname(c)), "not verified")
        for f in P.get("lemmas", ()): f(s)
        if P.get("nosse"): s.nosse(prep)
        a = source_tokens(["clang++"])
        s.otherbuilds = []
        for k, (n, cc) in BUILDS.items():
            b = source_tokens(cc)
            if not a or a != b: s.otherbuilds.append(k)
            s.lemma("the verified build and the %s build are the same text" % n, bool(a) and a == b or None, "%s and %s tokens differ" % (a and len(a), b and len(b)))
        s.log("lemmas done")

    def nosse(s, prep):
        """a build without vector code: its steps are the plain steps, its small functions are verified as they are"""
        s.plainbuild = False
        ll, err = compile_ir(s.tmp, ("-U__SSE__",))
        if ll is None: s.undecide("build without SSE", "does not compile: " + err[:300]); return
        global MOD2
        MOD2 = ir.Module(open(ll).read())
        cs = [c for c in s.cfgs if c[3] and c in s.keys]
        sc = {}
        for c in cs:
            p = c[:3] + (0,) + c[4:]
            sc[c] = [s.step[k].get("scells") if k in s.step else None for k in s.keys.get(p, ())]
        got = s.pool([(("prep", c), "prep2", (c,)) for c in cs] + [(("api", c), "api2", (c, sc[c] if all(v is not None for v in sc[c]) else None)) for c in cs], "build without SSE")
        text, own = {}, {}
        n0 = len(s.leads) + len(s.undecided)
        for c in cs:
            p = c[:3] + (0,) + c[4:]
            r = got.get(("prep", c))
            if r is None or r.status != "proved" or r["keys"] != s.keys.get(p): continue
            for i, (k, f, g) in enumerate(zip(r["keys"], r["fns"], prep[p]["fns"])):
                for h in {f, g}:
                    if h not in text: text[h] = MOD.closure(h) == MOD2.closure(h)
                if f != g or not text[f]: own.setdefault(k, (p, i))
        prove = s.plan["steps"] == "prove" or s.tier == "thorough"
        st2 = s.pool([(k, "stage2", (c, i, prove, 300 if s.tier == "quick" else 900)) for k, (c, i) in own.items()], "build without SSE")
        for k, r in st2.items():
            r["name"] += " (build without SSE)"
            s.ucfg[r.name] = [own[k][0]]; s.take(r, s.ucfg[r.name])
        for c in cs:
            p = c[:3] + (0,) + c[4:]
            r, a = got.get(("prep", c)), got.get(("api", c))
            n = "steps without SSE: " + cname(c)
            if r is None or r.status != "proved" or p not in s.keys: s.lemma(n, None, "construction not examined: %s" % (r and r.reason), [c])
            elif r["keys"] != s.keys[p]: s.lemma(n, None, "the steps differ from the plain steps", [c])
            else:
                def same(k):
                    if k not in own: return True
                    u, v = st2.get(k), s.step.get(k)
                    return bool(u and v and u.get("G") and v.get("G")) and lemmas.same_step(lemmas.Tmpl(u, c[0] == UP), lemmas.Tmpl(v, c[0] == UP))[0] is True
                ok = all(same(k) for k in r["keys"])
                s.lemma(n, ok or None, "the steps differ from the plain steps", [c])
            if a is None: s.undecide("interface without SSE of " + cname(c), "not verified"); continue
            for part in s.plan["api"]:
                if part not in a: s.undecide("%s without SSE of %s" % (part, cname(c)), "not verified"); continue
                a[part]["name"] += " (build without SSE)"
                s.ucfg[a[part].name] = [c]; s.take(a[part], [c])
                if part == "queries" and p in s.api:
                    q = s.api[p].get("queries", {})
                    for w in ("order", "delay"): s.lemma("%s() without SSE: %s" % (w, cname(c)), None if a[part].get(w) is None or q.get(w) is None else a[part][w] == q[w], "%s() is %s, %s with SSE" % (w, a[part].get(w), q.get(w)), [c], credible=False)
        s.plainbuild = len(s.leads) + len(s.undecided) == n0

    # -------------------------------------------------------------- verdict
    def verdict(s, nat, kinds):
        obl = [0, 0]
        for r in s.units:
            for g, d in (r.get("obl") or {}).values(): obl[0] += g; obl[1] += d
        nl = len(s.lemmas); dl = sum(1 for _, ok in s.lemmas if ok is True)
        proved = not s.leads and not s.undecided and obl[0] + nl > 0 and obl[0] == obl[1] and nl == dl
        if not proved and not s.leads and not s.undecided:
            s.undecide("verifier", "no obligations" if obl[0] + nl == 0 else "%d of %d obligations discharged" % (obl[1] + dl, obl[0] + nl))
        q = s.tier == "quick"
        extra = s.native_extra() if hasattr(s, "step") else []
        split = s.plan.get("split", True)
        if proved:
            s.log("proved: %d obligations, %d lemmas" % (obl[0], nl))
            s.native(nat, kinds, 10 if q else 240, extra=extra, split=split, label="accompanying run")
        else:
            for l in s.leads[:8]: s.log("failed obligation: %s: %s: %s %s" % (l["unit"], l["kind"], l["text"], l.get("model") or ""))
            for u in s.undecided[:8]: s.log("undecided: %s: %s" % (u["unit"], u["reason"][:200]))
            hc, hb = [], []
            for l in s.leads:
                for c in l["cfgs"]:
                    if c not in hc: hc.append(c)
                for b in l["blocks"]:
                    if b not in hb and len(hb) < 24: hb.append(b)
            if not getattr(s, "plainbuild", True):
                nat.start("nosse"); kinds = kinds + ["nosse"]
            for k in getattr(s, "otherbuilds", ()):
                nat.start(k); kinds = kinds + [k]
            if s.leads: s.native(nat, kinds, 30 if q else 120, cfgs=hc or None, blocks=hb, extra=extra, split=split, label="replay of failed obligations")
            if s.native_fail is None: s.native(nat, kinds, 75 if q else 400, blocks=hb, extra=extra, split=split, label="bounded check")
            if s.native_fail is None and s.prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C09"):
                if "plain" not in kinds: nat.start("plain")
                s.native(nat, ["plain"], 60 if q else 200, cfgs=s.longest(hc), extra=["big=1"], per=2, label="blocks of billions of samples")
        viol = None
        if s.native_fail:
            viol = ""
        elif not proved:
            cred = [l for l in s.leads if l["credible"]]
            if cred: viol = " no-failing-input-found"
        s.evidence(obl, nl, dl, proved, viol)
        if viol is not None:
            path = s.replay(viol)
            print("VIOLATION property=%s replay=%s%s" % (s.prop, path, viol), flush=True)
            return 1
        if not proved and not any(x["ok"] for x in s.native_log):
            print("no answer: neither the verifier nor the compiled code could be used", flush=True)
            return 2
        print("%s: %s (%.0f s)" % (s.prop, "held: proved" if proved else "held on everything explored (bounded: %d undecided, %d unconfirmed)" % (len(s.undecided), len(s.leads)), time.time() - T0), flush=True)
        return 0

    def native_extra(s):
        out = []
        if s.prop == "C04":
            for prec, co in sorted(getattr(s, "coefs", {}).items()): out.append("coef=%d:%s" % (prec, ",".join(repr(float(v)) for v in co)))
        return out

    def replay(s, viol):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.txt" % s.prop)
        with open(p, "w") as f:
            f.write("property %s\n\n" % s.prop)
            if s.native_fail:
                n = s.native_fail
                f.write("The compiled code fails (harness/native.cc, build '%s': clang++ -w -std=c++11 %s -I%s/include):\n  %s\n\nreproduce with:\n  %s\n\noutput:\n%s\n\n" % (n["build"], " ".join(NATIVE[n["build"]]), REPO, "\n  ".join(n["text"]), " ".join(["native"] + n["cmd"][1:]), n["output"]))
            if s.leads:
                f.write("Failed obligations:\n")
                for l in s.leads[:60]:
                    f.write("  %s\n    %s: %s\n" % (l["unit"], l["kind"], l["text"]))
                    if l.get("model"): f.write("    counterexample: %r\n" % (l["model"],))
            if s.undecided:
                f.write("Undecided:\n")
                for u in s.undecided[:40]: f.write("  %s: %s\n" % (u["unit"], u["reason"]))
        return p

    def evidence(s, obl, nl, dl, proved, viol):
        kinds, funcs, q, zt, zu = {}, {}, 0, 0.0, 0
        for r in s.units:
            for k, (g, d) in (r.get("obl") or {}).items():
                a = kinds.setdefault(k, [0, 0]); a[0] += g; a[1] += d
            for k, v in (r.get("funcs") or {}).items(): funcs[k] = funcs.get(k, 0) + v
            q += r.get("queries") or 0; zt += r.get("ztime") or 0; zu += r.get("zunknown") or 0
        cov = dict(obligations=obl[0] + nl, discharged=obl[1] + dl,
            checker_cmd="cd /verif && ./check %s" % s.prop,
            trusted_base=TRUSTED + list(s.plan.get("trusted", ())),
            verdict="proved" if proved else "violation" if viol is not None else "bounded stand-in (not proved)",
            obligations_by_kind={k: dict(generated=v[0], discharged=v[1]) for k, v in sorted(kinds.items())},
            lemmas=nl, lemmas_proved=dl, units=len(s.units), units_proved=sum(1 for r in s.units if r.status == "proved"),
            configurations=len(getattr(s, "cfgs", ())), distinct_steps=len(getattr(s, "step", ())),
            functions_under_contract=sorted(k for k in funcs if not k.startswith(("std::", "__gnu", "pv_", "operator")))[:400],
            library_functions_executed=sum(1 for k in funcs if k.startswith(("std::", "__gnu"))),
            back_ends={"z3 (linear integer arithmetic)": dict(queries=q, seconds=round(zt, 2), unknown=zu),
                       "float expression normalisation (hash-consing, exact rational linear forms)": dict(forms=sum(r.get("nlin") or 0 for r in s.units), deepest_rounding_chain=max([r.get("depth") or 0 for r in s.units] or [0])),
                       "exact rational / Bernstein polynomial arithmetic": dict(lemmas=nl)},
            loops=sum(len(r.get("loops") or ()) for r in s.units), paths=sum(r.get("paths") or 0 for r in s.units),
            undecided=s.undecided[:40], failed=[{k: v for k, v in l.items() if k != "blocks"} for l in s.leads[:20]],
            native_runs=s.native_log, notes=s.notes[:40],
            samples=[dict(unit=r.name, obligations={k: v[0] for k, v in (r.get("obl") or {}).items()}, seconds=round(r.get("time") or 0, 2), loops=(r.get("loops") or [])[:2]) for r in s.units[:3]])
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level="proof", coverage=cov, assumptions=ASSUME + list(s.plan.get("assume", ())), wall_s=round(time.time() - T0, 2), violations=0 if viol is None else 1)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (s.prop, os.getpid()))
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, s.prop + ".json"))

TRUSTED = ["clang 18 translation of /repo's headers to unoptimised LLVM IR, and the optimised build agreeing with it",
    "the VC generator /verif/pvc (memory model, loop rule, float expression normalisation)", "z3 4.x (linear integer arithmetic)",
    "models of malloc/free/operator new/delete, posix_memalign, memcpy/memmove/memset and llvm intrinsics in pvc/models.py"]
ASSUME = ["allocation succeeds and nothing throws (exception clean-up paths are not explored)", "caller honours the documented contract: block lengths are multiples of the ratio when downsampling, buffers are float-aligned and do not overlap each other or the object",
    "IEEE-754 single/double arithmetic, round to nearest, no contraction (x86-64 without FMA)", "the tokens that header-only, library, optimised, gcc, C++17 builds see are compared on every run (they differ in the keyword inline only); the linker is trusted"]

# ------------------------------------------------------------------ pool tasks (run in forked workers; MOD is inherited)
MOD = MOD2 = None
def t_prep(c): return prep(MOD, c, c)
def t_prep2(c): return prep(MOD2, c, c[:3] + (0,) + c[4:])
def prep(mod, c, kc):
    def f(r, box):
        x, st, P = units.make(mod, c)
        ks, r["fns"] = [], []
        for i, q in enumerate(units.stages(x, st, P, c)):
            r["fns"].append(q.fn)
            t = repr(units.stage_key(x, st, q, kc))
            if re.search(r"\('n', \d+\)", t): t += repr((kc, i))
            ks.append(hashlib.sha256(t.encode()).hexdigest())
        r["keys"] = ks
        if len(ks) != {1: 0, 2: 1, 4: 2, 8: 3}[c[1]]: r["steps_found"] = len(ks)
    return units.guarded("construction of " + cname(c), f)
def t_stage(c, i, prove, secs): return units.stage_unit(MOD, c, i, prove, secs)
def t_stage2(c, i, prove, secs): return units.stage_unit(MOD2, c, i, prove, secs)
def t_cascade(c): return units.cascade_unit(MOD, c)
def t_api(c, sc): return units.api_units(MOD, c, sc)
def t_api2(c, sc): return units.api_units(MOD2, c, sc)
def t_precision(): return units.precision_units(MOD)
def t_aa(): return aa.units(MOD)
def t_quality(shapes, D): return freq.quality(shapes, D)
TASKS = dict(prep=t_prep, prep2=t_prep2, api2=t_api2, stage=t_stage, stage2=t_stage2, cascade=t_cascade, api=t_api, precision=t_precision, aa=t_aa, quality=t_quality)

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.modules.setdefault("pvc.main", sys.modules["__main__"])
    sys.exit(Run(prop, tier if tier in ("quick", "thorough") else "quick", seed).main())
