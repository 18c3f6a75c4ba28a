"""Run the instances of one property: symbolic exploration (one process per instance), concrete replay of every
counterexample and of sampled path witnesses on the unpatched code, evidence, verdict."""
import sys, os, time, json, importlib, pickle, signal, resource, traceback, re, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["rayflare.angles", "rayflare.options", "rayflare.structure", "rayflare.utilities", "rayflare.analytic.diffraction",
           "rayflare.matrix_formalism", "rayflare.matrix_formalism.ideal_cases", "rayflare.matrix_formalism.multiply_matrices",
           "rayflare.matrix_formalism.process_structure", "rayflare.ray_tracing.rt", "rayflare.rigorous_coupled_wave_analysis.rcwa",
           "rayflare.textures", "rayflare.textures.standard_rt_textures", "rayflare.textures.define_textures",
           "rayflare.transfer_matrix_method.tmm", "rayflare.transfer_matrix_method.lookup_table"]


def import_rayflare():
    import logging, warnings
    warnings.simplefilter("ignore")
    for m in MODULES:
        importlib.import_module(m)
    import rayflare, pkgutil
    try:
        for mi in pkgutil.walk_packages(rayflare.__path__, "rayflare."):
            try: importlib.import_module(mi.name)
            except Exception: pass
    except Exception:
        pass
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    repo = os.path.dirname(os.path.dirname(os.path.abspath(rayflare.__file__)))
    return repo


class FnTrace:
    """names of the repository functions executed symbolically"""

    def __init__(self, root):
        self.root, self.fns = os.path.join(root, "rayflare") + os.sep, set()

    def cb(self, frame, ev, arg):
        if ev == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.root):
                self.fns.add(co.co_filename[len(self.root):] + ":" + co.co_qualname)

    def __enter__(self):
        sys.setprofile(self.cb)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def limits(gb=6):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except Exception:
        pass


def child(fn, path, timeout):
    """run fn in a forked process, pickle its result to path"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        code = 0
        try:
            limits()
            r = fn()
            with open(path, "wb") as f: pickle.dump(r, f)
        except BaseException:
            traceback.print_exc()
            try:
                with open(path, "wb") as f: pickle.dump({"crash": traceback.format_exc()}, f)
            except Exception:
                pass
            code = 3
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(code)
    return pid


def alone(fn, path, seconds):
    """run fn in its own process and wait for it -> its result or None"""
    pid = child(fn, path, seconds)
    end = time.time() + seconds
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            try:
                with open(path, "rb") as f: return pickle.load(f)
            except Exception:
                return None
            finally:
                if os.path.exists(path): os.unlink(path)
        time.sleep(0.01)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    os.waitpid(pid, 0)
    return None


def pool(jobs, nproc, scratch, deadline, watch=None):
    """jobs: list of (key, fn, timeout) -> dict key -> result (None when it died or ran out of time); watch(key, result) may return an earlier deadline"""
    res = {}
    running = {}
    todo = list(jobs)
    n = 0
    while todo or running:
        while todo and len(running) < nproc:
            key, fn, to = todo.pop(0)
            n += 1
            path = os.path.join(scratch, "r%d_%d.pkl" % (os.getpid(), n))
            pid = child(fn, path, to)
            running[pid] = (key, path, time.time() + to)
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in running:
            key, path, _ = running.pop(pid)
            try:
                with open(path, "rb") as f: res[key] = pickle.load(f)
                os.unlink(path)
            except Exception:
                res[key] = None
            if watch is not None:
                t = watch(key, res[key])
                if t is not None: deadline = min(deadline, t)
            continue
        now = time.time()
        for p, (key, path, t) in list(running.items()):
            if now > t or now > deadline:
                try: os.killpg(p, signal.SIGKILL)
                except OSError:
                    try: os.kill(p, signal.SIGKILL)
                    except OSError: pass
                os.waitpid(p, 0)
                running.pop(p)
                res[key] = {"timeout": True}
        if now > deadline and todo:
            for key, _, _ in todo: res[key] = {"timeout": True}
            todo = []
        time.sleep(0.01)
    return res


def run_symbolic(inst, seed, repo, tier):
    from . import core, engine, patch
    import importlib
    p = patch.Patcher()
    p.install()
    mod = importlib.import_module("harness." + inst["module"])
    if hasattr(mod, "setup_symbolic"): mod.setup_symbolic(p)
    fn = inst["fn"] if callable(inst["fn"]) else getattr(mod, inst["fn"])
    ex = engine.Explorer(fn, inst.get("params", {}), max_paths=inst.get("max_paths", 20000), max_s=inst.get("max_s", 240),
                         seed=seed, quick_ms=inst.get("quick_ms", 4000), slow_ms=inst.get("slow_ms", 30000), patcher=p,
                         max_witness=inst.get("witnesses", 6), stop_on_candidates=inst.get("stop_on", 4))
    tr = FnTrace(repo)
    orig = ex.one
    cnt = [0]

    def one(c):
        cnt[0] += 1
        if cnt[0] <= 4:
            with tr: return orig(c)
        return orig(c)
    ex.one = one
    ex.run()
    return dict(stats=ex.stats.asdict(), candidates=[(c.name, c.vals, c.detail) for c in ex.candidates], unknowns=ex.unknowns[:50],
                unsupported=ex.unsupported, witnesses=ex.witnesses, exhausted=ex.exhausted, notes=ex.notes, skips=ex.skips,
                asserts=ex.asserts_seen, fns=sorted(tr.fns), wall=ex.wall)


def run_concrete(inst, vals):
    from . import engine, patch
    import importlib
    c = engine.ConcCtx(vals)
    patch.install_concrete(c)
    mod = importlib.import_module("harness." + inst["module"])
    fn = inst["fn"] if callable(inst["fn"]) else getattr(mod, inst["fn"])
    out = dict(exc=None, abort=None)
    try:
        fn(c, **inst.get("params", {}))
    except engine.ReplayAbort as e:
        out["abort"] = str(e)
    except Exception as e:
        out["exc"] = (type(e).__name__, str(e)[:300], traceback.format_exc())
    finally:
        c.undo()
    out["failed"], out["checked"], out["observed"] = c.failed, c.checked, c.observed
    return out


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, inst, name):
    return re.fullmatch(k["instance"], inst) is not None and re.fullmatch(k["assertion"], name) is not None


def main(prop, tier, only=None, verbose=False, nproc=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = import_rayflare()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("harness." + prop.lower())
    insts = mod.instances(tier)
    for i in insts: i.setdefault("module", prop.lower())
    if only: insts = [i for i in insts if re.search(only, i["name"])]
    scratch = tempfile.mkdtemp(prefix="symx_run_")
    os.environ["HOME"] = scratch
    os.chdir(scratch)
    limit = float(os.environ.get("SYMX_LIMIT_S", 780 if tier == "quick" else 6000))
    deadline = t0 + limit
    nproc = nproc or min(8, os.cpu_count() or 1)
    try:
        order = sorted(range(len(insts)), key=lambda k: -insts[k].get("cost", 1))
        jobs = [(insts[k]["name"], (lambda i=insts[k]: run_symbolic(i, seed, repo, tier)), insts[k].get("max_s", 240) * 1.5 + 30) for k in order]
        known = load_known(prop)
        by_name = {i["name"]: i for i in insts}
        found = []

        def watch(key, r):
            """a counterexample that reproduces settles the verdict: give the remaining instances a little time only"""
            if tier != "quick" or only or found or not r or "stats" not in r: return None
            i = by_name[key]
            for n, (name, valss, det) in enumerate(r["candidates"]):
                if any(matches(k, key, name) for k in known): continue
                for m, vals in enumerate(valss[:2]):
                    o = alone(lambda: run_concrete(i, vals), os.path.join(scratch, "early_%d_%d.pkl" % (n, m)), 20)
                    if o and "checked" in o and (any(f[0] == name for f in o["failed"]) or (o["exc"] and not o["abort"])):
                        found.append(key)
                        return time.time() + 40
            return None
        res = pool(jobs, nproc, scratch, deadline, watch)
        # concrete replays
        rj, meta = [], {}
        for i in insts:
            r = res.get(i["name"])
            if not r or "stats" not in r: continue
            for n, (vals, ln) in enumerate(r["witnesses"]):
                key = (i["name"], "w", n)
                meta[key] = (i, vals)
                rj.append((key, (lambda i=i, v=vals: run_concrete(i, v)), i.get("replay_s", 60)))
            for n, (name, valss, det) in enumerate(r["candidates"]):
                for m, vals in enumerate(valss):
                    key = (i["name"], "c", n, m)
                    meta[key] = (i, vals)
                    rj.append((key, (lambda i=i, v=vals: run_concrete(i, v)), i.get("replay_s", 60)))
        rep = pool(rj, nproc, scratch, deadline + 60)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, mod, insts, res, rep, meta, t0, verbose)


def report(prop, tier, seed, mod, insts, res, rep, meta, t0, verbose):
    known = load_known(prop)
    tot = dict(queries=0, solver_s=0.0, paths=0, decisions=0, obligations=0, discharged=0, forks=0)
    inconclusive, violations, findings, notes, samples, fns, rows = [], [], [], [], [], set(), []
    traces = div = 0
    concluded = 0
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    for i in insts:
        n = i["name"]
        r = res.get(n)
        if not r or "stats" not in r:
            inconclusive.append((n, "no result (%s)" % ("out of time" if r and r.get("timeout") else (r or {}).get("crash", "process died"))))
            continue
        s = r["stats"]
        for k in tot: tot[k] += s[k]
        fns.update(r["fns"])
        for m, cnt in r["notes"].items(): notes.append("%s: %s (x%d)" % (n, m, cnt))
        ok = True
        for m, cnt in r["skips"].items():
            notes.append("%s: SKIPPED %s" % (n, m))
        for m, tb in r["unsupported"].items():
            inconclusive.append((n, "unsupported: " + m + ("\n" + tb if verbose else "")))
            ok = False
        for nm, why in r["unknowns"]:
            inconclusive.append((n, "%s: %s" % (nm, why))); ok = False
        if not r["exhausted"] and not r["candidates"] and not r["unsupported"]:
            inconclusive.append((n, "path budget exhausted after %d paths" % s["paths"])); ok = False
        if s["obligations"] == 0 and not r["skips"] and ok:
            inconclusive.append((n, "vacuous: no assertion reached")); ok = False
        if s["paths"] == 0 and not r["skips"] and ok:
            inconclusive.append((n, "vacuous: no feasible path")); ok = False
        wit_ok = 0
        for w, (vals, ln) in enumerate(r["witnesses"]):
            o = rep.get((n, "w", w))
            if not o or "checked" not in o:
                div += 1; notes.append("%s: witness replay gave no result: %s" % (n, (o or {}).get("crash", o))); continue
            if o["abort"] or o["exc"] or o["failed"]:
                div += 1
                notes.append("%s: witness diverged on the real code: %s" % (n, o["abort"] or o["exc"] and o["exc"][:2] or o["failed"][:2]))
                if verbose: notes.append("   inputs %s" % {k: v for k, v in vals.items()})
                if verbose and o["exc"]: notes.append(o["exc"][2])
            else:
                traces += 1; wit_ok += 1
                if len(samples) < 24 and w == 0:
                    samples.append({"instance": n, "inputs": {k: v for k, v in list(vals.items())[:24]}, "branches": ln, "assertions_replayed": o["checked"],
                                    "observed": repr(o["observed"][:2])[:300]})
        if r["witnesses"] and not wit_ok and not r["candidates"]:
            inconclusive.append((n, "no witness replayed on the real code")); ok = False
        if not r["witnesses"] and s["paths"] and not r["candidates"]:
            inconclusive.append((n, "no path witness found")); ok = False
        done = {}
        for ci, (nm, valss, det) in enumerate(r["candidates"]):
            hit = None
            for m, vals in enumerate(valss):
                o = rep.get((n, "c", ci, m))
                if not o or "checked" not in o: continue
                if nm.startswith("exception"):
                    if o["exc"] and o["exc"][0] == nm.split(":")[1]: hit = (vals, o); break
                    if o["failed"]: hit = (vals, o); break
                else:
                    if any(f[0] == nm for f in o["failed"]): hit = (vals, o); break
                    if o["exc"] is not None: hit = (vals, o); break
            if hit is None:
                inconclusive.append((n, "counterexample for '%s' did not reproduce on the real code%s" % (nm, (" " + repr([(rep.get((n, "c", ci, m)) or {}).get("failed", rep.get((n, "c", ci, m))) for m in range(len(valss))]) + repr(valss)) if verbose else "")))
                ok = False
                continue
            k = next((k for k in known if matches(k, n, nm)), None)
            if k:
                if k["id"] not in findings: findings.append(k["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
                continue
            if nm in done: continue
            done[nm] = 1
            violations.append((n, nm, hit, det))
        if ok: concluded += 1
        rows.append(dict(instance=n, bounds=i.get("bounds", ""), paths=s["paths"], decisions=s["decisions"], obligations=s["obligations"], discharged=s["discharged"],
                         queries=s["queries"], solver_s=round(s["solver_s"], 2), wall_s=round(r["wall"], 2), exhausted=r["exhausted"], witnesses_replayed=wit_ok))
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    for q, (n, nm, (vals, o), det) in enumerate(violations):
        path = os.path.join(ROOT, "evidence", "replays", "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", n), q))
        json.dump(dict(property=prop, tier=tier, instance=n, assertion=nm, inputs=vals, real_code=dict(failed=o["failed"][:10], exception=o["exc"]), detail=det),
                  open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   instance %s: '%s' %s" % (n, nm, (o["failed"][:1] or (o["exc"] or [""])[:2])))
    if concluded == 0 and not violations: inconclusive.append(("*", "no instance reached a verdict"))
    for m in notes[:60] if not verbose else notes: print("NOTE " + m)
    for n, why in inconclusive[:40]: print("INCONCLUSIVE %s: %s" % (n, why if verbose else why[:300]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=traces, samples=samples or [{"none": True}],
                            obligations=tot["obligations"], discharged=tot["discharged"], solver_queries=tot["queries"], solver_s=round(tot["solver_s"], 2),
                            functions_encoded=sorted(fns), instances=rows, divergent_witnesses=div,
                            inconclusive=["%s: %s" % (a, b[:200]) for a, b in inconclusive[:40]], notes=notes[:40], known_findings=findings,
                            exhaustive=not inconclusive and not violations,
                            meaning="states = feasible paths of the real code explored symbolically to their end; transitions = branch decisions taken "
                                    "on symbolic conditions; traces_validated = path witnesses (solver models) replayed on the unpatched code with all assertions holding"),
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d/%d instances concluded, %d paths, %d obligations (%d discharged), %d queries, %.1fs solver, %d witnesses replayed, wall %.1fs" % (
        prop, tier, concluded, len(insts), tot["paths"], tot["obligations"], tot["discharged"], tot["queries"], tot["solver_s"], traces, wall))
    if violations: return 1
    if concluded == 0: return 2
    if inconclusive and os.environ.get("SYMX_STRICT"): return 2
    return 0


def replay(path):
    d = json.load(open(path))
    import_rayflare()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("harness." + d["property"].lower())
    inst = next(i for i in mod.instances(d["tier"]) if i["name"] == d["instance"])
    inst.setdefault("module", d["property"].lower())
    scratch = tempfile.mkdtemp(prefix="symx_replay_")
    os.environ["HOME"] = scratch
    os.chdir(scratch)
    try:
        o = run_concrete(inst, d["inputs"])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(dict(failed=o["failed"], exception=o["exc"]), indent=1, default=str))
    return 1 if (o["failed"] or o["exc"]) else 0
