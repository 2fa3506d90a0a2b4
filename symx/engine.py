"""Path exploration of one case, confirmation of counterexamples, and the command line of a check."""
import argparse
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def bootstrap(stubs=()):
    """Import path: our environment models first, then the repository under test."""
    sys.dont_write_bytecode = True
    for s in reversed([os.path.join(VERIF, "stubs", x) for x in stubs]):
        if s not in sys.path:
            sys.path.insert(0, s)
    if REPO not in sys.path:
        sys.path.append(REPO)


class Engine:
    def __init__(self, harness, params, known=None, budget=600.0, seed=1, witnesses=3, replay_tol=None):
        from . import core

        self.core = core
        self.harness, self.params = harness, params
        self.known = known or {}
        self.deadline = time.time() + budget
        self.rnd = random.Random(seed)
        self.branch_timeout = 20000
        self.check_timeout = 60000
        self.max_concretize = 64
        self.pin_tries = 3
        self._pin_seed = seed
        self.vars = {}
        self.work = []
        self.stats = core.Stats()
        self.witnesses = witnesses
        self.isolate = False  # fork a process per path and per replay: no state of the code under test crosses paths
        self.conn = None  # in a forked path: where the result goes
        self.zygote = None

    def pin_rnd(self, k):
        return random.Random("%s-%s" % (self._pin_seed, k))

    def _run(self, c):
        core = self.core
        core.CTX = c
        try:
            self.harness(c, **self.params)
        finally:
            core.CTX = None

    # -- isolation
    def fork_path(self):
        """In the child: None. In the parent: the child's finished result."""
        r, w = mp.Pipe(False)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self.conn = w
            self.stats = self.core.Stats()
            self.core.CTX.stats = self.stats
            return None
        w.close()
        try:
            res = r.recv()
        except EOFError:
            res = {"status": "error", "error": "path process died", "stats": None}
        os.waitpid(pid, 0)
        return res

    def merge(self, d):
        s = self.stats
        for f in s.FIELDS + ("solver_s",):
            setattr(s, f, getattr(s, f) + d[f])
        for k, v in d["labels"].items():
            s.labels.setdefault(k, [0, 0])[0] += v[0]
        for k, v in d["known"].items():
            s.known[k] = s.known.get(k, 0) + v
        s.samples = (s.samples + d["samples"])[:2]
        s.functions.update(d["functions"])

    def start_zygote(self):
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            while True:
                try:
                    values = b.recv()
                except (EOFError, OSError):
                    os._exit(0)
                k = os.fork()
                if k == 0:
                    self.stats = self.core.Stats()
                    self.zygote = None
                    try:
                        r = self.replay(values, True)
                        b.send((tuple(map(str, r)), self.stats.functions))
                    except BaseException:  # pylint: disable=broad-except
                        b.send((("engine", traceback.format_exc(), ""), set()))
                    os._exit(0)
                os.waitpid(k, 0)
        b.close()
        self.zygote = a

    def replay(self, values, trace_functions=False):
        """('fail', label, msg) / ('raise', type, msg) / ('ok',) / ('cut',)"""
        if self.zygote is not None:
            self.zygote.send(values)
            r, fns = self.zygote.recv()
            self.stats.functions.update(fns)
            return r
        core = self.core
        c = core.ConcCtx(self, values)
        if trace_functions:
            fns = self.stats.functions
            pre = os.path.join(REPO, "")

            def prof(frame, event, arg):
                if event == "call":
                    co = frame.f_code
                    if co.co_filename.startswith(pre) and not co.co_name.startswith("<"):
                        fns.add("%s:%s" % (co.co_filename[len(pre):], getattr(co, "co_qualname", co.co_name)))

            sys.setprofile(prof)
        try:
            self._run(c)
            return ("ok",)
        except core.ReplayFail as e:
            return ("fail", e.label, e.msg)
        except core.PathEnd:
            return ("cut",)
        except core.EngineError as e:
            return ("engine", str(e), "")
        except Exception as e:  # pylint: disable=broad-except
            return ("raise", type(e).__name__, "%s\n%s" % (e, traceback.format_exc(limit=-4)))
        finally:
            if trace_functions:
                sys.setprofile(None)

    def explore(self):
        if self.isolate:
            self.start_zygote()
        r = self._explore()
        if self.conn is not None:
            r["stats"] = self.stats.as_dict()
            self.conn.send(r)
            self.conn.close()
            os._exit(0)
        return r

    def _explore(self):
        """{'status': ok|violation|error, ...}"""
        core = self.core
        self.work.append([])
        witnessed = 0
        npaths = 0
        try:
            while self.work:
                seed = self.work.pop()
                c = core.SymCtx(self, seed)
                try:
                    self._run(c)
                except core.PathEnd:
                    self.stats.cut += 1
                    continue
                except core.Found as f:
                    return self._confirm(c, f)
                except core.SubResult as s:
                    return s.result
                except core.EngineError:
                    raise
                except Exception as e:  # pylint: disable=broad-except
                    tb = traceback.format_exc(limit=-6)
                    vals = c._model([])
                    if vals is None:
                        if c._check() == core.z3.unsat:
                            self.stats.cut += 1
                            continue
                        raise core.EngineError("no model for path raising %s\n%s" % (e, tb))
                    return self._confirm(c, core.Found("unexpected-exception", "%s: %s" % (type(e).__name__, e), vals, "exception"), tb)
                self.stats.paths += 1
                npaths += 1
                if not c.nchecks:
                    continue
                want = witnessed < self.witnesses or (npaths & (npaths - 1)) == 0
                if want:
                    vals = c._pinned_model([]) if witnessed % 2 == 0 else c._model([])
                    if vals is None:
                        vals = c._model([])
                    if vals is None:
                        if c._check() == core.z3.unsat:
                            self.stats.cut += 1
                            self.stats.paths -= 1
                            continue
                        continue
                    witnessed += 1
                    self.stats.witnesses += 1
                    if len(self.stats.samples) < 2:
                        self.stats.samples.append({k: (v if not isinstance(v, list) else "%d/%d" % tuple(v)) for k, v in list(vals.items())[:40]})
                    r = self.replay(vals, trace_functions=len(self.stats.functions) == 0 or witnessed < 3)
                    if r[0] in ("fail", "raise"):
                        vals2 = c._pinned_model([]) or c._model([])
                        r2 = self.replay(vals2) if vals2 and vals2 != vals else r
                        if r2[0] in ("fail", "raise"):
                            self.stats.confirmed += 1
                            return self._violation(r2, vals2 or vals, "witness run")
                        self.stats.mismatch += 1
                        sys.stderr.write("note: one witness of a solved path differed concretely: %s\n" % (r,))
                    elif r[0] == "engine":
                        return {"status": "error", "candidate": vals, "error": "witness replay: %s" % (r[1],)}
        except core.EngineError as e:
            return {"status": "error", "error": "%s\n%s" % (e, traceback.format_exc(limit=-8))}
        if self.conn is not None:
            return {"status": "ok"}
        if not any(v[0] for v in self.stats.labels.values()):
            return {"status": "error", "error": "vacuous: no assertion was reached on a feasible path"}
        if not self.stats.witnesses:
            return {"status": "error", "error": "vacuous: no feasible path with an assertion had a model"}
        return {"status": "ok"}

    def _violation(self, r, vals, how):
        return {"status": "violation", "label": r[1], "msg": str(r[2])[:1500], "values": vals, "how": how}

    def _confirm(self, c, f, tb=""):
        core = self.core
        tried = []
        cands = [f.values]
        for vals in cands:
            r = self.replay(vals)
            if r[0] == "fail" or (r[0] == "raise"):
                self.stats.confirmed += 1
                v = self._violation(r, vals, "solver counterexample")
                v["symbolic"] = "%s: %s" % (f.label, f.msg)
                return v
            tried.append(r)
        # another model of the same path, generic values
        for _ in range(3):
            vals = c._pinned_model([])
            if vals is None:
                break
            r = self.replay(vals)
            if r[0] in ("fail", "raise"):
                self.stats.confirmed += 1
                return self._violation(r, vals, "solver counterexample")
            tried.append(r)
        return {"status": "error", "candidate": f.values, "error": "counterexample not reproduced: %s: %s %s values=%s replays=%s\n%s" % (
            f.label, f.msg, f.kind, f.values, tried, tb)}


# --------------------------------------------------------------------------- command line
def _known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def _case(args):
    mod_name, idx, tier, seed, known, budget, isolate = args
    import importlib

    t = time.time()
    try:
        mod = importlib.import_module("checks." + mod_name)
        name, harness, params = mod.cases(tier)[idx][:3]
        eng = Engine(harness, params, known=known, seed=seed, budget=budget, witnesses=getattr(mod, "WITNESSES", 3))
        for k, v in getattr(mod, "ENGINE", {}).items():
            setattr(eng, k, v)
        eng.isolate = isolate
        r = eng.explore()
        r["stats"] = eng.stats.as_dict()
    except Exception as e:  # pylint: disable=broad-except
        return {"idx": idx, "name": str(idx), "status": "error", "error": traceback.format_exc(), "stats": None, "t": time.time() - t}
    r["idx"], r["name"], r["t"] = idx, name, time.time() - t
    return r


def _child(conn, args, beat=None, attempt=0):
    from . import core

    core.BEAT, core.Z3_SEED = beat, attempt
    os.setpgid(0, 0)  # so that the helper processes of a case end with it
    import ctypes
    import signal

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # and the case with its parent
    try:
        r = _case(args)
    except BaseException as e:  # pylint: disable=broad-except
        r = {"idx": args[1], "name": str(args[1]), "status": "error", "error": traceback.format_exc(), "stats": None, "t": 0}
    conn.send(r)
    conn.close()


def _fresh_replay(conn, mod_name, idx, tier, values):
    import importlib

    try:
        mod = importlib.import_module("checks." + mod_name)
        _, harness, params = mod.cases(tier)[idx][:3]
        conn.send(Engine(harness, params).replay(values))
    except BaseException:  # pylint: disable=broad-except
        conn.send(("engine", traceback.format_exc(), ""))
    conn.close()


def fresh_replay(*args):
    """Replay in a process that has executed nothing symbolically (no state of earlier paths)."""
    a, b = mp.Pipe(False)
    p = mp.get_context("fork").Process(target=_fresh_replay, args=(b,) + args)
    p.start()
    b.close()
    try:
        return a.recv()
    except EOFError:
        return ("engine", "replay process died", "")
    finally:
        p.join()


def run_cases(jobs, nproc, grace=12.0, hard=60.0, stuck=75.0):
    """One forked process per case. Once a violation is confirmed in a fresh process the others only get a short grace period.
    A case whose solver does not come back from a query (it ignores its time limit on huge numbers) starts again with
    another seed of the solver."""
    tries = {}
    pend = list(jobs)
    live = {}
    res = []
    stop = None
    from multiprocessing.connection import wait

    def end(a, r):
        p, j, _, _ = live.pop(a)
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        p.join()
        a.close()
        if r is not None:
            res.append(dict(idx=j[1], name=_name(j), stats=None, t=0, **r))

    while pend or live:
        while pend and len(live) < nproc and stop is None:
            j = pend.pop(0)
            a, b = mp.Pipe(False)
            beat = mp.Value("d", 0.0, lock=False)
            p = mp.get_context("fork").Process(target=_child, args=(b, j, beat, tries.get(j[1], 0)))
            p.start()
            b.close()
            live[a] = (p, j, time.time(), beat)
        for a in wait(list(live), timeout=1):
            p, j, _, _ = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {"idx": j[1], "name": _name(j), "status": "error", "error": "case process died", "stats": None, "t": 0}
            p.join()
            res.append(r)
            if r["status"] == "violation" and stop is None:
                f = fresh_replay(j[0], r["idx"], j[2], r["values"])
                if f[0] in ("fail", "raise"):
                    r.update(label=f[1], msg=str(f[2])[:1500], reproduced=True)
                    if not os.environ.get("VERIF_NOSTOP"):
                        stop = time.time() + grace
        now = time.time()
        if stop is not None:
            for j in pend:
                res.append(dict(idx=j[1], name=_name(j), stats=None, t=0, status="skipped"))
            pend = []
            if now > stop:
                for a in list(live):
                    end(a, dict(status="skipped"))
        for a in list(live):
            if now > live[a][2] + live[a][1][5] + hard:
                end(a, dict(status="error", error="time budget of the case exhausted"))
            elif 0 < live[a][3].value < now - stuck:
                j = live[a][1]
                tries[j[1]] = tries.get(j[1], 0) + 1
                if tries[j[1]] > 3:
                    end(a, dict(status="error", error="the solver did not return from a query"))
                else:
                    end(a, None)
                    pend.insert(0, j)
    return res


def _name(j):
    import importlib

    try:
        return importlib.import_module("checks." + j[0]).cases(j[2])[j[1]][0]
    except Exception:  # pylint: disable=broad-except
        return str(j[1])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    mod_name = prop.lower()
    t0 = time.time()
    import importlib

    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + mod_name)
    cases = mod.cases(tier)
    if a.list:
        for i, c in enumerate(cases):
            print(i, c[0], c[2])
        return 0
    known = _known_findings(prop)
    if a.replay:
        d = json.load(open(a.replay))
        idx = [i for i, c in enumerate(mod.cases(d["tier"])) if c[0] == d["case"]][0]
        _, harness, params = mod.cases(d["tier"])[idx][:3]
        eng = Engine(harness, params)
        r = eng.replay(d["values"])
        print(json.dumps({"case": d["case"], "outcome": r}, indent=1, default=str))
        return 1 if r[0] in ("fail", "raise") else 0
    budget = 780.0 if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 3000.0)
    jobs = [(mod_name, i, tier, seed, known, budget, bool(os.environ.get("VERIF_ISOLATE"))) for i, c in enumerate(cases) if not a.case or (a.case[1:] == c[0] if a.case[0] == "=" else a.case in c[0])]
    cost = lambda j: -(cases[j[1]][3] if len(cases[j[1]]) > 3 else 0)
    jobs.sort(key=cost)
    if a.case and a.j == 1:
        res = [_case(j) for j in jobs]
    else:
        res = run_cases(jobs, a.j)
    res.sort(key=lambda r: r["idx"])

    again = [r["idx"] for r in res if r["status"] == "error" and ("candidate" in r or "symbolic value in a concrete run" in str(r.get("error")))]
    if again and not any(r["status"] == "violation" for r in res):
        # the code under test keeps state between runs: explore again, one process per path
        res = [r for r in res if r["idx"] not in again]
        res += run_cases([j[:-1] + (True,) for j in jobs if j[1] in again], a.j)
        res.sort(key=lambda r: r["idx"])
    nconf = 0
    for r in res:
        vals = r.get("values") if r["status"] == "violation" else r.get("candidate")
        if vals is None or nconf >= 12:
            continue
        nconf += 1
        if r.get("reproduced"):
            continue
        f = fresh_replay(mod_name, r["idx"], tier, vals)
        if f[0] in ("fail", "raise"):
            r.update(status="violation", label=f[1], msg=str(f[2])[:1500], values=vals)
            r.setdefault("how", "solver counterexample")
        elif r["status"] == "violation":
            r.update(status="error", error="counterexample did not reproduce in a fresh process: %s %s -> %s" % (r["label"], r["msg"], f))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    viol = [r for r in res if r["status"] == "violation"]
    errs = [r for r in res if r["status"] == "error"]
    tot = {}
    labels, knownhit, funcs, samples = {}, {}, set(), []
    for r in res:
        s = r.get("stats")
        if not s:
            continue
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v[0]
        for k, v in s["known"].items():
            knownhit[k] = knownhit.get(k, 0) + v
        funcs.update(s["functions"])
        if s["samples"] and len(samples) < 4:
            samples.append({"case": r["name"], "witness_of_a_solved_path": s["samples"][0]})
    if not a.case:
        missing = [x for x in getattr(mod, "LABELS", []) if x not in labels]
        if missing and not viol and not errs:
            errs.append({"name": "vacuity", "error": "assertions never reached: %s" % missing})
    for r in sorted(res, key=lambda r: -r["t"])[: (len(res) if a.v else 0)]:
        print("  %-50s %-9s %.1fs %s" % (r["name"], r["status"], r["t"], {k: r["stats"][k] for k in ("paths", "cut", "branches", "checks", "trivial", "witnesses", "mismatch", "unknown")} if r.get("stats") else ""))
    for k, n in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    for i, r in enumerate(viol[:3]):
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, i))
        json.dump({"property": prop, "tier": tier, "case": r["name"], "label": r["label"], "what": r["msg"], "values": r["values"],
                   "how": r["how"], "symbolic": r.get("symbolic"),
                   "cmd": "python3-vt run.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1, default=str)
        print("%s: case %s: %s: %s" % (prop, r["name"], r["label"], r["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if not viol and errs:
        for r in errs[:5]:
            print("ERROR property=%s case=%s: %s" % (prop, r["name"], r["error"]))
        rc = 2
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branches", 0)),
            "traces_validated_against_impl": int(tot.get("witnesses", 0)),
            "samples": samples,
            "cases": len(res),
            "cases_by_name": [r["name"] for r in res][:80],
            "functions_encoded": sorted(funcs),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})) if isinstance(getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
            "queries_discharged": int(tot.get("queries", 0)),
            "assertions_checked": int(tot.get("checks", 0)),
            "assertions_by_label": labels,
            "assertions_true_by_simplification": int(tot.get("trivial", 0)),
            "equalities_checked": int(tot.get("eq_checks", 0)),
            "paths_cut_by_assumptions": int(tot.get("cut", 0)),
            "solver_unknown_branches": int(tot.get("unknown", 0)),
            "solver_time_s": round(tot.get("solver_s", 0.0), 3),
            "counterexamples_confirmed": int(tot.get("confirmed", 0)),
            "witness_mismatches": int(tot.get("mismatch", 0)),
            "errors": [str(r["error"])[:400] for r in errs[:5]],
            "explanation": "states = completed symbolic paths; transitions = branch conditions decided by z3; "
            "traces_validated = solver models of completed paths re-run concretely on the unmodified code with the same assertions",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not a.case:
        json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w"), indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d branch decisions, %d assertions, %d queries, %d witnesses re-run, solver %.1fs, wall %.1fs -> %s" % (
        prop, tier, len(res), tot.get("paths", 0), tot.get("branches", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("witnesses", 0),
        tot.get("solver_s", 0), time.time() - t0, {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
    return rc
