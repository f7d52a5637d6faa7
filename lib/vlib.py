"""Machinery shared by all checks: TLC runs, harness runs, trace validation, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, concurrent.futures, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("EVOGIL_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.error = None
        m = re.search(r"^Error: (.*?)(?=^\S|\Z)", out, re.S | re.M)
        if m or rc not in (0,):
            self.error = (m.group(0).strip()[:1500] if m else "tlc exit %d: %s" % (rc, out[-800:]))

    @property
    def lines(self):
        """values printed with PrintT("...") (strings, one per line)"""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"') and l.endswith('"'):
                r.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        return r


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="evochk_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.cov = {}
        self.assumptions = []
        self.mc_runs = []
        self.kf = load_known(prop)

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=600, heap="6g", expect_ok=True, label=None):
        md = tempfile.mkdtemp(prefix="md_", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", md, "-noGenerateSpecTE", "-deadlock",
               "-workers", str(workers or NCPU), "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=self.scratch, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        r = TlcResult(rc, out, time.time() - t)
        self.states += r.distinct
        self.transitions += r.generated
        if expect_ok and r.error:
            raise MachineryError("TLC on %s/%s: %s" % (module, cfg, r.error))
        self.mc_runs.append({"module": module, "cfg": cfg or module + ".cfg", "distinct_states": r.distinct,
                             "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1),
                             "purpose": label or "model checking"})
        return r

    def design(self, module, cfg=None, **kw):
        """Exhaustive model checking of a design spec; an invariant failure is a machinery error
        (the specification does not depend on /repo)."""
        kw.setdefault("label", "design model checking (invariants of the specification)")
        r = self.tlc(module, cfg, **kw)
        if r.distinct < 2:
            raise MachineryError("vacuous design model %s" % module)
        return r

    def generate(self, module, cfg=None, env=None, **kw):
        """Run a generator spec; its PrintT("GEN|<json>") lines are the scenarios."""
        kw.setdefault("label", "scenario generation")
        r = self.tlc(module, cfg, env=env, **kw)
        out, seen = [], set()
        for l in r.lines:
            if l.startswith("GEN|"):
                if l not in seen:
                    seen.add(l)
                    out.append(json.loads(l[4:]))
        if not out:
            raise MachineryError("generator %s produced nothing: %s" % (module, r.out[-600:]))
        return out

    # ---- harness ---------------------------------------------------------
    def harness(self, script, scenarios, shards=None, timeout=600, extra_env=None):
        """Run harness/<script> on the scenarios (list of dicts); returns list of traces."""
        if not scenarios:
            return []
        if not self.thorough:
            timeout = min(timeout, 560)
        shards = max(1, min(shards or NCPU, len(scenarios)))
        parts = [scenarios[i::shards] for i in range(shards)]

        def one(i):
            inp = os.path.join(self.scratch, "in_%s_%d_%d.ndjson" % (script, i, time.time_ns()))
            outp = inp.replace("in_", "out_")
            with open(inp, "w") as f:
                for s in parts[i]:
                    f.write(json.dumps(s) + "\n")
            wd = tempfile.mkdtemp(prefix="wd_", dir=self.scratch)
            os.symlink(os.path.join(REPO, "problems"), os.path.join(wd, "problems"))
            env = dict(os.environ)
            env.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(wd, "pyc"), "MPLBACKEND": "Agg", "PYTHONWARNINGS": "ignore",
                        "PYTHONPATH": REPO + ":" + HARNESS, "PYTHONHASHSEED": "0", "EVOGIL_REPO": REPO,
                        "HARNESS_SEED": str(self.seed), "TMPDIR": wd, "OMP_NUM_THREADS": "1",
                        "OPENBLAS_NUM_THREADS": "1"})
            env.update(extra_env or {})
            log = outp + ".log"
            with open(log, "wb") as lf:
                try:
                    p = subprocess.run([PY, os.path.join(HARNESS, script + ".py"), inp, outp], cwd=wd, env=env,
                                       stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, timeout=timeout)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            res = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for l in f:
                        if l.endswith("\n"):
                            res.append(json.loads(l))
            if rc != 0:
                with open(log, "rb") as f:
                    tail = f.read()[-1500:].decode("utf8", "replace")
                return res, (rc, tail, parts[i][len(res)] if len(res) < len(parts[i]) else None)
            shutil.rmtree(wd, ignore_errors=True)
            return res, None

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        traces = []
        for res, err in rs:
            traces.extend(res)
            if err:
                # the code under test (or its import) took the harness process down: a total verdict is still due
                traces.append({"id": "harness-died", "cfg": {}, "ev": [{"k": "exc", "msg": str(err[0]) + ": " + err[1][-400:]}],
                               "scenario": err[2], "dead": True})
        return traces

    # ---- trace validation --------------------------------------------------
    def validate(self, module, traces, cfg=None, workers=None, timeout=600, heap="8g"):
        """TLC decides every trace.  Returns list of failures (trace, position, clauses)."""
        fails = []
        live = []
        for t in traces:
            if t.get("dead"):
                fails.append((t, 1, "harness-process-died"))
            elif not t["cfg"] and t["ev"] and t["ev"][-1].get("k") == "exc":
                fails.append((t, len(t["ev"]), "exception: " + str(t["ev"][-1].get("msg"))))
            else:
                live.append(t)
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in live)
        pending = live
        rounds = 0
        while pending:
            rounds += 1
            tf = os.path.join(self.scratch, "tr_%s_%d.ndjson" % (module, time.time_ns()))
            with open(tf, "w") as f:
                for t in pending:
                    f.write(json.dumps({k: v for k, v in t.items() if k in ("cfg", "ev")}) + "\n")
            r = self.tlc(module, cfg, env={"TRACE_FILE": tf}, workers=workers, timeout=timeout, heap=heap, expect_ok=False,
                         label="trace validation")
            verdicts = {}
            for l in r.lines:
                if l.startswith("VERDICT|"):
                    _, i, v, pos, cl = l.split("|", 4)
                    verdicts[int(i)] = (v, int(pos), cl)
            for i, (v, pos, cl) in verdicts.items():
                if v == "FAIL":
                    fails.append((pending[i - 1], pos, cl))
            missing = [i for i in range(1, len(pending) + 1) if i not in verdicts]
            if not missing:
                if r.error:
                    raise MachineryError("TLC on %s: %s" % (module, r.error))
                os.unlink(tf)
                break
            # an event the specification cannot even evaluate: that trace is not a behaviour of the spec
            m = None
            for m in re.finditer(r"^(?:/\\ )?t = (\d+)", r.out, re.M):
                pass
            if not r.error or not m or rounds > 12:
                raise MachineryError("TLC on %s left %d traces undecided: %s" % (module, len(missing), r.error or r.out[-800:]))
            bad = int(m.group(1))
            if bad not in missing:
                raise MachineryError("TLC on %s: %s" % (module, r.error))
            fails.append((pending[bad - 1], 0, "not-evaluable: " + r.error[:300]))
            pending = [pending[i - 1] for i in missing if i != bad]
        return fails

    # ---- verdicts ------------------------------------------------------------
    def report(self, fails, describe=None, limit=5):
        for tr, pos, clauses in fails:
            sig = "%s @%s: %s" % (tr.get("id"), pos, clauses)
            k = self.match_known(tr, clauses)
            if k:
                self.known_hit.setdefault(k, sig)
                continue
            self.violations.append((sig, tr, pos, clauses))

    def match_known(self, tr, clauses):
        for e in self.kf:
            if re.search(e["trace_id"], str(tr.get("id"))) and re.search(e["clauses"], str(clauses)):
                return e["what"]
        return None

    def violation(self, sig, data):
        self.violations.append((sig, {"id": sig, "data": data}, 0, sig))

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def need(self, name, value, minimum):
        """Non-vacuity bookkeeping: measured counts, and the minimum expected on the unchanged tree."""
        self.cov[name] = value
        self.cov.setdefault("expected_minimum", {})[name] = minimum
        if value < minimum:
            print("NOTE coverage %s=%s below expected %s" % (name, value, minimum))

    def finish(self, level):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.events,
               "samples": self.samples or ["none"], "tlc_runs": self.mc_runs}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))
        for what, sig in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            rd = os.path.join(ROOT, "replays")
            os.makedirs(rd, exist_ok=True)
            shown = {}
            for sig, tr, pos, clauses in self.violations:
                shown.setdefault(str(clauses), (sig, tr, pos, clauses))
            for n, (sig, tr, pos, clauses) in enumerate(list(shown.values())[:5]):
                path = os.path.join(rd, "%s-%d.json" % (self.prop, n))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clauses": clauses, "position": pos, "trace": tr,
                               "seed": self.seed, "tier": self.tier}, f, indent=1)
                print("  violated: %s" % sig[:600])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%d violating traces in total" % len(self.violations))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" %
              (self.prop, self.tier, self.states, self.traces, self.events, wall))
        return 0


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [e for e in d.get("known", []) if e["property"] == prop]
