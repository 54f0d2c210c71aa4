#!/usr/bin/env python3
"""Decides one property: check.py <property>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Each property has a list of stages (plan.py).  A stage is either

  mc     TLC explores a bounded model exhaustively, checking the invariants that state the property on
         the specification, and prints every complete behaviour; the driver executes each behaviour on
         the real code (rebuilt from /repo) and compares the outcomes.
  trace  the driver executes generated inputs on the real code and records what happened; TLC checks
         that every recorded execution is a behaviour of the specification.
  mcrec  like mc, but what the real code does is recorded and TLC checks every record against the
         specification (used where the specification allows more than one outcome).
  probe  the driver executes scaled-up members of families of inputs whose outcome the specification
         gives in closed form (checked by TLC on small members), in a separate process each.

Exit 0: held on everything explored.  Exit 1: VIOLATION lines.  Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plan import FEATURES, PLAN

SPEC = os.path.join(ROOT, "spec")
DRIVER_DIR = os.path.join(ROOT, "driver")
DRIVER = os.path.join(DRIVER_DIR, "target", "debug", "driver")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 2
KNOWN = [k for k in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]]


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.validated = 0
        self.samples, self.stages, self.known = [], [], []
        self.replays = os.path.join(ROOT, "work", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % pid, dir=os.path.join(ROOT, "work"))

    # -- helpers ---------------------------------------------------------------------------------
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + FEATURES.get(self.pid, []), cwd=DRIVER_DIR, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("the driver does not build:\n" + p.stdout[-4000:])

    def violation(self, what, case):
        if len(self.violations) >= 10:
            return
        path = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "case": case}, f, indent=1, ensure_ascii=False)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("   %s: %s" % (what, json.dumps(case, ensure_ascii=False)[:600]), flush=True)

    def driver(self, *args, timeout=None):
        timeout = timeout or (3000 if self.thorough else 700)
        try:
            return subprocess.run([DRIVER] + [str(a) for a in args], cwd=self.work, timeout=timeout,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return None

    def tlc(self, module, env, workers, stack, heap, out, cfg=None, extra=()):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
               (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        with open(out, "w") as f:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT)
        shutil.rmtree(meta, ignore_errors=True)
        states = trans = 0
        text = []
        with open(out) as f:
            for l in f:
                if l.startswith('"'):
                    continue
                text.append(l)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
                if m:
                    trans, states = int(m.group(1)), int(m.group(2))
        return p.returncode, states, trans, "".join(text)

    # -- stages ----------------------------------------------------------------------------------
    def model(self, module, depth, cfg, env):
        d = depth[1] if self.thorough else depth[0]
        out = os.path.join(self.work, module + ".out")
        e = {"DEPTH": str(d)}
        e.update({k: str(v[1] if self.thorough else v[0]) if isinstance(v, tuple) else str(v) for k, v in env.items()})
        rc, states, trans, text = self.tlc(module, e, CPUS, "64m", "12g", out, cfg)
        if rc == 12 or rc == 13:
            # the specification itself does not have the property: a defect of this check
            raise CheckError("%s: the specification violates its own invariants\n%s" % (module, text[-3000:]))
        if rc != 0:
            raise CheckError("%s: TLC failed (%d)\n%s" % (module, rc, text[-3000:]))
        return out, d, states, trans

    def mc(self, module, kind, depth, cfg=None, **env):
        t = time.time()
        out, d, states, trans = self.model(module, depth, cfg, env)
        res = os.path.join(self.work, module + ".json")
        p = self.driver("replay", kind, out, res)
        if p is None or p.returncode != 0:
            i = self.current(res + ".cur")
            if p is not None and p.returncode == 101:
                raise CheckError("driver replay failed: " + p.stderr[-2000:])
            self.violation("the real code %s on this behaviour" % ("hangs" if p is None or p.returncode == 3 else "aborts the process"),
                           self.printed_case(out, i))
            return
        tally = json.load(open(res))
        if tally["cases"] == 0:
            raise CheckError("%s: no behaviours were generated" % module)
        for f in tally["failures"]:
            self.violation("the real code does not behave as specified", f)
        self.states += states
        self.transitions += trans
        self.validated += tally["cases"]
        self.samples += [dict(s, source=module) for s in tally["samples"]]
        self.stages.append({"stage": "model", "module": module, "depth": d, "states": states, "transitions": trans,
                            "behaviours_executed": tally["cases"], "accepted": tally["ok"], "mismatches": tally["failed"],
                            "seconds": round(time.time() - t, 1)})
        self.log("%s depth %d: %d states, %d behaviours executed, %d mismatches" % (module, d, states, tally["cases"], tally["failed"]))
        os.unlink(out)

    def current(self, path):
        try:
            return int(open(path).read() or 0)
        except (OSError, ValueError):
            return 0

    def printed_case(self, out, i):
        head, n = None, -1
        with open(out) as f:
            for l in f:
                if not l.startswith('"'):
                    continue
                v = json.loads(json.loads(l))
                if n == i - 1 and head is not None:
                    return {"behaviour": v, "model": head}
                if head is None:
                    head = v
                else:
                    n += 1
        return {"index": i}

    def validate(self, base, shards, module, what, source, sample):
        """TLC checks the records in base.0, base.1, ... against the trace specification."""
        def one(k):
            f = "%s.%d" % (base, k)
            e = {"TRACE": f, "CHUNKS": str(2 * max(2, CPUS // shards)), "WHAT": what or ""}
            return f, self.tlc(module, e, max(1, CPUS // shards), "512m", "6g", f + ".out")
        files = [k for k in range(shards) if os.path.getsize("%s.%d" % (base, k))]
        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, files))
        tot_states = tot_trans = tot_rec = 0
        for f, (rc, states, trans, text) in results:
            tot_states += states
            tot_trans += trans
            recs = open(f).readlines()
            tot_rec += len(recs)
            if rc == 12:
                mm = re.findall(r'/\\ diag = (".*")', text)
                diag = json.loads(json.loads(mm[-1])) if mm and mm[-1] != '""' else {}
                rec = json.loads(recs[diag["record"] - 1]) if "record" in diag else {}
                self.violation("the recorded execution is not a behaviour of the specification",
                               dict(rec, expected=diag.get("spec"), text=plain(rec.get("src"))))
            elif rc != 0:
                raise CheckError("%s: TLC failed (%d)\n%s" % (module, rc, text[-3000:]))
            elif recs and sample:
                r = json.loads(recs[min(3, len(recs) - 1)])
                self.samples.append({"source": "recorded " + source, "record": shorten(r)})
            os.unlink(f)
        return tot_states, tot_trans, tot_rec

    def mcrec(self, module, domain, depth, tmodule, what=None, cfg=None, **env):
        t = time.time()
        out, d, states, trans = self.model(module, depth, cfg, env)
        base = os.path.join(self.work, "rec-" + module)
        shards = max(1, min(4, CPUS // 2))
        batch = 6000 * shards
        n = st = tr = 0
        while not self.violations:
            p = self.driver("record", domain, out, n, batch, shards, base)
            if p is None or p.returncode != 0:
                if p is not None and p.returncode == 101:
                    raise CheckError("driver record failed: " + p.stderr[-2000:])
                self.violation("the real code %s on this behaviour" % ("hangs" if p is None or p.returncode == 3 else "aborts the process"),
                               self.printed_case(out, n + self.current(base + ".cur")))
                return
            a, b, m = self.validate(base, shards, tmodule, what, domain, n == 0)
            st, tr, n = st + a, tr + b, n + m
            if m < batch:
                break
        if n == 0:
            raise CheckError("%s: no behaviours were generated" % module)
        self.states += states + st
        self.transitions += trans + tr
        self.validated += n
        self.stages.append({"stage": "model+trace", "module": module, "depth": d, "states": states, "transitions": trans,
                            "trace_module": tmodule, "behaviours_executed": n, "trace_states": st, "seconds": round(time.time() - t, 1)})
        self.log("%s depth %d: %d states, %d behaviours executed and checked by %s" % (module, d, states, n, tmodule))
        os.unlink(out)

    def trace(self, domain, profile, count, module, what=None, salt=0):
        t = time.time()
        n = count[1] if self.thorough else count[0]
        shards = max(1, min(4, CPUS // 2))
        seed = self.seed * 100 + salt
        done = 0
        batch = 8000                     # per shard: TLC reads the whole file
        rnd = 0
        tot_states = tot_trans = tot_rec = 0
        while done < n and not self.violations:
            m = min(n - done, batch * shards)
            rnd += 1
            base = os.path.join(self.work, "trace-%s-%s" % (domain, profile))
            s = seed * 1000 + rnd
            p = self.driver("trace", domain, profile, s, m, shards, base)
            if p is None or p.returncode != 0:
                i = self.current(base + ".cur")
                src = self.driver("source", domain, profile, s, i)
                if p is not None and p.returncode == 101:
                    raise CheckError("driver trace failed: " + p.stderr[-2000:])
                case = json.loads(src.stdout) if src and src.returncode == 0 else {"domain": domain, "profile": profile, "seed": s, "index": i}
                self.violation("the real code %s on this input" % ("hangs" if p is None or p.returncode == 3 else "aborts the process"), case)
                return
            st, tr, n1 = self.validate(base, shards, module, what, domain, done == 0)
            tot_states += st
            tot_trans += tr
            tot_rec += n1
            done += m
        self.states += tot_states
        self.transitions += tot_trans
        self.validated += tot_rec
        self.stages.append({"stage": "trace", "module": module, "domain": domain, "profile": profile, "records": tot_rec,
                            "states": tot_states, "transitions": tot_trans, "seconds": round(time.time() - t, 1)})
        self.log("%s/%s: %d recorded executions checked by %s (%d states)" % (domain, profile, tot_rec, module, tot_states))

    def probe(self, module, sizes):
        """Large members of the families of inputs the specification gives in closed form."""
        t = time.time()
        out = os.path.join(self.work, module + ".out")
        rc, states, trans, text = self.tlc(module, {"DEPTH": "7" if self.thorough else "5"}, CPUS, "64m", "4g", out)
        if rc != 0:
            raise CheckError("%s: TLC failed (%d)\n%s" % (module, rc, text[-3000:]))
        fams = [json.loads(json.loads(l)) for l in open(out) if l.startswith('"')]
        ns = sizes[1] if self.thorough else sizes[0]
        mine = [i for i in range(len(fams)) if self.pid == "C01" or self.pid in fams[i]["p"]]
        known = {k["family"]: k for k in KNOWN if k["property"] == self.pid and "family" in k}
        jobs = [(i, n) for i in mine for n in ns
                if not fams[i]["most"] or n <= fams[i]["most"] or self.pid == "C01" and fams[i]["most"] == 300]

        def one(job):
            i, n = job
            try:
                p = subprocess.run([DRIVER, "probe", out, str(i), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
                return job, p.returncode, p.stdout.strip()
            except subprocess.TimeoutExpired:
                return job, "timeout", ""
        with ThreadPoolExecutor(CPUS) as ex:
            results = list(ex.map(one, jobs))
        for (i, n), rc, msg in results:
            f = fams[i]
            if rc == 0 or rc == "timeout" and n > 5000:
                continue        # being slow on huge members is no violation
            if rc == 101:
                raise CheckError("driver probe failed on %s" % f["name"])
            what = {"timeout": "does not end within 60 s", 4: msg}.get(rc, "aborts the process (status %s)" % rc)
            k = known.get(f["name"])
            if k and n >= k["from_n"] and isinstance(rc, int) and rc < 0:
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
                if line not in self.known:
                    self.known.append(line)
                    print(line, flush=True)
                continue
            rope = lambda r, show: [("once" if k == 0 else "n times", show(x)) for k, x in r]
            content = {"k": "family", "family": f["name"], "n": n}
            if "src" in f:
                content.update(source=rope(f["src"], plain), cfg=f["cfg"])
            else:
                content.update(events=rope(f["ev"], lambda es: [[e[0]] + [rope(t, plain) for t in e[1:]] for e in es]), type=f["ty"])
            self.violation("%s, with n = %d: %s" % (f["name"], n, what), content)
        self.states += states
        self.transitions += trans
        self.validated += len(jobs)
        self.stages.append({"stage": "probe", "module": module, "families": len(mine), "sizes": ns, "states": states,
                            "transitions": trans, "members_executed": len(jobs), "seconds": round(time.time() - t, 1)})
        self.log("%s: %d families, sizes %s: %d members executed" % (module, len(mine), ns, len(jobs)))

    # -- result ----------------------------------------------------------------------------------
    def evidence(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:12], "stages": self.stages,
                           "violations": len(self.violations), "known_findings": self.known},
              "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)

    def run(self):
        try:
            self.build()
            self.log("driver built from /repo")
            for stage in PLAN[self.pid]:
                name, args, kw = stage
                getattr(self, name)(*args, **kw)
            self.evidence()
            self.log("%s: %s" % (self.tier, "%d violation(s)" % len(self.violations) if self.violations else "holds on everything explored"))
            return 1 if self.violations else 0
        except CheckError as e:
            self.evidence()
            print("CHECK FAILED:", e, flush=True)
            return 1 if self.violations else 2
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def plain(src):
    if not isinstance(src, list):
        return None
    return "".join(t if len(t) == 1 else chr(int(t[1:], 16)) for t in src)


def shorten(v, n=160):
    if isinstance(v, list) and v and all(isinstance(x, str) for x in v) and v[0] not in ("close", "xclose") and \
            all(len(x) == 1 or re.fullmatch("u[0-9a-f]+", x) for x in v):
        s = plain(v)
        return s if len(s) <= n else s[:n] + "..."
    if isinstance(v, list):
        return [shorten(x, n) for x in v[:12]]
    if isinstance(v, dict):
        return {k: shorten(x, n) for k, x in v.items() if k not in ("ents", "pents", "msg")}
    return v


if __name__ == "__main__":
    sys.exit(Check(sys.argv[1]).run())
