"""Runs scripts against the real code and lets TLC judge the recorded traces."""
import itertools, json, os, re, resource, shutil, subprocess, sys, tempfile, time

from .build import VERIF, InfraError, build, build_program
from .tlc import tlc, stats


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)
        self.n = 0
        self.binary = None
        self.judged = None          # operations to judge, or None for all
        self.cov = dict(evaluations=0, traces=0, events=0, ops={}, states=0, transitions=0, foreign=0,
                        faults=0, distinct=set(), samples=[], mc=[], notes=[])
        self.control = None         # function(script, event index) -> list of control scripts

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def setup(self):
        self.binary = build(self.work)

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.work, "%d-%s" % (self.n, suffix))

    # ---- execution ----
    def racing(self):
        """The harness with the race detector, or None if it cannot be built or run here."""
        if not hasattr(self, "race_binary"):
            self.race_binary = None
            d = os.path.join(self.work, "race")
            os.makedirs(d)
            try:
                self.race_binary = build(d, race=True)
                if self.harness("texts", [], race=True) is None:
                    self.race_binary = None
            except InfraError:
                pass
            if self.race_binary is None:
                self.cov["notes"].append("no race detector: conflicting memory accesses are only noticed by their effects")
        return self.race_binary

    def harness(self, mode, data, timeout=None, op_timeout=30, workers=8, progress=None, race=False):
        """Returns the output of the harness, or None if it died."""
        i, o, sc = self.path("in.json"), self.path("out.json"), self.path("scratch")
        with open(i, "w") as f:
            json.dump(data, f)
        os.makedirs(sc)
        cmd = [self.race_binary if race else self.binary, mode, "-in", i, "-out", o, "-scratch", sc, "-workers", str(workers), "-timeout", str(op_timeout),
               "-daemon", build_program(self.work, "zanzid") if any(x.get("backend") == "daemon" for x in data) else "",
               "-cli", build_program(self.work, "zanzi-cli") if any(y.get("via") == "cli" for x in data for y in x.get("steps", ())) else ""]
        if progress:
            cmd += ["-progress", progress]
        err = self.path("err.txt")
        try:
            with open(err, "w") as ef:
                r = subprocess.run(cmd, stdout=ef, stderr=ef, timeout=timeout or 600, preexec_fn=None if race else _limits,
                                   env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66") if race else None)
            if r.returncode == 3:
                raise InfraError("harness: " + open(err).read()[-2000:])
            if r.returncode != 0:
                self.raced = ""
                if race:
                    t = open(err, errors="replace").read()
                    at = t.find("WARNING: DATA RACE")
                    self.raced = t[at:at + 6000] if at >= 0 else ""
                if os.environ.get("VERIF_DEBUG"):
                    print(open(err).read()[:3000], flush=True)
                return None
            with open(o) as f:
                return json.load(f)
        except subprocess.TimeoutExpired:
            return None
        finally:
            shutil.rmtree(sc, ignore_errors=True)
            for x in (i, o, err):
                if os.path.exists(x):
                    os.remove(x)

    def execute(self, scripts, **kw):
        """Returns (strs, [(script, k, events)])."""
        out = self.harness("run", scripts, **kw)
        if out is None:
            return self._one_by_one(scripts, **kw)
        return out["strs"], [(scripts[t["script"]], t["k"], self._events(t)) for t in out["traces"]]

    def _events(self, t):
        if t.get("infra"):
            raise InfraError("harness: " + t["infra"])
        return t["events"] or []

    def _one_by_one(self, scripts, **kw):
        """Some script ended the process: find it by halves, and note where it died."""
        if len(scripts) == 1:
            s = scripts[0]
            prog = self.path("progress")
            kw = dict(kw)
            kw.update(workers=1, progress=prog)
            out = self.harness("run", [s], **kw)
            if out is not None:
                return out["strs"], [(s, t["k"], self._events(t)) for t in out["traces"]]
            try:
                k, i = map(int, open(prog).read().split())
            except (OSError, ValueError):
                raise InfraError("the harness ends before its first request")
            # what came before, and the request which ended the process
            head = dict(s, steps=s["steps"][:i])
            if "sweep" in head:
                del head["sweep"]
            evs, strs = [], {}
            if i > 0:
                out = self.harness("run", [head], **kw)
                if out is None:
                    raise InfraError("the harness ends at different requests")
                evs = self._events(out["traces"][0])
                strs = out["strs"]
            bad = dict(s["steps"][i], resp={"r": "dead"}, fault="", j="all")
            strs.update(self.harness("texts", [s])["strs"])
            return strs, [(s, k, evs + [bad])]
        strs, traces = {}, []
        mid = len(scripts) // 2
        for part in (scripts[:mid], scripts[mid:]):
            a, b = self.execute(part, **kw)
            strs.update(a)
            traces += b
            if any(e["resp"]["r"] in ("dead", "hang") for _, _, evs in b for e in evs):
                break   # enough to judge
        return strs, traces

    def note(self, what):
        if os.environ.get("VERIF_DEBUG"):
            print("%6.1f s  %s" % (self.elapsed(), what), flush=True)

    # ---- judgement ----
    def mark(self, events):
        if self.judged is not None:
            for e in events:
                if e["op"] not in self.judged and not e.get("force"):
                    e["j"] = "lax"
        return events

    def validate(self, strs, traces, timeout=900, module="ZanziTrace"):
        """traces: lists of events. Returns [(verdict, event index)], events counted from 0."""
        if not traces:
            return []
        f = self.path("traces.json")
        with open(f, "w") as h:
            json.dump({"strs": strs, "traces": [[self._clean(e) for e in t] for t in traces]}, h)
        out, rc = tlc(self.work, module + ".tla", module + ".cfg", {"TRACES": f}, timeout=timeout)
        os.remove(f)
        got = {}
        for m in re.finditer(r'<<"(ACCEPT|REJECT|FOREIGN)", (\d+), (\d+)>>', out):
            got[int(m.group(2))] = (m.group(1), int(m.group(3)) - 1)
        g, d = stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        if rc != 0 or len(got) != len(traces):
            keep = os.path.join(VERIF, "work", "tlc-failed-%s.txt" % self.prop)
            open(keep, "w").write(out)
            raise InfraError("TLC judged %d of %d traces (status %s), see %s:\n%s" % (len(got), len(traces), rc, keep, out[-1500:]))
        return [got[i + 1] for i in range(len(traces))]

    @staticmethod
    def _clean(e):
        if "k" in e and "op" not in e:      # of a concurrent execution
            if e["k"] != "call":
                return e
            q = Run._clean(dict(e["q"], resp=e["resp"]))
            r = q.pop("resp")
            return {"k": "call", "c": e["c"], "q": q, "resp": r}
        e = dict(e)
        for k in ("via", "v", "bld", "force", "i", "kill"):
            e.pop(k, None)
        if "def" in e:
            e["def"] = {k: v for k, v in e["def"].items() if k != "text"}
        r = e["resp"]
        if r["r"] not in ("ok", "err"):
            e["resp"] = {"r": r["r"]}
        return e

    def conform(self, scripts, what, batch=4000, **kw):
        """Runs and judges scripts; raises Violation on the first confirmed rejection."""
        todo = list(scripts)
        while todo:
            # every fourth one with a logger which formats what it is given
            part, todo = [dict(s, verbose=i % 4 == 3) for i, s in enumerate(todo[:batch])], todo[batch:]
            strs, traces = self.execute(part, **kw)
            traces = [(s, k, self.mark(evs)) for s, k, evs in traces if evs]
            verdicts = self.validate(strs, [evs for _, _, evs in traces])
            self._count(what, traces, verdicts)
            rejected = [(len(evs), s, k, evs, at) for (s, k, evs), (v, at) in zip(traces, verdicts) if v == "REJECT"]
            rejected.sort(key=lambda x: x[4])
            tried = 0
            foreign = 0
            if self.control is not None and len(rejected) > 2:
                rejected = self._not_controlled(rejected[:300])
                foreign += rejected.pop()
            for _, s, k, evs, at in rejected:
                r = self.confirm(s, k, evs, at, **kw)
                if r == "control":
                    foreign += 1
                    if foreign >= 12:
                        break
                    continue
                if r is not None:
                    raise Violation(*r)
                tried += 1
                if tried >= 3:
                    break
            if tried:
                raise InfraError("a rejected trace of %s could not be reproduced: %s" % (what, json.dumps(evs[at])[:800]))
            if foreign:
                self.cov["foreign"] += foreign
                self.cov["notes"].append("%d rejected traces of %s are also rejected without what this property is about" % (foreign, what))

    def conform_projected(self, scripts, what, keys, key, batch=4000, **kw):
        """What concerns one key has to behave as if nothing else had happened."""
        def project(s, k):
            return dict(s, steps=[x for x in s["steps"] if key(x) == k])

        def parts(part):
            strs, traces = self.execute(part, **kw)
            out = []
            for s, _, evs in traces:
                for k in keys(s):
                    out.append((s, k, [dict(e, now=i + 1, i=i) for i, e in enumerate(evs) if key(e) == k]))
            out = [x for x in out if x[2]]
            return strs, out, self.validate(strs, [[{a: b for a, b in e.items() if a != "i"} for e in evs] for _, _, evs in out])
        todo = list(scripts)
        while todo:
            part, todo = todo[:batch], todo[batch:]
            strs, out, verdicts = parts(part)
            self._count(what, [(s, 0, evs) for s, _, evs in out], verdicts)
            bad = [(s, k, evs, at) for (s, k, evs), (v, at) in zip(out, verdicts) if v == "REJECT"]
            bad = bad[:400]
            if not bad:
                continue
            # the same requests alone
            cs, ct = self.execute([project(s, k) for s, k, _, _ in bad], **kw)
            alone = self.validate(cs, [e for _, _, e in ct])
            bad = [(x, evs) for x, (v, _), (_, _, evs) in zip(bad, alone, ct) if v != "REJECT"]
            self.cov["foreign"] += len(alone) - len(bad)
            for (s, k, evs, at), _ in bad[:3]:
                cut = dict(s, steps=s["steps"][:evs[at]["i"] + 1])
                strs, again, vs = parts([cut])
                for (_, k2, e2), (v, at2) in zip(again, vs):
                    if v == "REJECT" and k2 == k:
                        raise Violation("%s of %s refused, but not if nothing else happens: %s" % (
                            e2[at2]["op"], k, json.dumps(self._clean(e2[at2]))[:500]), self.save(cut, 0, e2))
            if bad:
                raise InfraError("a rejected trace of %s could not be reproduced" % what)

    # ---- concurrent executions ----
    def conform_concurrent(self, scripts, what, batch=60, **kw):
        todo = list(scripts)
        if kw.get("race") and not self.racing():
            return
        while todo:
            part, todo = todo[:batch], todo[batch:]
            out = self.harness("conc", part, **kw)
            if out is None and kw.get("race"):
                self._race_report(part, what)
                continue
            if out is None:
                for s in part:
                    if self.harness("conc", [s], **kw) is None:
                        p = self.save(s, 0, [])
                        raise Violation("concurrent requests end the process: %s" % s["name"], p)
                raise InfraError("the harness ended, but not again")
            traces = []
            for t in out["traces"]:
                if t.get("infra"):
                    raise InfraError("harness: " + t["infra"])
                traces.append((part[t["script"]], t["k"], t["j"], t["events"] or []))
            # many schedules lead to the same history
            distinct = {}
            for s, k, j, evs in traces:
                distinct.setdefault(json.dumps([self._clean(e) for e in evs], sort_keys=True), (s, k, j, evs))
            traces_d = list(distinct.values())
            verdicts = self.validate(out["strs"], [x[3] for x in traces_d], module="ZanziLin")
            c = self.cov
            c["evaluations"] += len(traces)
            c["traces"] += len(traces_d)
            c["schedules"] = c.get("schedules", 0) + len(traces)
            self.note(what)
            for (s, k, j, evs), (v, at) in zip(traces_d, verdicts):
                c["events"] += len(evs)
                overlap = any(a["k"] == "call" and b["k"] == "call" for a, b in zip(evs, evs[1:]))
                if overlap:
                    c["distinct"].add(hash(json.dumps([self._clean(e) for e in evs], sort_keys=True)))
                for e in evs:
                    if e["k"] == "call":
                        o = c["ops"].setdefault(e["q"]["op"], {"ok": 0, "err": 0})
                        r = e["resp"]["r"]
                        o[r] = o.get(r, 0) + 1
            if len(c["samples"]) < 3:
                s, k, j, evs = traces_d[len(traces_d) // 2]
                c["samples"].append({"what": what, "clients": [[self._short(q) for q in x] for x in s["clients"]], "schedules": len(traces)})
            foreign = 0
            for (s, k, j, evs), (v, at) in zip(traces_d, verdicts):
                if v != "REJECT":
                    continue
                if not self._concurrent_blame(s, evs):
                    foreign += 1
                    if foreign > 8:
                        break
                    continue
                p = self.save(dict(s, failed_plan=k, failed_k=j), k, evs[:at + 1])
                raise Violation("no order of the requests explains this execution (%s), refused at event %d: %s" % (
                    s["name"], at, json.dumps(self._clean(evs[at]))[:300]), p)
            if foreign:
                c["foreign"] += foreign
                c["notes"].append("%d refused executions of %s are also refused one request at a time" % (foreign, what))

    def conform_parallel(self, scripts, what, batch=20, **kw):
        """Clients at full speed which cannot notice one another (see parScript in the harness)."""
        todo = list(scripts)
        if kw.get("race") and not self.racing():
            return
        while todo:
            part, todo = todo[:batch], todo[batch:]
            out = self.harness("par", part, **kw)
            if out is None and kw.get("race"):
                self._race_report(part, what)
                continue
            if out is None:
                for s in part:
                    if self.harness("par", [s], **kw) is None and self._alone_ok(s, s["clients"]):
                        raise Violation("concurrent requests end the process: %s" % s["name"], self.save(s, 0, []))
                self.cov["notes"].append("requests end the process, also one at a time: %s" % what)
                continue
            for t in out["traces"]:
                if t.get("infra"):
                    raise InfraError("harness: " + t["infra"])
            traces = [(part[t["script"]], t["k"], t["events"]) for t in out["traces"] if t["events"]]
            verdicts = self.validate(out["strs"], [e for _, _, e in traces])
            self._count(what, traces, verdicts)
            self.cov["schedules"] = self.cov.get("schedules", 0) + sum(s["repeat"] * len(s["clients"]) for s in part)
            for (s, k, evs), (v, at) in zip(traces, verdicts):
                if v != "REJECT":
                    continue
                if not self._alone_ok(s, s["clients"]):
                    self.cov["foreign"] += 1
                    continue
                raise Violation("%s answered like this while others are served, but not alone: %s" % (
                    evs[at]["op"], json.dumps(self._clean(evs[at]))[:500]), self.save(s, k, evs[:at + 1]))

    def _race_report(self, part, what):
        """Two requests accessed the same memory at once, one of them writing: what they read is then undefined."""
        if not self.raced:
            self.cov["notes"].append("the harness with the race detector ended, without a race: %s" % what)
            return
        frames = [l.strip() for l in self.raced.splitlines() if "sourcenetwork/zanzi" in l and "(" in l]
        if not frames:
            self.cov["notes"].append("a race without zanzi: %s" % self.raced[:1000])
            return
        p = self.save({"name": what, "scripts": [s["name"] for s in part]}, 0, [{"race": self.raced}])
        raise Violation("requests served at once race for memory (%s): %s" % (what, "; ".join(dict.fromkeys(frames[:6]))), p)

    def _alone_ok(self, s, clients):
        scripts = [{"name": "alone", "backend": s["backend"], "steps": s["setup"] + c + s["final"]} for c in clients]
        strs, traces = self.execute(scripts)
        return not any(v == "REJECT" for v, _ in self.validate(strs, [e for _, _, e in traces if e]))

    def _concurrent_blame(self, s, evs):
        """Do the same requests, one at a time, behave?"""
        setup, final = s["setup"], s["final"]
        orders = [[q for c in cs for q in c] for cs in itertools.permutations(s["clients"])]
        calls = [e["q"] for e in evs if e["k"] == "call"]
        pend, rets = {}, []
        for e in evs:
            if e["k"] == "call":
                pend[e["c"]] = e["q"]
            elif e["k"] == "ret":
                rets.append(pend[e["c"]])
        n = len(setup)
        orders += [calls[n:], rets[n:]]
        scripts = [{"name": "control", "backend": s["backend"], "steps": setup + o + final} for o in orders]
        strs, traces = self.execute(scripts)
        return not any(v == "REJECT" for v, _ in self.validate(strs, [e for _, _, e in traces if e]))

    def _count(self, what, traces, verdicts):
        c = self.cov
        self.note(what)
        for (s, k, evs), (v, at) in zip(traces, verdicts):
            c["evaluations"] += 1
            c["traces"] += 1
            c["events"] += len(evs)
            if v == "FOREIGN":
                c["foreign"] += 1
            judged = 0
            for e in evs:
                o = c["ops"].setdefault(e["op"], {"ok": 0, "err": 0})
                r = e["resp"]["r"]
                o[r] = o.get(r, 0) + 1
                if e.get("fault"):
                    c["faults"] += 1
                if e["j"] != "lax":
                    judged += 1
            if judged:
                c["distinct"].add(hash(json.dumps([self._clean(e) for e in evs], sort_keys=True)))
        if traces and len(c["samples"]) < 6:
            s, k, evs = traces[len(traces) // 2]
            c["samples"].append({"what": what, "events": [self._short(e) for e in evs[:4]] + (["... %d events in all" % len(evs)] if len(evs) > 4 else [])})

    @staticmethod
    def _short(e):
        t = json.dumps({k: v for k, v in e.items() if k not in ("j", "v", "via")})
        return t if len(t) < 300 else t[:300] + "..."

    def confirm(self, s, k, evs, at, **kw):
        """Repeats a rejected script. Returns (what, replay), "control" or None."""
        cut = dict(s, steps=s["steps"][:at + 1])
        for attempt in range(6):
            strs, traces = self.execute([cut], **kw)
            traces = [(a, b, self.mark(e)) for a, b, e in traces if e and (b == k)]
            for (a, b, e), (v, i) in zip(traces, self.validate(strs, [e for _, _, e in traces])):
                if v != "REJECT":
                    continue
                if self.control is not None and not self._blamed(cut, i):
                    return "control"
                small, e = self.shrink(cut, k, e, **kw)
                replay = self.save(small, k, e)
                last = e[-1]
                return ("%s refused: %s" % (last["op"], json.dumps(self._clean(last))[:600]), replay)
        return None

    def shrink(self, s, k, e, budget=25, **kw):
        """Leaves out steps which are not needed for the rejection."""
        if "sweep" in s:
            return s, e
        t0 = time.time()
        step = max(1, (len(s["steps"]) - 1) // 2)
        while time.time() - t0 < budget and len(s["steps"]) > 1:
            cands = []
            n = len(s["steps"]) - 1
            for i in range(0, n, step):
                cands.append(dict(s, steps=s["steps"][:i] + s["steps"][min(i + step, n):]))
            strs, traces = self.execute(cands, **kw)
            traces = [(a, b, self.mark(x)) for a, b, x in traces if x]
            best = None
            for (a, b, x), (v, at) in zip(traces, self.validate(strs, [x for _, _, x in traces])):
                if v == "REJECT":
                    c = dict(a, steps=a["steps"][:at + 1])
                    if best is None or len(c["steps"]) < len(best[0]["steps"]):
                        best = (c, x[:at + 1])
            if best and len(best[0]["steps"]) < len(s["steps"]):
                s, e = best
                step = max(1, min(step, (len(s["steps"]) - 1) // 2))
            elif step == 1:
                break
            else:
                step //= 2
        return s, e

    def _not_controlled(self, rejected):
        """The rejections whose controls are accepted, and how many others there are."""
        cs = [(i, c) for i, (_, s, k, evs, at) in enumerate(rejected)
              for c in self.control(dict(s, steps=s["steps"][:at + 1]), at)]
        strs, traces = self.execute([dict(c, name="%d" % i) for i, c in cs])
        traces = [(int(s["name"]), e) for s, _, e in traces if e]
        bad = {i for (i, _), (v, _) in zip(traces, self.validate(strs, [e for _, e in traces])) if v == "REJECT"}
        return [x for i, x in enumerate(rejected) if i not in bad] + [len(bad)]

    def _blamed(self, s, at):
        """Is the rejection due to what this property is about? Not if a control is rejected too."""
        for c in self.control(s, at):
            strs, traces = self.execute([c])
            traces = [e for _, _, e in traces if e]
            if any(v == "REJECT" for v, _ in self.validate(strs, traces)):
                return False
        return True

    def save(self, s, k, evs):
        d = os.path.join(VERIF, "work", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "script": s, "k": k, "trace": evs}, f, indent=1)
        return p

    # ---- model checking ----
    def model(self, module, cfg, what, timeout=600, args=(), env=None, files=None):
        """Checks a model; a failure is a fault of the specification, not of the code."""
        t = time.time()
        out, rc = tlc(self.work, module, cfg, env, timeout=timeout, args=args, files=files)
        if rc != 0 or "No error has been found" not in out:
            raise InfraError("model %s/%s: status %s\n%s" % (module, cfg, rc, out[-3000:]))
        g, d = stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["mc"].append({"model": cfg, "what": what, "states": d, "transitions": g, "seconds": round(time.time() - t, 1)})
        return out

    def variant(self, module, cfg, subs, what, expect=None, timeout=600):
        """Checks a model with some of its constants replaced; expect names what has to be violated."""
        base = open(os.path.join(VERIF, "spec", cfg)).read()
        for a, b in subs.items():
            if a not in base:
                raise InfraError("%s has no %s" % (cfg, a))
            base = base.replace(a, b)
        name = "Variant.cfg"
        if expect is None:
            return self.model(module, name, what, timeout=timeout, files={name: base})
        t = time.time()
        out, rc = tlc(self.work, module, name, timeout=timeout, files={name: base})
        if not any("%s is violated" % e in out for e in expect):
            raise InfraError("model %s: %s should break %s\n%s" % (module, subs, expect, out[-2000:]))
        self.cov["mc"].append({"model": cfg, "what": what, "violated": "as it has to be", "seconds": round(time.time() - t, 1)})
