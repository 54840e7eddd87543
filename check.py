#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the harness against /repo's working tree, searches for a case that
breaks the property, and writes evidence/PROPERTY.json.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself failed.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")

# Per property: worker processes, seconds of search (quick, thorough), race detector.
DEFAULT = dict(workers=8, quick=60, thorough=240, race=False, shrink=8)
CONF = {
    "P11": dict(race=True),
    "P24": dict(race=True),
    "P17": dict(shrink=20), "P18": dict(shrink=20), "P19": dict(shrink=20), "P20": dict(shrink=20),
    "P21": dict(shrink=20, workers=6), "P22": dict(shrink=20, race=True), "P25": dict(shrink=20, workers=24), "P26": dict(shrink=20, workers=24),
    "P27": dict(shrink=15, race=True), "P28": dict(shrink=15), "P34": dict(shrink=20, workers=6, quick=75), "P31": dict(workers=6),
    "P39": dict(shrink=20, workers=6),
}
# Seconds of coverage-guided fuzzing after that, thorough only (harness/fuzz_test.go).
FUZZ = {"P02": 150, "P03": 150, "P04": 150, "P15": 150, "P30": 150}
# A case is thought to hang after this long without any progress.
HANG_WALL = 45.0
HANG_CPU = 25.0
# No worker may need more address space than this (not with the race detector).
ADDRESS_SPACE = 6 << 30


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false", GOWORK="off",
             HOME=e.get("HOME", "/root"), GOTRACEBACK="all")
    for k in list(e):
        if k.startswith("RAPID_") or k in ("GODEBUG", "GOMAXPROCS", "GORACE"):
            del e[k]
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        e.pop(k, None)
    return e


def go_build(where, race, *args):
    return subprocess.run(["go", "build", "-ldflags=-checklinkname=0"] + (["-race"] if race else []) + [*args, "."],
                          cwd=where, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(scratch, race):
    """Returns how long it took, and the subs that had to be left out."""
    t0 = time.time()
    r = subprocess.run(["go", "build", "-o", os.path.join(scratch, "gotor"), "."],
                       cwd=os.path.join(REPO, "src"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("build failed:\n" + r.stdout[-4000:])
    out, lost = os.path.join(scratch, "vp"), []
    r = go_build(HARNESS, race, "-o", out)
    if r.returncode != 0:
        lost = build_rest(os.path.join(scratch, "harness"), race, out)
        if not lost:
            raise CheckError("build failed:\n" + r.stdout[-4000:])
    return time.time() - t0, lost


FUNC = re.compile(r"^func (\([^)]*\) )?(\w+)(?:\[[^\]]*\])?\(.*?(?:\{$.*?^\}$|\}$)", re.M | re.S)
SUB = re.compile(r'\{"([\w ]+)", \d+, \d+, (\w+)\},?')


def called(m):
    """How a function is referred to."""
    return ("." if m.group(1) else "") + m.group(2)


def build_rest(where, race, out):
    """Builds what is not concerned by a changed interface of the code under test.

    Functions that do not compile lose their body, and every sub that could get
    there is left out. Returns those."""
    shutil.copytree(HARNESS, where, ignore=shutil.ignore_patterns("testdata"))
    lost = set()
    for _ in range(10):
        r = go_build(where, race, "-gcflags=-e", "-o", out)
        if r.returncode == 0:
            break
        errors = re.findall(r"^(?:\./)?(\w+\.go):(\d+):\d+: (.*)$", r.stdout, re.M)
        changed = False
        for name in {e[0] for e in errors}:
            path = os.path.join(where, name)
            with open(path) as f:
                text = f.read()
            lines = text.splitlines(True)
            starts = [0]
            for x in lines:
                starts.append(starts[-1] + len(x))
            cut = []
            for _, n, what in [e for e in errors if e[0] == name]:
                n = int(n)
                if "imported and not used" in what:
                    cut.append((starts[n - 1], starts[n], "\n"))
                    continue
                for m in FUNC.finditer(text):
                    if m.start() <= starts[n - 1] < m.end() and m.group(2) not in ("init", "main"):
                        head = m.group(0).split("{\n")[0].rstrip() if "{\n" in m.group(0) else m.group(0).split(" {")[0]
                        cut.append((m.start(), m.end(), head.rstrip("{ ") + ' { panic("not built") }'))
                        lost.add(called(m))
            for a, b, new in sorted(set(cut), reverse=True):
                text = text[:a] + new + text[b:]
                changed = True
            with open(path, "w") as f:
                f.write(text)
        if not changed:
            return []
    else:
        return []
    # Whatever calls them
    bodies = []
    for name in os.listdir(where):
        if name.endswith(".go") and not name.endswith("_test.go"):
            with open(os.path.join(where, name)) as f:
                bodies += [(called(m), set(re.findall(r"\.\w+(?=\()|(?<![.\w])\w+", m.group(0)))) for m in FUNC.finditer(f.read())]
    size = 0
    while size != len(lost):
        size = len(lost)
        lost |= {name for name, words in bodies if name not in ("init", "main") and words & lost}
    if lost & {"childMain", "initOpts", "startTracker", "runCase"}:
        return []  # Everything depends on them
    gone = []
    for name in os.listdir(where):
        if name.startswith("p_") and name.endswith(".go"):
            path = os.path.join(where, name)
            with open(path) as f:
                text = f.read()
            gone += [m.group(2) for m in SUB.finditer(text) if m.group(2) in lost]
            with open(path, "w") as f:
                f.write(SUB.sub(lambda m: "" if m.group(2) in lost else m.group(0), text))
    r = go_build(where, race, "-o", out)
    return sorted(set(gone)) if r.returncode == 0 else []


class Worker:
    def __init__(self, scratch, name, job, race):
        self.dir = os.path.join(scratch, name)
        os.makedirs(self.dir)
        job = dict(job, scratch=self.dir, gotor=os.path.join(scratch, "gotor"), self=os.path.join(scratch, "vp"))
        self.job = job
        e = env()
        e["VP_JOB"] = json.dumps(job)
        e["TMPDIR"] = self.dir
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        self.err = open(os.path.join(self.dir, "stderr"), "wb")

        def limits():
            os.setsid()
            if not race:
                resource.setrlimit(resource.RLIMIT_AS, (ADDRESS_SPACE, ADDRESS_SPACE))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.proc = subprocess.Popen([os.path.join(scratch, "vp")], env=e, cwd=self.dir, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=limits)
        self.last = None
        self.since = time.time()
        self.cpu0 = 0.0
        self.hang = False
        self.cut = False

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f:
                s = f.read().rsplit(")", 1)[1].split()
            return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def where(self):
        try:
            with open(os.path.join(self.dir, "journal")) as f:
                return f.read().split("\n")[0].split()
        except OSError:
            return []

    def poll(self):
        """Returns True when the worker has ended."""
        if self.proc.poll() is not None:
            return True
        w = self.where()
        now = time.time()
        if w != self.last:
            self.last, self.since, self.cpu0 = w, now, self.cpu()
        elif now - self.since > HANG_WALL:
            used = self.cpu() - self.cpu0
            # Either it had the processor and got nowhere, or it sleeps
            if used > HANG_CPU or used < 2.0 or now - self.since > 4 * HANG_WALL:
                self.hang = True
                self.stop(dump=True)
                return True
        return False

    def stop(self, dump=False):
        if dump and self.proc.poll() is None:
            try:
                os.kill(self.proc.pid, signal.SIGQUIT)
                self.proc.wait(5)
            except (ProcessLookupError, subprocess.TimeoutExpired):
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def stderr(self):
        self.err.flush()
        with open(os.path.join(self.dir, "stderr"), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            head = f.read(200000)
            tail = b""
            if n > 300000:
                f.seek(n - 100000)
                tail = f.read()
        return (head + tail).decode("utf-8", "replace")

    def result(self):
        try:
            with open(os.path.join(self.dir, "result.json")) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def ends_badly(self):
        """Whether this worker, which has ended, has something to report."""
        if not hasattr(self, "bad"):
            r = self.result()
            self.bad = self.hang or r is None or bool(r["violations"])
        return self.bad

    def hashes(self):
        try:
            with open(os.path.join(self.dir, "hashes.bin"), "rb") as f:
                return f.read()
        except OSError:
            return b""


# When one worker has found something, the others have this long to end.
OTHERS = 25.0


def run_workers(ws):
    until = None
    try:
        while True:
            done = [w.poll() for w in ws]
            if all(done):
                return
            now = time.time()
            if until is None and any(d and w.ends_badly() for d, w in zip(done, ws)):
                until = now + OTHERS
            if until is not None and now > until:
                for d, w in zip(done, ws):
                    w.cut |= not d
                return
            time.sleep(0.02 if now - ws[0].since < 2 else 0.1)
    finally:
        for w in ws:
            w.stop()


CRASH = re.compile(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|SIGSEGV|unexpected fault address)", re.M)


def classify_crash(text):
    """What a worker that died was doing: 'code' under test or 'harness'."""
    if "HARNESS-ERROR" in text:
        return "harness", text[text.index("HARNESS-ERROR"):][:2000]
    if "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        rep = text[i:i + 6000].split("==================")[0]
        return ("code" if re.search(r"^\s+gotor/", rep, re.M) else "harness"), rep
    m = CRASH.search(text)
    if not m:
        return "harness", text[-2000:]
    rep = text[m.start():m.start() + 60000]
    # The goroutine that crashed comes first
    g = re.search(r"^goroutine \d+.*?(?=^\s*$\n^goroutine |\Z)", rep, re.M | re.S)
    first = g.group(0) if g else rep
    if "out of memory" in rep[:300] or "cannot allocate" in rep[:300]:
        first = rep  # Whoever asked last need not be the one
    return ("code" if re.search(r"^gotor/", first, re.M) else "harness"), rep[:5000]


def save_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (prop, v["sub"], v["verif_seed"], v["index"]))
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2), re.S), m.group(3)))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = dict(DEFAULT, **CONF.get(prop, {}))
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.n = 0
        self.confirm_until = time.time() + 3600

    def job(self, **kw):
        return dict(prop=self.prop, tier=self.tier, seed=self.seed, worker=0, workers=1,
                    budget=self.conf[self.tier], shrink=self.conf["shrink"], port=0, **kw)

    def worker(self, job):
        self.n += 1
        job["port"] = 20000 + (os.getpid() * 7 + self.n * 251) % 11000
        return Worker(self.scratch, "w%d" % self.n, job, self.conf["race"])

    def again(self, v, tries=1, repeat=1):
        """Runs a case alone; returns the violation it gives, or None."""
        for _ in range(tries):
            if time.time() > self.confirm_until:
                return None
            job = self.job(only_sub=v["sub"], only_index=v["index"], repeat=repeat)
            job["seed"] = v["verif_seed"]
            job["shrink"] = 0.001
            if v.get("failfile"):
                ff = os.path.join(self.scratch, "failfile%d" % self.n)
                with open(ff, "w") as f:
                    f.write(v["failfile"])
                job["failfile"] = ff
            w = self.worker(job)
            run_workers([w])
            r = w.result()
            if w.hang:
                return dict(v, kind="hang", message="no progress\n" + w.stderr()[:6000])
            if r is None:
                kind, rep = classify_crash(w.stderr())
                if kind == "code":
                    return dict(v, kind="crash", message=rep)
                raise CheckError("worker failed:\n" + rep)
            if r["violations"]:
                return dict(r["violations"][0], kind="case")
        return None

    def confirm(self, v, tries, errors):
        """Like again, while the violations of other workers are yet to be seen."""
        try:
            return self.again(v, tries=tries)
        except CheckError as e:
            errors.append(str(e))
            return None

    def run(self):
        build_s, lost = build(self.scratch, self.conf["race"])
        n = self.conf["workers"]
        ws = []
        for i in range(n):
            job = self.job()
            job.update(worker=i, workers=n)
            ws.append(self.worker(job))
        run_workers(ws)

        self.confirm_until = time.time() + 150
        found, results, unconfirmed = [], [], 0
        errors = []
        for w in ws:
            r = w.result()
            if w.cut and r is None:
                continue
            if r is not None and not w.hang:
                results.append(r)
                for v in r["violations"] or []:
                    if v["timing"]:
                        if found:
                            continue  # One that is sure is enough
                        c = self.confirm(v, 5, errors)
                        if c is None:
                            unconfirmed += 1
                            continue
                        v = dict(v, message=c["message"] + "\n(seen before as)\n" + v["message"])
                    found.append(dict(v, kind="case"))
                continue
            pos = w.where()
            text = w.stderr()
            v = dict(property=self.prop, sub=pos[0] if pos else "init", index=int(pos[1]) if len(pos) > 1 else -1,
                     verif_seed=self.seed, worker=w.job["worker"], workers=n, failfile="", log=[])
            if w.hang:
                if v["sub"] == "init":
                    errors.append("worker hangs at start\n" + text[:3000])
                    continue
                if found:
                    continue
                c = self.confirm(v, 2, errors)
                if c is None:
                    unconfirmed += 1
                    continue
                found.append(c)
            else:
                kind, rep = classify_crash(text)
                if kind == "code":
                    found.append(dict(v, kind="crash", message=rep))
                else:
                    errors.append("worker failed (exit %s)\n%s" % (w.proc.returncode, rep))
        if lost and not found and not any(r["subs"] for r in results):
            raise CheckError("nothing of this check can be built, the interface of the code has changed")
        return dict(lost=lost, build_s=build_s, found=found, results=results, unconfirmed=unconfirmed, errors=errors,
                    hashes=[w.hashes() for w in ws])

    def build_fuzz(self):
        r = subprocess.run(["go", "test", "-vet=off", "-ldflags=-checklinkname=0", "-c", "-fuzz=.", "-o",
                            os.path.join(self.scratch, "fz"), "."], cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("build of the fuzzer failed:\n" + r.stdout[-4000:])

    def run_fuzz(self, *args, timeout):
        d = os.path.join(self.scratch, "fuzz")
        os.makedirs(d, exist_ok=True)
        e = env()
        e["TMPDIR"] = d
        p = subprocess.Popen([os.path.join(self.scratch, "fz"), *args], cwd=d, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=os.setsid)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            out = "does not end\n"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        return p.wait(), out

    def fuzz(self):
        """Searches with coverage feedback; returns a violation or None, and what was done."""
        self.build_fuzz()
        name, secs = "Fuzz" + self.prop, FUZZ[self.prop]
        rc, out = self.run_fuzz("-test.run=^$", "-test.fuzz=^%s$" % name, "-test.fuzztime=%ds" % secs,
                                "-test.fuzzcachedir=" + os.path.join(self.scratch, "corpus"), "-test.parallel=8",
                                timeout=secs + 120)
        n = re.findall(r"execs: (\d+)", out)
        new = re.findall(r"\(total: (\d+)\)", out)
        stats = dict(seconds=secs, execs=int(n[-1]) if n else 0, corpus=int(new[-1]) if new else 0)
        if rc == 0 and re.search(r"^PASS$", out, re.M):
            return None, stats
        m = re.search(r"Failing input written to (\S+)", out)
        data = ""
        if m:
            with open(os.path.join(self.scratch, "fuzz", m.group(1))) as f:
                data = f.read()
        v = dict(property=self.prop, sub="fuzz", index=0, verif_seed=self.seed, kind="fuzz", data=data, message=out[-5000:])
        c = self.again_fuzz(v) if data else None
        if c is None:
            raise CheckError("the fuzzer failed:\n" + out[-3000:])
        return c, stats

    def again_fuzz(self, v):
        """Runs one input of the fuzzer; returns the violation it gives, or None."""
        name = "Fuzz" + self.prop
        d = os.path.join(self.scratch, "fuzz", "testdata", "fuzz", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "replay"), "w") as f:
            f.write(v["data"])
        rc, out = self.run_fuzz("-test.run=^%s$/^replay$" % name, "-test.v", timeout=120)
        return None if rc == 0 else dict(v, message=out[-5000:])

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def merge(results, hashes):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], nontrivial=0, discarded=0,
               labels={}, subs={}, budget_ended=False)
    for r in results:
        cov["rule"] = r["rule"] or cov["rule"]
        cov["evaluations"] += r["evaluations"]
        cov["nontrivial"] += r["nontrivial"]
        cov["discarded"] += r["discarded"]
        cov["budget_ended"] |= r["truncated"]
        for k, v in r["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        for s, d in r["subs"].items():
            t = cov["subs"].setdefault(s, {})
            t["planned"] = d.get("planned", 0)
            t["cases"] = t.get("cases", 0) + d.get("cases", 0)
    for i in range(4):  # a few of each worker
        for r in results:
            if i < len(r["samples"] or []) and len(cov["samples"]) < 10:
                cov["samples"].append(r["samples"][i])
    seen = set()
    for h in hashes:
        for i in range(0, len(h) - 7, 8):
            seen.add(h[i:i + 8])
    cov["distinct_nontrivial"] = len(seen)
    cov["labels"] = dict(sorted(cov["labels"].items()))
    return cov


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    ck = Check(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            with open(a.replay) as f:
                v = json.load(f)
            build(ck.scratch, ck.conf["race"])
            if v.get("kind") == "fuzz":
                ck.build_fuzz()
            r = ck.again_fuzz(v) if v.get("kind") == "fuzz" else ck.again(v, tries=5, repeat=20 if v.get("kind") == "crash" else 1)
            if r:
                print(r["message"][:4000])
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            print("not reproduced")
            return 0

        out = ck.run()
        cov = merge(out["results"], out["hashes"])
        cov["build_s"] = round(out["build_s"], 1)
        cov["unconfirmed_timing"] = out["unconfirmed"]
        if out["lost"]:
            cov["not_built"] = out["lost"]
            print("NOTE: these could not be built, in any property, as the interface of the code has changed: " + ", ".join(out["lost"]))

        if a.tier == "thorough" and a.prop in FUZZ and not out["lost"] and not out["found"] and not out["errors"]:
            v, stats = ck.fuzz()
            cov["coverage_guided"] = stats
            cov["evaluations"] += stats["execs"]
            if v:
                out["found"].append(v)

        rc = 0
        bad, known = [], known_findings(a.prop)
        for v in out["found"]:
            if not any(rx.search(v["message"]) for rx, _ in known):
                bad.append(v)
        for _, what in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
        for v in bad[:3]:
            path = save_replay(a.prop, v)
            print(v["message"][:3000])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            rc = 1
        if rc == 0 and out["errors"]:
            raise CheckError("\n".join(out["errors"])[:6000])

        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
                  assumptions=["the generated inputs are a sample: absence of a violation is not proof",
                               "the oracle in /verif/harness states the property"],
                  wall_s=round(time.time() - t0, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s%s" % (
            a.prop, a.tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], cov["discarded"],
            time.time() - t0, ", BUDGET ENDED" if cov["budget_ended"] else ""))
        return rc
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e))
        return 2
    finally:
        ck.close()


if __name__ == "__main__":
    sys.exit(main())
