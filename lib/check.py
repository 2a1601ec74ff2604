"""Common driver of the checks: parallel case execution, verdicts, known findings, evidence."""
import os, sys, json, time, random, hashlib, shutil, traceback, pickle, signal, resource
import kit as K

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
VERIF = K.VERIF

class Violation(Exception):
    """Raised by a case: the observed behaviour breaks the property."""
    def __init__(self, what, files=None, sig=None):
        Exception.__init__(self, what)
        self.what, self.files, self.sig = what, files or {}, sig

class Inconclusive(Exception):
    pass

class Case:
    """Context handed to a case function."""
    def __init__(self, prop, idx, kits, dir, seed):
        self.prop, self.idx, self.kits, self.dir = prop, idx, kits, dir
        self.rng = random.Random("%s/%d/%d" % (prop, seed, idx))
        self.counts, self.states, self.sample = {}, set(), None
        self.key = None
        self.files = {}
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def state(self, *parts):
        """Records a distinct observed behaviour/feature tuple."""
        self.states.add("|".join(str(p) for p in parts))

_CTX = {}

def _one(idx):
    prop, fn, kits, base, seed = _CTX["prop"], _CTX["fn"], _CTX["kits"], _CTX["base"], _CTX["seed"]
    d = os.path.join(base, "c%d" % idx)
    os.makedirs(d, exist_ok=True)
    c = Case(prop, idx, kits, d, seed)
    r = dict(idx=idx, status="ok", what="", files={})
    try:
        fn(c)
    except Violation as v:
        r["status"], r["what"], r["files"], r["sig"] = "violation", v.what, v.files, v.sig
    except Inconclusive as v:
        r["status"], r["what"] = "inconclusive", str(v)
    except Exception:
        r["status"], r["what"] = "error", traceback.format_exc()
    r["counts"], r["states"], r["sample"], r["key"] = c.counts, c.states, c.sample, c.key
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return r

class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.t0 = time.time()
        self.violations = []
        self.results = []
        self.known_lines = []
        self.extra = {}
        self.case_limit = 240

    def tier(self, quick, thorough):
        return quick if TIER == "quick" else thorough

    def build(self, **kw):
        return K.build(**kw)

    def run(self, fn, n, kits, budget, only=None, start=0):
        """Runs cases start..start+n-1 of fn; stops handing out new ones after `budget` seconds of this phase."""
        base = os.path.join(K.scratch(), "cases-%d" % start)
        os.makedirs(base, exist_ok=True)
        _CTX.update(prop=self.prop, fn=fn, kits=kits, base=base, seed=SEED)
        idxs = list(only) if only is not None else range(start, start + n)
        t = time.time()
        done = 0
        workers = int(os.environ.get("VERIF_JOBS", "8"))
        if os.environ.get("VERIF_ONE"):
            idxs = [int(x) for x in os.environ["VERIF_ONE"].split(",")]
        it = iter(idxs)
        running = {}
        exhausted = False
        while True:
            while not exhausted and len(running) < workers:
                if time.time() - t > budget or len(self.violations) >= 5 or (getattr(self, 'nerr', 0) >= 100 and self.nerr * 2 > done):
                    exhausted = True
                    break
                try:
                    i = next(it)
                except StopIteration:
                    exhausted = True
                    break
                out = os.path.join(base, "r%d" % i)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                            signal.signal(s, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
                        r = _one(i)
                        with open(out, "wb") as f:
                            pickle.dump(r, f)
                    except BaseException:
                        pass
                    os._exit(0)
                running[pid] = (i, out, time.time())
            if not running:
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (i, out, t1) in list(running.items()):
                    if now - t1 > self.case_limit:
                        try: os.kill(p, signal.SIGKILL)
                        except OSError: pass
                time.sleep(0.003)
                continue
            if pid not in running:
                continue
            i, out, t1 = running.pop(pid)
            done += 1
            try:
                with open(out, "rb") as f:
                    r = pickle.load(f)
                os.unlink(out)
            except Exception:
                r = dict(idx=i, status="inconclusive" if time.time() - t1 > self.case_limit else "error",
                         what="the case's process ended without a result (status %d)" % st, counts={}, states=set(), sample=None, key=None, files={})
            self.results.append(r)
            if r["status"] == "violation":
                self.report(r["idx"], r["what"], r["files"], r.get("sig"))
            elif r["status"] == "error":
                self.nerr = getattr(self, "nerr", 0) + 1
                if self.nerr <= 3: sys.stderr.write("internal error in case %d:\n%s\n" % (r["idx"], r["what"]))
        shutil.rmtree(base, ignore_errors=True) if os.environ.get("VERIF_KEEP") is None else None
        return done

    def report(self, idx, what, files, sig=None):
        if len(self.violations) >= 20:
            return
        h = hashlib.sha1(("%s/%s/%s" % (self.prop, idx, what)).encode()).hexdigest()[:10]
        d = os.path.join(VERIF, "replays", self.prop, "%s-%s" % (idx, h))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property=%s seed=%d tier=%s case=%s\n%s\n\nTo rerun just this case: VERIF_SEED=%d VERIF_TIER=%s VERIF_ONE=%s python3 checks/%s.py\n"
                    % (self.prop, SEED, TIER, idx, what, SEED, TIER, idx, self.prop))
        for n, b in (files or {}).items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b if isinstance(b, bytes) else b.encode("latin-1", "replace"))
        self.violations.append((what, d))
        print("VIOLATION property=%s replay=%s" % (self.prop, d))
        print("  " + what.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()

    def known(self, key, still_fails, what):
        """Reports a listed finding that still fails; a failure that is not listed is a violation."""
        listed = key in known_keys(self.prop)
        if still_fails:
            if listed:
                line = "KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, what)
                self.known_lines.append(line)
                print(line)
            else:
                self.report("known-" + key, "unlisted failure of the finding probe %s: %s" % (key, what), {})

    def finish(self):
        ok = [r for r in self.results if r["status"] != "error"]
        errs = [r for r in self.results if r["status"] == "error"]
        inc = [r for r in self.results if r["status"] == "inconclusive"]
        counts, states, keys, samples = {}, set(), set(), []
        for r in ok:
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
            states |= r["states"]
            if r["key"] is not None:
                keys.add(r["key"])
            if r["sample"] and len(samples) < 3:
                samples.append(r["sample"])
        cov = dict(evaluations=len(ok), distinct_nontrivial=len(keys), rule=self.rule,
                   samples=samples or ["none"], observed=counts, distinct_observed_states=len(states),
                   state_samples=sorted(states)[:12], inconclusive=len(inc),
                   inconclusive_samples=sorted(set(r["what"][:200] for r in inc))[:5], internal_errors=len(errs))
        cov.update(self.extra)
        if self.known_lines:
            cov["known_findings"] = self.known_lines
        ev = dict(property=self.prop, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level="exploration",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d inconclusive, %d internal errors, %d violations, %.1fs; observed %s"
              % (self.prop, len(ok), len(keys), len(inc), len(errs), len(self.violations), time.time() - self.t0,
                 json.dumps(counts)))
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        if errs and len(errs) * 2 > len(self.results):
            sys.exit(3)
        sys.exit(0)

def known_keys(prop):
    ks = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + prop:
                ks.add(w[2].replace("key=", ""))
    return ks

def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode("latin-1", "replace"))
        h.update(b"\0")
    return h.hexdigest()

def main(fn):
    """Runs a check; an environment failure (no verdict) exits 3."""
    try:
        fn()
    except K.InfraError as e:
        print("cannot decide: %s" % e)
        sys.exit(3)
