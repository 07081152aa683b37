"""Shared machinery: build the driver from /repo's working tree, run TLC, write evidence, report."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The check itself could not run; never a violation."""


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.out = os.path.join(VERIF, "out")
        os.makedirs(self.out, exist_ok=True)
        self.violations = []      # (what, replay payload)
        self.known = load_known(prop)
        self.seen_known = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self._drv = None

    # -- driver ---------------------------------------------------------
    def driver(self, race=False, tags=""):
        key = "drv-race" if race else "drv" + tags
        path = os.path.join(self.work, key)
        if os.path.exists(path):
            return path
        ov = os.path.join(self.work, "overlay.json")
        rep = {os.path.join(REPO, "buckler/zzverif", os.path.basename(f)): f
               for f in glob.glob(os.path.join(VERIF, "driver", "*.go"))}
        json.dump({"Replace": rep}, open(ov, "w"))
        mod = os.path.join(self.work, "go.mod")
        with open(os.path.join(REPO, "go.mod")) as f:
            txt = f.read()
        with open(mod, "w") as f:
            f.write(txt + "\nreplace github.com/consensys/gnark-crypto => %s\n" % os.path.join(VERIF, "shim/gnark-crypto"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "go.sum"))
        cmd = ["go", "build", "-overlay", ov, "-modfile", mod, "-o", path]
        if race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", tags]
        cmd.append("./buckler/zzverif")
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("driver does not build:\n" + r.stdout + r.stderr)
        return path

    def _t(self, what, t):
        if os.environ.get("VERIF_TIME"):
            sys.stderr.write("  [%s %.1fs]\n" % (what, time.time() - t))

    def drive(self, mode, lines, timeout=500 if not THOROUGH else 20000, race=False, args=(), env=None, split=1, tags=""):
        """Run the driver on JSON lines; returns the parsed output lines. split: processes to share the lines among."""
        if split > 1 and len(lines) > 1:
            from concurrent.futures import ThreadPoolExecutor
            self.driver(race, tags)
            parts = [lines[i::split] for i in range(min(split, len(lines)))]
            with ThreadPoolExecutor(len(parts)) as ex:
                outs = list(ex.map(lambda p: self.drive(mode, p, timeout, race, args, env, 1, tags), parts))
            res = [None] * len(lines)
            for i, o in enumerate(outs):
                res[i::split] = o
            return res
        data = "\n".join(json.dumps(l) for l in lines) + "\n"
        e = goenv()
        if env:
            e.update(env)
        self.driver(race, tags)
        t0 = time.time()
        try:
            r = subprocess.run([self.driver(race, tags), mode, *args], input=data, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise DriverCrash(mode, None, "no answer within %d s" % timeout, "timeout")
        if r.returncode != 0:
            raise DriverCrash(mode, r.returncode, r.stdout[-2000:] + r.stderr[-6000:], r.stderr)
        self._t("drive " + mode, t0)
        return [json.loads(l) for l in r.stdout.splitlines() if l.strip()]

    # -- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, simulate=None, depth=40, workers=8, timeout=600, heap="6g", deadlock=False):
        meta = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss32m -Djava.io.tmpdir=%s" % (heap, self.work)
        cmd = ["tlc"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(SEED)]
            workers = 1
        cmd += ["-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, (cfg or module) + ".cfg"),
                os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        self._t("tlc " + module, t0)
        out = r.stdout + r.stderr
        if r.returncode != 0:
            return TlcResult(out, r.returncode)
        return TlcResult(out, 0)

    def generate(self, module, n, env=None, depth=40, cfg=None):
        """Scenarios printed by TLC -simulate, without duplicates; split over processes by seed."""
        global SEED
        procs = max(1, min(8, n // 25))
        t0 = time.time()
        per = (n + procs - 1) // procs
        out, seen = [], set()
        ps = []
        for k in range(procs):
            meta = tempfile.mkdtemp(dir=self.work)
            e = dict(os.environ)
            e.update({a: str(b) for a, b in (env or {}).items()})
            e["JAVA_TOOL_OPTIONS"] = ("-Xmx2g -XX:TieredStopAtLevel=1" if n < 400 else "-Xmx3g") + " -Xss32m -Djava.io.tmpdir=" + self.work
            seed = (SEED * 1000003 + k * 7919 + zlib_crc(module + json.dumps(env or {}, sort_keys=True))) % (2 ** 31)
            cmd = ["tlc", "-simulate", "num=%d" % per, "-depth", str(depth), "-seed", str(seed), "-workers", "1",
                   "-metadir", meta, "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
            fo = open(os.path.join(self.work, "gen%d.%d" % (len(os.listdir(self.work)), k)), "w+")
            ps.append((subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT), fo))
        for p, fo in ps:
            try:
                p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                raise CheckError("TLC timed out generating from " + module)
            fo.seek(0)
            txt = fo.read()
            fo.close()
            if p.returncode != 0 or "Error:" in txt:
                raise CheckError("TLC failed generating from %s:\n%s" % (module, txt[-3000:]))
            for l in txt.splitlines():
                if l.startswith('"{') or l.startswith('"['):
                    if l not in seen:
                        seen.add(l)
                        out.append(json.loads(json.loads(l)))
        self._t("generate " + module, t0)
        if not out:
            raise CheckError("TLC generated nothing from " + module)
        for i, s in enumerate(out):
            if isinstance(s, dict):
                s["id"] = i + 1
        return out

    def enumerate(self, module, env=None, cfg=None, workers=8, timeout=600):
        """Scenarios printed by an exhaustive TLC run, and its statistics."""
        e = {"SEED": SEED}
        e.update(env or {})
        t = self.tlc(module, cfg=cfg, env=e, workers=workers, timeout=timeout)
        if t.rc != 0:
            raise CheckError("TLC failed on %s:\n%s" % (module, t.out[-4000:]))
        out, seen = [], set()
        for l in t.out.splitlines():
            if l.startswith('"{') and l not in seen:
                seen.add(l)
                out.append(json.loads(json.loads(l)))
        if not out:
            raise CheckError("TLC generated nothing from " + module)
        for i, s in enumerate_(out):
            s["id"] = i + 1
        self.states += t.distinct
        self.transitions += t.generated
        return out

    def validate(self, module, records, length, env=None, cfg=None, timeout=600, chunk=None):
        """Trace validation: returns the deviations printed by TLC, after checking that every recorded step was taken."""
        path = os.path.join(self.work, "trace%d.ndjson" % len(os.listdir(self.work)))
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        e = dict(env or {})
        e["TRACE"] = path
        t = self.tlc(module, cfg=cfg, env=e, timeout=timeout)
        if t.rc != 0:
            raise CheckError("trace validation by %s failed:\n%s" % (module, t.out[-4000:]))
        want = sum(length(r) + 1 for r in records)
        if t.distinct != want:
            raise CheckError("%s examined %s states of %s recorded" % (module, t.distinct, want))
        self.states += t.distinct
        self.transitions += t.generated
        self.traces += len(records)
        return t.printed("DEVIATION ")

    # -- reporting --------------------------------------------------------
    def violate(self, what, payload):
        for k in self.known:
            if k.matches(what, payload):
                self.seen_known.add(k.text)
                return
        self.violations.append((what, payload))

    def finish(self, coverage):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": coverage, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in sorted(self.seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        rc = 0
        if self.violations:
            path = os.path.join(self.out, "%s-%d.json" % (self.prop, SEED))
            json.dump([{"what": w, "replay": p} for w, p in self.violations[:20]], open(path, "w"), indent=1)
            for w, _ in self.violations[:5]:
                print("  " + w[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("%s: held on everything explored (%.1f s) %s" % (self.prop, wall, json.dumps({k: v for k, v in coverage.items() if isinstance(v, int)})))
        return rc

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


enumerate_ = enumerate


def zlib_crc(s):
    import zlib
    return zlib.crc32(s.encode())


class DriverCrash(Exception):
    def __init__(self, mode, rc, tail, err):
        super().__init__("driver mode %s exited with %s:\n%s" % (mode, rc, tail))
        self.rc, self.err = rc, err


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def printed(self, prefix=""):
        res = []
        for l in self.out.splitlines():
            if l.startswith('"' + prefix):
                res.append(json.loads(json.loads(l)[len(prefix):]))
        return res


def goenv():
    e = dict(os.environ)
    env = getattr(goenv, "cache", None)
    if env is None:
        env = {}
        if os.path.exists("/opt/vp/env.sh"):
            r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env"], capture_output=True, text=True)
            for l in r.stdout.splitlines():
                k, _, v = l.partition("=")
                if k.startswith("GO") or k in ("PATH", "CGO_ENABLED", "HOME"):
                    env[k] = v
        goenv.cache = env
    e.update(env)
    return e


class Known:
    def __init__(self, prop, text, key):
        self.prop, self.text, self.key = prop, text, key

    def matches(self, what, payload):
        return isinstance(payload, dict) and payload.get("known") == self.key


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> key=<key> <what fails>' and 'fixed: ...' (which suppress nothing)."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(Known(prop, m.group(3), m.group(2)))
    return res
