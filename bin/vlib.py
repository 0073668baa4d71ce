"""Plumbing for the checks: builds, trace recording, TLC runs, evidence."""
import contextlib, fcntl, glob, hashlib, json, os, re, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = max(1, os.cpu_count() or 1)


class ToolError(Exception):
    pass


class BuildError(ToolError):
    def __init__(self, name, out):
        super().__init__("build failed (%s):\n%s" % (name, out[-4000:]))
        self.name, self.out = name, out


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    e["PATH"] = home + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def tree_hash(*subdirs):
    h = hashlib.sha256()
    for d in subdirs:
        d = os.path.join(REPO, d)
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for r, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(r, f) for f in sorted(fs)]
        for f in files:
            if f.endswith("Cargo.lock"):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


@contextlib.contextmanager
def alone(target):
    """One build at a time in each output folder, also among processes."""
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".alone"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def refresh(target, stamp, names, triple=""):
    """Cargo goes by file times; we go by contents."""
    os.makedirs(target, exist_ok=True)
    f = os.path.join(target, ".sources")
    old = open(f).read() if os.path.exists(f) else ""
    if old != stamp:
        for prof in ("debug", "release"):
            fp = os.path.join(target, triple, prof, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if any(n.startswith(x + "-") for x in names):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    with open(f, "w") as fh:
        fh.write(stamp)


def build_harness(name="std", features=("std",), release=False):
    """Builds the harness against /repo's working tree; returns the binary."""
    target = os.path.join(BUILD, "t-" + name)
    with alone(target):
        return _build_harness(target, name, features, release)


def _build_harness(target, name, features, release):
    refresh(target, tree_hash("src", "Cargo.toml"), ("hyperloglogplus", "hllh"))
    e = env()
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--locked", "--no-default-features",
           "--features", ",".join(features)] + (["--release"] if release else [])
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(name, r.stdout)
    return os.path.join(target, "release" if release else "debug", "hllh")


def vendor32():
    """The sources std and the harness need for another target, in one place."""
    e = env()
    root = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    std = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    v = os.path.join(BUILD, "vendor32")
    if os.path.isdir(v):
        return v
    t = v + ".%d" % os.getpid()
    os.makedirs(t)
    for d in os.listdir(std):
        os.symlink(os.path.join(std, d), os.path.join(t, d))
    with open(os.path.join(VERIF, "harness32", "Cargo.lock")) as f:
        lock = f.read()
    home = os.environ.get("CARGO_HOME") or os.path.join(e["HOME"], ".cargo")
    for name, version, sha in re.findall(r'name = "(.*)"\nversion = "(.*)"\nsource = "registry.*"\nchecksum = "(.*)"', lock):
        d = "%s-%s" % (name, version)
        if os.path.exists(os.path.join(t, d)):
            continue
        src = glob.glob(os.path.join(home, "registry/src/*", d))
        os.makedirs(os.path.join(t, d))
        if src:
            for f in os.listdir(src[0]):
                os.symlink(os.path.join(src[0], f), os.path.join(t, d, f))
        else:
            c = glob.glob(os.path.join(home, "registry/cache/*", d + ".crate"))
            if not c:
                raise ToolError("no sources of " + d)
            subprocess.run(["tar", "xzf", c[0], "-C", t], check=True)
        with open(os.path.join(t, d, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}, "package": sha}, f)
    try:
        os.rename(t, v)
    except OSError:         # someone else made it meanwhile
        shutil.rmtree(t)
    return v


def build_wasm(name, features=("std",)):
    """Builds the harness for a 32-bit platform; returns a program that runs it.
    (One after the other: the builds share their standard library.)"""
    target = os.path.join(BUILD, "t-w32")
    with alone(target):
        return _build_wasm(target, name, features)


def _build_wasm(target, name, features):
    refresh(target, tree_hash("src", "Cargo.toml"), ("hyperloglogplus", "hllh32"), "wasm32-unknown-unknown")
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_BOOTSTRAP"] = "1"      # builds the standard library from its installed sources
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(features),
           "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort",
           "--config", 'source.crates-io.replace-with="vendor32"',
           "--config", 'source.vendor32.directory="%s"' % vendor32()]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness32"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(name, r.stdout)
    wasm = os.path.join(target, name + ".wasm")
    shutil.copyfile(os.path.join(target, "wasm32-unknown-unknown", "debug", "hllh32.wasm"), wasm)
    run = os.path.join(target, name + ".run")
    with open(run, "w") as f:
        f.write('#!/bin/sh\nexec node %s/harness32/run.js %s "$@"\n' % (VERIF, wasm))
    os.chmod(run, 0o755)
    return run


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def record(prop, binary, suite, n, out, extra=(), shards=None, seed=None):
    """Runs a suite of the harness in parallel; appends its traces to `out`."""
    # suites whose threads have to run at the same moment get the machine
    shards = shards or (1 if suite.startswith("hot-") else 8)
    procs = []
    for i in range(shards):
        part = "%s.%s.%d" % (out, suite, i)
        cmd = [binary, suite, "--seed", str(SEED if seed is None else seed), "--n", str(n),
               "--tier", TIER, "--shard", "%d/%d" % (i, shards), "--out", part] + list(extra)
        procs.append((cmd, part, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                      stderr=subprocess.STDOUT, text=True, preexec_fn=None if binary.endswith(".run") else _limits)))
    bad = None
    for cmd, part, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0 and bad is None:
            bad = (cmd, p.returncode, o)
    with open(out, "ab") as f:
        for _, part, _ in procs:
            if os.path.exists(part):
                with open(part, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.remove(part)
    if bad:
        cmd, rc, o = bad
        if rc < 0 and rc != -9:
            path = replay(prop, {"crash": cmd, "returncode": rc, "output": o[-2000:]})
            raise Violation("the process under test died (signal %d)" % -rc, path)
        raise ToolError("harness failed rc=%s: %s\n%s" % (rc, " ".join(cmd), o[-2000:]))


def record_fresh(prop, binary, suite, n, out):
    """Runs a suite n times, each in a process of its own, three at a time."""
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        part = "%s.%s" % (out, suite)
        for seed in range(i, n, 3):
            record(prop, binary, suite, 1, "%s.%d" % (part, i), shards=1, seed=SEED * 100000 + seed)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, range(3)))
    with open(out, "ab") as f:
        for i in range(3):
            part = "%s.%s.%d" % (out, suite, i)
            if os.path.exists(part):
                with open(part, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.remove(part)


def replay(prop, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, int(time.time() * 1000) % 10 ** 10))
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=sorted)
        f.write("\n")
    return path


def classes():
    out = os.path.join(BUILD, "cls")
    src = os.path.join(SPEC, "java")
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
    os.makedirs(out, exist_ok=True)
    stamp = hashlib.sha256(b"".join(open(f, "rb").read() for f in files)).hexdigest()
    sf = os.path.join(out, ".stamp")
    if not os.path.exists(sf) or open(sf).read() != stamp:
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out] + files,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("javac: " + r.stdout)
        with open(sf, "w") as f:
            f.write(stamp)
    return out


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
    raise ValueError(v)


class TLC:
    """One TLC run; .states, .distinct, .error ('', 'deadlock', 'violation', 'tool')."""

    def __init__(self, module, cfg, workers=None, xmx="8g", timeout=3000, tag="run", extra=()):
        d = os.path.join(BUILD, "tlc", "%s-%s-%d" % (tag, module, os.getpid()))
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + d,
               "-cp", ":".join([classes(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers or CPUS),
               "-config", cfgf, "-metadir", os.path.join(d, "meta")] + list(extra) + [
               os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        self.wall = time.time() - t0
        self.out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("Loading "))
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(self.out)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", self.out)
        self.states = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        left = int(m.group(3)) if m else -1
        if "Model checking completed. No error has been found." in self.out and left == 0 and r.returncode == 0:
            self.error = ""
        elif "Error: Deadlock reached." in self.out:
            self.error = "deadlock"
        elif re.search(r"Error: (Invariant|Action property|Temporal properties|Property|The postcondition|Assumption)", self.out):
            self.error = "violation"
        else:
            self.error = "tool"
        shutil.rmtree(d, ignore_errors=True)

    def last(self, var):
        """The value of a variable in the last state of the error trace."""
        v = re.findall(r"^/\\ %s = (.*)$" % var, self.out, re.M)
        return v[-1] if v else None

    def fail(self, what):
        i = self.out.find("Error:")
        raise ToolError("%s\n%s" % (what, self.out[i if i >= 0 else -3000:][:6000]))


def sample(line, n=14):
    d = json.loads(line)
    d["ev"] = d["ev"][:n]
    used = set()
    for e in d["ev"]:
        used.update(e.get("x", []))
    d["atoms"] = {str(i): d["atoms"][i - 1] for i in sorted(used)[:20]}
    return d


def validate(prop, files, module="Trace", consts=None, view=True, chunk=60 << 20, tag="tv", extra_cfg="",
             init="Init", next_="Next"):
    """Checks recorded traces against a trace specification.

    Returns (states, transitions, traces, samples).  A trace that is not a
    behaviour of the specification raises Violation."""
    states = trans = traces = 0
    samples = []
    for f in files:
        lines, size = [], 0
        chunks = []
        with open(f) as fh:
            for l in fh:
                lines.append(l)
                size += len(l)
                if size > chunk:
                    chunks.append(lines)
                    lines, size = [], 0
        if lines:
            chunks.append(lines)
        if not chunks:
            raise ToolError("no traces recorded in " + f)
        for ls in chunks:
            part = f + ".part"
            with open(part, "w") as fh:
                fh.writelines(ls)
            c = dict(consts or {})
            c["TraceFile"] = part
            cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK TRUE\n" % (init, next_) + ("VIEW View\n" if view else "") + extra_cfg
            cfg += "CONSTANTS\n" + "".join(" %s = %s\n" % (k, tla_val(v)) for k, v in c.items())
            t = TLC(module, cfg, tag=tag)
            want = sum(l.count('"op":') + 1 for l in ls)
            if t.error == "deadlock":
                tr, pos = int(t.last("tr")), int(t.last("l"))
                sc = json.loads(ls[tr - 1])
                at = sc["ev"][pos - 1] if pos <= len(sc["ev"]) else None
                sc["ev"] = sc["ev"][:pos]
                path = replay(prop, {"property": prop, "spec": module, "constants": c, "scenario": sc["id"],
                                     "rejected_at": pos, "rejected_event": at, "seed": SEED, "tier": TIER,
                                     "trace": sc})
                raise Violation("scenario %s: event %d is not allowed by %s: %s" %
                                (sc["id"], pos, module, json.dumps(at)), path)
            if t.error:
                t.fail("TLC failed on traces " + part)
            if t.distinct != want:
                raise ToolError("TLC saw %d states, the traces have %d" % (t.distinct, want))
            os.remove(part)
            states += t.distinct
            trans += t.states - len(ls)      # every trace starts in one initial state
            traces += len(ls)
            if len(samples) < 3:
                samples.append(sample(ls[len(ls) // 2]))
    return states, trans, traces, samples


def tweak(e, factor=1.00001, plus=1e-3):
    """A double (as the pair of ints in a trace), changed (by default by a part in 100000)."""
    b = ((e[0] & 0xffffffff) << 32) | (e[1] & 0xffffffff)
    x = struct.unpack(">d", struct.pack(">Q", b))[0] * factor + plus
    b = struct.unpack(">Q", struct.pack(">d", x))[0]
    hi, lo = b >> 32, b & 0xffffffff
    return [hi - (1 << 32) if hi >> 31 else hi, lo - (1 << 32) if lo >> 31 else lo]


def selftest(prop, files, module="Trace", consts=None, op="cnt", change=None,
             init="Init", next_="Next", late=False):
    """A recorded trace with one altered observation must be rejected (there,
    or later)."""
    change = change or (lambda e: e.update(e=tweak(e["e"])))
    with open(files[0]) as f:
        lines = f.readlines()
    for l in [lines[len(lines) // 2], lines[0], lines[-1], lines[len(lines) // 3]]:
        d = json.loads(l)
        idx = [i for i, e in enumerate(d["ev"]) if e["op"] == op and not (op == "cnt" and e["e"] == [0, 0])]
        if not idx:
            continue
        change(d["ev"][idx[-1]])
        path = files[0] + ".self"
        with open(path, "w") as f:
            f.write(json.dumps(d) + "\n")
        c = dict(consts or {})
        c["TraceFile"] = path
        cfg = "INIT %s\nNEXT %s\nVIEW View\nCHECK_DEADLOCK TRUE\nCONSTANTS\n" % (init, next_) + \
            "".join(" %s = %s\n" % (k, tla_val(v)) for k, v in c.items())
        t = TLC(module, cfg, tag="self", workers=1)
        if t.error == "deadlock" and (late or int(t.last("l")) == idx[-1] + 1):
            os.remove(path)
            return d["id"]
        if t.error not in ("", "deadlock"):
            t.fail("self-test")
    raise ToolError("self-test: an altered trace was accepted")


def model(prop, module, cfg, what, **kw):
    """Exhaustive model checking of a design specification."""
    t = TLC(module, cfg, tag="mc", **kw)
    if t.error:
        t.fail("the model %s (%s) is not correct: the specification is at fault" % (module, what))
    return {"model": module, "what": what, "states": t.distinct, "transitions": t.states}


def evidence(prop, level, coverage, assumptions, wall, violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
                   "level": level, "coverage": coverage, "assumptions": assumptions,
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


def generate(prop, p, runs, keys, ops, out, maxlen=14, at=None, part=1):
    """Behaviours of the specification, one per transition, as commands.

    With `at`, the elements are those of another precision: the behaviours of
    the small instance are replayed, scaled, in a bigger one.  With `part`,
    one behaviour in that many is kept."""
    if at and at != p:
        keep = out + ".at"
        generate(prop, at, runs, keys, ops, keep, 0)
        g = generate(prop, p, runs, keys, ops, out, maxlen, None, part)
        head = open(keep).readline()
        lines = open(out).readlines()
        with open(out, "w") as f:
            f.writelines([head] + lines[1:])
        os.remove(keep)
        g["what"] += ", scaled to precision %d" % at
        return g
    limit = 4 * 2 ** p // 5
    cfg = ("SPECIFICATION Spec\nCONSTANTS P = %d\n PPbits = 25\n RestBits = 39\n FlagShift = 7\n VarBits = 7\n"
           " RegBits = 6\n PerWord = 5\n Limit = %d\n PendFactor = 100\n Keys = {%s}\n MaxLen = %d\n"
           " Ops = %s\n Runs <- %s\nCONSTRAINT Short\nACTION_CONSTRAINT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (p, limit, ", ".join(map(str, keys)), maxlen, tla_val(set(ops)), runs))
    t = TLC("GenRuns", cfg, tag="gen-" + prop)
    if t.error:
        t.fail("generation failed")
    runs_line, paths = None, set()
    for l in t.out.splitlines():
        m = re.match(r'<<"(GEN|RUNS)", "(.*)">>$', l)
        if m:
            v = m.group(2).replace('\\"', '"')
            if m.group(1) == "RUNS":
                runs_line = v
            else:
                paths.add(v)
    if maxlen and (not paths or len(paths) < t.states // 2):
        raise ToolError("generation: %d behaviours from %d transitions" % (len(paths), t.states))
    paths = sorted(paths, key=lambda s: (len(s), s))[::part]
    with open(out, "w") as f:
        f.write(runs_line + "\n" + "".join(x + "\n" for x in paths))
    return {"model": "GenRuns", "what": "%s at precision %d" % (runs, p), "states": t.distinct,
            "transitions": t.states, "behaviours": len(paths)}


def symbolic(prop, module, invs, what):
    """Bounded symbolic checking of the laws in a module with Apalache."""
    d = os.path.join(BUILD, "apa-%s-%d" % (prop, os.getpid()))
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    e = env()
    e["JVM_ARGS"] = "-Xmx4g -Djava.io.tmpdir=" + d
    for i in invs:
        r = subprocess.run(["apalache-mc", "check", "--length=0", "--inv=" + i, "--out-dir=" + d,
                            os.path.join(SPEC, module + ".tla")], cwd=d, env=e, timeout=800,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "The outcome is: NoError" not in r.stdout or r.returncode != 0:
            raise ToolError("Apalache on %s!%s:\n%s" % (module, i, r.stdout[-2000:]))
    shutil.rmtree(d)
    return {"model": module, "what": what, "laws": list(invs), "checker": "Apalache"}


# ---------------------------------------------------------------------------
# The design models, with the constants they are checked for.

PLUS_SMALL = "P = 2\n PPbits = 4\n RestBits = 2\n FlagShift = 3\n VarBits = 3\n RegBits = 3\n PerWord = 3\n"


def proof(prop, module, what, wrong=None):
    """Theorems of a module, checked by TLAPS; wrong: (file, text, other text),
    with which they must not go through."""
    d = os.path.join(BUILD, "tlaps-%s-%s-%d" % (prop, module, os.getpid()))
    n = 0
    for bad in [None] + ([wrong] if wrong and THOROUGH else []):
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if bad:
            f = os.path.join(d, bad[0])
            text = open(f).read()
            assert bad[1] in text
            open(f, "w").write(text.replace(bad[1], bad[2]))
        r = subprocess.run(["tlapm", "--cache-dir", d, "--nofp", "--stretch", "1" if bad else "10", module + ".tla"], cwd=d,
                           timeout=800, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"All (\d+) obligations? proved", r.stdout)
        if bool(m) != (bad is None):
            raise ToolError("TLAPS on %s%s:\n%s" % (module, " (made wrong)" if bad else "", r.stdout[-2000:]))
        n = int(m.group(1)) if m else n
    shutil.rmtree(d)
    return {"model": module, "what": what, "obligations": n, "checker": "TLAPS",
            "wrong_variant_refused": THOROUGH and wrong is not None}


def mc_plus(prop, choice, limit, pend, keys, design=False):
    cfg = ("SPECIFICATION Spec\nCONSTANTS " + PLUS_SMALL + " Limit = %d\n PendFactor = %d\n Keys = {%s}\n"
           " HashChoices <- %s\nINVARIANTS Canonical RegistersOK ListOK AnswersOK MergeLaws %s\n"
           "PROPERTIES Refines Monotone %s\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (limit, pend, ", ".join(map(str, keys)), choice,
              "LenOK RegsJoinOK" if design else "", "RefinesAbs" if design else ""))
    return model(prop, "MCPlusA", cfg, "all histories, hashes %s, limit %d, pending factor %d, %d sketches%s"
                 % (choice, limit, pend, len(keys), ", against the proved design" if design else ""))


def mc_pf(prop, p, maxrank, keys):
    cfg = ("SPECIFICATION Spec\nCONSTANTS P = %d\n RegBits = 3\n PerWord = 3\n MaxRank = %d\n Keys = {%s}\n"
           "INVARIANTS Canonical RegistersOK MergeLaws\nPROPERTY Refines\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (p, maxrank, ", ".join(map(str, keys))))
    return model(prop, "MCPF", cfg, "all histories, p = %d, ranks to %d, %d sketches" % (p, maxrank, len(keys)))


def mc_weave(prop, top):
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Woven\nCONSTANTS " + PLUS_SMALL.replace("VarBits = 3", "VarBits = 2") +
           " Limit = 3\n PendFactor = 2\n Top = %d\n" % top)
    return model(prop, "MCWeave", cfg, "merging any entries into any list of numbers to %d" % top)


def codes(prop, p, crate=True):
    c = (25, 39, 7, "Crate") if crate else (10, 5, 4, "Whole")
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
           "INVARIANTS SameAnswer RankInRange FlagRight KeepsRest Decodes RoundTrip\n"
           "CONSTANTS P = %d\n PPbits = %d\n RestBits = %d\n FlagShift = %d\n VarBits = %d\n RegBits = 6\n"
           " PerWord = 5\n Limit = 10\n PendFactor = 1\n PrefixSet <- %s\n"
           % (p, c[0], c[1], c[2], c[2], c[3]))
    return model(prop, "CodesCheckA", cfg, "p = %d, %d prefix bits" % (p, c[0]))


def runs_check(prop, limit, n, steps, lens, starts):
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS SmallFormRight CellsRight MonotoneLen\n"
           "CONSTANTS P = 2\n PPbits = 6\n RestBits = 2\n FlagShift = 3\n VarBits = 3\n RegBits = 6\n PerWord = 5\n"
           " Limit = %d\n PendFactor = 1\n SmallPP = 6\n SmallBase = 8\n SmallLimit = %d\n NRuns = %d\n"
           " Steps = %s\n Lens = %s\n Starts = %s\n PP <- SmallPP\n Base <- SmallBase\n BytesLimit <- SmallLimitOf\n"
           % (limit, limit, n, tla_val(set(steps)), tla_val(set(lens)), tla_val(set(starts))))
    return model(prop, "RunsCheck", cfg, "sets of up to %d runs, limit %d" % (n, limit))


def mc_prec(prop):
    return model(prop, "MCPrec", "SPECIFICATION Spec\nINVARIANTS Untouched OnlyEqual\nPROPERTY Kept\n"
                 "VIEW View\nCHECK_DEADLOCK FALSE\n", "L0 with sketches of several kinds and precisions")


def mc_conc(prop, threads, hs):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n Hs = {%s}\n Discipline = %s\n"
           "INVARIANT Alone\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n")
    a = ", ".join(map(str, range(1, threads + 1))), ", ".join(map(str, range(1, hs + 1)))
    m = model(prop, "MCConc", cfg % (a + ("TRUE",)), "%d threads, %d hashes, walks interleaved" % (threads, hs))
    t = TLC("MCConc", (cfg % (a + ("FALSE",))).replace("INVARIANT Alone\n", ""), tag="mc")
    if t.error != "violation":
        t.fail("MCConc without its discipline should fail")
    return m
