"""C18: runs the evaluation program and records what it writes."""
import json, os, random, re, shutil, subprocess
from vlib import *


def build_evl():
    """Builds /repo/evaluation, with its output kept out of /repo."""
    target = os.path.join(BUILD, "t-evl")
    with alone(target):
        return _build_evl(target)


def _build_evl(target):
    refresh(target, tree_hash("src", "Cargo.toml", "evaluation"), ("hyperloglogplus", "evl"))
    lock = os.path.join(REPO, "evaluation", "Cargo.lock")
    mine = os.path.join(VERIF, "harness", "evl.lock")
    made = False
    if not os.path.exists(lock):
        shutil.copy(mine, lock)      # git-ignored there
        made = True
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    try:
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "evl", "--manifest-path",
                            os.path.join(REPO, "evaluation", "Cargo.toml")],
                           cwd=BUILD, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        if made and os.path.exists(lock):
            os.remove(lock)
    if r.returncode != 0:
        raise BuildError("evl", r.stdout)
    return os.path.join(target, "debug", "evl")


def run(exe, args, cwd):
    """Runs the program; a run that fails or does not end leaves no output."""
    try:
        r = subprocess.run([exe] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=240)
        return r.returncode, r.stdout[-400:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


LINE = re.compile(r"^(0|[1-9][0-9]*) (0|[1-9][0-9]*)$")


def read_lines(path):
    """Lines "n v" as records; what is no such line is marked bad."""
    if not os.path.exists(path):
        return [{"n": "nofile", "v": "bad"}]
    text = open(path, errors="replace").read()
    rows = text.split("\n")
    if rows and rows[-1] == "":
        rows.pop()
    out = []
    for r in rows:
        m = LINE.match(r)
        out.append({"n": m.group(1), "v": m.group(2)} if m else {"n": r[:40], "v": "bad"})
    return out


def limbs(s):
    if not re.match(r"^(0|[1-9][0-9]*)$", s) or int(s) >> 64:
        return []
    v = int(s)
    return [(v >> 48) & 65535, (v >> 32) & 65535, (v >> 16) & 65535, v & 65535]


def clean(s):
    return "".join(c for c in s if c.isprintable() and c not in '"\\')[:300]


def fresh(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def scenarios(prop, exe, harness, d, n, rng, seed):
    """All scenarios, as trace lines."""
    out = []
    inp = fresh(os.path.join(d, "in"))
    lib = os.path.join(d, "lib.ndjson")
    record(prop, harness, "evl", n, lib, extra=["--dir", inp], seed=seed)
    groups = {}
    with open(lib) as f:
        for l in f:
            t = json.loads(l)
            kind, p, _ = t["id"].split("-")
            groups.setdefault((kind, int(p[1:])), []).append(t)
    # names as users give them; two differ in their last part only
    base = {}
    for ts in groups.values():
        for i, t in enumerate(ts):
            base[t["id"]] = ("same.dat", "same.txt", t["id"], t["id"] + ".v2.dat", "with space " + t["id"] + ".dat",
                             ".hidden-" + t["id"], t["id"] + ".dat", t["id"] + "\u00e9.dat")[i % 8] if i < 8 else t["id"] + ".dat"
    for gi, ((kind, p), ts) in enumerate(sorted(groups.items())):
        # all files of one kind and precision in one run, and once singly
        plans = [(ts, str(rng.choice([1, 2, 4, 8])))] + [([rng.choice(ts)], None)]
        for t in ts:
            os.rename(os.path.join(inp, t["id"] + ".dat"), os.path.join(inp, base[t["id"]]))
        for pi, (sel, jobs) in enumerate(plans):
            o = fresh(os.path.join(d, "out"))
            sel = sel[:]
            rng.shuffle(sel)
            # results of an earlier run are there already, and are replaced
            for t in sel[1::3]:
                with open(os.path.join(o, "est-p%d-%s" % (p, base[t["id"]])), "w") as f:
                    f.write("1 1\n" * 3000)
            args = (["-j", jobs] if jobs else []) + ["run", "-t", kind, "-m", "hashes", "-p", str(p)]
            if pi:
                # as seen from where the inputs are
                args += ["-i"] + [os.path.join(".", base[t["id"]]) for t in sel] + ["-o", "../out"]
            elif p % 2:
                args += ["-o", o + "/"] + [x for t in sel for x in ("--input", os.path.join(inp, base[t["id"]]))]
            else:
                args += ["-o", o, "-i"] + [os.path.join(inp, base[t["id"]]) for t in sel]
            rc, msg = run(exe, args, inp if pi else d)
            bases = [base[t["id"]] for t in sel]
            ev = [{"op": "names", "what": "hashes", "p": p, "bases": bases, "got": sorted(os.listdir(o))}]
            if rc != 0:
                ev.insert(0, {"op": "failed", "rc": rc, "msg": clean(msg)})
            out.append({"id": "dir-%s-p%d-%d" % (kind, p, pi), "atoms": [], "ev": ev})
            for t in sel:
                rows = read_lines(os.path.join(o, "est-p%d-%s" % (p, base[t["id"]])))
                ev = []
                for e in t["ev"]:
                    ev.append(e)
                    if e["op"] == "cnt" and rows:
                        ev.append(dict(rows.pop(0), op="line"))
                ev += [dict(r, op="line") for r in rows] + [{"op": "eof"}]
                out.append({"id": "%s-%d" % (t["id"], pi), "atoms": t["atoms"], "ev": ev})
            shutil.rmtree(o)
        for t in ts:
            os.remove(os.path.join(inp, base[t["id"]]))
    # generation
    for size in ("32", "64"):
        for count, runs, jobs in [(80, 3, "2"), (0, 2, "1"), (1, 1, None), (500, 12, "4")]:
            o = fresh(os.path.join(d, "out"))
            args = (["--jobs", jobs] if jobs else []) + ["gen", "--size", size, "--count", str(count),
                                                        "--runs", str(runs), "--output", o]
            rc, msg = run(exe, args, d)
            names = sorted(os.listdir(o))
            ev = [{"op": "names", "what": "gen", "size": size, "runs": runs, "got": names}]
            if rc != 0:
                ev.insert(0, {"op": "failed", "rc": rc, "msg": clean(msg)})
            for nm in names:
                rows = open(os.path.join(o, nm), errors="replace").read().split("\n")
                tail = rows.pop()
                ev.append({"op": "gen", "size": size, "count": count,
                           "x": [limbs(r) for r in rows] + ([[]] if tail else [])})
            out.append({"id": "gen-%s-%d-%d" % (size, count, runs), "atoms": [], "ev": ev})
            shutil.rmtree(o)
    # cardinalities
    for kind, size in (("hllp", "64"), ("hll", "32")):
        for p in (8, 12, 14) if kind == "hll" else (8, 12, 14, 18):
            for cards, runs, jobs in [([0, 1, 2, 5, 5, 17, 40, 100, 163, 400, 1000, 2000, 5000], 3, "2"),
                                      ([7], 5, "4"), ([], 1, "1"), ([3, 10, 30000, 30001], 2, None),
                                      ([2000, 10, 2000, 0, 1999, 2500, 2500], 2, "2"),
                                      ([1, 2, 50], 24, None), ([2, 900], 40, "3")]:
                o = fresh(os.path.join(d, "out"))
                cf = os.path.join(d, "cards.dat")
                with open(cf, "w") as f:
                    f.write("\n".join("%d" % c for c in cards) + ("\n" if cards and runs != 3 else ""))
                args = (["-j", jobs] if jobs else []) + ["run", "--type", kind, "--mode", "cardinalities",
                        "--precision", str(p), "--cardinalities", cf, "--runs", str(runs), "--output", o]
                rc, msg = run(exe, args, d)
                names = sorted(os.listdir(o))
                ev = [{"op": "names", "what": "cards", "p": p, "size": size, "runs": runs, "got": names}]
                if rc != 0:
                    ev.insert(0, {"op": "failed", "rc": rc, "msg": clean(msg)})
                for nm in names:
                    ev.append({"op": "card", "type": kind, "p": p, "cards": cards,
                               "got": read_lines(os.path.join(o, nm))})
                out.append({"id": "cards-%s-p%d-%d" % (kind, p, len(cards)), "atoms": [], "ev": ev})
                shutil.rmtree(o)
    return out


def check_evl(prop):
    exe, harness = build_evl(), build_harness()
    d = fresh(os.path.join(BUILD, "run-" + prop))
    rng = random.Random(SEED)
    f = os.path.join(d, "all.ndjson")
    rounds = 6 if THOROUGH else 1
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    consts = {"TablesFile": os.path.join(SPEC, "tables.json"), "Checks": set()}
    for r in range(rounds):
        ts = scenarios(prop, exe, harness, d, 24 if THOROUGH else 8, rng, SEED + 1000 * r)
        with open(f, "w") as fh:
            for t in ts:
                fh.write(json.dumps(t) + "\n")
        s, tr, n, sm = validate(prop, [f], module="TraceEvl", consts=consts, tag=prop, init="EInit", next_="ENext")
        cov["states"] += s
        cov["transitions"] += tr
        cov["traces_validated_against_impl"] += n
        cov["samples"] = (cov["samples"] + sm)[:3]
    def off(e):
        e["v"] = str(int(e["v"]) + 1)
    cov["selftest_rejected"] = selftest(prop, [f], module="TraceEvl", consts=consts, op="line", change=off,
                                        init="EInit", next_="ENext")
    shutil.rmtree(d)
    return cov, ["the generator's random source is uniform", "the tool runs on the file system of a scratch directory"]
