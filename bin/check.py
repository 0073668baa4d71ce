#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree."""
import json, os, re, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *
from evl import check_evl

TABLES = os.path.join(SPEC, "tables.json")

HASHERS = "hashes are produced by test hashers that map values to chosen 64-bit hashes"
API = "observed through the public API only: estimates, results, saved sizes"


class Gen:
    """Behaviours generated from the specification, to be replayed."""

    def __init__(self, kind, p, runs, keys, ops, via="clone", at=None, thorough=False, maxlen=14, part=1):
        self.kind, self.p, self.runs, self.keys, self.ops = kind, p, runs, keys, ops
        self.via, self.at, self.thorough, self.maxlen, self.part = via, at or p, thorough, maxlen, part


def traces(prop, suites, checks, gens=(), models=(), deep=(), binary=None, assumptions=()):
    """Record the suites on the real code and validate them against Trace.tla.

    gens: behaviours of the specification replayed in the real code (and the
    recording validated); models, deep: design models checked exhaustively,
    deep ones in the thorough tier only."""
    binary = binary or build_harness()
    d = os.path.join(BUILD, "run-" + prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    consts = {"TablesFile": TABLES, "Checks": set(checks)}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "suites": {},
           "generated": [], "models": []}
    first = None

    def account(name, out, gen=None):
        s, t, n, sm = validate(prop, [out], consts=consts, tag=prop)
        cov["states"] += s
        cov["transitions"] += t
        cov["traces_validated_against_impl"] += n
        cov["samples"] += sm[:1]
        cov["suites"][name] = {"traces": n, "events": t}

    for suite, quick, thorough in suites:
        out = os.path.join(d, suite + ".ndjson")
        (record_fresh if suite.startswith("first-") else record)(
            prop, binary, suite, thorough if THOROUGH else quick, out)
        account(suite, out)
        if first is None:
            first = out
        elif os.path.exists(out):
            os.remove(out)
    for i, g in enumerate(gens):
        if g.thorough and not THOROUGH:
            continue
        paths = os.path.join(d, "gen%d.txt" % i)
        cov["generated"].append(generate(prop, g.p, g.runs, g.keys, g.ops, paths, g.maxlen, g.at, g.part))
        out = os.path.join(d, "gen%d.ndjson" % i)
        record(prop, binary, "gen-" + g.kind, 1, out,
               extra=["--in", paths, "--p", str(g.at), "--via", g.via])
        account("gen%d-%s-p%d-%s" % (i, g.kind, g.at, g.runs), out)
        os.remove(out)
    for f in list(models) + (list(deep) if THOROUGH else []):
        m = f(prop)
        cov["models"].append(m)
        cov["states"] += m.get("states", 0)
        cov["transitions"] += m.get("transitions", 0)
    if "size" in checks:
        cov["selftest_rejected"] = selftest(prop, [first], consts=consts, op="siz",
                                            change=lambda e: e.update(n=e["n"] + 10 ** 6))
    elif "mem" in checks:
        cov["selftest_rejected"] = selftest(prop, [first], consts=consts, op="mem",
                                            change=lambda e: e.update(n=e["n"] + 2 * 10 ** 8))
    elif "sane" in checks:
        cov["selftest_rejected"] = selftest(prop, [first], consts=consts, change=lambda e: e.update(e=[0, 0]))
    else:
        cov["selftest_rejected"] = selftest(prop, [first], consts=consts)
    shutil.rmtree(d)
    return cov, [HASHERS, API] + list(assumptions)


def M(f, *a):
    return lambda prop: f(prop, *a)


CNT, MRG, ALL = ["cnt"], ["cnt", "mrg"], ["cnt", "mrg", "cpy"]
SYM = M(symbolic, "CodesSym", ["Recovers", "Distinct", "Subadditive"],
        "codes and encoded lengths, all precisions, prefixes and rests symbolically")
SUB = M(symbolic, "CodesSym", ["Subadditive"], "splitting a difference never shortens the list, all 32-bit numbers")
REGS6 = M(symbolic, "RegsSym", ["Writes6", "Sum6"], "packed registers of six bits, every word, slot and value symbolically")
REGS5 = M(symbolic, "RegsSym", ["Writes5"], "packed registers of five bits, every word, slot and value symbolically")
DESIGN = M(proof, "HLLAbsProof", "what a sketch answers is a function of what it has seen: any parameters, number of "
           "sketches, elements and steps",
           ("HLLAbs.tla", "Large(Join(s.regs, Regs(o.list \\cup o.pend)))", "Large(Join(s.regs, Regs(o.list)))"))
MAXIMA = M(proof, "RegsProof", "registers are a function of the set, joining them unites the sets: any number of buckets, "
           "elements, ranks",
           ("RegsProof.tla", "IF q[b] > r[b] THEN q[b] ELSE r[b]]", "IF q[b] > r[b] THEN r[b] ELSE q[b]]"))
MERGED = M(proof, "WeaveProof", "merging entries into a list of differences keeps it increasing and unites the two: lists of "
           "any length, any numbers",
           ("WeaveProof.tla", "X[i] > head /\\ Write(head) /\\ NextY /\\ UNCHANGED i", "X[i] > head /\\ Write(X[i]) /\\ NextX /\\ UNCHANGED <<j, head>>"))
BYTES = M(proof, "CodecProof", "reading the bytes of the list gives the numbers that were written: any numbers, any number of them",
          ("CodecProof.tla", "mul' = mul * 128", "mul' = mul * 64"))
RUNS2 = M(runs_check, 8, 2, [1, 3, 16], [1, 3, 5], list(range(0, 64, 3)) + [1, 16, 17, 47])
RUNS3 = M(runs_check, 5, 3, [1, 3, 16], [1, 3], [0, 1, 3, 15, 16, 17, 20, 40, 62])
RUNSX = M(runs_check, 8, 2, [1, 2, 3, 16], [1, 2, 3, 5], list(range(64)))

# name, harness features, release profile (no overflow checks)
CONFIGS = [("std", ("std",), False),
           ("std-rel", ("std",), True),
           ("cl", ("std", "const-loop"), False),
           ("std-alloc", ("std", "alloc"), False),
           ("all-rel", ("std", "alloc", "const-loop"), True),
           ("alloc", ("alloc",), False),
           ("alloc-cl", ("alloc", "const-loop"), False),
           ("alloc-rel", ("alloc",), True)]


def merge_worlds(parts, out, names=None):
    """One scenario per script, with the sketches of every build in it."""
    by = {}
    for i, (name, path) in enumerate(parts):
        i = names.index(name) if names else i
        with open(path) as f:
            for line in f:
                t = json.loads(line)
                w = by.setdefault(t["id"], {"id": t["id"], "atoms": [], "ev": [], "index": {}})
                ids = []
                for a in t["atoms"]:
                    key = json.dumps(a, sort_keys=True)
                    if key not in w["index"]:
                        w["atoms"].append(a)
                        w["index"][key] = len(w["atoms"])
                    ids.append(w["index"][key])
                for e in t["ev"]:
                    for k in ("k", "a", "b"):
                        if k in e:
                            e[k] += 1000000 * i
                    if "x" in e:
                        e["x"] = [ids[j - 1] for j in e["x"]]
                    e["build"] = name
                    w["ev"].append(e)
    with open(out, "w") as f:
        for k in sorted(by):
            del by[k]["index"]
            f.write(json.dumps(by[k]) + "\n")


# name, harness features: builds for a platform with 32-bit addresses
CONFIGS32 = [("w32", ("std",)), ("w32-cl", ("std", "const-loop")), ("w32-alloc", ("alloc",))]


def make(prop, natives, wasms=()):
    """The builds of the harness: (name, features, binary).  That a build is
    not possible is a violation."""
    from concurrent.futures import ThreadPoolExecutor
    def one(c):
        try:
            return build_harness(*c), None
        except BuildError as e:
            return None, e
    def other(cs):
        r = []
        for c in cs:
            try:
                r.append((build_wasm(*c), None))
            except BuildError as e:
                r.append((None, e))
        return r
    with ThreadPoolExecutor(5) as ex:
        w = ex.submit(other, wasms)
        res = list(ex.map(one, natives)) + w.result()
    if res[0][1]:
        raise res[0][1]
    out = []
    for c, (b, e) in zip(list(natives) + list(wasms), res):
        if e and re.search(r"could not compile `(hyperloglogplus|hllh)", e.out) and "signal: 9" not in e.out:
            path = replay(prop, {"property": prop, "build": c[0], "features": c[1], "output": e.out[-6000:]})
            raise Violation("the library does not build in configuration %s (features %s)" % c[:2], path)
        if e:
            raise e
        out.append((c[0], c[1], b))
    return out


def builds(prop, made, plus, pf, checks, assumptions):
    """C15, C22: the same scripts in several builds, one world."""
    d = os.path.join(BUILD, "run-" + prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    consts = {"TablesFile": TABLES, "Checks": set(checks)}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "suites": {},
           "builds": [c[0] for c in made]}
    first = None
    for suite, quick, thorough in plus + pf:
        parts = []
        for name, feats, binary in made:
            if "std" not in feats and (suite, quick, thorough) in plus:
                continue
            out = os.path.join(d, "%s.%s.ndjson" % (suite, name))
            record(prop, binary, suite, thorough if THOROUGH else quick, out)
            parts.append((name, out))
        world = os.path.join(d, suite + ".ndjson")
        merge_worlds(parts, world)
        for _, f in parts:
            os.remove(f)
        s, t, n, sm = validate(prop, [world], consts=consts, tag=prop)
        cov["states"] += s
        cov["transitions"] += t
        cov["traces_validated_against_impl"] += n
        cov["samples"] += sm[:1]
        cov["suites"][suite] = {"traces": n, "events": t, "builds": [p[0] for p in parts]}
        first = first or world
    cov["selftest_rejected"] = selftest(prop, [first], consts=consts)
    shutil.rmtree(d)
    return cov, [HASHERS, API] + assumptions


def portable(prop, made, suites):
    """C23: what one build saves the others reload."""
    d = os.path.join(BUILD, "run-" + prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    consts = {"TablesFile": TABLES, "Checks": {"memo", "fine"}}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "suites": {},
           "builds": [c[0] for c in made]}
    first = None
    for suite, quick, thorough in suites:
        n = thorough if THOROUGH else quick
        parts, saved = [], []       # saved: scenario, j, number among all, format, data
        users = [c for c in made if "std" in c[1] or suite == "port-pf"]
        for i, (name, feats, binary) in enumerate(users):
            out = os.path.join(d, "%s.%s.ndjson" % (suite, name))
            record(prop, binary, suite, n, out)
            with open(out) as f:
                ls = [json.loads(l) for l in f]
            for t in ls:
                # what is saved is a copy that stays as it is
                for e in t["ev"]:
                    if e["op"] == "save":
                        b = 900000 + e["j"]
                        saved.append((t["id"], e["j"], b + 1000000 * i, e["fmt"], e["data"]))
                        a = e["k"]
                        e.clear()
                        e.update(op="cpy", a=a, b=b, r="ok", via="save")
            with open(out, "w") as f:
                f.writelines(json.dumps(t) + "\n" for t in ls)
            parts.append((name, out))
        for i, (name, feats, binary) in enumerate(users):
            text = os.path.join(d, "saved")
            with open(text, "w") as f:
                f.writelines("%s %d %d %d %s\n" % (t, j, k - 1000000 * i, fmt, data) for t, j, k, fmt, data in saved)
            out = os.path.join(d, "%s.%s.2.ndjson" % (suite, name))
            record(prop, binary, suite, n, out, extra=["--in", text])
            parts.append((name, out))
        world = os.path.join(d, suite + ".ndjson")
        merge_worlds(parts, world, [c[0] for c in users])
        for _, f in parts:
            os.remove(f)
        s, t, n, sm = validate(prop, [world], consts=consts, tag=prop)
        cov["states"] += s
        cov["transitions"] += t
        cov["traces_validated_against_impl"] += n
        cov["samples"] += sm[:1]
        cov["suites"][suite] = {"traces": n, "events": t, "builds": [c[0] for c in users], "sketches_moved": len(saved) * len(users)}
        first = first or world
    cov["selftest_rejected"] = selftest(prop, [first], consts=consts)
    shutil.rmtree(d)
    return cov, [HASHERS, API, "a WebAssembly machine stands for the platforms with 32-bit addresses"]


def concurrent(prop):
    """C20: the threaded suites need sketches that threads can share."""
    build_harness()
    try:
        binary = build_harness("threads", ("std", "threads"))
    except BuildError as e:
        if "cannot be shared between threads" in e.out or "cannot be sent between threads" in e.out:
            path = replay(prop, {"property": prop, "output": e.out[-6000:]})
            raise Violation("a sketch cannot be used from several threads any more (it is not Send and Sync)", path)
        raise
    return traces(prop, [("conc-plus", 3, 30), ("conc-pf", 3, 30), ("first-plus", 240, 2400), ("first-pf", 240, 2400),
                         ("hot-plus", 4, 60), ("hot-pf", 2, 30),
                         ("hot-rounds-plus", 4, 40), ("hot-rounds-pf", 4, 40)],
                  ["memo"], binary=binary,
                  models=[M(mc_conc, 2, 3), M(mc_conc, 3, 2)], deep=[M(mc_conc, 3, 3)])


def accuracy(prop, quick, thorough):
    """C19: sums of relative errors, judged by TraceAccuracy."""
    d = os.path.join(BUILD, "run-" + prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    raw, world = os.path.join(d, "acc.raw"), os.path.join(d, "acc.ndjson")
    record(prop, build_harness(), "acc", thorough if THOROUGH else quick, raw)
    by = {}
    with open(raw) as f:
        for line in f:
            t = json.loads(line)
            by.setdefault(t["id"].rsplit("-", 1)[0], []).extend(t["ev"])
    runs = cells = 0
    with open(world, "w") as f:
        for i in sorted(by):
            evs = sorted(by[i], key=lambda e: (e["n"], json.dumps(e)))
            runs += sum(e["runs"] for e in evs)
            heads = {e["n"]: e for e in evs}
            cells += len(heads)
            evs += [{"op": "judge", "kind": heads[n]["kind"], "p": heads[n]["p"], "n": n} for n in sorted(heads)]
            f.write(json.dumps({"id": i, "atoms": [], "ev": evs}) + "\n")
    consts = {"TablesFile": TABLES}
    s, t, n, sm = validate(prop, [world], module="TraceAccuracy", consts=consts, tag=prop)

    def worse(e):
        e.update(sum=tweak(e["sum"], 1.0, 0.5 * e["runs"]))
    cov = {"states": s, "transitions": t, "traces_validated_against_impl": n, "samples": sm,
           "evaluations": runs, "distinct_nontrivial": cells,
           "rule": "an evaluation is one estimate of one sketch of pseudo-random hashes; non-trivial are the distinct "
                   "combinations of kind, precision and cardinality judged",
           "selftest_rejected": selftest(prop, [world], module="TraceAccuracy", consts=consts, op="acc", change=worse,
                                         late=True)}
    shutil.rmtree(d)
    return cov, [HASHERS, API, "the recorder adds up the errors; pseudo-random hashes stand for uniform ones"]


PLAN = {
    "C01": lambda: traces("C01", [("hist-plus", 8, 120), ("mixed-plus", 6, 90), ("long-plus", 4, 24)], ["memo"],
        gens=[Gen("plus", 7, "Tiny", [1], CNT), Gen("plus", 9, "Tiny", [1], CNT), Gen("plus", 7, "Small5", [1], CNT),
              Gen("plus", 9, "Small5", [1], CNT, thorough=True), Gen("plus", 7, "Small5", [1], CNT, at=14, thorough=True)],
        models=[DESIGN, REGS6, M(mc_plus, "MCAll2", 3, 2, [1], True)],
        deep=[M(mc_plus, "MCAll3", 3, 2, [1]), M(mc_plus, "MCAll3", 4, 1, [1]), M(mc_plus, "MC6", 4, 2, [1])]),
    "C02": lambda: traces("C02", [("merge-plus", 12, 120), ("long-plus", 2, 12)], ["memo"],
        gens=[Gen("plus", 7, "Small3", [1, 2], MRG),
              Gen("plus", 7, "Small4", [1, 2], MRG, thorough=True),
              Gen("plus", 7, "Small3", [1, 2], MRG, at=12, thorough=True),
              Gen("plus", 9, "Small3", [1, 2], MRG, thorough=True)],
        models=[DESIGN, M(mc_plus, "MC4", 3, 2, [1, 2]), M(mc_plus, "MC3", 2, 1, [1, 2], True)],
        deep=[M(mc_plus, "MC4", 2, 1, [1, 2], True), M(mc_plus, "MC4", 3, 2, [1, 2], True), M(mc_plus, "MC5", 4, 2, [1, 2]), M(mc_plus, "MC5", 4, 1, [1, 2]), M(mc_plus, "MC3", 3, 2, [1, 2, 3]),
              M(mc_plus, "MCAll2", 3, 2, [1, 2])]),
    "C03": lambda: traces("C03", [("hist-pf", 12, 200), ("mixed-pf", 6, 90), ("long-pf", 4, 24)], ["memo"],
        gens=[Gen("pf", 7, "Tiny", [1], []), Gen("pf", 7, "Small5", [1], CNT),
              Gen("pf", 7, "Small5", [1], CNT, at=13, thorough=True)],
        models=[MAXIMA, REGS5, M(mc_pf, 1, 3, [1, 2])], deep=[M(mc_pf, 2, 2, [1, 2])]),
    "C04": lambda: traces("C04", [("merge-pf", 16, 240), ("long-pf", 2, 12)], ["memo"],
        gens=[Gen("pf", 7, "Small3", [1, 2], ["mrg"]), Gen("pf", 7, "Small4", [1, 2], ["mrg"], thorough=True),
              Gen("pf", 7, "Small3", [1, 2], MRG, at=12, thorough=True)],
        models=[MAXIMA, M(mc_pf, 1, 2, [1, 2, 3])], deep=[REGS5, M(mc_pf, 2, 2, [1, 2])]),
    "C05": lambda: traces("C05", [("prec", 1, 1)], ["memo"], models=[M(mc_prec)]),
    "C06": lambda: traces("C06", [("save-plus", 10, 120), ("save-pf", 10, 120), ("long-plus", 2, 12), ("long-pf", 2, 12)], ["memo"],
        gens=[Gen("plus", 7, "Small3", [1, 2], ALL, via="reload"),
              Gen("pf", 7, "Small3", [1, 2], ["mrg", "cpy"], via="reload", thorough=True),
              Gen("plus", 7, "Small4", [1, 2], ALL, via="reload", thorough=True)],
        models=[M(mc_plus, "MC4", 2, 1, [1, 2])], deep=[M(mc_plus, "MC5", 4, 2, [1, 2])]),
    "C07": lambda: traces("C07", [("clone-plus", 10, 120), ("clone-pf", 10, 120), ("long-plus", 2, 12), ("long-pf", 2, 12)], ["memo"],
        gens=[Gen("plus", 7, "Small3", [1, 2], ALL, via="clone"),
              Gen("pf", 7, "Small3", [1, 2], ["mrg", "cpy"], via="clone", thorough=True),
              Gen("plus", 7, "Small4", [1, 2], ALL, via="clone", thorough=True)],
        models=[M(mc_plus, "MC4", 2, 1, [1, 2])], deep=[M(mc_plus, "MC3", 3, 2, [1, 2, 3])]),
    "C08": lambda: traces("C08", [("ranks-plus", 4, 40)], ["est"],
        models=[M(codes, p) for p in (4, 11, 18)] + [M(codes, 3, False)],
        deep=[M(codes, p) for p in (5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17)]),
    "C09": lambda: traces("C09", [("ranks-pf", 8, 80)], ["est"],
        models=[M(mc_pf, 2, 1, [1, 2])], deep=[M(mc_pf, 2, 2, [1, 2])]),
    "C10": lambda: traces("C10", [("limits", 10, 120)], ["est"],
        models=[SUB, RUNS2], deep=[RUNS3, RUNSX, M(mc_plus, "MCAll3", 3, 2, [1])]),
    "C11": lambda: traces("C11", [("bias", 2, 16), ("mixed-plus", 6, 60)], ["est"], models=[RUNS3]),
    "C12": lambda: traces("C12", [("ranges", 3, 40), ("mixed-pf", 6, 60)], ["est"]),
    "C13": lambda: traces("C13", [("extreme-plus", 6, 60), ("extreme-pf", 10, 100), ("longest", 32, 33)], ["sane"]),
    "C14": lambda: traces("C14", [("api", 3, 40)], ["memo"]),
    "C15": lambda: builds("C15", make("C15", CONFIGS), checks=["memo", "fine"],
        assumptions=["builds for this machine only (x86-64)"],
        plus=[("hist-plus", 2, 12), ("bias", 1, 2), ("limits", 2, 12), ("extreme-plus", 2, 10), ("save-plus", 1, 12)],
        pf=[("hist-pf", 3, 24), ("ranges", 2, 12), ("ranks-pf", 2, 12), ("extreme-pf", 3, 20), ("merge-pf", 3, 24)]),
    "C22": lambda: builds("C22", make("C22", CONFIGS[:1], CONFIGS32), checks=["memo", "fine"],
        assumptions=["a WebAssembly machine stands for the platforms with 32-bit addresses"],
        plus=[("hist-plus", 2, 12), ("merge-plus", 1, 12), ("bias", 1, 2), ("limits", 1, 12), ("ranks-plus", 1, 6),
              ("extreme-plus", 2, 10), ("save-plus", 1, 12), ("codec", 1, 12)],
        pf=[("hist-pf", 2, 24), ("ranges", 2, 12), ("ranks-pf", 2, 12), ("extreme-pf", 3, 20), ("merge-pf", 2, 24)]),
    "C23": lambda: portable("C23", make("C23", [CONFIGS[i] for i in (0, 1, 2, 5)], CONFIGS32[:1] + CONFIGS32[2:]),
        [("port-plus", 3, 20), ("port-pf", 3, 20)]),
    "C16": lambda: traces("C16", [("sizes-plus", 6, 60), ("sizes-pf", 6, 60), ("long-plus", 2, 12), ("long-pf", 2, 12)], ["size"],
        models=[M(mc_plus, "MC4", 3, 2, [1, 2])], deep=[M(mc_plus, "MC5", 4, 1, [1, 2])]),
    "C21": lambda: traces("C21", [("memory-plus", 5, 50), ("memory-pf", 4, 40), ("sizes-plus", 3, 30), ("long-plus", 2, 12), ("long-pf", 2, 12)], ["mem"],
        models=[M(mc_plus, "MC4", 3, 2, [1, 2])], deep=[M(mc_plus, "MC5", 4, 1, [1, 2])]),
    "C20": lambda: concurrent("C20"),
    "C24": lambda: traces("C24", [("faults-plus", 10, 120), ("faults-pf", 10, 120)], ["memo"],
        models=[M(mc_plus, "MC4", 2, 1, [1, 2]), M(mc_pf, 1, 2, [1, 2])]),
    "C17": lambda: traces("C17", [("codec", 8, 100)], ["est"],
        models=[SYM, MERGED, BYTES, M(mc_weave, 6), M(codes, 9)], deep=[M(codes, p) for p in (4, 6, 12, 15, 18)] + [M(codes, 3, False), RUNSX, M(mc_weave, 8)]),
    "C18": lambda: check_evl("C18"),
    "C19": lambda: accuracy("C19", 6, 60),
}


with open(os.path.join(VERIF, "bin", "notes.json")) as _f:
    LEVEL = {k: v["level"] for k, v in json.load(_f).items()}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        cov, assumptions = PLAN[prop]()
    except Violation as v:
        evidence(prop, LEVEL[prop], {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                     "evaluations": 0, "distinct_nontrivial": 0, "rule": "stopped at a violation",
                                     "samples": [v.what[:500]]}, [], time.time() - t0, 1)
        print(v.what[:800])
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except ToolError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    evidence(prop, LEVEL[prop], cov, assumptions, time.time() - t0)
    print("OK property=%s traces=%d states=%d wall=%.1fs" %
          (prop, cov.get("traces_validated_against_impl", 0), cov.get("states", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
