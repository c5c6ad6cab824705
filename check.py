#!/usr/bin/env python3
"""Run the monitor of one property against /repo's current working tree.

usage: check.py ID [--thorough] [--threads N] [--replay FILE]

Builds the monitor twice (plain release; release with overflow checks and debug
assertions), runs both, merges what they observed into evidence/ID.json.
Exit 0: held on everything observed. Exit 1: VIOLATION line(s) printed.
Exit 2: inconclusive (build failure, harness error, coverage gate not met, timeout).
"""
import json, os, re, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
KNOWN = os.path.join(ROOT, "known-findings.txt")
BUILDS = {"release": "rel", "checked": "chk"}


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="--cap-lints=warn", CARGO_TERM_COLOR="never")
    e.setdefault("RUSTUP_TOOLCHAIN", "1.98.1")
    return e


def build(kind, binname, res):
    tgt = os.path.join(ROOT, "target", BUILDS[kind])
    prof = "release" if kind == "release" else "checked"
    p = subprocess.run(
        ["cargo", "build", "--offline", "--profile", prof, "--bin", binname, "--target-dir", tgt],
        cwd=os.path.join(ROOT, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res[kind] = (p.returncode, p.stdout, os.path.join(tgt, prof, binname))


CRASHES = {4, 6, 7, 8, 11}  # ILL, ABRT, BUS, FPE, SEGV


def crashed(pid, kind, exe, seed, tier, work, rep, code, only):
    """Rerun the chunks that were under way, alone and traced; report the call that ends the process."""
    if only is not None:
        chunks = [only]
    else:
        b = open(os.path.join(work, kind + ".progress"), "rb").read()
        vals = [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b), 8)]
        chunks = [(v - 2) % 2**64 for v in vals if v]
    for ch in chunks:
        tr = os.path.join(work, kind + ".trace")
        with open(os.path.join(work, kind + ".crash"), "w") as out:
            p = subprocess.Popen([exe, "--seed", str(seed), "--thorough" if tier == "thorough" else "--quick", "--threads", "1",
                                  "--out", rep, "--known", KNOWN, "--trace", tr, "--chunk", str(ch)],
                                 stdout=out, stderr=subprocess.STDOUT, cwd=ROOT)
            try:
                rc = p.wait(timeout=120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                continue
        if rc >= 0 or -rc not in CRASHES:
            continue
        b = open(tr, "rb").read()
        s = b[8:8 + int.from_bytes(b[:4], "little")].decode("utf-8", "replace")
        desc, has, text = (s.split("\n", 2) + ["", "", ""])[:3]
        path = os.path.join(rep, "%s-%s-s%d-c%d-crash.json" % (pid, kind, seed, ch))
        what = "the process is ended by signal %d during this call: %s" % (-rc, open(os.path.join(work, kind + ".crash")).read()[-300:].strip())
        with open(path, "w") as f:
            json.dump({"property": pid, "build": kind, "seed": seed, "tier": tier, "chunk": ch, "case": desc,
                       "text": text if has == "1" else None, "observed": what}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s build, seed %d, chunk %d]: %s" % ((desc + (" " + repr(text) if has == "1" else ""))[:600], kind, seed, ch, what))
        return True
    return False


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    threads, replay = None, None
    while a:
        x = a.pop(0)
        if x == "--thorough":
            tier = "thorough"
        elif x == "--threads":
            threads = int(a.pop(0))
        elif x == "--replay":
            replay = a.pop(0)
        else:
            sys.exit("unknown argument " + x)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    binname = pid.lower()
    kinds = ["release", "checked"]
    if replay:
        r = json.load(open(replay))
        kinds, seed, tier = [r["build"]], r["seed"], r["tier"]
    res = {}
    ths = [threading.Thread(target=build, args=(k, binname, res)) for k in kinds]
    machines = {}
    if pid == "E03":
        import port
        ths.append(threading.Thread(target=lambda: machines.update(port.build())))
    [t.start() for t in ths]
    [t.join() for t in ths]
    for t, why in machines.items():
        print("INCONCLUSIVE property=%s: no machine %s: %s" % (pid, t, why))
        sys.exit(2)
    for k in kinds:
        if res[k][0] != 0:
            print("INCONCLUSIVE property=%s: the %s build failed" % (pid, k))
            print(res[k][1][-3000:])
            sys.exit(2)
    tb = time.time() - t0
    rep = os.path.join(ROOT, "replays")
    work = os.path.join(ROOT, "target", "work-" + pid)
    os.makedirs(rep, exist_ok=True)
    os.makedirs(work, exist_ok=True)
    cores = os.cpu_count() or 4
    n = threads or max(2, cores // len(kinds))
    limit = 840 - tb if tier == "quick" else 4 * 3600
    procs = {}
    for k in kinds:
        part, bm = os.path.join(work, k + ".json"), os.path.join(work, k + ".bits")
        for f in (part, bm):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [res[k][2], "--seed", str(seed), "--thorough" if tier == "thorough" else "--quick", "--threads", str(n),
               "--out", rep, "--part", part, "--bitmap", bm, "--known", KNOWN, "--progress", os.path.join(work, k + ".progress")]
        if tier == "quick":
            cmd += ["--cap", "600"]
        if replay:
            cmd += ["--chunk", str(r["chunk"])]
        out = open(os.path.join(work, k + ".out"), "w+")
        procs[k] = (subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=ROOT), out, part, bm)
    codes = {}
    for k, (p, out, part, bm) in procs.items():
        try:
            codes[k] = p.wait(timeout=max(1, t0 + tb + limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            codes[k] = "timeout"
        out.seek(0)
        sys.stdout.write(out.read())
        out.close()
    for k, c in list(codes.items()):
        # ended by a signal (stack overflow, abort, illegal access): find the call
        if isinstance(c, int) and c < 0 and -c in CRASHES:
            if crashed(pid, k, res[k][2], seed, tier, work, rep, c, r["chunk"] if replay else None):
                codes[k] = 1
    parts = {k: json.load(open(procs[k][2])) for k in kinds if os.path.exists(procs[k][2])}
    known = sorted({x for p in parts.values() for x in p["known"]})
    for x in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, x))
    bits = 0
    for k in kinds:
        bm = procs[k][3]
        if os.path.exists(bm):
            bits |= int.from_bytes(open(bm, "rb").read(), "little")
            os.unlink(bm)
    distinct = bin(bits).count("1")
    # Work shared by both builds must have had the same answers.
    dig = {k: p["notes"].get("xdigest") for k, p in parts.items()}
    if (not replay and len(dig) == 2 and None not in dig.values() and len(set(dig.values())) > 1
            and all(c == 0 for c in codes.values()) and all(p["chunks_done"] == p["chunks"] for p in parts.values())):
        path = os.path.join(rep, "%s-digest-s%d.json" % (pid, seed))
        with open(path, "w") as f:
            json.dump({"property": pid, "build": "release", "seed": seed, "tier": tier, "chunk": 0, "digests": dig,
                       "observed": "the optimised and the overflow-checked build answered the same batches differently"}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  the optimised and the overflow-checked build answered the same batches differently: %s" % dig)
        codes["digest"] = 1
    viol = sum(p["violations"] for p in parts.values())
    if any(c == 1 for c in codes.values()):
        viol = max(viol, 1)
    if not replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(p["events"] for p in parts.values()),
                "distinct_nontrivial": distinct,
                "rule": next((p["rule"] for p in parts.values()), "") +
                        ". distinct_nontrivial counts distinct (operation, format, mode, operands) hashes of non-trivial events "
                        "in a 2^27-bit map shared by both builds (a lower bound)",
                "samples": [s for p in parts.values() for s in p["samples"][:6]],
                "nontrivial_events": sum(p["nontrivial"] for p in parts.values()),
                "cells_observed": {k: p["cells_hit"] for k, p in parts.items()},
                "chunks": {k: "%d/%d" % (p["chunks_done"], p["chunks"]) for k, p in parts.items()},
                "counters": {k: p["notes"] for k, p in parts.items()},
                "observed_classes": {k: p["table"] for k, p in parts.items()},
                "gates_unmet": sorted({g for p in parts.values() for g in p["gates_unmet"]}),
                "known_findings_hit": known,
                "builds": {"release": "opt-level 2", "checked": "opt-level 2 + overflow checks + debug assertions"},
                "build_s": round(tb, 2),
            },
            "assumptions": [
                "the oracle in harness/src/{model,big}.rs states the property correctly",
                "only the executions described by the counters above were observed",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": viol,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if any(c == 1 for c in codes.values()):
        sys.exit(1)
    bad = {k: c for k, c in codes.items() if c != 0}
    short = [k for k, p in parts.items() if p["chunks_done"] < p["chunks"]] if not replay and tier == "quick" else []
    if bad or short:
        print("INCONCLUSIVE property=%s: %s %s" % (pid, bad, "unfinished: %s" % short if short else ""))
        sys.exit(2)
    print("OK property=%s %d events, %d distinct non-trivial, %.1f s" %
          (pid, sum(p["events"] for p in parts.values()), distinct, time.time() - t0))


main()
