#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough] [--keep]

1. builds the specification's Java overrides and the conformance harness
   (against /repo's working tree),
2. lets TLC check the property's models and emit behaviours,
3. replays the behaviours through the real code (and/or lets TLC judge traces
   recorded from it),
4. writes evidence/<property>.json.
Exit 0: held; 1: VIOLATION line printed; anything else: an error of the check."""
import json, os, re, resource, shutil, subprocess, sys, time, threading, zlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "run"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLS = os.path.join(VERIF, "target", "classes")
BIN = os.path.join(VERIF, "target", "debug", "conform")
CORES = os.cpu_count() or 4


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def locked(f):
    import fcntl
    def g(*a):
        os.makedirs(os.path.join(VERIF, "target"), exist_ok=True)
        with open(os.path.join(VERIF, "target", ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(*a)
    return g


@locked
def build():
    os.makedirs(CLS, exist_ok=True)
    src = [os.path.join(VERIF, "spec", f) for f in sorted(os.listdir(os.path.join(VERIF, "spec"))) if f.endswith(".java")]
    out = [os.path.join(CLS, os.path.basename(f)[:-5] + ".class") for f in src]
    if any(not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s) for s, o in zip(src, out)):
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", CLS] + src, capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac failed\n" + r.stderr)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(VERIF, "target"), CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(VERIF, "harness"), env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("harness does not build\n" + r.stderr[-4000:])


# --------------------------------------------------------------------------- TLC
def cfg_text(j):
    t = []
    t.append("INIT %s\nNEXT %s" % (j.get("init", "Init"), j.get("next", "Next")))
    t.append("CONSTANTS")
    for k, v in j.get("consts", {}).items():
        t.append(" %s = %s" % (k, v))
    for k in j.get("defs", {}):
        t.append(" %s <- %s_" % (k, k))
    for k, v in j.get("subst", {}).items():
        t.append(" %s <- %s" % (k, v))
    if len(t) == 2:
        t.pop()
    if j.get("invs"):
        t.append("INVARIANTS " + " ".join(j["invs"]))
    if j.get("view"):
        t.append("VIEW " + j["view"])
    if j.get("constraint"):
        t.append("CONSTRAINT " + j["constraint"])
    t.append("CHECK_DEADLOCK FALSE")
    return "\n".join(t) + "\n"


def start_tlc(j, d, seed, num=None, timeout=300, workers=1, env=None):
    """one TLC process in directory d; returns the handle"""
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    if j["module"] == "SpecTest":       # copies under names that no Java class overrides
        for m in ("Rat", "Bspline", "Plane"):
            with open(os.path.join(VERIF, "spec", m + ".tla")) as f, open(os.path.join(d, m + "T.tla"), "w") as g:
                g.write(f.read().replace("MODULE %s " % m, "MODULE %sT " % m, 1))
    with open(os.path.join(d, "X.tla"), "w") as f:
        f.write("---- MODULE X ----\nEXTENDS %s\n" % j["module"])
        for k, v in j.get("defs", {}).items():
            f.write("%s_ == %s\n" % (k, v))
        f.write("====\n")
    with open(os.path.join(d, "X.cfg"), "w") as f:
        f.write(cfg_text(j))
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    heap = j.get("heap", "2g" if workers == 1 else "8g")
    cmd = ["java", gc, "-Xmx" + heap, "-Xss32m", "-cp", TLA + ":" + CLS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-config", "X.cfg"]
    if num is not None:
        cmd += ["-simulate", "num=%d" % num, "-depth", str(j.get("depth", 100)), "-seed", str(seed)]
    else:
        cmd += ["-fp", "1"]
    out = open(os.path.join(d, "out.txt"), "w")
    p = subprocess.Popen(cmd + ["X.tla"], cwd=d, stdout=out, stderr=subprocess.STDOUT, start_new_session=True,
                         env=dict(os.environ, **(env or {})))
    return dict(p=p, d=d, out=out, deadline=time.time() + timeout, job=j, sim=num is not None)


def finish_tlc(h):
    timed = False
    try:
        h["p"].wait(max(0.1, h["deadline"] - time.time()))
    except subprocess.TimeoutExpired:
        timed = True
        os.killpg(h["p"].pid, 9)
        h["p"].wait()
    h["out"].close()
    beh, states, distinct, text, viol = [], 0, 0, [], None
    with open(os.path.join(h["d"], "out.txt"), errors="replace") as f:
        for l in f:
            if l.startswith('"{') and l.endswith('"\n'):
                beh.append(json.loads(l))
                continue
            m = re.search(r"([\d,]+) states? (?:generated|checked)(?:.*?([\d,]+) distinct)?", l)
            if m:
                states = int(m.group(1).replace(",", ""))
                if m.group(2):
                    distinct = int(m.group(2).replace(",", ""))
            if len(text) < 4000:
                text.append(l)
    rc = h["p"].returncode
    if timed and not h["sim"]:
        raise Broken("TLC timed out on %s" % h["job"]["module"])
    if not timed and rc != 0:
        raise Broken("TLC failed (%d) on %s\n%s" % (rc, h["job"]["module"], "".join(x for x in text if not x.startswith('"'))[-5000:]))
    return dict(beh=beh, states=states, distinct=distinct, timed=timed, text=text)


# --------------------------------------------------------------------------- harness
def limit():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def conform(prop, beh, rep, trace, timeout):
    """replay; a death by signal is attributed to the call that was running"""
    extra = []
    skip = set()
    for attempt in range(6):
        src = beh
        if skip:
            src = beh + ".skip"
            with open(beh) as f, open(src, "w") as g:
                for i, l in enumerate(f):
                    g.write('{"m":"skip"}\n' if i in skip else l)
        try:
            r = subprocess.run([BIN, prop, src, rep, trace or "-"], capture_output=True, text=True, timeout=timeout, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise Broken("the replay timed out")
        if r.returncode == 0:
            return json.load(open(rep)), extra
        if r.returncode > 0 and r.returncode != 101 or not os.path.exists(rep + ".progress"):
            raise Broken("the replay failed (%d)\n%s" % (r.returncode, r.stderr[-3000:]))
        cands = []
        for l in open(rep + ".progress", errors="replace"):
            w = l.replace("\0", "").split()
            if len(w) >= 2:
                cands.append(int(w[0]))
        found = False
        for i in sorted(set(cands)):
            try:
                q = subprocess.run([BIN, prop, src, rep + ".one", "-", str(i)], capture_output=True, text=True, timeout=120, preexec_fn=limit)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode < 0:
                w = open(rep + ".one.progress", errors="replace").read().replace("\0", "").split()
                found = True
                skip.add(i)
                if len(w) >= 3 and w[1] == "1":
                    extra.append({"property": prop, "key": w[2] + ":crash", "detail": "the process died (signal %d) in %s" % (-q.returncode, " ".join(w[2:])),
                                  "input": {"behaviour": i}, "behaviour": i})
        if not found:
            raise Broken("the replay died (%d) but no single behaviour does\n%s" % (r.returncode, r.stderr[-3000:]))
        if extra:
            return {"counts": {"behaviours": 0}, "violations": [], "violation_count": 0, "foreign": 0, "samples": []}, extra
    raise Broken("the replay keeps dying")


def known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["known"] if k["property"] == prop]


def main():
    import props
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build()
    log("built in %.1fs" % (time.time() - t0))
    spec = props.PROPS[prop]
    work = os.path.join(VERIF, "work", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tjobs = spec["thorough"] if tier == "thorough" and "thorough" in spec else spec["quick"]
    states = distinct = 0
    cov_jobs = []
    beh = os.path.join(work, "behaviours.jsonl")
    nb = 0
    tmul = 6 if tier == "thorough" else 1
    with open(beh, "w") as f:
        for n, j in enumerate(tjobs):
            t1 = time.time()
            if j["kind"] == "mc":
                hs = [start_tlc(j, os.path.join(work, "mc%d" % n), seed, timeout=j.get("timeout", 400) * tmul, workers=j.get("workers", CORES))]
            else:
                k = j.get("shards", CORES)
                hs = [start_tlc(j, os.path.join(work, "sim%d_%d" % (n, i)), zlib.crc32(("%s/%s/%d/%d/%d" % (prop, tier, n, i, seed)).encode()),
                                num=(j["num"] + k - 1) // k, timeout=j.get("timeout", 240) * tmul) for i in range(k)]
            rs = [finish_tlc(h) for h in hs]
            b = 0
            for r in rs:
                for l in (sorted(r["beh"]) if j["kind"] == "mc" else r["beh"]):
                    f.write(l + "\n")
                    b += 1
                states += r["states"]
                distinct += r["distinct"] or r["states"]
            for h in hs:
                shutil.rmtree(h["d"], ignore_errors=True)
            if j.get("emit", True) and b == 0:
                raise Broken("no behaviours from %s" % j["module"])
            nb += b
            cov_jobs.append({"kind": "exhaustive" if j["kind"] == "mc" else "simulation", "module": j["module"],
                             "constants": {**j.get("consts", {}), **j.get("defs", {})}, "invariants": j.get("invs", []),
                             "states": sum(r["states"] for r in rs), "behaviours": b,
                             "stopped_by_time": any(r["timed"] for r in rs), "wall_s": round(time.time() - t1, 1)})
            log("%s %s: %d states, %d behaviours, %.1fs" % (j["kind"], j["module"], sum(r["states"] for r in rs), b, time.time() - t1))
    trace = os.path.join(work, "trace.jsonl") if spec.get("trace") else None
    rep, extra = conform(prop, beh, os.path.join(work, "report.json"), trace, 600 * tmul)
    viol = extra + rep["violations"]
    counts = rep["counts"]
    traces_checked = 0
    if trace and not extra:
        import traces
        tv, tstates, traces_checked, tcov = traces.validate(prop, spec["trace"], trace, work, start_tlc, finish_tlc, CORES, tmul)
        viol += tv
        states += tstates
        cov_jobs += tcov
    log("replayed %d behaviours: %s, foreign %d" % (nb, json.dumps(counts), rep["foreign"]))
    for k, m in spec.get("floor", {}).items():
        if counts.get(k, 0) < m and not viol:
            raise Broken("vacuous: %s = %d < %d" % (k, counts.get(k, 0), m))
    ks = known(prop)
    new, hit = [], {}
    for v in viol:
        k = next((k for k in ks if v["key"] == k["key"] and (not k.get("detail") or re.search(k["detail"], v["detail"]))), None)
        if k:
            hit.setdefault(k["id"], []).append(v)
        else:
            new.append(v)
    for k in ks:
        log("KNOWN-FINDING: property=%s %s [%d observed]" % (prop, k["what"], len(hit.get(k["id"], []))))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": distinct, "transitions": states, "traces_validated_against_impl": nb if not trace else traces_checked + nb,
                       "samples": (rep["samples"] or [{"none": True}])[:5], "counts": counts, "models": cov_jobs,
                       "foreign_divergences": rep["foreign"]},
          "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        r = os.path.join(work, "violation.json")
        with open(r, "w") as f:
            json.dump(new[:20], f, indent=1)
        log(json.dumps(new[0])[:3000])
        log("VIOLATION property=%s replay=%s" % (prop, r))
        return 1
    if "--keep" not in sys.argv:
        os.remove(beh)
        if trace and os.path.exists(trace):
            os.remove(trace)
    log("ok %s: %d states, %d behaviours, %.0fs" % (prop, states, nb, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("ERROR", e)
        sys.exit(2)
