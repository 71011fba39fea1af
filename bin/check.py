#!/usr/bin/env python3
"""Decides one property: check.py C04

 1. builds the real code (and the conformance driver, through an overlay)
    from /repo's working tree;
 2. model-checks the design-level TLA+ specification with TLC, and has TLC
    generate cases from it;
 3. runs the driver, which replays those cases (and seeded random ones) on
    the real code and records what it did;
 4. has TLC check every recorded trace against the trace specification.

Nothing here judges behaviour: verdicts are TLC's.  Exit 0: held; 1: a
VIOLATION line was printed; 2: the check itself failed.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from families import FAMILIES, PROPERTIES  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false",
             GOWORK="off", CGO_ENABLED="0", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"))
    return e


def overlay(scratch):
    rep = {}
    base = os.path.join(VERIF, "harness")
    for d in sorted(os.listdir(base)):
        for f in sorted(os.listdir(os.path.join(base, d))):
            if f.endswith(".go"):
                rep["%s/zz_verif/%s/%s" % (REPO, d, f)] = os.path.join(base, d, f)
    p = os.path.join(scratch, "overlay.json")
    with open(p, "w") as o:
        json.dump({"Replace": rep}, o)
    return p


def build(scratch, fam):
    ov = overlay(scratch)
    drv = os.path.join(scratch, "driver")
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", drv, "./zz_verif/" + fam["driver"]], cwd=REPO,
                       env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("building the driver failed:\n" + r.stderr)
    cli = ""
    if fam.get("cli"):
        cli = os.path.join(scratch, "diskii")
        r = subprocess.run(["go", "build", "-o", cli, "."], cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("building diskii failed:\n" + r.stderr)
    return drv, cli


def tlc(scratch, module, cfg, env=None, workers=1, heap="3g", timeout=5400, args=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", "-Xmx" + heap, "-Xss128m", gc, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, *args,
           "-config", os.path.join(SPEC, cfg + ".cfg"), os.path.join(SPEC, module + ".tla")]
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as o:
        try:
            rc = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Broken("TLC took too long on %s %s" % (module, cfg))
    with open(out, errors="replace") as f:
        text = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def counts(text):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def model_check(scratch, m):
    module, cfg = m["module"], m["cfg"]
    t = time.time()
    rc, text = tlc(scratch, module, cfg, workers=m.get("workers", 2), heap=m.get("heap", "4g"),
                   env=dict({"PROP": ""}, **m.get("env", {})))
    if rc != 0 or "No error has been found" not in text:
        raise Broken("the design model %s/%s is not satisfied:\n%s" % (module, cfg, text[-3000:]))
    d, g = counts(text)
    return {"model": cfg, "module": module, "states": d, "transitions": g, "wall_s": round(time.time() - t, 1)}


def generate(scratch, g, out):
    rc, text = tlc(scratch, g["module"], g["cfg"], workers=1, env=dict({"PROP": ""}, **g.get("env", {})))
    if rc != 0:
        raise Broken("generating cases with %s failed:\n%s" % (g["cfg"], text[-3000:]))
    n = 0
    mark = '"' + g["mark"] + " "
    with open(out, "a") as o:
        for l in text.splitlines():
            if l.startswith(mark):
                o.write('{"%s":%s}\n' % (g["key"], json.loads(l)[len(g["mark"]) + 1:]))
                n += 1
    if n == 0:
        raise Broken("%s generated nothing" % g["cfg"])
    d, tr = counts(text)
    return {"model": g["cfg"], "module": g["module"], "states": d, "transitions": tr, "cases_generated": n}


def drive(drv, cli, prop, gen, out, scratch, shard, shards, only=None):
    d = tempfile.mkdtemp(prefix="drv", dir=scratch)
    cmd = [drv, "-tier", TIER, "-seed", str(SEED), "-gen", gen, "-scratch", d, "-cli", cli, "-repo", REPO,
           "-prop", prop, "-out", out, "-shard", str(shard), "-shards", str(shards),
           "-budget", "240" if TIER == "quick" else "5400"]
    if only is not None:
        cmd += ["-only", str(only)]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    if r.returncode != 0:
        raise Broken("the driver failed: %s" % r.stderr[-2000:])
    return r.stdout


def chunks(path, scratch, limit):
    """Splits a trace at case boundaries."""
    res, cur, size, ncase, last = [], None, 0, 0, None

    def new():
        fd, p = tempfile.mkstemp(prefix="chunk", suffix=".ndjson", dir=scratch)
        return os.fdopen(fd, "wb"), p
    lines = 0
    with open(path, "rb") as f:
        for l in f:
            m = re.search(rb'"case":(\d+)', l)
            c = m.group(1)
            if c != last:
                if cur is None or size > limit:
                    if cur:
                        cur[0].close()
                        res.append((cur[1], ncase, lines))
                    cur, size, ncase, lines = new(), 0, 0, 0
                last = c
                ncase += 1
            cur[0].write(l)
            lines += 1
            size += len(l)
    if cur:
        cur[0].close()
        res.append((cur[1], ncase, lines))
    os.remove(path)
    return res


COMPLAINT = re.compile(r'^"COMPLAINT (.*)"$', re.M)


def validate(scratch, spec, prop, path, nlines):
    """TLC's verdict on one recorded trace: None, or the complaint."""
    rc, text = tlc(scratch, spec, spec, env={"TRACE": path, "PROP": prop})
    m = COMPLAINT.search(text)
    if m:
        return json.loads(json.loads('"' + m.group(1) + '"')), counts(text)
    if rc != 0 or "No error has been found" not in text:
        raise Broken("trace validation failed:\n%s" % text[-3000:])
    d, g = counts(text)
    if d != nlines + 1:
        raise Broken("TLC consumed %d of %d lines" % (d - 1, nlines))
    return None, (d, g)


def case_lines(path, case):
    r = []
    pat = b'"case":%d,' % case
    pat2 = b'"case":%d}' % case
    with open(path, "rb") as f:
        for l in f:
            if pat in l or pat2 in l:
                r.append(l)
    return r


def sample(path):
    with open(path, errors="replace") as f:
        ls = f.readlines()
    for l in ls[len(ls) // 2:]:
        if len(l) < 3000:
            return json.loads(l)
    return {"line": ls[len(ls) // 2][:1500]}


def confirm(scratch, drv, cli, prop, spec, gen, c, path):
    """Runs the rejected case again, alone."""
    case = c["case"]
    lines = case_lines(path, case)
    first = [json.loads(l) for l in lines]
    unsure = any(x.get("ev") == "died" or "timeout" in json.dumps(x.get("how", "")) for x in first[-1:])
    again = False
    for k in range(3):
        out = os.path.join(scratch, "again%d.ndjson" % k)
        drive(drv, cli, prop, gen, out, scratch, 0, 1, only=case)
        if os.path.getsize(out) == 0:
            continue
        with open(out, "rb") as f:
            n = sum(1 for _ in f)
        c2, _ = validate(scratch, spec, prop, out, n)
        if c2:
            again = True
            c, lines = c2, case_lines(out, case)
            break
    if not again and unsure:
        return None
    rid = hashlib.sha256(("%s %s %s %s" % (prop, TIER, SEED, case)).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, "%s-%s.json" % (prop, rid))
    with open(rp, "w") as o:
        json.dump({"property": prop, "complaints": c["what"], "event": json.loads(lines[c["line"] - 1]) if again and c["line"] <= len(lines) else None,
                   "case": case, "kind": first[0].get("kind"), "tier": TIER, "seed": SEED,
                   "reproduced_alone": again,
                   "replay": "VERIF_TIER=%s VERIF_SEED=%d python3 bin/check.py %s --only %d" % (TIER, SEED, prop, case),
                   "trace": [json.loads(l) for l in lines][-40:]}, o)
    return rp, c


def run(prop, only):
    t0 = time.time()
    fam = FAMILIES[PROPERTIES[prop]["family"]]
    p = PROPERTIES[prop]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        drv, cli = build(scratch, fam)
        gen = os.path.join(scratch, "gen.ndjson")
        open(gen, "w").close()
        pool = concurrent.futures.ThreadPoolExecutor(CORES)
        models = [m for m in p.get("models", fam.get("models", [])) if TIER in m.get("tiers", ["quick", "thorough"])]
        futs = [] if only is not None else [pool.submit(model_check, scratch, m) for m in models]
        gens = []
        for i, g in enumerate(p.get("gens", fam.get("gens", []))):
            if TIER not in g.get("tiers", ["quick", "thorough"]):
                continue
            gens.append(generate(scratch, g, gen))
        shards = CORES if only is None else 1
        traces = [os.path.join(scratch, "t%d.ndjson" % k) for k in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(shards) as dp:
            logs = list(dp.map(lambda k: drive(drv, cli, prop, gen, traces[k], scratch, k, shards, only), range(shards)))
        spec = fam["trace"]
        cks = []
        for t in traces:
            cks += chunks(t, scratch, fam.get("chunk", 6 << 20))
        cks.sort(key=lambda c: -os.path.getsize(c[0]))
        if not cks:
            raise Broken("nothing was recorded")
        cases = sum(c[1] for c in cks)
        lines = sum(c[2] for c in cks)
        smp = sample(cks[len(cks) // 2][0])
        done = [m.result() for m in futs]
        vs, vt, violations = 0, 0, 0
        with concurrent.futures.ThreadPoolExecutor(CORES) as vp:
            fs = {vp.submit(validate, scratch, spec, prop, c[0], c[2]): c for c in cks}
            for f in concurrent.futures.as_completed(fs):
                c, (d, g) = f.result()
                vs += d
                vt += g
                if not c:
                    continue
                r = confirm(scratch, drv, cli, prop, spec, gen, c, fs[f][0])
                if r is None:
                    print("note: a case that did not end in time did so when run again; ignored: %s" % json.dumps(c))
                    continue
                violations += 1
                print("complaints of the specification: %s" % "; ".join(r[1]["what"]))
                print("VIOLATION property=%s replay=%s" % (prop, r[0]))
                for o in fs:  # one is enough
                    o.cancel()
                break
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": vs + sum(m["states"] for m in done + gens),
                           "transitions": vt + sum(m["transitions"] for m in done + gens),
                           "traces_validated_against_impl": cases,
                           "recorded_events_checked": lines,
                           "design_models": done, "case_generators": gens,
                           "samples": [smp]},
              "assumptions": p.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": violations}
        if only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
                json.dump(ev, o, indent=1)
        print("%s: %d cases, %d events, %d models, %.0f s" % (prop, cases, lines, len(done), time.time() - t0))
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    only = None
    if "--only" in a:
        i = a.index("--only")
        only = int(a[i + 1])
        del a[i:i + 2]
    if len(a) != 1 or a[0] not in PROPERTIES:
        print("usage: check.py PROPERTY [--only CASE]")
        return 2
    try:
        return run(a[0], only)
    except Broken as e:
        print("CHECK FAILED: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
