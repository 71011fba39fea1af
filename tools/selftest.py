#!/usr/bin/env python3
"""Asks whether the trace specifications notice wrong records (development aid): records what the real code does, changes
one field of one event of a case, and counts how often TLC rejects the case, by event and field. What is never rejected is
either irrelevant (notes), left open by the statement, or a gap.   selftest.py PROP [N]"""
import collections, concurrent.futures, copy, json, os, random, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import check
from families import FAMILIES, PROPERTIES

def paths(x, pre=()):
    if isinstance(x, dict):
        for k in x:
            if k not in ("case", "kind", "ev", "seq"):
                yield from paths(x[k], pre + (k,))
    elif isinstance(x, list):
        if x and not isinstance(x[0], (dict, list)):
            yield pre + ("[]",)
        for i, v in enumerate(x[:400]):
            if isinstance(v, (dict, list)):
                yield from paths(v, pre + (i,))
    else:
        yield pre

def spoil(ev, p, r):
    x = ev
    for k in p[:-1]:
        x = x[k]
    k = p[-1]
    if k == "[]":
        how = r.randrange(3)
        if how == 0:
            i = r.randrange(len(x))
            x[i] = other(x[i], r)
        elif how == 1:
            del x[r.randrange(len(x))]
        else:
            i = r.randrange(len(x))
            x.insert(i, other(x[i], r))
    else:
        x[k] = other(x[k], r)

def other(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return 1 - v if v in (0, 1) and r.randrange(4) else v + r.choice([1, -1, 7]) if v else v + r.choice([1, 3])
    if isinstance(v, str):
        return v + "X" if v != "ok" else "panic"
    return 0

def main():
    prop = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    fam, p = FAMILIES[PROPERTIES[prop]["family"]], PROPERTIES[prop]
    scratch = tempfile.mkdtemp(prefix="selftest")
    r = random.Random(7)
    try:
        # The same specification, but going on after a complaint.
        check.SPEC = shutil.copytree(check.SPEC, os.path.join(scratch, "spec"))
        tc = os.path.join(check.SPEC, "TraceCommon.tla")
        with open(tc) as f:
            t = f.read()
        assert 'TLCSet("exit", TRUE)' in t
        with open(tc, "w") as f:
            f.write(t.replace('TLCSet("exit", TRUE)', 'TRUE'))
        drv, cli = check.build(scratch, fam)
        gen = os.path.join(scratch, "gen.ndjson")
        open(gen, "w").close()
        for g in p.get("gens", fam.get("gens", [])):
            if "quick" in g.get("tiers", ["quick"]):
                check.generate(scratch, g, gen)
        trace = os.path.join(scratch, "t")
        check.drive(drv, cli, prop, gen, trace, scratch, r.randrange(4), 4)
        cases = collections.OrderedDict()
        with open(trace) as f:
            for l in f:
                e = json.loads(l)
                cases.setdefault(e["case"], []).append(l)
        fit = [c for c in cases.values() if sum(map(len, c)) < 400000]
        byev = collections.defaultdict(list)  # every kind of event gets its share
        for c in fit:
            for i, l in enumerate(c):
                e = json.loads(l)
                byev[(e.get("kind"), e["ev"])].append((c, i))
        jobs = []
        kinds = sorted(byev, key=str)
        while len(jobs) < n:
            c, i = r.choice(byev[kinds[len(jobs) % len(kinds)]])
            e = json.loads(c[i])
            ps = list(paths(e))
            if not ps:
                n -= 1
                continue
            # fields evenly, whatever number of elements they have
            tops = collections.defaultdict(list)
            for q in ps:
                tops[tuple(x for x in q if not isinstance(x, int))].append(q)
            field = r.choice(sorted(tops))
            q = r.choice(tops[field])
            spoil(e, q, r)
            k = len(jobs) + 1
            ls = []
            for j, l in enumerate(c):
                d = e if j == i else json.loads(l)
                d["case"] = k
                ls.append(json.dumps(d, separators=(",", ":")))
            jobs.append(((e.get("kind"), e["ev"], ".".join(field)), ls))
        def runbatch(ks):
            fd, path = tempfile.mkstemp(dir=scratch)
            with os.fdopen(fd, "w") as o:
                for k in ks:
                    o.write("\n".join(jobs[k][1]) + "\n")
            try:
                rc, text = check.tlc(scratch, fam["trace"], fam["trace"], env={"TRACE": path, "PROP": prop}, timeout=30 + 10 * len(ks))
            except check.Broken:
                text = ""
            os.remove(path)
            got = {json.loads(json.loads('"' + m.group(1) + '"'))["case"] - 1 for m in check.COMPLAINT.finditer(text)}
            if "No error has been found" in text:
                return got
            if len(ks) == 1:
                return set(ks)  # could not even be judged
            h = len(ks) // 2
            return runbatch(ks[:h]) | runbatch(ks[h:])
        seen = set()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for g in ex.map(runbatch, [list(range(i, min(i + 12, len(jobs)))) for i in range(0, len(jobs), 12)]):
                seen |= g
        tab = collections.defaultdict(lambda: [0, 0])
        for k, (f, _) in enumerate(jobs):
            tab[f][0] += 1
            tab[f][1] += k in seen
        for f in sorted(tab, key=str):
            if tab[f][1] < tab[f][0]:
                print("  %-60s noticed %d of %d" % (" / ".join(map(str, f)), tab[f][1], tab[f][0]))
        print("%s: %d of %d wrong records noticed" % (prop, len(seen), len(jobs)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
main()
