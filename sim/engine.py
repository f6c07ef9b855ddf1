"""Seeded search engine shared by all checks.

A property module gives: gen(rng, ctx) -> case (a JSON value that fixes one simulated history completely),
execute(ctx, case) -> list of violations (class, text), shrink(ctx, case, violation) -> smaller candidates.
One case is one exactly repeatable execution; case number i of a check is a function of (VERIF_SEED, property, i).
"""
import copy, hashlib, json, multiprocessing as mp, os, queue, random, subprocess, sys, time, traceback

from . import build as B, client as C

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "build", "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


class HarnessError(Exception):
    pass


def rng_for(seed, prop, idx):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Stats:
    def __init__(self):
        self.runs = 0
        self.simns = 0
        self.steps = 0
        self.fcount = {}
        self.hs = set()
        self.ht = set()
        self.probes = {}
        self.unknown = set()
        self.nontrivial = set()

    def add_response(self, r):
        self.runs += 1
        self.simns += r.get("simns", 0)
        self.steps += r.get("steps", 0)
        for k, v in r.get("fcount", {}).items():
            self.fcount[k] = self.fcount.get(k, 0) + v
        if len(self.hs) < 400000:
            self.hs.add(r.get("hsched"))
            self.ht.add(r.get("htrace"))
        self.unknown |= set(r.get("unknown", ()))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.fcount[name] = self.fcount.get(name, 0) + n

    def merge(self, o):
        self.runs += o.runs
        self.simns += o.simns
        self.steps += o.steps
        for a, b in ((self.fcount, o.fcount), (self.probes, o.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.hs |= o.hs
        self.ht |= o.ht
        self.nontrivial |= o.nontrivial
        self.unknown |= o.unknown


class Ctx:
    """Per-process context: simulators, caches, statistics."""

    def __init__(self, prop, build, cpu=None):
        self.prop, self.build, self.cpu = prop, build, cpu
        self.stats = Stats()
        self.cache = {}
        self.sims = {}
        self.hash = hashlib.sha256()
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def sim(self, name="native"):
        s = self.sims.get(name)
        if s is None:
            s = self.prop.make_sim(name, self)
            self.sims[name] = s
        return s

    def run(self, q, name="native", count=True):
        r = self.sim(name).run(q)
        if count:
            self.stats.add_response(r)
        h = r.get("htrace", "") + r.get("hsched", "") + json.dumps([r.get("outcome"), r.get("sinks"), [p.get("diff") for p in r.get("phases", [])]], sort_keys=True)
        self.hash.update(h.encode())
        return r

    def fresh_hash(self):
        self.hash = hashlib.sha256()

    def digest(self):
        return self.hash.hexdigest()

    def close(self):
        for s in self.sims.values():
            s.stop()
        self.sims = {}


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def match_known(prop, viol, known):
    """A listed finding matches a violation only on its exact class and signature."""
    for k in known.get("findings", []):
        if k["property"] == prop and k["cls"] == viol["cls"] and k["sig"] == viol.get("sig", ""):
            return k
    return None


def run_case(ctx, case):
    ctx.fresh_hash()
    v = ctx.prop.execute(ctx, case) or []
    return v, ctx.digest()


def _worker(prop, build, wid, ncpu, seed, counter, limit, deadline, out, stop, extra):
    try:
        random.seed(0)
        ctx = Ctx(prop, build, cpu=wid % ncpu)
        while not stop.value and time.time() < deadline:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= limit:
                break
            rng = rng_for(seed, prop.id, i)
            try:
                case = prop.gen(rng, ctx, i)
                if case is None:
                    continue
                v, dg = run_case(ctx, case)
            except C.SimDied as e:
                out.put(("died", i, str(e)))
                ctx.close()
                continue
            # a sample of the cases is executed twice: same case, same history
            if i % 37 == 5 and not v:
                v2, dg2 = run_case(ctx, case)
                ctx.stats.probe("determinism_pairs")
                if dg2 != dg:
                    ctx.stats.probe("determinism_mismatch")
                    out.put(("nondet", i, json.dumps(case)[:4000]))
            if v:
                out.put(("viol", i, case, v, dg))
            elif i % 101 == 0:
                out.put(("sample", i, case))
        out.put(("stats", ctx.stats))
        ctx.close()
    except BaseException:
        out.put(("exc", traceback.format_exc()))


def shrink_case(ctx, case, viol, budget_s=90, max_exec=400):
    t0 = time.time()
    n = 0
    improved = True
    while improved and time.time() - t0 < budget_s and n < max_exec:
        improved = False
        for cand in ctx.prop.shrink(ctx, case, viol):
            if time.time() - t0 > budget_s or n >= max_exec:
                break
            n += 1
            try:
                v, _ = run_case(ctx, cand)
            except C.SimDied:
                continue
            m = [x for x in v if x["cls"] == viol["cls"] and x.get("sig", "") == viol.get("sig", "")]
            if m:
                case, viol = cand, m[0]
                improved = True
                break
    return case, viol, n


def ddmin_list(lst):
    """Candidates with parts of the list removed, large parts first."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield lst[:i] + lst[i + size:]
        if size == 1:
            break
        size = max(1, size // 2)


def confirm(prop, build, ncpu, case, v):
    """Minimise a violation and make sure it replays exactly, in fresh simulators, too."""
    def check(c, cls):
        dgs = []
        for cpu in (0, 1 % ncpu, 0):
            ctx = Ctx(prop, build, cpu=cpu)
            try:
                vs, d = run_case(ctx, c)
            except C.SimDied:
                return None
            finally:
                ctx.close()
            if not any(x["cls"] == cls for x in vs):
                return None
            dgs.append(d)
        return dgs[0] if len(set(dgs)) == 1 else None
    ctx = Ctx(prop, build, cpu=0)
    try:
        c2, v2, n = shrink_case(ctx, case, v)
    finally:
        ctx.close()
    d = check(c2, v2["cls"])
    if d is None:
        c2, v2 = case, v
        d = check(c2, v2["cls"])
    if d is None:
        return None
    return {"violation": v2, "case": c2, "original": case, "digest": d, "shrink_executions": n}


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("seed=%d tier=%s property=%s" % (seed, tier, prop.id), flush=True)
    t0 = time.time()
    known = load_known()
    try:
        build = B.Build()
        prop.prepare(build)
        B.xsim()
    except (B.BuildError, OSError, subprocess.SubprocessError) as e:
        print("ERROR build: %s" % e, flush=True)
        return 2
    tb = time.time() - t0
    limit = prop.thorough_runs if tier == "thorough" else prop.quick_runs
    limit = int(os.environ.get("VERIF_RUNS", limit))
    wall = float(os.environ.get("VERIF_WALL", 3600 if tier == "thorough" else 330))
    nproc = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    ncpu = os.cpu_count() or 1
    counter, stop = mp.Value("q", 0), mp.Value("b", 0)
    out = mp.Queue()
    ws = [mp.Process(target=_worker, args=(prop, build, w, ncpu, seed, counter, limit, t0 + wall, out, stop, None), daemon=True) for w in range(nproc)]
    for w in ws:
        w.start()
    stats = Stats()
    viols, samples, died, nondet, exc = [], [], [], [], []
    done = 0
    knownhits = {}
    collect = {}
    while done < nproc:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in ws) and out.empty():
                break
            continue
        if m[0] == "stats":
            stats.merge(m[1])
            done += 1
        elif m[0] == "viol":
            fresh = []
            for v in m[3]:
                k = match_known(prop.id, v, known)
                if k:
                    knownhits.setdefault(k["sig"], (k, m[1]))
                else:
                    fresh.append(v)
            if fresh and os.environ.get("VERIF_COLLECT"):
                for v in fresh[:1]:
                    key = (v["cls"], os.path.basename((m[2].get("w") or {}).get("argv", [""])[0]) + ":" + (m[2].get("w") or {}).get("name", ""), " ".join("%s/%s/%s@%s" % (f["sys"], f["kind"], f["val"] if f["kind"] != "short" else "", f["p"]) for f in v.get("fired", [])[:2]) or v.get("sig", ""))
                    collect.setdefault(key, []).append((m[1], v["msg"]))
            elif fresh:
                viols.append((m[1], m[2], fresh, m[4]))
                stop.value = 1
        elif m[0] == "sample":
            if len(samples) < 3:
                samples.append({"i": m[1], "case": m[2]})
        elif m[0] == "died":
            died.append(m[1:])
        elif m[0] == "nondet":
            nondet.append(m[1:])
        elif m[0] == "exc":
            exc.append(m[1])
            done += 1
            stop.value = 1
    for w in ws:
        w.join(5)
        if w.is_alive():
            w.kill()
    for k in sorted(collect, key=lambda k: -len(collect[k])):
        print(len(collect[k]), k, collect[k][0][0], collect[k][0][1][:int(os.environ["VERIF_COLLECT"])])
    rc = 0
    viol_count = 0
    for k in known.get("findings", []):
        if k["property"] == prop.id:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]), flush=True)
    if viols:
        viols.sort(key=lambda x: x[0])
        rc = 2
        for idx, case, vs, dg in viols[:6]:
            rep = confirm(prop, build, ncpu, case, vs[0])
            if rep is None:
                print("note: violation of %s at case %d does not replay: %s" % (prop.id, idx, json.dumps(vs[0])[:1000]), flush=True)
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-seed%d-case%d.json" % (prop.id, seed, idx))
            rep.update({"property": prop.id, "seed": seed, "index": idx, "replay_cmd": "python3 /verif/check.py --replay " + path})
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print("violation: %s" % json.dumps(rep["violation"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
            rc = 1
            viol_count = len(viols)
            break
        if rc == 2:
            print("ERROR: no violation of %s replays exactly" % prop.id, flush=True)
    elif exc:
        print("ERROR worker: %s" % exc[0], flush=True)
        rc = 2
    elif nondet:
        print("ERROR: %d cases did not repeat exactly, e.g. case %d: %s" % (len(nondet), nondet[0][0], nondet[0][1]), flush=True)
        rc = 2
    elif died:
        print("ERROR: simulator died in %d cases, e.g. %s" % (len(died), died[0]), flush=True)
        rc = 2
    wall_s = time.time() - t0
    search_s = max(0.001, wall_s - tb)
    cov = {
        "evaluations": stats.runs,
        "distinct_nontrivial": len(stats.nontrivial) if stats.nontrivial else len(stats.ht),
        "rule": prop.rule,
        "samples": samples[:3] or [{"note": "no sample kept"}],
        "cases": min(counter.value, limit),
        "seeds_from": "sha256(VERIF_SEED/property/case index), VERIF_SEED=%d" % seed,
        "runs_per_hour": int(stats.runs * 3600 / search_s),
        "cases_per_hour": int(min(counter.value, limit) * 3600 / search_s),
        "simulated_time_ms": stats.simns // 1000000,
        "simulated_steps": stats.steps,
        "fault_kinds_fired": dict(sorted(stats.fcount.items())),
        "distinct_interleavings": len(stats.hs),
        "distinct_histories": len(stats.ht),
        "measure": "interleaving: hash of the sequence of scheduled process lineages; history: hash of (process, call, result) over the run",
        "probes": dict(sorted(stats.probes.items())),
        "unmodelled_calls": sorted(stats.unknown),
        "components_real": prop.real,
        "components_stub": prop.stub,
        "workers": nproc,
        "build_s": round(tb, 1),
    }
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "wall_s": round(wall_s, 1),
          "violations": viol_count, "assumptions": prop.assumptions}
    if rc != 2:
        with open(os.path.join(EVID, prop.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    print("%s: %d runs, %d cases, %d distinct histories, %.1f s, rc=%d" % (prop.id, stats.runs, min(counter.value, limit), len(stats.ht), wall_s, rc), flush=True)
    return rc


def replay(path):
    from . import props
    with open(path) as f:
        rep = json.load(f)
    prop = props.get(rep["property"])
    build = B.Build()
    prop.prepare(build)
    ctx = Ctx(prop, build, cpu=0)
    try:
        v, dg = run_case(ctx, rep["case"])
    finally:
        ctx.close()
    m = [x for x in v if x["cls"] == rep["violation"]["cls"]]
    print("digest %s (recorded %s)" % (dg, rep["digest"]))
    for x in v:
        print("violation: %s" % json.dumps(x)[:3000])
    if m:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced")
    return 0


class Prop:
    level = "exploration"
    assumptions = []
    real = []
    stub = ["kernel: files, descriptors, pipes, processes, signals, clock and randomness are modelled by xsim"]
    quick_runs = 1000
    thorough_runs = 100000
    rule = ""

    def prepare(self, build):
        raise NotImplementedError

    def make_sim(self, name, ctx):
        raise NotImplementedError

    def gen(self, rng, ctx, i):
        raise NotImplementedError

    def execute(self, ctx, case):
        raise NotImplementedError

    def shrink(self, ctx, case, viol):
        return []
