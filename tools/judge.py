"""Runs recorded calls through the Quint trace specification.

judge(records, prop, workdir, jobs) splits the records into shards, writes each as a data
module (chunks of records packed into integers), and lets `quint run` step the trace
specification over it.  What counts is the final state of that run, read from the ITF trace:
position reached, calls judged per property, greatest use of the tolerance, rejected calls.
"""
import json, os, shutil, subprocess, concurrent.futures as cf

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CHUNK = 100


def pack(r, cfg=0):
    fn, A, B, C, R, a, b, c, v = r[:9]
    return ((((((((fn << 8 | cfg) << 4 | A) << 4 | B) << 4 | C) << 4 | R) << 80 | a) << 80 | b) << 80 | c) << 80 | v


class ModelError(Exception):
    pass


def _int(x):
    if isinstance(x, dict):
        return int(x["#bigint"])
    return int(x)


def _map(x):
    return {_int(k): _int(v) for k, v in x["#map"]}


def write_data(path, recs, prop):
    chunks = [recs[i:i + CHUNK] for i in range(0, len(recs), CHUNK)]
    with open(path, "w") as f:
        f.write("module data {\n  pure val CHUNK = %d\n  pure val PROP = %d\n" % (CHUNK, prop))
        for i, ch in enumerate(chunks):
            v = 0
            for j, r in enumerate(ch):
                v |= pack(r, r[9] if len(r) > 9 else 0) << (352 * j)
            f.write("  pure val k%d = 0x%x\n" % (i, v))
        f.write("  pure val chunks: List[int] = [%s]\n" % ", ".join("k%d" % i for i in range(len(chunks))))
        f.write("  pure val sizes: List[int] = [%s]\n}\n" % ", ".join(str(len(c)) for c in chunks))
    return len(chunks)


def run_shard(arg):
    d, recs, prop, main, invariant, timeout = arg
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".qnt"):
            shutil.copy(os.path.join(SPEC, f), d)
    n = write_data(os.path.join(d, "data.qnt"), recs, prop)
    cmd = ["quint", "run", "--main=" + main, "--max-samples=1", "--max-steps=%d" % n,
           "--out-itf=out.itf.json", "--verbosity=1", "--seed=1"]
    if invariant:
        cmd.append("--invariant=" + invariant)
    cmd.append(main + ".qnt")
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=3000")
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError("quint ran out of time on %s (%d records)" % (d, len(recs)))
    out = p.stdout.decode(errors="replace")
    itf = os.path.join(d, "out.itf.json")
    if not os.path.exists(itf):
        raise ModelError("quint gave no trace in %s:\n%s" % (d, out[-3000:]))
    tr = json.load(open(itf))
    st = tr["states"][-1]
    res = {"l": _int(st["l"]), "judged": _map(st["judged"]), "worst": _map(st["worst"]), "peak": _map(st["peak"]) if "peak" in st else {}, "chunks": n,
           "states": len(tr["states"]), "out": out, "rc": p.returncode,
           "bad": [(_int(b["i"]), _int(b["p"]), _int(b["q"])) for b in st["bad"]]}
    if res["l"] != n and not res["bad"]:
        raise ModelError("trace in %s stopped at %d of %d:\n%s" % (d, res["l"], n, out[-2000:]))
    return res


def judge(records, prop, workdir, jobs=8, main="trace", invariant="accepted", timeout=800, keep=False):
    """-> dict(judged, worst, bad=[(record, p, q)], states, shards)"""
    waves = 1 + len(records) // 120000
    shards = min(max(1, len(records) // 300), jobs * waves)
    per = (len(records) + shards - 1) // shards
    # whole groups stay together: a record may refer to the one before it
    per += (-per) % 12
    # spread the costly records: deal groups of 12 round robin
    groups = [records[i:i + 12] for i in range(0, len(records), 12)]
    dealt = [[] for _ in range(shards)]
    for i, g in enumerate(groups):
        dealt[i % shards].extend(g)
    args = [(os.path.join(workdir, "shard%d" % i), d, prop, main, invariant, timeout) for i, d in enumerate(dealt) if d]
    tot = {"judged": {}, "worst": {}, "peak": {}, "bad": [], "states": 0, "shards": len(args), "records": len(records)}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for a, r in zip(args, ex.map(run_shard, args)):
            for k, v in r["judged"].items():
                tot["judged"][k] = tot["judged"].get(k, 0) + v
            for k, v in r["worst"].items():
                if v >= tot["worst"].get(k, 0):
                    tot["worst"][k] = v
                    if r["peak"].get(k, -1) >= 0:
                        tot["peak"][k] = a[1][r["peak"][k]]
            tot["states"] += r["states"]
            tot["bad"] += [(a[1][i], p, q) for i, p, q in r["bad"]]
            if not keep:
                shutil.rmtree(a[0], ignore_errors=True)
    return tot


def parse(line):
    w = line.split()
    return tuple(int(x) for x in w[:5]) + tuple(int(x, 16) for x in w[5:9])


if __name__ == "__main__":
    import sys, time
    recs = [parse(l) for l in open(sys.argv[1]) if not l.startswith("!")]
    if len(sys.argv) > 3:
        import random
        random.seed(5)
        recs = random.sample(recs, min(len(recs), int(sys.argv[3])))
    t = time.time()
    r = judge(recs, int(sys.argv[2]), "/tmp/judge.%d" % os.getpid(), invariant=None)
    print("%d records %.1fs" % (len(recs), time.time() - t), {k: (v, r["worst"][k]) for k, v in r["judged"].items() if v}, "bad", len(r["bad"]))
    r["bad"].sort(key=lambda b: -b[2])
    for b in r["bad"][:12]:
        print(b[1], b[2], " ".join(map(str, b[0][:5])), " ".join("%x" % x for x in b[0][5:9]))
