#!/usr/bin/env python3
"""Checks one property of gcem against the Quint specification in ../spec.

  vf.py check <property> [--tier quick|thorough] [--seed N]
  vf.py baseline               list the numbers in the sources (they steer the search only)
  vf.py replay <file>          make the calls of a replay file again and judge them again

Every check builds a recorder from the headers of /repo/include as they are now, records
calls (chosen by the specification's client module and by a search of the argument space)
and lets the Quint specification decide whether the contract allows them.
"""
import argparse, itertools, json, math, os, random, re, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import judge as J

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
JOBS = 8

# id -> (name, helpers that scan it, relative cost of compiling it)
FN = {1: ("abs", "all1"), 2: ("sgn", "all1"), 3: ("signbit", "flt1"), 4: ("copysign", "flt2"), 5: ("min", "all2 int2"),
      6: ("max", "all2 int2"), 7: ("floor", "all1"), 8: ("ceil", "all1"), 9: ("trunc", "all1"), 10: ("round", "all1"),
      11: ("fmod", "all2"), 12: ("gcd", "int2 fint2"), 13: ("lcm", "int2 fint2"), 14: ("factorial", "all1"),
      15: ("binomial_coef", "int2 fint2"), 16: ("pow", "int2 pow2 flt2"), 17: ("sqrt", "all1"), 18: ("inv_sqrt", "all1"),
      19: ("hypot", "all2"), 20: ("exp", "all1"), 21: ("expm1", "all1"), 22: ("log", "all1"), 23: ("log1p", "all1"),
      24: ("log2", "all1"), 25: ("log10", "all1"), 26: ("sin", "all1"), 27: ("cos", "all1"), 28: ("tan", "all1"),
      29: ("asin", "all1"), 30: ("acos", "all1"), 31: ("atan", "all1"), 32: ("atan2", "all2"), 33: ("sinh", "all1"),
      34: ("cosh", "all1"), 35: ("tanh", "all1"), 36: ("asinh", "all1"), 37: ("acosh", "all1"), 38: ("atanh", "all1"),
      39: ("lgamma", "all1"), 40: ("tgamma", "all1"), 41: ("beta", "all2"), 42: ("lbeta", "all2"), 43: ("lmgamma", "lm2"),
      44: ("log_binomial_coef", "all2"), 45: ("erf", "all1"), 46: ("erf_inv", "all1"), 47: ("incomplete_gamma", "all2"),
      48: ("incomplete_gamma_inv", "all2"), 49: ("incomplete_beta", "all3"), 50: ("incomplete_beta_inv", "all3")}
TYPES = {0: "float", 1: "double", 2: "long double", 3: "signed char", 4: "unsigned char", 5: "short", 6: "unsigned short",
         7: "int", 8: "unsigned", 9: "long", 10: "unsigned long", 11: "bool", 14: "?", 15: ""}
HELPERCOST = {"all1": 11, "flt1": 3, "flt2": 6, "all2": 19, "int2": 19, "fint2": 6, "pow2": 14, "lm2": 22, "all3": 12}
WEIGHT = {32: 2, 41: 2, 44: 2, 47: 3, 48: 4, 49: 3, 50: 5, 16: 2, 40: 2}


def fcost(f):
    return sum(HELPERCOST[h] for h in FN[f][1].split()) * WEIGHT.get(f, 1)


def texts():
    """the headers without comments"""
    out = {}
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "include"))):
        for f in sorted(fs):
            if "gauss_legendre" not in f:
                s = open(os.path.join(d, f), errors="replace").read()
                s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
                out[f] = re.sub(r"//[^\n]*", " ", s)
    return out


def literals():
    pat = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][-+]?\d+)?|\d[\d']*\.?[\d']*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[lLfFuU]*(?![\w.])")
    out = {}
    for f, s in texts().items():
        out[f] = {}
        for m in pat.findall(s):
            m = m.replace("'", "").lower()
            m = m.lstrip("0") or "0" if m.isdigit() else m
            out[f][m] = out[f].get(m, 0) + 1
    return out


def digests():
    import hashlib
    return {f: hashlib.sha1(re.sub(r"\s+", " ", s).encode()).hexdigest()[:12] for f, s in texts().items()}


def changed():
    """functions whose header differs from the one the list was made of: they get more of the
    search (which decides nothing)"""
    base, now = json.load(open(os.path.join(ROOT, "tools", "literals.json")))["digests"], digests()
    diff = {f for f in now if base.get(f) != now[f]}
    alias = {"pow_integral.hpp": [16], "log_binomial_coef.hpp": [44], "binomial_coef.hpp": [15, 44], "is_even.hpp": [16], "is_odd.hpp": [16], "gcd.hpp": [12, 13], "lgamma.hpp": [39, 40, 41, 42],
             "neg_zero.hpp": [], "incomplete_gamma_inv.hpp": [48], "incomplete_beta_inv.hpp": [50]}
    own = {n + ".hpp": [i] for i, (n, _) in FN.items()}
    return {i for f in diff for i in own.get(f, []) + alias.get(f, [])}


class Refused(Exception):
    """the compiler rejects a program every part of which the library promises to support"""


def c_values(c):
    """checks of one family of functions sweep the small types"""
    return 6 <= c.num <= 25


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.num, self.tier, self.seed = pid, int(pid[1:]), tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.rng = random.Random(seed * 1000 + self.num)
        self.cov = {}
        self.violations = []
        self.assumptions = []
        self.calls = 0
        self.stuck = []
        self.hot = changed()
        self.defs = []      # macros the recorder is built with

    def say(self, *a):
        m = "[%s %5.1fs] %s" % (self.pid, time.time() - self.t0, " ".join(str(x) for x in a))
        print(m, flush=True)

    # ------------------------------------------------------------ building
    def dictionary(self):
        """numbers written in the sources: the recorder looks next to them, and most of all
        next to those that were not there when the list was made (tools/literals.json)"""
        seen, hot = {}, set()
        base = json.load(open(os.path.join(ROOT, "tools", "literals.json")))["numbers"]
        for n, cnt in literals().items():
            for m, k in cnt.items():
                v = float.fromhex(m) if "0x" in m and "p" in m else float(int(m, 0)) if "0x" in m else float(m)
                seen[v] = repr(v) if "0x" in m else m
                if base.get(n, {}).get(m, 0) < k:
                    hot.add(v)
        for v in list(hot):
            if 0 < v < 100 and v == int(v) and len(hot) > 6:     # small integers are everywhere
                hot.discard(v)
        p = os.path.join(self.dir, "dict")
        with open(p, "w") as f:
            f.write("\n".join(("*" if k in hot else "") + seen[k] for k in sorted(seen)) + "\n")
        return p

    def compile(self, name, src, cc, flags):
        """-> path of the program; raises Refused when the compiler rejects it"""
        c = os.path.join(self.dir, name + ".cpp")
        o = os.path.join(self.dir, name)
        open(c, "w").write(src)
        cmd = [cc] + flags + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, c, "-o", o]
        if cc == "clang++":
            cmd += ["-L/usr/lib/gcc/x86_64-linux-gnu/13"]
        cmd += ["-lquadmath"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            e = Refused(name)
            e.src, e.cmd, e.out = src, " ".join(cmd), p.stdout.decode(errors="replace")
            raise e
        return o

    def source(self, fns):
        only = {10: "int2 pow2", 11: "all2"}.get(self.num, "")
        b = "".join(" %s<F_%s>(c);" % (h, FN[f][0]) for f in fns for h in (only or FN[f][1]).split())
        boost = "#define USE_BOOST\n" if any(f >= 46 for f in fns) and not self.defs else ""
        boost += "".join("#define %s\n" % d for d in self.defs)
        return '%s#include "fns.hpp"\nstatic void body(Ctx &c) {%s }\nint main(int n, char **v) { return run(n, v, body); }\n' % (boost, b)

    def recorders(self, fns, configs, per=None):
        """builds recorders; -> {config index: [(program, fns)]}"""
        parts = []
        if per is None:
            per = max(60, sum(map(fcost, fns)) * len(configs) / JOBS)
        for f in sorted(fns, key=lambda f: -fcost(f)):
            for p in parts:
                if sum(map(fcost, p)) + fcost(f) <= per:
                    p.append(f)
                    break
            else:
                parts.append([f])
        jobs = [(ci, i, sorted(p)) for ci in range(len(configs)) for i, p in enumerate(parts)]
        out = {ci: [] for ci in range(len(configs))}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (ci, i, p), prog in zip(jobs, ex.map(lambda j: self.compile("rec%d_%d" % j[:2], self.source(j[2]), configs[j[0]][0], configs[j[0]][1]), jobs)):
                out[ci].append((prog, p))
        return out

    # ------------------------------------------------------------ recording
    def run(self, cmd, inp=None, env=None, timeout=700):
        e = dict(os.environ, **(env or {}))
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
        m = re.search(rb"calls (\d+)", p.stderr)
        if m:
            self.calls += int(m.group(1))
        return p.stdout.decode(errors="replace").splitlines()

    def scan(self, progs, fns, n, k, mode, dic, seed):
        """-> [(score, record, cfg)]; fills self.stuck with calls that did not return"""
        jobs = [(ci, prog, f) for ci in progs for prog, p in progs[ci] for f in p if f in fns]
        jobs.sort(key=lambda j: -fcost(j[2]))
        res = []

        def one(j):
            nn = n(j[2]) if callable(n) else n
            if j[2] in self.hot:
                nn *= 3 if nn < 50000 else 2
            return self.run([j[1], "scan", str(seed * 10 + j[0]), str(nn), str(k), dic, str(j[2])], env={"MODE": str(mode), "SWEEP": str((1021 if self.quick else 31) * SLOW.get(j[2], 1) if c_values(self) else 0)})
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, lines in zip(jobs, ex.map(one, jobs)):
                for l in lines:
                    if l.startswith("!"):
                        self.stuck.append((l, j[0]))
                    else:
                        w = l.split()
                        if len(w) >= 9:
                            res.append((float(w[9]) if len(w) > 9 else 0.0, J.parse(l), j[0]))
        return res

    def replay_calls(self, prog, calls, heavy=False):
        """calls: [(fn,A,B,C,a,b,c)] -> records"""
        txt = "".join("%d %d %d %d %x %x %x\n" % c for c in calls).encode()
        out = []
        for l in self.run([prog, "replay"], inp=txt, env={"HEAVY": "1e10"} if heavy else None):
            if l.startswith("!"):
                if not heavy:
                    self.stuck.append((l, 0))
            else:
                out.append(J.parse(l))
        return out

    def client_calls(self, sigs, steps, procs, module="client"):
        """behaviours of the specification's client: calls to make"""
        def one(i):
            d = os.path.join(self.dir, "client%d" % i)
            shutil.copytree(J.SPEC, d)
            with open(os.path.join(d, "sigs.qnt"), "w") as f:
                f.write("module sigs {\n  pure val SIGS: List[{ fn: int, A: int, B: int, C: int }] = [\n%s]\n}\n" %
                        ",\n".join("    { fn: %d, A: %d, B: %d, C: %d }" % s for s in sigs))
            cmd = ["quint", "run", "--main=" + module, "--invariant=wellFormed", "--max-samples=1", "--max-steps=%d" % steps,
                   "--out-itf=o.itf.json", "--verbosity=1", "--seed=%d" % (self.seed * 100 + i + 1), module + ".qnt"]
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            f = os.path.join(d, "o.itf.json")
            if p.returncode or not os.path.exists(f):
                raise J.ModelError("client: " + p.stdout.decode(errors="replace")[-2000:])
            out = []
            for st in json.load(open(f))["states"]:
                c = st["call"]
                t = tuple(J._int(c[x]) for x in ("fn", "A", "B", "C", "a", "b", "c"))
                if t[0]:
                    out.append(t)
            shutil.rmtree(d, ignore_errors=True)
            return out
        res = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, range(procs)):
                res += r
        return res

    def tuples(self, fns, configs, mode):
        """every tuple of argument types (of three arguments: some), a few calls each"""
        jobs = []
        for f in fns:
            n = ARITY[f]
            T = [t for i, t in enumerate(CTYPES[:15]) if not (f in (3, 4) and i > 2)]
            T = [t for t in T if not (f in (12, 13, 15) and t == "bool")]
            ts = list(itertools.product(T, repeat=n))
            if n == 3:
                ts = self.rng.sample(ts, 240 if self.quick else 1500)
            if f in (41, 42, 44, 47, 48, 32) and n == 2 and self.quick:
                ts = self.rng.sample(ts, 110)
            for ci in range(len(configs)):
                for k in range(0, len(ts), 60):
                    jobs.append((ci, f, k, ts[k:k + 60]))

        def one(j):
            ci, f, k, ts = j
            body = "".join(" few%d<F_%s, %s>(c);" % (ARITY[f], FN[f][0], ", ".join(t)) for t in ts)
            src = "".join("#define %s\n" % d for d in self.defs) + '#include "fns.hpp"\nstatic void body(Ctx &c) {%s }\nint main(int n, char **v) { return run(n, v, body); }\n' % body
            cc, fl = configs[ci]
            prog = self.compile("tup%d_%d_%d" % (ci, f, k), src, cc, fl[:1] + ["-O0"])
            lines = self.run([prog, "scan", str(self.seed * 10 + ci), str((90 if self.quick else 400) // min(4, SLOW.get(f, 1))), "1", self.dic, str(f)], env={"MODE": str(mode), "FEW": "1"})
            os.unlink(prog)
            return lines
        self.dic = self.dictionary()
        res = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, lines in zip(jobs, ex.map(one, jobs)):
                for l in lines:
                    if l.startswith("!"):
                        self.stuck.append((l, j[0]))
                    else:
                        w = l.split()
                        res.append((float(w[9]) if len(w) > 9 else 0.0, J.parse(l), j[0]))
        return res

    # ------------------------------------------------------------ choosing what the specification judges
    def select(self, scanned, cap):
        """scanned: [(score, rec, cfg)]; at most cap of them: the most telling of every
        function and type, every special value that fits, and a random sample"""
        groups = {}
        for s in scanned:
            r = s[1]
            groups.setdefault((r[0], r[4], r[1] > 2), []).append(s)
        base = max(60, cap // max(1, len(groups)))
        out = []
        for key in sorted(groups):
            g = groups[key]
            g.sort(key=lambda s: (-s[0], s[1]))
            share = base * 4 if key[0] in self.hot and len(groups) > 30 else base
            if len(g) > share:
                top = [s for s in g if s[0] > 0][:share // 2]
                sp = [s for s in g if s[0] == 0]
                rest = [s for s in g[len(top):] if s[0] > 0]
                spn = min(len(sp), share // 4 if rest else share)
                g = top + self.rng.sample(sp, spn) + self.rng.sample(rest, max(0, min(len(rest), share - len(top) - spn)))
            out += g
        seen, res = set(), []
        for s in out:
            k = (s[1], s[2])
            if k not in seen:
                seen.add(k)
                res.append(s[1] + (s[2],))
        return res

    # ------------------------------------------------------------ reporting
    def describe(self, r):
        """a record in C++ terms"""
        args = [val(r[5 + i], r[1 + i]) for i in range(3) if r[1 + i] != 15]
        return "gcem::%s(%s) -> %s" % (FN[r[0]][0], ", ".join(args), val(r[8], r[4]))

    def violate(self, what, body, kind):
        """writes a replay file; -> prints the line"""
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        json.dump({"property": self.pid, "kind": kind, "what": what, "data": body}, open(p, "w"), indent=1)
        self.violations.append(what)
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def known(self):
        out = []
        p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) call=\[([^\]]*)\] (.*)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.say("done:", "%d violation(s)" % len(self.violations), json.dumps({k: v for k, v in self.cov.items() if k not in ("samples", "rule")}))
        return 1 if self.violations else 0


def fields(bits, t):
    """sign, exponent field, largest exponent field, fraction"""
    if t == 0:
        return bits >> 31, bits >> 23 & 255, 255, bits & (2**23 - 1)
    if t == 1:
        return bits >> 63, bits >> 52 & 2047, 2047, bits & (2**52 - 1)
    return bits >> 79, bits >> 64 & 0x7fff, 0x7fff, bits & (2**63 - 1)


def isnan(bits, t):
    if t > 2:
        return False
    s, e, m, f = fields(bits, t)
    return e == m and f != 0


def edge(bits, t):
    """infinite, zero, one, NaN or negative"""
    if t > 2:
        w = {3: 8, 4: 8, 5: 16, 6: 16, 7: 32, 8: 32, 9: 64, 10: 64, 11: 1}.get(t, 80)
        return bits < 2 or bits >> (w - 1) == 1
    s, e, m, f = fields(bits, t)
    return s == 1 or e == m or e == 0 or (e == m // 2 and f == 0)


def val(bits, t):
    if t == 0:
        import struct
        return "%s (float %s)" % (repr(struct.unpack("<f", bits.to_bytes(4, "little"))[0]), hex(bits))
    if t == 1:
        import struct
        return "%s" % repr(struct.unpack("<d", bits.to_bytes(8, "little"))[0])
    if t == 2:
        e, m, s = bits >> 64 & 0x7fff, bits & (2**64 - 1), "-" if bits >> 79 else ""
        if e == 0x7fff:
            return (s + "inf" if m << 1 & (2**64 - 1) == 0 else "nan") + "L"
        if m == 0:
            return s + "0.0L"
        return "%s%dp%dL" % (s, m, max(e, 1) - 16383 - 63)
    if t == 15:
        return ""
    if t == 14:
        return "(unknown type) 0x%x" % bits
    w = {3: 8, 4: 8, 5: 16, 6: 16, 7: 32, 8: 32, 9: 64, 10: 64, 11: 1}[t]
    v = bits & (2**w - 1)
    if t in (3, 5, 7, 9) and v >> (w - 1):
        v -= 2**w
    return "(%s)%d" % (TYPES[t], v)


# ---------------------------------------------------------------- running other models
def model(c, main, data, steps, invariant="accepted", timeout=700, seed=1):
    """quint run of one behaviour of a model over generated data modules; -> states of the ITF trace"""
    d = tempfile.mkdtemp(prefix=main, dir=c.dir)
    for f in os.listdir(J.SPEC):
        if f.endswith(".qnt"):
            shutil.copy(os.path.join(J.SPEC, f), d)
    for n, t in data.items():
        open(os.path.join(d, n + ".qnt"), "w").write(t)
    cmd = ["quint", "run", "--main=" + main, "--max-samples=1", "--max-steps=%d" % steps, "--out-itf=o.itf.json",
           "--verbosity=1", "--seed=%d" % seed]
    if invariant:
        cmd.append("--invariant=" + invariant)
    p = subprocess.run(cmd + [main + ".qnt"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=dict(os.environ, NODE_OPTIONS="--max-old-space-size=3000"))
    f = os.path.join(d, "o.itf.json")
    if not os.path.exists(f):
        raise J.ModelError("%s: %s" % (main, p.stdout.decode(errors="replace")[-3000:]))
    st = json.load(open(f))["states"]
    shutil.rmtree(d, ignore_errors=True)
    return st


def laws(c, mains):
    """the tests of the specification itself (quint test); they do not involve the code"""
    def one(m):
        p = subprocess.run(["quint", "test", "--main=" + m, "--max-samples=100", m + ".qnt"], cwd=J.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode:
            raise J.ModelError("laws of %s: %s" % (m, p.stdout.decode(errors="replace")[-2000:]))
        return int((re.search(r"(\d+) passing", p.stdout.decode(errors="replace")) or [0, 0])[1])
    with cf.ThreadPoolExecutor(4) as ex:
        return sum(ex.map(one, mains))


# models of the recursions inside the functions (spec/algo.qnt); they do not involve the code
ALGO = {6: ["rounding"], 8: ["euclid"], 9: ["pascal"], 10: ["squaring"], 12: ["newton"], 14: ["scaling"], 15: ["turns"],
        28: ["euclid", "pascal", "squaring", "newton", "scaling", "turns"]}


def algorithms(c):
    """TLC visits every state of the models (compiled to TLA+ from algo.qnt); thorough: the
    simulator runs the Quint text as well"""
    out = {}
    for m in ALGO.get(c.num, []):
        d = os.path.join(c.dir, "tla_" + m)
        shutil.copytree(os.path.join(J.SPEC, "tla"), d)
        # folds over long sequences recurse deeply in TLC
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss256m")
        for attempt in range(3):
            try:
                p = subprocess.run(["tlc", "-deadlock", "-noGenerateSpecTE", "-workers", "2", "-config", "algo.cfg", m + ".tla"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                t = p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                t = "stopped after 200 s"
            n = re.search(r"([\d,]+) distinct states found, 0 states left", t)
            if "No error has been found" in t and n:
                out[m] = int(n[1].replace(",", ""))
                break
            if "is violated" in t:
                raise J.ModelError("model %s: %s" % (m, t[-2000:]))
        else:       # the models are about the design; the calls below decide about the code
            out[m] = "not explored: " + t[-300:]
        if not c.quick:
            p = subprocess.run(["quint", "run", "--main=" + m, "--invariant=correct", "--max-samples=3000", "--max-steps=30", "--verbosity=1", "--seed=%d" % c.seed, "algo.qnt"],
                               cwd=J.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode:
                raise J.ModelError("model %s: %s" % (m, p.stdout.decode(errors="replace")[-2000:]))
        shutil.rmtree(d, ignore_errors=True)
    return out


# ---------------------------------------------------------------- C01 the table of types
CTYPES = ["float", "double", "long double", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned",
          "long", "unsigned long", "bool", "long long", "unsigned long long", "char", "void", "wchar_t", "char16_t", "char32_t"]     # 15 marks a missing argument
TYPEID = [(i, t) for i, t in enumerate(CTYPES) if i != 15]
ARITY = {f: 1 if h in ("all1", "flt1") else 3 if h == "all3" else 2 for f, (n, hs) in FN.items() for h in [hs.split()[0]]}


def type_source():
    o = ['#include "gcem.hpp"', "#include <cstdio>", "#include <utility>", "template<class T> struct I { enum { v = 99 }; };"]
    o += ["template<> struct I<%s> { enum { v = %d }; };" % (t, i) for i, t in TYPEID]
    o.append("template<class...> struct vd { typedef void t; };")
    for f, (n, _) in sorted(FN.items()):
        ps = ["A", "B", "C"][:ARITY[f]]
        cls, dv = ", ".join("class " + p for p in ps), ", ".join("std::declval<%s>()" % p for p in ps)
        o.append("template<class V, %s> struct X%d { enum { v = 98, n = 0 }; };" % (cls, f))
        o.append("template<%s> struct X%d<typename vd<decltype(gcem::%s(%s))>::t, %s> { enum { v = I<decltype(gcem::%s(%s))>::v, n = noexcept(gcem::%s(%s)) }; };"
                 % (cls, f, n, dv, ", ".join(ps), n, dv, n, dv))
    for ar, sig in ((3, "class A, class B, class C"), (2, "class A, class B"), (1, "class A")):
        o.append("template<%s> void p%d(%s) {" % (sig, ar, ", ".join("int " + x for x in "abc"[:ar])))
        ids = (["a", "b", "c"][:ar] + ["15", "15"])[:3]
        for f in sorted(FN):
            if ARITY[f] == ar:
                t = ",".join("ABC"[:ar])
                o.append('printf("%d %%d %%d %%d %%d %%d\\n", %s, (int)X%d<void,%s>::v, (int)X%d<void,%s>::n);' % (f, ", ".join(ids), f, t, f, t))
        if ar < 3:
            for j, ty in TYPEID:
                o.append("p%d<%s,%s>(%s,%d);" % (ar + 1, ",".join("ABC"[:ar]), ty, ",".join("abc"[:ar]), j))
        o.append("}")
    o.append("int main() {" + " ".join("p1<%s>(%d);" % (t, i) for i, t in TYPEID) + "}")
    return "\n".join(o) + "\n"


def check_types(c):
    configs = [CXX11, CXX17] if c.quick else [CXX11, CXX17, CXX14, CXX20, CLANG11]
    src = type_source()
    total, states, sample = 0, 0, []

    def one(i):
        prog = c.compile("types%d" % i, src, configs[i][0], configs[i][1][:1] + ["-O0"])
        ent = [tuple(map(int, l.split())) for l in c.run([prog])]
        by = {}
        for e in ent:
            by.setdefault(e[0], []).append(e)
        fns = sorted(by)
        w = lambda e: ((((e[0] << 5 | e[1]) << 5 | e[2]) << 5 | e[3]) << 8 | e[4]) << 8 | e[5]
        data = "module typedata {\n  pure val fns: List[int] = [%s]\n  pure val tables: List[int] = [%s]\n  pure val sizes: List[int] = [%s]\n}\n" % (
            ", ".join(map(str, fns)), ", ".join("0x%x" % sum(w(e) << (40 * j) for j, e in enumerate(by[f])) for f in fns),
            ", ".join(str(len(by[f])) for f in fns))
        st = model(c, "types", {"typedata": data}, len(fns) + 1, invariant=None)
        return ent, fns, st
    n = laws(c, ["types"])
    with cf.ThreadPoolExecutor(3) as ex:
        for i, (ent, fns, st) in enumerate(ex.map(one, range(len(configs)))):
            last = st[-1]
            if J._int(last["l"]) != len(fns) or fns != sorted(FN):
                raise J.ModelError("the table of types is incomplete: %d of %d functions" % (J._int(last["l"]), len(FN)))
            total += J._int(last["seen"])
            states += len(st)
            sample = ["%s(%s) has type %s" % (FN[e[0]][0], ", ".join(CTYPES[x] for x in e[1:4] if x != 15), CTYPES[e[4]]) for e in c.rng.sample(ent, 4) if e[4] < 19]
            for w in [J._int(x) for x in last["bad"]][:3 if len(c.violations) < 3 else 0]:
                f, a, b, d, r, ne = w >> 31, w >> 26 & 31, w >> 21 & 31, w >> 16 & 31, w >> 8 & 255, w & 255
                c.violate("gcem::%s(%s): %s%s  [%s %s]" % (FN[f][0], ", ".join(CTYPES[x] for x in (a, b, d) if x != 15),
                          "no such call" if r == 98 else "another type than the 18 arithmetic ones" if r == 99 else "type " + CTYPES[r], "" if ne else ", not noexcept", configs[i][0], configs[i][1][0]),
                          {"entry": w, "config": [configs[i][0], configs[i][1]]}, "type")
    c.cov.update({"states": states, "transitions": states - len(configs), "traces_validated_against_impl": len(configs), "entries": total, "samples": sample, "laws": n, "exhaustive": True,
                  "evaluations": total, "distinct_nontrivial": total // len(configs), "rule": "an entry is a function with a tuple of argument types; every tuple of the 18 arithmetic types occurs once per compiler"})
    return c.finish("model_checking")


# ---------------------------------------------------------------- C29 the quadrature tables
def check_tables(c):
    inc = os.path.join(REPO, "include", "gcem_incl", "quadrature")
    rules = {}
    for n in (30, 50):
        src = ('#include <cstdio>\n#include <cstring>\nnamespace q {\n#include "gcem_incl/quadrature/gauss_legendre_%d.hpp"\n}\n'
               'template<class T, int N> void put(const T (&a)[N]) { for (int i = 0; i < N; i++) { long double x = a[i]; unsigned char b[16] = {0}; memcpy(b, &x, 10); '
               'for (int j = 9; j >= 0; j--) printf("%%02x", b[j]); putchar(32); } puts(""); }\n'
               'int main() { put(q::gauss_legendre_%d_points); put(q::gauss_legendre_%d_weights); }\n') % (n, n, n)
        try:
            out = c.run([c.compile("gl%d" % n, src, "g++", ["-std=c++11"])])
            rules[n] = [[int(x, 16) for x in l.split()] for l in out]
        except Refused:
            # the arrays have other names: take the numbers from the text
            t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(inc, "gauss_legendre_%d.hpp" % n)).read(), flags=re.S)
            lists = [re.findall(r"-?\d*\.\d+(?:[eE][-+]?\d+)?", b) for b in re.findall(r"\{([^{}]*)\}", t)]
            src = '#include <cstdio>\n#include <cstring>\nint main() {\n'
            for b in lists:
                src += " { long double a[] = { %s }; for (long double x : a) { unsigned char b[16] = {0}; memcpy(b, &x, 10); for (int j = 9; j >= 0; j--) printf(\"%%02x\", b[j]); putchar(32); } puts(\"\"); }\n" % ", ".join(x + "L" for x in b)
            out = c.run([c.compile("gt%d" % n, src + "}\n", "g++", ["-std=c++11"])])
            rules[n] = [[int(x, 16) for x in l.split()] for l in out][:2]
    data = "module tabledata {\n  pure val points: List[int] = [%s]\n  pure val nodes: List[List[int]] = [%s]\n  pure val weights: List[List[int]] = [%s]\n}\n" % (
        ", ".join(map(str, rules)), ", ".join("[" + ", ".join("0x%x" % x for x in rules[n][0]) + "]" for n in rules),
        ", ".join("[" + ", ".join("0x%x" % x for x in rules[n][1]) + "]" for n in rules))
    for n in rules:
        if len(rules[n]) != 2 or len(rules[n][0]) != n or len(rules[n][1]) != n:
            c.violate("the %d-point table does not have %d nodes and weights" % (n, n), rules[n], "table")
    steps = sum(3 * n + 1 for n in rules)
    if not c.violations:
        st = model(c, "tables", {"tabledata": data}, steps)
        last = st[-1]
        if not last["ok"]:
            t, k = J._int(last["t"]), J._int(last["k"]) - 1
            n = list(rules)[t]
            what = ("entry %d (node %s, weight %s) of the %d-point table" % (k, val(rules[n][0][k], 2), val(rules[n][1][k], 2), n) if k < n
                    else "the %d-point rule does not integrate x^%d" % (n, k - n))
            c.violate(what, {"table": n, "step": k}, "table")
        elif J._int(last["t"]) != len(rules):
            raise J.ModelError("tables: stopped at %s %s" % (last["t"], last["k"]))
        c.cov.update({"states": len(st), "transitions": len(st) - 1, "traces_validated_against_impl": len(rules), "exhaustive": True,
                      "samples": ["node %s weight %s" % (val(rules[50][0][i], 2), val(rules[50][1][i], 2)) for i in c.rng.sample(range(50), 3)]})
    else:
        c.cov.update({"states": 1, "transitions": 0, "traces_validated_against_impl": 0, "samples": [str(rules)[:200]]})
    return c.finish("model_checking")


# ---------------------------------------------------------------- properties about values
CXX11 = ("g++", ["-std=c++11", "-O1"])
CXX17 = ("clang++", ["-std=c++17", "-O2"])
CXX14 = ("g++", ["-std=c++14", "-O2"])
CXX20 = ("g++", ["-std=c++20", "-O3"])
CLANG11 = ("clang++", ["-std=c++11", "-O0"])
OWN = {6: [7, 8, 9, 10], 7: [1, 2, 3, 4, 5, 6], 8: [12, 13], 9: [14, 15], 10: [16], 11: [16], 12: [17, 18, 19], 13: [20, 21],
       14: [22, 23, 24, 25], 15: [26, 27, 28], 16: [29, 30, 31, 32], 17: [33, 34, 35], 18: [36, 37, 38],
       19: [14, 39, 40, 41, 42, 43, 44], 20: [45], 21: [46], 22: [47], 23: [49], 24: [48, 50], 25: [11]}
SLOW = {46: 12, 47: 4, 48: 60, 50: 8, 40: 2, 14: 3, 49: 2, 16: 2, 12: 4, 13: 4, 5: 8, 6: 8, 15: 2}
EVERY = sorted(FN)


def budget(c, f):
    n = (400000 if c.quick else 8000000) // SLOW.get(f, 1)
    return n


def values(c, fns, modes=(0,), n=None, cap=None, configs=None, module="client", sigs=None, steps=None, prop=None):
    """records calls of the functions and judges them; -> result of the judge"""
    configs = configs or ([CXX11, CXX17] if c.quick else [CXX11, CXX17, CXX14, CXX20, CLANG11])
    with cf.ThreadPoolExecutor(1) as ex:
        models = ex.submit(algorithms, c)
        progs = c.recorders(fns, configs)
        if c.num in ALGO:
            c.cov["algorithm_models"] = models.result()
    c.say("built", sum(map(len, progs.values())), "recorder(s)")
    dic = c.dictionary()
    scanned = []
    for m in modes:
        scanned += c.scan(progs, fns, n or (lambda f: budget(c, f)), 1 if c.quick else 2, m, dic, c.seed)
    if c.num in (7, 8, 9, 10, 11, 12, 25):
        scanned += c.tuples(fns, configs, 0)
    if c.num == 4:    # calls with a NaN
        scanned = [s for s in scanned if any(isnan(s[1][5 + i], s[1][1 + i]) for i in range(3))]
    if c.num == 5:    # mostly calls with an infinite, zero or negative argument, or such a result
        a = [s for s in scanned if not any(isnan(s[1][5 + i], s[1][1 + i]) for i in range(3)) and any(edge(s[1][5 + i], s[1][1 + i]) for i in range(4) if s[1][1 + i] != 15)]
        scanned = a + c.rng.sample(scanned, len(scanned) // 10)
    c.say("scanned", len(scanned), "candidate calls out of", c.calls)
    recs = c.select(scanned, cap or (24000 if c.quick else 400000))
    # calls the specification's client makes
    ran = 0
    allsigs = []
    owner = {}
    for prog, p in progs[0]:
        for l in c.run([prog, "list"]):
            s = tuple(map(int, l.split()))
            allsigs.append(s)
            owner[s] = prog
    c.sigs = set(allsigs)
    gen = c.client_calls(allsigs, steps or (800 if c.quick else 10000), JOBS, module)
    have = {r[:4] + r[5:8] for r in recs}
    gen = sorted(set(gen) - have)
    for ci in progs:
        by = {}
        own = {s: prog for prog, p in progs[ci] for s in allsigs if s[0] in p}
        for g in gen[ci::len(progs)]:
            by.setdefault(own[g[:4]], []).append(g)
        for prog in sorted(by):
            for r in c.replay_calls(prog, by[prog]):
                recs.append(r + (ci,))
                ran += 1
    if c.num == 9:
        recs += heavy_calls(c, progs, allsigs)
    if c.num in SMALLEST:
        n = len(recs)
        recs += smallest(c, progs, allsigs)
        c.cov["exhaustive_8bit_calls"] = len(recs) - n
    c.say("client made", ran, "calls;", len(recs), "records to judge")
    return verdict(c, recs, progs, configs, ran, prop)


# functions of two integers: every pair of 8-bit numbers
SMALLEST = {7: [5, 6], 8: [12, 13], 9: [15], 10: [16], 25: [11]}


def smallest(c, progs, allsigs):
    out = []
    for f in SMALLEST[c.num]:
        for s in [(f, 3, 3, 15), (f, 4, 4, 15), (f, 3, 4, 15), (f, 4, 3, 15)][:1 if c.quick else 4]:
            if s not in allsigs:
                continue
            ci = c.rng.randrange(len(progs))
            prog = [p for p, fs in progs[ci] if f in fs][0]
            out += [r + (ci,) for r in c.replay_calls(prog, [s + (a, b, 0) for a in range(256) for b in range(256)])]
    return out


def heavy_calls(c, progs, allsigs):
    """coefficients next to 2^31, 2^32 and above: seconds each, as the additions are made one by one"""
    nk = [(33, 16), (34, 17), (35, 17), (35, 18)] + ([] if c.quick else [(36, 18), (37, 13), (63, 8), (500, 4)])
    top = {7: 2**31, 8: 2**32, 9: 2**63, 10: 2**64, 0: 2**24}
    jobs = []
    for s in [(15, 1, 1, 15), (15, 9, 9, 15), (15, 10, 10, 15), (15, 2, 2, 15), (15, 7, 7, 15), (15, 8, 8, 15), (15, 1, 7, 15), (15, 7, 9, 15)]:
        if s in allsigs:
            for n, k in nk:
                t = min(x for x in s[1:3]) if min(s[1:3]) < 3 else max(s[1:3])
                if c.quick and (n, k) != (34 if 8 in s else 33 if s[1:3] == (7, 7) else 35, 17 if 8 in s or s[1:3] != (7, 7) else 16):
                    continue
                if math.comb(n, k) < top.get(t, 2**53):
                    jobs.append(s + (encode(n, s[1]), encode(k, s[2]), 0))
    ci = 1
    prog = [p for p, fs in progs[ci] if 15 in fs][0]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [r + (ci,) for rs in ex.map(lambda j: c.replay_calls(prog, [j], heavy=True), jobs) for r in rs]


def encode(n, t):
    """a small integer as bits of a type"""
    import struct
    if t > 2:
        return n
    if t == 0:
        return int.from_bytes(struct.pack("<f", n), "little")
    if t == 1:
        return int.from_bytes(struct.pack("<d", n), "little")
    if n == 0:
        return 0
    e = n.bit_length() - 1
    return (16383 + e) << 64 | n << (63 - e)


def report_stuck(c, configs):
    for l, ci in c.stuck[:2]:
        w = l.split()
        c.violate("gcem::%s(%s) %s  [%s %s]" % (FN[int(w[1])][0], ", ".join(val(int(w[5 + i], 16), int(w[2 + i])) for i in range(3) if w[2 + i] != "15"),
                  w[8], configs[ci][0], " ".join(configs[ci][1])), {"line": l, "config": [configs[ci][0], configs[ci][1]]}, "stuck")


def verdict(c, recs, progs, configs, ran, prop=None):
    prop = c.num if prop is None else prop
    # the stuck calls go to the specification as well: a call has to return
    res = J.judge(recs, prop, c.dir, JOBS)
    judged = res["judged"].get(prop, 0) if prop else sum(n for p, n in res["judged"].items() if p)
    top = prop or max(res["peak"], key=lambda p: res["worst"].get(p, 0), default=0)
    c.say("specification judged", judged, "calls under", c.pid, "of", len(recs), "worst use of tolerance %d/1000" % res["worst"].get(top, 0),
          c.describe(res["peak"][top]) if top in res["peak"] else "")
    bad = sorted(res["bad"], key=lambda b: -b[2])
    known = c.known()
    hit = set()
    fresh = []
    for b in bad:
        key = " ".join(map(str, b[0][:4])) + " " + " ".join("%x" % x for x in b[0][5:8])
        kn = [w for k, w in known if k == key]
        if kn:
            hit.add((key, kn[0]))
        else:
            fresh.append(b)
    for k, w in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (c.pid, w), flush=True)
    # make the call again: only what repeats is reported
    shown = 0
    for r, p, q in fresh[:40]:
        again = None
        for prog, fs in progs[r[9]]:
            if r[0] in fs:
                again = c.replay_calls(prog, [r[:4] + r[5:8]], heavy=c.num == 9)
                break
        if (again and again[0][8] != r[8]) or (not again and r[:4] in c.sigs):
            c.say("not repeatable:", c.describe(r))
            continue
        if shown < 3:
            cc, fl = configs[r[9]]
            c.violate("%s  [%s %s; tolerance used %d/1000]" % (c.describe(r), cc, " ".join(fl), q),
                      {"record": list(r), "config": [cc, fl], "q": q}, "value")
        shown += 1
    report_stuck(c, configs)
    sample = [c.describe(r) for r in c.rng.sample(recs, min(4, len(recs)))]
    c.cov.update({"evaluations": c.cov.get("evaluations", 0) + len(recs), "distinct_nontrivial": c.cov.get("distinct_nontrivial", 0) + judged,
                  "rule": "a case is one call of the real code (function, argument types, argument bits, result bits); cases are distinct by construction and count as non-trivial when the specification's clause for this property, not another one, governs them",
                  "calls_searched": c.calls, "calls_from_specification": ran, "states": res["states"], "worst_permille": res["worst"].get(top, 0), "worst_call": c.describe(res["peak"][top]) if top in res["peak"] else "none",
                  "traces_validated_against_impl": res["shards"], "samples": sample})
    return res


def check_values(c):
    values(c, OWN[c.num])
    c.assumptions += ["the arithmetic of the Quint specification (its tests compare it with known constants and identities)",
                      "the search ranks calls with libquadmath/Boost; that ranking decides nothing"]
    return c.finish("exploration")


def check_nan(c):
    values(c, EVERY, modes=(1,), n=lambda f: 3000 if c.quick else 100000, cap=30000 if c.quick else 200000, steps=500)
    return c.finish("exploration")


def check_limits(c):
    values(c, [f for f in EVERY if f not in (1, 2, 3, 4, 5, 6, 12, 13, 15)], modes=(2,), n=lambda f: (20000 if c.quick else 400000) // SLOW.get(f, 1), cap=48000 if c.quick else 300000, steps=800)
    return c.finish("exploration")


# ---------------------------------------------------------------- C30 other iteration limits
ITERATIONS = {"ERF_MAX_ITER": 60, "ERF_INV_MAX_ITER": 60, "EXP_MAX_ITER_SMALL": 25, "LOG_MAX_ITER_SMALL": 25, "LOG_MAX_ITER_BIG": 255, "INCML_BETA_MAX_ITER": 205,
              "INCML_BETA_INV_MAX_ITER": 35, "INCML_GAMMA_MAX_ITER": 55, "INCML_GAMMA_INV_MAX_ITER": 35, "SQRT_MAX_ITER": 100, "INV_SQRT_MAX_ITER": 100,
              "TAN_MAX_ITER": 35, "TANH_MAX_ITER": 35}
LIMITED = [11, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 33, 34, 35, 36, 37, 38, 39, 40, 41, 44, 45, 46, 47, 48, 49, 50]


def check_raised(c):
    """the contract with raised iteration limits: all four times, and each by a factor of its own"""
    def flags(k):
        return ["-DGCEM_%s=%d" % (n, k(v)) for n, v in sorted(ITERATIONS.items())]
    def drawn(v):
        return v + c.rng.randrange(0, 3 * v + 1)
    configs = [("g++", ["-std=c++11", "-O1"] + flags(lambda v: 4 * v)), ("clang++", ["-std=c++17", "-O2"] + flags(lambda v: 4 * v)),
               (("g++", "clang++")[c.seed % 2], ["-std=c++11", "-O1"] + flags(drawn))]
    if not c.quick:
        configs += [("g++", ["-std=c++17", "-O2"] + flags(lambda v: 2 * v)), ("clang++", ["-std=c++11", "-O2"] + flags(lambda v: v + 1)),
                    ("clang++", ["-std=c++20", "-O2"] + flags(drawn))]
    values(c, LIMITED, n=lambda f: budget(c, f) // 8, cap=24000 if c.quick else 200000, configs=configs, steps=400 if c.quick else 4000, prop=0)
    return c.finish("exploration")


# ---------------------------------------------------------------- C26 C27 relations between two calls
RELATED = {26: [1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 41, 42, 45, 46],
           27: [f for f in EVERY if f >= 7 and f not in (12, 13, 14, 15, 43)]}


def pairs_of(recs):
    return [(recs[i][0], recs[i][1], recs[i + 1][1], recs[i][2]) for i in range(0, len(recs) - 1, 2)]


def check_pairs(c):
    fns, mode = RELATED[c.num], 3 if c.num == 26 else 4
    configs = [CXX11, CXX17] if c.quick else [CXX11, CXX17, CXX14, CXX20, CLANG11]
    c.defs = ["RELATIONS"]
    progs = c.recorders(fns, configs)
    c.say("built", sum(map(len, progs.values())), "recorder(s)")
    n = lambda f: (60000 if c.quick else 2000000) // SLOW.get(f, 1) // (1 if mode == 3 else 2)
    found = pairs_of(c.scan(progs, fns, n, 1 if c.quick else 2, mode, c.dictionary(), c.seed))
    if c.num == 27:
        found += pairs_of(c.tuples(fns, configs, mode))
    c.say("found", len(found), "pairs in", c.calls, "calls")
    cap = 20000 if c.quick else 250000
    groups = {}
    for p in found:
        groups.setdefault((p[1][:5], p[3]), []).append(p)
    share = max(8, cap // max(1, len(groups)))
    chosen = []
    for k in sorted(groups):
        g = sorted(set(groups[k]), key=lambda p: (-p[0], p[1], p[2]))
        top = [p for p in g if p[0] > 0.5][:share // 2 + 1]
        rest = g[len(top):]
        chosen += top + c.rng.sample(rest, min(len(rest), share - len(top)))
    # calls of the specification's client, each with its mates
    sigs, own = [], {}
    for prog, p in progs[0]:
        for l in c.run([prog, "list"]):
            sigs.append(tuple(map(int, l.split())))
    gen = sorted(set(c.client_calls(sigs, 600 if c.quick else 6000, JOBS)))
    ran = 0
    for ci in progs:
        own = {f: prog for prog, p in progs[ci] for f in p}
        by = {}
        for g in gen[ci::len(progs)]:
            by.setdefault(own[g[0]], []).append(g)
        for prog in sorted(by):
            out = c.run([prog, "replay"], inp="".join("%d %d %d %d %x %x %x\n" % x for x in by[prog]).encode(), env={"RELATION": str(mode)})
            for l in out:
                if l.startswith("!"):
                    c.stuck.append((l, ci))
            rs = [(0, J.parse(l), ci) for l in out if not l.startswith("!")]
            chosen += pairs_of(rs)
            ran += len(rs) // 2
    c.say("client made", ran, "pairs;", len(chosen), "pairs to judge")
    recs = [r + (p[3],) for p in chosen for r in (p[1], p[2])]
    mate = {recs[i]: recs[i + 1] for i in range(0, len(recs), 2)}
    res = J.judge(recs, c.num, c.dir, JOBS, main="pairs")
    judged = res["judged"].get(c.num, 0)
    c.say("specification judged", judged, "relations under", c.pid)
    shown = 0
    for r, p, q in res["bad"][:200]:
        m = mate.get(r, r)
        prog = [g for g, fs in progs[r[9]] if r[0] in fs][0]
        if shown < 3:
            # only what repeats is reported
            again = [J.parse(l) for l in c.run([prog, "replay"], inp=("%d %d %d %d %x %x %x\n" % (r[:4] + r[5:8])).encode(), env={"RELATION": str(mode)}) if not l.startswith("!")]
            if again and r[:9] not in again:
                c.say("not repeatable:", c.describe(r))
                continue
            cc, fl = configs[r[9]]
            c.violate("%s but %s  [%s %s]" % (c.describe(r), c.describe(m), cc, " ".join(fl)), {"record": list(r), "mate": list(m), "config": [cc, fl]}, "pair")
        shown += 1
    report_stuck(c, configs)
    kinds = {}
    for p in chosen:
        kinds[FN[p[1][0]][0]] = kinds.get(FN[p[1][0]][0], 0) + 1
    c.cov.update({"evaluations": len(recs), "distinct_nontrivial": judged,
                  "rule": "a case is a pair of calls of the real code (a call and its mirror image, exchange or conversion); it counts as non-trivial when the specification finds the relation applies to the pair",
                  "calls_searched": c.calls, "pairs_from_specification": ran, "states": res["states"], "pairs_by_function": kinds,
                  "traces_validated_against_impl": res["shards"],
                  "samples": ["%s and %s" % (c.describe(p[1]), c.describe(p[2])) for p in c.rng.sample(chosen, min(4, len(chosen)))]})
    c.assumptions += ["arithmetic of the Quint specification"]
    return c.finish("exploration")


# ---------------------------------------------------------------- C02 C03 C28 evaluations of one call
def late(std):
    return 0 if std.endswith("++11") else 32


def sig(r):
    return r[:4] + r[5:8]


def agree(c, recs, prop):
    res = J.judge(recs, prop, c.dir, JOBS, main="agree")
    c.say("specification judged", res["judged"].get(prop, 0), "evaluations under", c.pid, "of", len(recs))
    return res


# quick and thorough: compiler, flags; the first of each class of standards is scanned
ENV3 = [("g++", ["-std=c++11", "-O0"]), ("g++", ["-std=c++11", "-O2", "-DNDEBUG", "-DAMONG_OTHERS"]), ("clang++", ["-std=c++11", "-O1", "-DGCEM_FIRST"]),
        ("clang++", ["-std=c++17", "-O0"]), ("g++", ["-std=gnu++20", "-O3", "-DGCEM_FIRST"]), ("clang++", ["-std=c++14", "-Os", "-DNDEBUG", "-DAMONG_OTHERS"])]
ENV3T = [("g++", ["-std=gnu++11", "-O3"]), ("clang++", ["-std=c++11", "-O3", "-DNDEBUG"]), ("g++", ["-std=c++11", "-Os"]),
         ("g++", ["-std=c++17", "-O1", "-fPIC"]), ("clang++", ["-std=gnu++20", "-O3"]), ("g++", ["-std=c++14", "-O0"])]


def units(c, cc, flags):
    """one program of two units that both use every function; -> records of either"""
    body = ""
    for f, (n, _) in sorted(FN.items()):
        for t in (["float", "double", "long double"] + ([] if f in (3, 4) else ["int"])):
            args = {14: "4", 15: "7,3", 43: "3,2", 37: "2", 46: "0", 48: "2,0", 50: "2,3,1"}.get(f)
            if f in (12, 13):
                args = "12,18"
            if args is None or t != "int":
                args = {12: "12,18", 13: "12,18", 15: "7,3", 14: "4", 43: "3,2", 37: "1.75", 46: "0.3125", 48: "2.5,0.25", 50: "2.5,3,0.25", 49: "2.5,3,0.25"}.get(f, ["0.75", "1.25,0.625", ""][ARITY[f] - 1]) if t != "int" else args or ["2", "3,2", "2,3,1"][ARITY[f] - 1]
            a = args.split(",")
            body += " put(call%d<F_%s>(%s));" % (ARITY[f], n, ", ".join("id<%s>(%s)" % (t, x) for x in a))
    tpl = '#include "fns.hpp"\n#include "gcem.hpp"\nstatic void put(const Rec &r) { put(stdout, r); }\ntemplate<class T> static T id(double x) { volatile T y = (T)x; return y; }\nvoid %s() {%s }\n'
    srcs = {"u1": tpl % ("unit1", body) + "void unit2(); int main(int n, char **) { if (n > 1) { unit2(); unit1(); } else { unit1(); unit2(); } }\n", "u2": '#include "gcem.hpp"\n' + tpl % ("unit2", body)}
    objs = []
    for n in srcs:
        p = os.path.join(c.dir, "%s_%s" % (cc, n))
        open(p + ".cpp", "w").write(srcs[n])
        objs.append(p)
    base = [cc] + flags + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
    jobs = [base + ["-c", o + ".cpp", "-o", o + ".o"] for o in objs] + [base + [o + ".o" for o in objs] + ["-o", objs[0], "-lquadmath"] + (["-L/usr/lib/gcc/x86_64-linux-gnu/13"] if cc == "clang++" else [])]
    for j in jobs:
        p = subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            e = Refused("two units")
            e.src, e.cmd, e.out = srcs["u2"], " ".join(j), p.stdout.decode(errors="replace")
            raise e
    out = [J.parse(l) for l in c.run([objs[0]]) + c.run([objs[0], "x"])]
    return out


def check_agree(c):
    envs = ENV3 if c.quick else ENV3 + ENV3T
    c.defs = ["LIGHT"]
    fns = EVERY
    # unoptimised programs compile fast: one part each
    progs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        two = [ex.submit(units, c, "g++", ["-std=c++11", "-O0"]), ex.submit(units, c, "clang++", ["-std=c++17", "-O1"])]
        progs = c.recorders(fns, envs, per=sum(map(fcost, fns)) / 4)
        two = [t.result() for t in two]
    c.say("built", sum(map(len, progs.values())), "programs")
    dic = c.dictionary()
    n = lambda f: (5000 if c.quick else 100000) // SLOW.get(f, 1)
    found = []
    for mode in (0, 2):
        found += c.scan({0: progs[0], 3: progs[3]}, fns, n, 1, mode, dic, c.seed)
    calls = {}
    for s, r, ci in found:
        calls[sig(r)] = max(s, calls.get(sig(r), 0))
    sigs = []
    for prog, p in progs[0]:
        sigs += [tuple(map(int, l.split())) for l in c.run([prog, "list"])]
    made = 0
    for g in c.client_calls(sigs, 500 if c.quick else 8000, JOBS):
        made += calls.setdefault(g, 0) == 0
    order = sorted(calls)
    c.say(len(order), "calls to compare")
    got = {}

    # every environment makes the calls in an order of its own
    def one(job):
        ci, prog, p = job
        mine = [g for g in order if g[0] in p]
        random.Random(c.seed * 100 + ci).shuffle(mine)
        parts = [mine[i::2] for i in range(2)]
        return ci, [r for part in parts for r in c.replay_calls(prog, part)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for ci, rs in ex.map(one, [(ci, prog, p) for ci in progs for prog, p in progs[ci]]):
            for r in rs:
                got.setdefault(sig(r), {})[ci] = r
    cls = [late(f[0]) for _, f in envs]

    def split(g):
        d = got[g]
        return any(len({d[ci][4:9:4] for ci in d if cls[ci] == k}) > 1 for k in (0, 32))
    differ = [g for g in order if g in got and split(g)]
    odd = set(differ)
    same = [g for g in order if g in got and len(got[g]) == len(envs) and g not in odd]
    c.say(len(differ), "calls with several results")
    groups = {}
    for g in same:
        groups.setdefault(g[:4], []).append(g)
    share = max(2, (7000 if c.quick else 60000) // max(1, len(groups)))
    pick = differ[:500]
    for k in sorted(groups):
        pick += c.rng.sample(groups[k], min(share, len(groups[k])))
    recs = []
    for u, late_ in zip(two, (0, 32)):
        seq = sorted(u, key=sig)
        recs += [r + (late_ | 20,) for r in seq]
        for i in range(0, len(seq), 4):
            if len({sig(r) for r in seq[i:i + 4]}) != 1:
                raise J.ModelError("the units made other calls")
    while len(recs) % 12:
        recs.append(recs[-1])
    for g in pick:
        grp = [got[g][ci] + (cls[ci] | ci,) for ci in sorted(got[g])]
        while len(grp) % 6:
            grp.append(grp[-1])
        recs += grp
    res = agree(c, recs, 3)
    shown = 0
    for r, p, q in res["bad"]:
        if shown < 3:
            ci = r[9] & 31
            d = got.get(sig(r), {})
            c.violate("%s  [%s]; %s" % (c.describe(r), " ".join([envs[ci][0]] + envs[ci][1]) if ci < 20 else "second unit",
                      ", ".join("%s with %s" % (val(x[8], x[4]), " ".join([envs[i][0]] + envs[i][1])) for i, x in sorted(d.items()))),
                      {"record": list(r), "all": {str(i): list(x) for i, x in d.items()}, "config": [envs[ci][0], envs[ci][1]] if ci < 20 else []}, "agree")
        shown += 1
    report_stuck(c, envs)
    judged = res["judged"].get(3, 0)
    c.cov.update({"evaluations": len(recs), "distinct_nontrivial": judged, "programs": len(envs),
                  "rule": "a case is an evaluation of a call in one of the environments (compiler, standard, optimisation, order of the calls, unit); it counts as non-trivial when the specification compares it with another evaluation of the same class of standards",
                  "calls_searched": len(order), "calls_from_specification": made, "states": res["states"], "traces_validated_against_impl": res["shards"],
                  "samples": [c.describe(r) for r in c.rng.sample(recs, min(4, len(recs)))]})
    return c.finish("exploration")


# ---------------------------------------------------------------- C02 constant expressions
STATIC = [("g++", ["-std=c++11"]), ("clang++", ["-std=c++11"]), ("g++", ["-std=c++17"]), ("clang++", ["-std=c++17"])]


def literal(bits, t):
    """a C++ constant of the type with exactly this value"""
    from fractions import Fraction
    if t > 2:
        w = {3: 8, 4: 8, 5: 16, 6: 16, 7: 32, 8: 32, 9: 64, 10: 64, 11: 1}[t]
        v = bits & (2**w - 1)
        if t in (3, 5, 7, 9) and v >> (w - 1):
            v -= 2**w
        if v == -2**63:
            return "(-9223372036854775807L-1)"
        return "((%s)%d%s)" % (TYPES[t], v, "UL" if t == 10 else "L")
    s, e, m, f = fields(bits, t)
    if e == m:
        return None
    p = {0: 24, 1: 53, 2: 64}[t]
    bias = m // 2
    mant = f + (1 << (p - 1) if e else 0)
    x = Fraction(mant) * Fraction(2) ** (max(e, 1) - bias - p + 1)
    suf = {0: "f", 1: "", 2: "L"}[t]
    if x == 0:
        r = "0.0" + suf
    else:
        # enough decimal digits to denote this number and no other
        import decimal
        decimal.getcontext().prec = 30
        r = "%s%s" % ("{:.29e}".format(decimal.Decimal(x.numerator) / decimal.Decimal(x.denominator)), suf)
    return "-" + r if s else r


def moderate_calls(c, want):
    """calls without extreme arguments: some from the specification's client, the others
    random, at and next to small integers, halves and the numbers in the sources"""
    import struct
    dic = open(c.dictionary()).read().split()
    hot = [float(x[1:]) for x in dic if x[0] == "*"]
    dic = [float(x.strip("*")) for x in dic]
    dic = [x for x in dic if 2.0**-60 <= x <= 2.0**60]
    hot = [x for x in hot if x in dic] or dic
    sigs = []
    types = {"all1": [(0,), (1,), (2,), (7,), (10,)], "flt1": [(0,), (1,), (2,)], "all2": [(0, 0), (1, 1), (2, 2), (0, 7), (7, 1), (7, 7), (0, 1)],
             "flt2": [(0, 0), (1, 1), (2, 2), (0, 1)], "int2": [(7, 7), (9, 9), (10, 10), (5, 5), (7, 8), (4, 9)], "fint2": [(1, 1), (0, 7)],
             "pow2": [(0, 7), (1, 7), (2, 7), (1, 9), (0, 10), (2, 3)], "lm2": [(0, 7), (1, 7), (2, 10), (7, 7)],
             "all3": [(0, 0, 0), (1, 1, 1), (2, 2, 2), (7, 7, 1), (0, 7, 7)]}
    for f, (n, hs) in sorted(FN.items()):
        for h in hs.split():
            for ts in types[h]:
                sigs.append((f,) + (ts + (15, 15))[:3])
    # functions whose header is not the one the checks were made with get half of the calls
    hotsigs = [s for s in sigs if s[0] in c.hot]
    g = c.rng

    def bits(x, t):
        if t > 2:
            w = {3: 8, 4: 8, 5: 16, 6: 16, 7: 32, 8: 32, 9: 64, 10: 64, 11: 1}[t]
            return int(x) & (2**w - 1)
        if t == 0:
            return int.from_bytes(struct.pack("<f", x), "little")
        b = int.from_bytes(struct.pack("<d", x), "little")
        if t == 1:
            return b
        s, e, f = b >> 63, b >> 52 & 2047, b & (2**52 - 1)
        if e == 0:
            return s << 79
        return s << 79 | (e - 1023 + 16383) << 64 | 1 << 63 | f << 11 | (g.getrandbits(11) if g.random() < 0.5 else 0)

    def near(b, t):
        if t > 2 or g.random() < 0.6:
            return b
        return b + g.randrange(-2, 3) if b & ((1 << {0: 23, 1: 52, 2: 63}[t]) - 1) > 4 else b + g.randrange(0, 3)

    def number(kind):
        k = g.randrange(7)
        if kind == "p":
            return g.choice([g.uniform(1 / 32, 31 / 32), g.randrange(1, 32) / 32, 0.5])
        if kind == "shape":
            return g.choice([g.uniform(0.25, 4), g.uniform(0.25, 40), 2.0 ** g.uniform(-2, 8), g.randrange(1, 40) / 2])
        if k == 0:
            return g.uniform(-1, 1)
        if k == 1:
            return g.uniform(-4, 4)
        if k == 2:
            return g.uniform(-60, 60)
        if k == 3:
            return g.randrange(-40, 41) / 2
        if k == 4:
            return g.choice(g.choice([dic, hot])) * g.choice([1, 1, -1]) * g.choice([1, 1, g.uniform(0.8, 1.25)])
        if k == 5:
            return g.choice([-1, 1]) * 2.0 ** g.uniform(*g.choice([(-10, 10), (-60, 60)]))
        return g.choice([0, 1, 2, 3, 0.5, -1, 0.25, 10, 100])
    kinds = {47: ["shape", ""], 48: ["shape", "p"], 49: ["shape", "shape", "p"], 50: ["shape", "shape", "p"], 41: ["shape", "shape"], 42: ["shape", "shape"],
             46: ["p"], 29: ["p"], 30: ["p"], 38: ["p"], 14: ["shape"], 39: ["shape"], 44: ["shape", "shape"]}
    out = set()
    for i in range(want * 3):
        if len(out) >= want:
            break
        s = hotsigs[i // 2 % len(hotsigs)] if hotsigs and i % 2 else sigs[i % len(sigs)]
        f, ts = s[0], [t for t in s[1:] if t != 15]
        xs = [number(kinds[f][j] if f in kinds and g.random() < 0.8 else "") for j in range(len(ts))]
        # arguments that have to do with each other
        if f == 44 and g.random() < 0.8:
            n = g.choice([g.uniform(0, 60), 2.0 ** g.uniform(0, 14), 2.0 ** g.uniform(0, 50)])
            xs = [n, n * g.choice([g.random(), g.random() / 8, 1, 0.5])]
            xs = [float(int(x)) for x in xs] if g.random() < 0.6 else xs
        elif len(xs) == 2 and f not in kinds and g.random() < 0.25:
            xs[1] = xs[0] * g.choice([g.random(), 1, -1, 2, 3, 0.5, 1 + g.uniform(-1, 1) / 1000, 2.0 ** g.uniform(-30, 30)])
        if f in (12, 13, 15):
            xs = [float(int(x * 3)) for x in xs]
        if f == 15:
            xs = [abs(x) % 40 for x in xs]
            xs[1] = min(xs[1], 6)
        if f == 43:
            xs[1] = float(int(abs(xs[1])) % 12)
        if f == 14 and ts[0] > 2:
            xs = [float(g.randrange(0, 13))]
        if f == 16 and ts[1] > 2:
            xs = [xs[0] if ts[0] < 3 else float(g.randrange(-9, 10)), float(g.randrange(0, 9) if ts[0] > 2 else g.randrange(-20, 40))]
        bs = []
        for x, t in zip(xs, ts):
            if t in (4, 6, 8, 10):
                x = abs(x)
            bs.append(near(bits(x, t), t))
        out.add(s + tuple((bs + [0, 0])[:3]))
    extra = 0
    for q in c.client_calls(sigs, 400 if c.quick else 4000, JOBS):
        ok = all(q[1 + i] > 2 or q[4 + i] == 0 or abs(fields(q[4 + i], q[1 + i])[1] - fields(q[4 + i], q[1 + i])[2] // 2) <= 59 for i in range(3) if q[1 + i] != 15)
        if ok and q not in out:
            out.add(q)
            extra += 1
    return sorted(out), extra


def static_program(c, name, cc, flags, calls, known):
    """calls made in constant expressions (known: the others are left out) and at run time"""
    src = '#define LIGHT\n#include "fns.hpp"\ntemplate<class T> static void put(int i, T x) { printf("%d %d", i, (int)Tid<T>::v); hex(stdout, canon(Tid<T>::v, bits(x))); putchar(10); fflush(stdout); }\n'
    src += 'template<class T> static T id(T x) { volatile T y = x; return y; }\n'
    lines = src.count("\n")
    body = ""
    for i, g in calls:
        args = [literal(g[4 + j], g[1 + j]) for j in range(3) if g[1 + j] != 15]
        if known is None:
            ok = "F_%s::ok(%s)" % (FN[g[0]][0], ", ".join(args))
            src += "static void f%d() { g_mode = 2; g_calls = g_calls + 1; if (%s) put(%d, gcem::%s(%s)); }\n" % (i, ok, i, FN[g[0]][0], ", ".join("id(%s)" % a for a in args))
            body += " if (%d > from) { printf(\"@%d\\n\"); fflush(stdout); f%d(); }" % (i, i, i)
        else:
            src += "constexpr auto v%d = gcem::%s(%s);\n" % (i, FN[g[0]][0], ", ".join(args))
            body += " put(%d, v%d);" % (i, i)
    src += "int main(int n, char **v) { int from = n > 1 ? atoi(v[1]) : -1; (void)from; watch();%s }\n" % body
    p = os.path.join(c.dir, name)
    open(p + ".cpp", "w").write(src)
    cmd = [cc] + flags + ["-O0", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, p + ".cpp", "-o", p, "-lquadmath"]
    cmd += ["-fmax-errors=0"] if cc == "g++" else ["-ferror-limit=0", "-L/usr/lib/gcc/x86_64-linux-gnu/13"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors="replace")
    if r.returncode:
        bad = {int(m) - lines - 1 for m in re.findall(re.escape(name) + r"\.cpp:(\d+):", out)}
        bad = {calls[b][0] for b in bad if 0 <= b < len(calls)}
        if known is None or not bad:
            e = Refused(name)
            e.src, e.cmd, e.out = src[:20000], " ".join(cmd), out
            raise e
        return bad, None, out
    res, at, lost = {}, -1, []
    while True:
        stuck = None
        for l in c.run([p, str(at)]):
            if l.startswith("@"):
                at = int(l[1:])
            elif l.startswith("!"):
                stuck = l
            else:
                w = l.split()
                res[int(w[0])] = (int(w[1]), int(w[2], 16))
        if stuck is None:
            break
        if known is not None:
            raise J.ModelError("constant expression program: " + stuck)
        lost.append((at, stuck))
        if len(lost) > 3:
            break
    for i, l in lost:
        g = dict(calls)[i]
        c.lost.append(("gcem::%s(%s) does not even return at run time" % (FN[g[0]][0], ", ".join(literal(g[4 + j], g[1 + j]) for j in range(3) if g[1 + j] != 15)), g, cmd))
    return set(), res, out


def check_static(c):
    calls, extra = moderate_calls(c, 10000 if c.quick else 80000)
    idx = list(enumerate(calls))
    c.say(len(calls), "calls,", extra, "of them from the specification")
    P = 16 if c.quick else 64
    parts = [idx[i::P] for i in range(P)]
    run_ = {}
    c.lost = []

    def rt(j):
        i, cc, std = j
        return std, static_program(c, "rt%d%s" % (i, std[5:]), cc, [std], parts[i], None)[1]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for std, r in ex.map(rt, [(i, cc, std) for i in range(P) for cc, std in (("g++", "-std=c++11"), ("clang++", "-std=c++17"))]):
            run_.setdefault(std, {}).update(r)
    for what, g, cmd in c.lost[:2]:
        c.violate(what + "  [%s]" % " ".join(cmd[:2]), {"call": list(g), "cmd": cmd}, "static")
    c.say("run time:", {k: len(v) for k, v in run_.items()})

    def finite(r):
        return r is not None and (r[0] > 2 or fields(r[1], r[0])[1] != fields(r[1], r[0])[2])

    def ct(j):
        i, ci = j
        cc, fl = STATIC[ci]
        todo = [x for x in parts[i] if finite(run_[fl[0]].get(x[0]))]
        no = {}
        for k in range(6):
            bad, res, out = static_program(c, "ct%d_%d" % (i, ci), cc, fl, todo, True)
            for b in bad:
                no[b] = out
            if res is not None:
                return ci, no, res
            todo = [x for x in todo if x[0] not in bad]
        raise J.ModelError("constant expressions: errors do not end")
    stat = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for ci, no, res in ex.map(ct, [(i, ci) for i in range(P) for ci in range(len(STATIC))]):
            d = stat.setdefault(ci, ({}, {}))
            d[0].update(no)
            d[1].update(res)
    c.say("constant expressions:", {" ".join([STATIC[ci][0]] + STATIC[ci][1]): (len(d[1]), "not: %d" % len(d[0])) for ci, d in stat.items()})
    recs, ref = [], {}
    for i, g in idx:
        for std in ("-std=c++11", "-std=c++17"):
            r = run_[std].get(i)
            if not finite(r):
                continue
            grp = [g[:4] + (r[0],) + g[4:7] + (r[1], late(std))]
            for ci, (cc, fl) in enumerate(STATIC):
                if fl[0] != std:
                    continue
                if i in stat[ci][1]:
                    s = stat[ci][1][i]
                    grp.append(g[:4] + (s[0],) + g[4:7] + (s[1], late(std) | 64 | ci))
                elif i in stat[ci][0]:
                    grp.append(g[:4] + (r[0],) + g[4:7] + (0, late(std) | 128 | 64 | ci))
            while len(grp) < 3:
                grp.append(grp[-1])
            recs += grp[:3]
            for x in grp:
                ref[x] = (r, i, g)
    res = agree(c, recs, 2)
    for r, p, q in res["bad"][:3]:
        rr, i, g = ref[r]
        ci = r[9] & 31
        cc, fl = STATIC[ci]
        what = "gcem::%s(%s) has the run-time value %s" % (FN[g[0]][0], ", ".join(literal(g[4 + j], g[1 + j]) for j in range(3) if g[1 + j] != 15), val(rr[1], rr[0]))
        if r[9] & 128:
            what += " but is not a constant expression"
        else:
            what += " but the compile-time value " + val(r[8], r[4])
        c.violate("%s  [%s %s]" % (what, cc, fl[0]), {"record": list(r), "config": [cc, fl], "output": (stat[ci][0].get(i) or "")[:3000]}, "static")
    judged = res["judged"].get(2, 0)
    c.cov.update({"evaluations": len(recs), "distinct_nontrivial": judged,
                  "rule": "a case is a call written as a constant expression for one compiler and standard; it counts as non-trivial when the compiler gave a value, which the specification compares with the run-time one, or gave none although the specification demands one",
                  "calls_from_specification": extra, "states": res["states"], "traces_validated_against_impl": res["shards"],
                  "not_constant": {" ".join([STATIC[ci][0]] + STATIC[ci][1]): len(d[0]) for ci, d in stat.items()},
                  "samples": [c.describe(r) for r in c.rng.sample(recs, min(4, len(recs)))]})
    return c.finish("exploration")


# ---------------------------------------------------------------- C28 undefined behaviour
def check_return(c):
    gub = ["-fsanitize=undefined,float-cast-overflow", "-fsanitize-undefined-trap-on-error"]
    cub = ["-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all"]
    envs = [("g++", ["-std=c++11", "-O1"] + gub), ("clang++", ["-std=c++17", "-O1"] + cub)]
    if not c.quick:
        envs += [("clang++", ["-std=c++11", "-O0"] + cub), ("g++", ["-std=c++20", "-O2"] + gub), ("g++", ["-std=c++14", "-O0"])]
    else:
        c.defs = ["LIGHT"]
    with cf.ThreadPoolExecutor(1) as ex:
        models = ex.submit(algorithms, c)
        progs = c.recorders(EVERY, envs, per=sum(map(fcost, EVERY)) / 8)
        c.cov["algorithm_models"] = models.result()
    c.say("built", sum(map(len, progs.values())), "programs")
    dic = c.dictionary()
    found = []
    # values, NaN arguments, limiting arguments
    for mode, k in ((0, 4), (1, 1), (2, 4)):
        found += c.scan(progs, EVERY, lambda f: (20000 if c.quick else 500000) * k // SLOW.get(f, 1), 1, mode, dic, c.seed + mode)
    c.say("searched", c.calls, "calls,", len(c.stuck), "did not end")
    sigs = []
    for prog, p in progs[0]:
        sigs += [tuple(map(int, l.split())) for l in c.run([prog, "list"])]
    gen = sorted(set(c.client_calls(sigs, 800 if c.quick else 8000, JOBS)))
    recs = []
    for ci in progs:
        own = {f: prog for prog, p in progs[ci] for f in p}
        by = {}
        for g in gen:
            by.setdefault(own[g[0]], []).append(g)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for rs in ex.map(lambda prog: c.replay_calls(prog, by[prog]), sorted(by)):
                recs += [r + (late(envs[ci][1][0]) | ci,) for r in rs]
    pick = c.rng.sample(found, min(len(found), 12000 if c.quick else 150000))
    recs += [r + (late(envs[ci][1][0]) | ci,) for s, r, ci in pick]
    lost = {}
    for l, ci in c.stuck:
        w = l.split()
        r = tuple(int(x) for x in w[1:5]) + (15,) + tuple(int(x, 16) for x in w[5:8]) + (0, late(envs[ci][1][0]) | 128 | ci)
        lost[r] = w[8]
        recs.append(r)
    res = agree(c, recs, 28)
    shown = 0
    for r, p, q in res["bad"]:
        ci = r[9] & 31
        again = []
        for prog, fs in progs[ci]:
            if r[0] in fs:
                again = c.run([prog, "replay"], inp=("%d %d %d %d %x %x %x\n" % sig(r)).encode())
        if not any(l.startswith("!") for l in again):
            c.say("not repeatable:", r)
            continue
        if shown < 3:
            c.violate("gcem::%s(%s) %s  [%s]" % (FN[r[0]][0], ", ".join(val(r[5 + i], r[1 + i]) for i in range(3) if r[1 + i] != 15),
                      {"aborts": "has undefined behaviour"}.get(lost[r], lost[r]), " ".join([envs[ci][0]] + envs[ci][1])), {"record": list(r), "config": [envs[ci][0], envs[ci][1]]}, "return")
        shown += 1
    judged = res["judged"].get(28, 0)
    c.cov.update({"evaluations": c.calls, "distinct_nontrivial": judged,
                  "rule": "evaluations are calls made by programs that trap on undefined behaviour, crash on exhausted stack and are stopped when a call takes seconds; distinct_nontrivial counts those put before the specification, which include every one that did not return",
                  "did_not_return": len(lost), "calls_from_specification": len(gen), "states": res["states"], "traces_validated_against_impl": res["shards"],
                  "samples": [c.describe(r) for r in c.rng.sample([r for r in recs if r[9] < 128], min(4, len(recs)))]})
    c.assumptions += ["the sanitizers of GCC and Clang trap on the undefined behaviour they are documented to detect"]
    return c.finish("exploration")


CHECKS = {1: check_types, 2: check_static, 3: check_agree, 28: check_return, 26: check_pairs, 27: check_pairs, 29: check_tables, 30: check_raised, 4: check_nan, 5: check_limits}
for _i in OWN:
    CHECKS[_i] = check_values


def refused(c, e):
    c.violate("does not compile: " + e.cmd, {"source": e.src, "cmd": e.cmd, "output": e.out[-6000:]}, "compile")
    print(e.out[-1500:])
    c.cov.update({"evaluations": 1, "distinct_nontrivial": 1, "rule": "the recorder of the calls this property is about has to compile", "samples": [e.cmd],
                  "states": 0, "transitions": 0, "traces_validated_against_impl": 0})
    return c.finish("exploration")


def replay(path):
    """makes the call of a replay file again and lets the specification judge it again; what
    is not one call (types, tables, compilation, several evaluations) is checked as a whole"""
    d = json.load(open(path))
    c = Check(d["property"], "quick", 1)
    print("recorded:", d["what"])
    try:
        if d["kind"] not in ("value", "pair"):
            return CHECKS[c.num](c)
        r, cfg = d["data"]["record"], d["data"]["config"]
        if d["kind"] == "pair":
            c.defs = ["RELATIONS"]
        progs = c.recorders([r[0]], [tuple(cfg)])
        line = "%d %d %d %d %x %x %x\n" % tuple(r[:4] + r[5:8])
        env = {"RELATION": "3" if c.num == 26 else "4"} if d["kind"] == "pair" else {"HEAVY": "1e10"}
        out = c.run([progs[0][0][0], "replay"], inp=line.encode(), env=env)
        recs = [J.parse(l) + (0,) for l in out if not l.startswith("!")]
        for x in recs:
            print("now:", c.describe(x))
        res = J.judge(recs, c.num, c.dir, 1, main="pairs" if d["kind"] == "pair" else "trace")
        for b in res["bad"]:
            print("rejected:", c.describe(b[0]), "tolerance used %d/1000" % b[2])
        print("VIOLATION property=%s replay=%s" % (c.pid, path) if res["bad"] else "accepted")
        return 1 if res["bad"] else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "baseline"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.cmd == "baseline":     # after a change of /repo that is meant to stay
        json.dump({"digests": digests(), "numbers": literals()}, open(os.path.join(ROOT, "tools", "literals.json"), "w"), indent=0, sort_keys=True)
        return 0
    if a.cmd == "replay":
        return replay(a.what)
    c = Check(a.what, a.tier, a.seed)
    try:
        try:
            return CHECKS[c.num](c)
        except Refused as e:
            return refused(c, e)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
