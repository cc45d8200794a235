"""C34: what compiles. Random declarations with name literals, constexpr names and symbols, and conversions between
reflected structs are compiled; the compiler must refuse exactly those the rules below refuse, and the constants of
the others must have the values computed here. Every verdict reported comes from a program holding that one item."""
import glob, hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

M64 = (1 << 64) - 1
ALPHA = ".12345abcdefghijklmnopqrstuvwxyz"


# --- the rules -----------------------------------------------------------------------------------------------------
def name_value(t):
    """bytes -> value, or None if not a name"""
    if len(t) > 13:
        return None
    v = 0
    for i, c in enumerate(t):
        d = ALPHA.find(chr(c))
        if d < 0 or (i == 12 and d > 15):
            return None
        v |= d << (59 - 5 * i) if i < 12 else d
    return v


def name_text(v):
    t = "".join(ALPHA[v >> (59 - 5 * i) & 31] for i in range(12)) + ALPHA[v & 15]
    return t.rstrip(".")


def lenient_value(t):
    v = 0
    for i, c in enumerate(t[:13]):
        d = max(ALPHA.find(chr(c)), 0)
        v |= d << (59 - 5 * i) if i < 12 else d & 15
    return v


def murmur(t):
    m = 0xc6a4a7935bd1e995
    mix = lambda x: x ^ (x >> 47)
    h = 0xbadd00d00 ^ (len(t) * m & M64)
    i = 0
    while i + 8 <= len(t):
        w = 0
        for c in t[i:i + 8]:
            w = ((w | ((c - 256 if c > 127 else c) & M64)) << 8) & M64
        h = ((h ^ (mix(w * m & M64) * m & M64)) * m) & M64
        i += 8
    if i < len(t):
        h = ((h ^ int.from_bytes(t[i:], "little")) * m) & M64
    return mix(mix(h) * m & M64)


def code_value(t):
    if len(t) > 7 or any(not 65 <= c <= 90 for c in t):
        return None
    return int.from_bytes(t, "little")


def code_valid(v):
    b = (v & M64).to_bytes(8, "little").rstrip(b"\0")
    return 1 <= len(b) <= 7 and all(65 <= c <= 90 for c in b)


# --- items ---------------------------------------------------------------------------------------------------------
def lit(t):
    return '"' + "".join(chr(c) if c < 128 and chr(c).isalnum() or chr(c) in "._- " else "\\%03o" % c for c in t) + '"'


def sv(t):
    return "std::string_view(%s, %d)" % (lit(t), len(t))


def item(kind, arg):
    """-> (declaration using NAME, expression of type uint64_t, expected value or None if it must not compile, features)"""
    if kind == "convert":
        src, dst, rel, rev, first = arg
        # members are (name, type) by bits; relation 0 none, 1 strict, 2 widening, 3 narrowing (source to destination)
        kinds = ["", "eosio::strict_conversion", "eosio::widening_conversion", "eosio::narrowing_conversion"]
        inv = [0, 1, 3, 2]
        def st(n, bits):
            ms = [i for i in range(4) if bits >> i & 1]
            return "struct %s { %s }; EOSIO_REFLECT(%s%s);" % (n, " ".join("int m%d = %d;" % (i, i + (10 if n == "A" else 50)) for i in ms), n, "".join(", m%d" % i for i in ms))
        k = kinds[inv[rel]] if rev else kinds[rel]
        decl = "namespace NAME { %s %s %s inline uint64_t run() { A a; B b; eosio::convert(a, b, %s); return %s; } }" % (
            st("A", src), st("B", dst), (k + (" conversion_kind(B, A);" if rev else " conversion_kind(A, B);")) if rel else "",
            "eosio::choose_first" if first else "eosio::choose_second",
            " + ".join(["0ull"] + ["((unsigned long long)b.m%d << %d)" % (i, 8 * i) for i in range(4) if dst >> i & 1]))
        walked, other = (src, dst) if first else (dst, src)
        if rel == 0 or (walked & ~other and rel != 3):
            return decl, "NAME::run()", None, set()
        return decl, "NAME::run()", sum((i + (10 if src >> i & 1 else 50)) << (8 * i) for i in range(4) if dst >> i & 1), set()
    if kind in ("length", "prefix", "suffix", "raw", "code_length", "code_valid"):
        t = name_text(arg)
        dot = t.rfind(".")
        cls = "symbol_code" if kind.startswith("code") else "name"
        want = {"length": lambda: len(t), "raw": lambda: arg,
                "prefix": lambda: arg if dot < 0 else name_value(t[:dot].encode()),
                "suffix": lambda: arg if dot < 0 else name_value(t[dot + 1:].encode()),
                "code_length": lambda: (arg.to_bytes(8, "little") + b"\0").index(0),
                "code_valid": lambda: int(code_valid(arg))}[kind]()
        call = {"length": ".length()", "raw": ".value", "prefix": ".prefix().value", "suffix": ".suffix().value",
                "code_length": ".length()", "code_valid": ".is_valid()"}[kind]
        return "constexpr uint64_t NAME = eosio::%s(uint64_t(%dull))%s;" % (cls, arg, call), "NAME", want, set()
    t = bytes(arg)
    feats = {("c", c) for i, c in enumerate(t) if ALPHA.find(chr(c)) < 0}
    if len(t) > 13:
        feats.add(("len", len(t)))
    if len(t) >= 13:
        feats.add(("13", t[12]))
    if kind == "_n":
        return "auto NAME = %s_n;" % lit(t), "NAME.value", name_value(t), feats
    if kind == "_n constexpr":
        return "constexpr auto NAME = %s_n;" % lit(t), "NAME.value", name_value(t), feats
    if kind == "name":
        return "constexpr eosio::name NAME{%s};" % sv(t), "NAME.value", name_value(t), feats
    if kind == "_h":
        v = name_value(t)
        z = t.split(b"\0")[0]  # the literal is taken as a C string
        v = name_value(z)
        return "constexpr auto NAME = %s_h;" % lit(t), "NAME.value", murmur(z) if v is None else v, set()
    if kind == "string_to_name":
        return "constexpr uint64_t NAME = eosio::string_to_name(%s);" % sv(t), "NAME", lenient_value(t), set()
    if kind == "symbol_code":
        return "constexpr eosio::symbol_code NAME{%s};" % sv(t), "NAME.raw()", code_value(t), feats
    if kind == "symbol":
        p, t = t[0], t[1:]
        v = code_value(t)
        return "constexpr eosio::symbol NAME{%s, %d};" % (sv(t), p), "NAME.raw()", None if v is None else v << 8 | p, feats
    raise KeyError(kind)


def gen_name_text(r):
    k = r.randrange(8)
    if k < 2:
        t = "".join(r.choice(ALPHA) for _ in range(r.randrange(14)))
    elif k < 4:
        t = "".join(r.choice(ALPHA) for _ in range(r.choice([11, 12, 13, 13, 13, 14, 15, r.randrange(16, 48)])))
        if len(t) >= 13 and r.random() < .5:
            t = t[:12] + r.choice(ALPHA[:16]) + t[13:]
    elif k < 5:
        t = "".join(r.choice("..........a1zj5k") for _ in range(r.randrange(1, 14)))
    else:
        t = "".join(r.choice("eosio.tkn12345") for _ in range(r.randrange(1, 14)))
    t = t.encode()
    if r.random() < .4 and t:
        i = r.randrange(len(t))
        c = r.choice([r.randrange(256), r.choice(b"06789`{AZ/:@_ -~\0\n\x7f\x80\xff\"'\\?"), r.choice(b"kjz.6")])
        t = t[:i] + bytes([c]) + t[i + r.randrange(2):]
    return t


def gen_item(r):
    k = r.choices(["_n", "_n constexpr", "name", "_h", "string_to_name", "symbol_code", "symbol", "value", "convert"],
                  [10, 2, 3, 2, 1, 2, 2, 3, 3])[0]
    if k == "convert":
        src = r.randrange(1, 16)
        dst = r.choice([src, src, src | r.randrange(16), src & r.randrange(16) or 1, r.randrange(1, 16)])
        if r.random() < .2:
            dst = 1 << r.randrange(4)
        return k, [src, dst, r.choices([0, 1, 2, 3], [1, 3, 3, 3])[0], r.randrange(2), int(r.random() < .7)]
    if k == "value":
        v = r.choice([lambda: r.getrandbits(64), lambda: name_value(gen_valid(r)), lambda: (1 << r.randrange(64)) ,
                      lambda: r.getrandbits(64) & ~((1 << r.randrange(64)) - 1) & M64, lambda: r.choice([0, 1, 15, 16, 1 << 63, M64]),
                      lambda: int.from_bytes(gen_code(r)[:8], "little")])()
        return r.choice(["length", "prefix", "suffix", "raw", "code_length", "code_valid"]), v
    if k == "symbol_code":
        return k, list(gen_code(r))
    if k == "symbol":
        return k, [r.choice([0, 4, 18, 19, 255, r.randrange(256)])] + list(gen_code(r))
    t = gen_name_text(r)
    if k in ("_h", "string_to_name") and r.random() < .4:
        t = bytes(r.randrange(256) for _ in range(r.randrange(30)))
    return k, list(t)


def gen_valid(r):
    while True:
        t = gen_name_text(r)
        if name_value(t) is not None:
            return t


def gen_code(r):
    n = r.choice([0, 1, 3, 4, 6, 7, 7, 8, r.randrange(12)])
    t = bytes(r.randrange(65, 91) for _ in range(n))
    if t and r.random() < .3:
        i = r.randrange(len(t))
        t = t[:i] + bytes([r.choice([64, 91, 97, 122, 48, 0, 46, 255, r.randrange(256)])]) + t[i + r.randrange(2):]
    return t


# --- the compiler --------------------------------------------------------------------------------------------------
class Compiler:
    def __init__(self, cxx, wd, here, repo, env):
        self.cxx, self.wd, self.env, self.n = cxx, wd, env, 0
        self.clang = "clang" in cxx
        self.flags = ["-std=gnu++17", "-include", "cstdint", "-include", "limits", "-w", "-O0", "-I" + here + "/shim", "-I" + here + "/harness", "-I" + repo + "/include", "-I" + repo + "/src"]
        self.flags += ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] if self.clang else ["-fmax-errors=0", "-ftemplate-backtrace-limit=0"]
        # precompiled, from a copy of the header under the working directory
        hdr = wd + "/" + os.path.basename(cxx) + "_pch.hpp"
        shutil.copy(here + "/harness/c34.hpp", hdr)
        pch = hdr + (".pch" if self.clang else ".gch")
        r = self.run([cxx] + self.flags + ["-x", "c++-header", hdr, "-o", pch])
        if r.returncode:
            raise RuntimeError(r.stdout.decode(errors="replace")[-4000:])
        self.pre = ["-include-pch", pch] if self.clang else ["-include", hdr]

    def run(self, cmd):
        try:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(self.env, LC_ALL="C"), timeout=300)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(cmd, -1, e.stdout or b"compiler timeout", None)

    def refused(self, items, tag):
        """items: [(id, (decl, expr, want, feats))]; the set of ids the compiler complains about, or None if it failed otherwise"""
        src = "%s/%s.cpp" % (self.wd, tag)
        with open(src, "w") as f:
            for i, (d, e, w, _) in items:
                f.write(d.replace("NAME", "x%d" % i) + "\n")
        r = self.run([self.cxx] + self.flags + self.pre + ["-fsyntax-only", src])
        out = r.stdout.decode(errors="replace")
        bad, group, err = set(), [], False
        base = re.escape(src)
        for line in re.findall(base + r":(\d+)", out):
            k = int(line) - 1
            if 0 <= k < len(items):
                bad.add(items[k][0])
        os.unlink(src)
        if r.returncode not in (0, 1):
            return None
        return bad if r.returncode else set()

    def values(self, items, tag):
        """compile, link and run: ({id: got} of wrong values, set of ids refused)"""
        src, exe = "%s/%s.cpp" % (self.wd, tag), "%s/%s.exe" % (self.wd, tag)
        with open(src, "w") as f:
            for i, (d, e, w, _) in items:
                f.write(d.replace("NAME", "x%d" % i) + "\n")
            f.write("int main() {\n const Row rows[] = {\n")
            for i, (d, e, w, _) in items:
                f.write(" {%d, %s, %dull},\n" % (i, e.replace("NAME", "x%d" % i), w))
            f.write(' };\n for (auto& r : rows) if (r.got != r.want) std::printf("%d %llu\\n", r.id, r.got);\n std::puts("end");\n}\n')
        r = self.run([self.cxx] + self.flags + self.pre + [src, "-o", exe])
        if r.returncode:
            os.unlink(src)
            return {}, self.refused(items, tag)
        r = self.run([exe])
        os.unlink(src)
        os.unlink(exe)
        out = r.stdout.decode(errors="replace").split("\n")
        if "end" not in out:
            return {}, None
        return {int(l.split()[0]): int(l.split()[1]) for l in out if " " in l}, set()

    def alone(self, kind, arg, tag):
        """the item in a program of its own: None if right, else what is wrong"""
        it = item(kind, arg)
        if it[2] is None:
            b = self.refused([(0, it)], tag)
            return "compiles, and must not" if b is not None and not b else None
        wrong, b = self.values([(0, it)], tag)
        if wrong:
            return "is %d instead of %d" % (wrong[0], it[2])
        return "is refused by the compiler" if b else None


def smaller(kind, arg):
    if kind == "convert":
        for i in range(2):
            for b in range(4):
                if arg[i] >> b & 1 and arg[i] != 1 << b:
                    yield arg[:i] + [arg[i] & ~(1 << b)] + arg[i + 1:]
        return
    if isinstance(arg, int):
        for b in range(64):
            if arg >> b & 1:
                yield arg & ~(1 << b)
        return
    for i in range(len(arg)):
        yield arg[:i] + arg[i + 1:]
    a = 65 if kind.startswith("symbol") else 97
    for i in range(len(arg)):
        if arg[i] != a:
            yield arg[:i] + [a] + arg[i + 1:]


def show(kind, arg):
    d, e, w, _ = item(kind, arg)
    return "%s [%s]" % (d, "must not compile" if w is None else "%s == %d" % (e, w))


def check(R, pid, ck, a, tier, seed, t0, wd):
    comps = []
    for cxx in ("clang++", "g++"):
        try:
            comps.append(Compiler(cxx, wd, R.HERE, R.REPO, R.ENV))
        except (RuntimeError, OSError) as e:
            print("note: %s cannot compile the headers: %s" % (cxx, str(e)[-600:]))
    if not comps:
        print("BUILD FAILED")
        return 2
    if a.replay:
        j = json.load(open(a.replay))
        c = next((c for c in comps if c.cxx == j["compiler"]), comps[0])
        why = c.alone(j["kind"], j["arg"], "replay")
        print(show(j["kind"], j["arg"]))
        if why:
            print("FAIL [%s] %s" % (j["kind"], why))
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if why else 0
    cfg = ck[tier]
    rounds, limit = cfg["rounds"], cfg.get("time", 240)
    if a.cases:
        rounds = max(1, a.cases // 2000)
    seen, evaluations, nontrivial, labels, samples = set(), 0, 0, {}, []
    suspects = []
    t1 = time.time()
    rnd = 0
    with ThreadPoolExecutor(R.NCPU) as ex:
        while rnd < rounds and time.time() - t1 < limit and not suspects:
            r = random.Random(seed * 1000003 + rnd)
            rnd += 1
            good, bad = [], []
            for _ in range(2000):
                kind, arg = gen_item(r)
                key = json.dumps([kind, arg])
                if key in seen:
                    continue
                seen.add(key)
                it = item(kind, arg)
                rec = (len(seen), kind, arg, it)
                (bad if it[2] is None else good).append(rec)
                lb = kind + (": refused" if it[2] is None else ": accepted")
                labels[lb] = labels.get(lb, 0) + 1
                evaluations += 1
                if isinstance(arg, int) and arg > 31 or not isinstance(arg, int) and len(arg) > 1:
                    nontrivial += 1
                if labels[lb] <= 2:
                    samples.append(lb + ": " + show(kind, arg))
            jobs = []
            for i in range(0, len(good), 100):
                c = comps[0] if (i // 100) % 4 else comps[-1]
                jobs.append(("v", c, good[i:i + 100]))
            # a compiler reports a broken template once: what one program holds must be wrong for different reasons
            batches = []
            for rec in bad:
                f = rec[3][3]
                for b in batches:
                    if len(b[1]) < 60 and not (f & b[0]):
                        b[0].update(f)
                        b[1].append(rec)
                        break
                else:
                    batches.append((set(f), [rec]))
            for i, b in enumerate(batches):
                jobs.append(("r", comps[0] if i % 4 else comps[-1], b[1]))

            def do(x):
                i, (what, c, recs) = x
                its = [(q[0], q[3]) for q in recs]
                tag = "p%d_%d" % (rnd, i)
                out = []
                if what == "r":
                    got = c.refused(its, tag)
                    if got is None:
                        got = set()
                    out = [(c, q) for q in recs if q[0] not in got]
                else:
                    wrong, ref = c.values(its, tag)
                    if ref is None:
                        ref = {q[0] for q in recs}
                    out = [(c, q) for q in recs if q[0] in wrong or q[0] in ref]
                return out

            for o in ex.map(do, enumerate(jobs)):
                suspects += o
    violations = []
    done = set()
    for n, (c, q) in enumerate(suspects[:40]):
        _, kind, arg, _ = q
        if kind in done:
            continue
        why = c.alone(kind, arg, "alone")
        if not why:
            continue
        done.add(kind)
        again, ts = True, time.time()
        while again and time.time() - ts < 40:
            again = False
            cand = list(smaller(kind, arg))
            with ThreadPoolExecutor(R.NCPU) as ex:
                for i in range(0, len(cand), R.NCPU):
                    part = cand[i:i + R.NCPU]
                    res = list(ex.map(lambda x: c.alone(kind, x[1], "s%d" % x[0]), enumerate(part)))
                    hit = [(p, w) for p, w in zip(part, res) if w]
                    if hit:
                        arg, why = hit[0]
                        again = True
                        break
        txt = json.dumps(dict(kind=kind, arg=arg, compiler=c.cxx))
        rd = R.HERE + "/replays"
        os.makedirs(rd, exist_ok=True)
        rp = "%s/%s-%s.json" % (rd, pid, hashlib.sha1(txt.encode()).hexdigest()[:12])
        open(rp, "w").write(txt)
        violations.append((rp, "%s: %s\nFAIL [%s] %s" % (c.cxx, show(kind, arg), kind, why)))
        if len(violations) == 3:
            break
    for k in R.known_lines(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": ck["rule"], "samples": samples[:24],
                     "labels": labels, "rounds": rnd, "compilers": [c.cxx for c in comps]},
        "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(R.HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (R.HERE, pid), "w") as fo:
        json.dump(ev, fo, indent=1)
    for rp, txt in violations:
        print(txt)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if not violations:
        print("%s %s: held on %d declarations (%d distinct non-trivial), %.1fs" % (pid, tier, evaluations, nontrivial, ev["wall_s"]))
    return 1 if violations else 0
