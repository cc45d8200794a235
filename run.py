#!/usr/bin/env python3
"""Check one property: build its harness from /repo's working tree, search, shrink, report.
   run.py <ID> [--tier quick|thorough] [--replay FILE] [--keep DIR]
Exit 0: held on everything explored; 1: VIOLATION line printed."""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)
SAN = ("-fsanitize=address,bool,enum,bounds,signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,"
       "null,builtin -fno-sanitize-recover=all").split()
SAN_GCC = ("-fsanitize=address,bool,enum,bounds,signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,"
           "null,builtin -fno-sanitize-recover=all").split()
COMMON = ["-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
INC = ["-I" + HERE + "/shim", "-I" + HERE + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src"]
CXX = ["-std=gnu++17", "-include", "cstdint", "-include", "limits"]
LIB = {"abi": "src/abi.cpp", "crypto": "src/crypto.cpp", "abieos": "src/abieos.cpp", "fpconv": "include/eosio/fpconv.c"}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:"
                       "max_allocation_size_mb=2048:quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=1")
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:print_stacktrace=1"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def sh_limited(cmd, wall, **kw):
    """Runs in a session of its own; after `wall` seconds the whole session is ended and the status is 78 (hang)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=wall)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 78, out.decode(errors="replace") + "\nHANG (wall clock)"


class BuildError(Exception):
    pass


def build(ck, wd, compiler):
    """Returns the path of the binary."""
    fuzz = compiler == "clang" and ck.get("fuzz")
    cc, cxx = ("clang", "clang++") if compiler == "clang" else ("gcc", "g++")
    san = (SAN if compiler == "clang" else SAN_GCC) + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    if ck.get("nosan"):
        san = []
    if ck.get("san"):
        san = ck["san"]
    defs = ck.get("defs", [])
    jobs = []
    for l in ck.get("lib", []):
        src = f"{REPO}/{LIB[l]}"
        jobs.append((src, l))
    for s in ck["src"]:
        jobs.append((f"{HERE}/harness/{s}", os.path.basename(s)))
    jobs.append((f"{HERE}/harness/pbt.cpp", "pbt"))
    objs = []
    builds = {}  # further builds of the library, as shared objects
    for name, vcxx, vstd, vflags in ck.get("builds", []):
        vcc = {"g++": "gcc", "clang++": "clang"}[vcxx]
        for f in [f"{REPO}/{x}" for x in LIB.values()] + [f"{HERE}/harness/{ck['probe']}"]:
            o = f"{wd}/{name}_{os.path.basename(f)}.o"
            com = ["-w", "-fPIC", "-fvisibility=hidden"] + vflags + INC + ["-c", f, "-o", o]
            jobs.append((([vcc] if f.endswith(".c") else [vcxx, vstd, "-include", "cstdint", "-include", "limits"]) + com, o))
            builds.setdefault(name, (vcxx, []))[1].append(o)
    bad = set()

    def one(j):
        if isinstance(j[0], list):  # a file of a further build
            r = sh(j[0])
            if r.returncode:
                bad.add(j[1])
            return None, None, None
        src, tag = j
        o = f"{wd}/{compiler}_{tag}.o"
        fl = san
        if tag == "pbt":
            fl = (ck.get("san") or ["-fsanitize=address"] if san else []) + (["-DPBT_LIBFUZZER"] if fuzz else [])
        if src.endswith(".c"):
            cmd = [cc] + COMMON + fl + INC + defs + ["-c", src, "-o", o]
        else:
            cmd = [cxx] + CXX + COMMON + fl + INC + defs + ck.get("cxxflags", []) + ["-c", src, "-o", o]
        r = sh(cmd)
        return o, r, cmd

    with ThreadPoolExecutor(NCPU) as ex:
        # the slow ones first
        for o, r, cmd in ex.map(one, sorted(jobs, key=lambda j: not isinstance(j[0], list))):
            if o is None:
                continue
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
            objs.append(o)
    sos = []
    for name, (vcxx, os_) in builds.items():
        so = f"{wd}/{name}.so"
        if bad & set(os_) or sh([vcxx, "-shared", "-Wl,-Bsymbolic", "-o", so] + os_).returncode:
            print(f"note: the build {name} failed and is left out")
            continue
        sos.append(so)
    if builds:
        if len(sos) < 2:
            raise BuildError("fewer than two builds of the library")
        ENV["VERIF_BUILDS"] = ":".join(sos)
    exe = f"{wd}/{compiler}_check"
    link = [cxx] + [x for x in san if "fuzzer" not in x] + objs + ["-o", exe, "-lpthread"] + ck.get("ldflags", [])
    if fuzz:
        d = sh(["clang", "-print-runtime-dir"]).stdout.decode().strip()
        cand = glob.glob(f"{d}/libclang_rt.fuzzer_no_main*.a")
        if not cand:
            cand = glob.glob("/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")
        link += [cand[0], "-lstdc++", "-lm"]
    r = sh(link)
    if r.returncode:
        raise BuildError(" ".join(link) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return exe


def locales(names, wd):
    """Compiles the locales a check asks for, where it alone sees them; those which cannot be built are left out."""
    d = f"{wd}/locales"
    os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda x: sh(["localedef", "--quiet", "-c", "-i", x[1], "-f", x[2], f"{d}/{x[0]}"]), names))
    ENV["LOCPATH"] = d


STACK_MB = 64  # a check may ask for less ("stack")


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (STACK_MB << 20, STACK_MB << 20))


def replay(exe, path, wd, hang=60):
    """(failed?, output)"""
    rc, out = sh_limited([exe, "--hang", str(hang), "--replay", path], hang * 3 + 30, cwd=wd, preexec_fn=limit)
    return rc != 0, rc, out


def shrink_external(exe, data, rc0, wd, budget):
    """Shrink a crashing/hanging case by replaying in subprocesses (8 at a time)."""
    t0 = time.time()

    def bad(x, i=[0]):
        i[0] += 1
        p = f"{wd}/shr_{i[0]}_{threading.get_ident()}"
        open(p, "wb").write(x)
        f, rc, _ = replay(exe, p, wd, 10)
        os.unlink(p)
        return f and rc == rc0

    n = max(len(data) // 2, 1)
    with ThreadPoolExecutor(NCPU) as ex:
        while n >= 1 and time.time() - t0 < budget:
            i = 2
            while i < len(data) and time.time() - t0 < budget:
                pos = [i + k * n for k in range(NCPU) if i + k * n < len(data)]
                res = list(ex.map(lambda p: bad(data[:p] + data[p + n:]), pos))
                for p, r in zip(pos, res):
                    if r:
                        data = data[:p] + data[p + n:]
                        i = p
                        break
                else:
                    i += n * len(pos)
            n //= 2
        i = 2
        while i < len(data) and time.time() - t0 < budget:
            if data[i]:
                x = data[:i] + b"\0" + data[i + 1:]
                if bad(x):
                    data = x
            i += 1
    return data


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only")
    a = ap.parse_args()
    pid = a.id
    if a.replay and not os.path.exists(a.replay):
        sys.exit(f"no such file: {a.replay}")
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ck = CHECKS[pid]
    t0 = time.time()
    wd = a.keep or tempfile.mkdtemp(prefix=f"verif_{pid}_")
    os.makedirs(wd, exist_ok=True)
    try:
        rc = check(pid, ck, a, tier, seed, t0, wd)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def known_lines(pid):
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^known: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def check(pid, ck, a, tier, seed, t0, wd):
    global STACK_MB
    STACK_MB = ck.get("stack", 64)
    if ck.get("driver"):  # a check with a driver of its own
        import importlib.util
        spec = importlib.util.spec_from_file_location(ck["driver"], f"{HERE}/harness/{ck['driver']}.py")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.check(sys.modules[__name__], pid, ck, a, tier, seed, t0, wd)
    if ck.get("locales"):
        try:
            locales(ck["locales"], wd)
        except OSError as e:
            print("note: no locales:", e)
    try:
        exes = [("clang", build(ck, wd, "clang"))]
    except BuildError as e:
        try:
            exes = [("gcc", build(ck, wd, "gcc"))]
        except BuildError as e2:
            print("BUILD FAILED\n", e, "\n", e2)
            return 2
    comp, exe = exes[0]
    tb = time.time() - t0
    if a.replay:
        f, rc, out = replay(exe, os.path.abspath(a.replay), wd)
        print(out)
        if f:
            print(f"VIOLATION property={pid} replay={a.replay}")
        return 1 if f else 0

    cfg = ck[tier]
    cases = a.cases or cfg["cases"]
    corpus = f"{wd}/corpus"
    os.makedirs(corpus, exist_ok=True)
    fails = []  # (kind, path)
    stats = []

    def handle(tag, rc, out, outp, curp):
        if rc == 0:
            return
        if os.path.exists(outp + ".fail"):
            fails.append((77, outp + ".fail", out))
            return
        # crash or hang: take the recorded choices
        data = b""
        if os.path.exists(curp):
            raw = open(curp, "rb").read()
            ln = int.from_bytes(raw[:4], "little")
            if int.from_bytes(raw[4:8], "little"):
                data = raw[8:8 + ln]
        p = outp + ".crash"
        open(p, "wb").write(data)
        fails.append((rc, p, out))

    hang = cfg.get("hang", 60)
    extra = ["--only", a.only] if a.only else []

    def rnd(i):
        outp, curp = f"{wd}/r{i}", f"{wd}/r{i}.cur"
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--shard", str(i), "--shards", str(NCPU), "--out", outp,
               "--cur", curp, "--corpus", corpus, "--hang", str(hang), "--time", str(cfg.get("time", 60)),
               "--shrink", "15"] + extra
        rc, out = sh_limited(cmd, cfg.get("time", 60) + 200, cwd=wd, preexec_fn=limit)
        handle(f"random shard {i}", rc, out, outp, curp)
        return outp

    def fz(i):
        outp, curp = f"{wd}/f{i}", f"{wd}/f{i}.cur"
        myc = f"{wd}/fc{i}"
        os.makedirs(myc, exist_ok=True)
        cmd = [exe, "--fuzz", "1", "--out", outp, "--cur", curp, "--hang", str(hang)] + extra + [
            myc, corpus, f"-runs={cfg['fuzz_runs']}", f"-max_total_time={cfg.get('fuzz_time', 60)}", f"-seed={seed * 64 + i + 1}",
            "-max_len=3000", "-len_control=30", "-rss_limit_mb=3500", "-malloc_limit_mb=3000", "-timeout=120",
            "-print_final_stats=0", "-verbosity=0", "-detect_leaks=0", f"-artifact_prefix={wd}/art{i}_", "-use_value_profile=1"]
        rc, out = sh_limited(cmd, cfg.get("fuzz_time", 60) + 200, cwd=wd, preexec_fn=limit)
        handle(f"fuzz {i}", rc, out, outp, curp)
        return outp

    outs = []
    with ThreadPoolExecutor(NCPU) as ex:
        outs += list(ex.map(rnd, range(NCPU)))
        fuzz_on = bool(ck.get("fuzz") and comp == "clang" and cfg.get("fuzz_runs"))
        if not fails and fuzz_on:
            outs += list(ex.map(fz, range(NCPU)))

    # merge statistics
    tot = {"evaluations": 0, "fuzz_evaluations": 0, "discards": 0, "nontrivial": 0}
    labels, perprop, samples = {}, {}, []
    sigs = set()
    for o in outs:
        if os.path.exists(o):
            try:
                j = json.load(open(o))
            except Exception:
                continue
            for k in tot:
                tot[k] += j[k]
            for k, v in j["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in j["perprop"].items():
                perprop[k] = perprop.get(k, 0) + v
            samples += j["samples"]
            import array
            ar = array.array("Q")
            ar.frombytes(open(o + ".sigs", "rb").read())
            sigs.update(ar)
    # a few samples per sub-property
    by = {}
    for s in samples:
        by.setdefault(s.split(":")[0], []).append(s)
    samples = [x for k in sorted(by) for x in by[k][:2]]

    violations = []
    seen = set()
    for rc, path, out in sorted(fails, key=lambda f: f[0] != 77):
        if violations and (rc != 77 or time.time() - t0 > 400):
            continue  # one is enough; confirming more takes long
        data = open(path, "rb").read()
        hg = 20 if rc == 78 else 60  # what took more than the whole allowance takes more than a third of it
        with ThreadPoolExecutor(3) as ex:
            ok = all(x[0] for x in ex.map(lambda _: replay(exe, path, wd, hg), range(3)))
        if not ok:
            print(f"note: a failure (exit {rc}) did not reproduce 3 times and is not reported: {out[-600:]!r}")
            continue
        f, rc1, txt = replay(exe, path, wd, hg)
        if rc != 77 and rc1 != 78 and len(violations) == 0:
            small = shrink_external(exe, data, rc1, wd, 25)
            open(path, "wb").write(small)
            f2, rc2, txt2 = replay(exe, path, wd, hg)
            if f2:
                data, txt = small, txt2
            else:
                open(path, "wb").write(data)
        m = re.search(r"^FAIL \[([^\]]*)\]", txt, re.M)
        cls = (m.group(1) if m else str(rc1))
        if cls in seen:
            continue
        seen.add(cls)
        rd = f"{HERE}/replays"
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(data).hexdigest()[:12]
        rp = f"{rd}/{pid}-{h}.bin"
        open(rp, "wb").write(data)
        open(rp[:-4] + ".txt", "w").write(txt[-20000:])
        violations.append((rp, txt))
    for k in known_lines(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(sigs),
            "rule": ck["rule"],
            "samples": samples[:24],
            "coverage_guided_evaluations": tot["fuzz_evaluations"],
            "discarded": tot["discards"],
            "per_subproperty": perprop,
            "labels": labels,
            "compiler": comp, "build_s": round(tb, 1),
        },
        "assumptions": ck.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as fo:
        json.dump(ev, fo, indent=1)
    for rp, txt in violations[:3]:
        print(txt[-3000:])
        print(f"VIOLATION property={pid} replay={rp}")
    if not violations:
        print(f"{pid} {tier}: held on {tot['evaluations']} cases ({len(sigs)} distinct non-trivial, "
              f"{tot['fuzz_evaluations']} coverage-guided), {ev['wall_s']}s (build {tb:.1f}s, {comp})")
    return 1 if violations else 0


if __name__ == "__main__":
    main()
