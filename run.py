#!/usr/bin/env python3
"""Runs the monitors of one property:  run.py PROP quick|thorough   or   run.py --replay FILE

Builds /repo's working tree with sanitizers plus the monitor program, runs the workload sharded over the cores, and
turns what the monitors observed into evidence/<PROP>.json and KNOWN-FINDING / VIOLATION lines.
Exit: 0 held on everything explored, 1 violation, 2 no verdict (harness or build failure, nothing observed).
"""
import concurrent.futures as cf, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
EVID = os.environ.get("VP_EVID", os.path.join(HERE, "evidence"))
JOBS = int(os.environ.get("VP_JOBS", "8"))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

COMMON = ["-std=c++20", "-D_ZKEXPORT=1", "-DZKNO_REM=1", "-D_ZK_WITH_MMAP=1", "-DZK_VP_HOOKS=1", "-w", "-fno-omit-frame-pointer",
          "-gline-tables-only", "-I" + REPO + "/include", "-I" + REPO + "/src"]
VARIANTS = {
    "asan": ("clang++", ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                         "-fno-sanitize=vptr"]),
    # dense counters for the coverage-guided search in the thorough tiers are not needed; see DESIGN.md
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"]),
    "pat": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    "zero": ("clang++", ["-O1", "-ftrivial-auto-var-init=zero"]),
    "plain": ("clang++", ["-O2"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=1:handle_segv=1:handle_sigfpe=1:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "max_allocation_size_mb=4096:symbolize=1:quarantine_size_mb=32:malloc_context_size=6",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4",
}


START = time.time()
STOP_AFTER_VIOLATION = 240
HANGS = [0]
FOUND = [False]


class Trouble(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(files):
    return sha(*[x for f in sorted(files) for x in (f, read(f))])


def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/src/**/*.cc", recursive=True) if not f.endswith("MmapWin32.cc"))


def compile_one(cxx, flags, src, obj):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Trouble("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(tmp, obj)


def build(variant, harness):
    cxx, vf = VARIANTS[variant]
    flags = vf + COMMON
    os.makedirs(BUILD, exist_ok=True)
    headers = glob.glob(REPO + "/include/**/*.hh", recursive=True) + glob.glob(REPO + "/src/**/*.hh", recursive=True) \
        + glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/**/*.inl", recursive=True)
    hk = tree_hash(headers)
    jobs, libobjs, hobjs = [], [], []
    for s in lib_sources():
        o = os.path.join(BUILD, "%s-%s.o" % (variant, sha(hk, s, read(s), " ".join(flags), cxx)))
        libobjs.append(o)
        jobs.append((cxx, flags, s, o))
    hh = tree_hash(glob.glob(HERE + "/harness/*.hh") + glob.glob(HERE + "/harness/*.inc"))
    for s in [HERE + "/harness/common.cc"] + sorted(glob.glob(HERE + "/harness/%s.*cc" % harness)):
        inc = [read(HERE + "/harness/" + n.decode()) for n in re.findall(rb'#include "(\w+\.cc)"', read(s))]
        o = os.path.join(BUILD, "%s-h-%s.o" % (variant, sha(hk, hh, read(s), *inc, " ".join(flags), cxx)))
        hobjs.append(o)
        jobs.insert(0, (cxx, flags + ["-I" + HERE + "/harness", "-DVP_SAMPLES=\"%s/tests/samples\"" % REPO], s, o))
    binary = os.path.join(BUILD, "%s-%s-%s" % (variant, harness, sha(*libobjs, *hobjs)))
    if not os.path.exists(binary):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(compile_one, *j) for j in jobs]:
                f.result()
        tmp = binary + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + [x for x in vf if x.startswith("-f") or x.startswith("-O")] + hobjs + libobjs +
                           ["-lsquish", "-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Trouble("linking %s failed:\n%s" % (harness, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, binary)
    for f in libobjs + hobjs + [binary]:
        try:
            os.utime(f)
        except OSError:
            pass
    prune()
    return binary


def prune(limit=6 << 30):
    fs = []
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            st = os.stat(p)
            fs.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    total = sum(x[1] for x in fs)
    for m, s, p in sorted(fs):
        if total <= limit or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
            total -= s
        except OSError:
            pass


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?)(?::\d+)*\s*$|^\s*#\d+ (.*?) (/\S+?)(?::\d+)*(?: \(\S+\))?\s*$")


def repo_frame(text):
    """First frame of the first stack that lies in the library."""
    for line in text.splitlines():
        m = FRAME.match(line)
        if m:
            fn, path = (m.group(1), m.group(2)) if m.group(2) else (m.group(3), m.group(4))
            if path and path.startswith(REPO + "/"):
                fn = re.sub(r"\(.*", "", fn)
                fn = re.sub(r"<.*", "", fn)
                return fn.strip() or path
    return "?"


def crash_key(text, code, label):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
        if m.group(1) == "ABRT" or "terminate called" in text:
            kind = "terminate"
            t = re.search(r"throwing an instance of '([^']+)'", text)
            if t:
                kind += "-" + t.group(1)
    m = re.search(r"(\S+?):(\d+):(\d+): runtime error: (.*)", text)
    if m and "ubsan" not in (kind or ""):
        msg = re.sub(r"-?\b\d[\w.+-]*", "N", m.group(4))
        msg = re.sub(r"0x[0-9a-fN]+", "P", msg)
        kind = "ubsan-" + re.sub(r"[^\w]+", "-", msg)[:60].strip("-")
    if kind is None and "VP-HANG" in text:
        kind = "hang"
    if kind is None:
        kind = "died-%s" % code
    return "%s@%s%s" % (kind, repo_frame(text), (":" + label.split("|")[0]) if label else "")


def read_progress(path):
    try:
        b = read(path)
        cur = struct.unpack("<Q", b[:8])[0]
        lab = b[8:].split(b"\0")[0].decode(errors="replace")
        return cur, lab
    except Exception:
        return None, ""


class Result:
    def __init__(self):
        self.viols = []   # (key, msg, case, variant)
        self.counters = {}
        self.states = set()
        self.samples = []
        self.trouble = []
        self.executed = 0


def wait_for(p, timeout, races=None):
    """The exit code of p, "timeout", or "stopped": there is a violation to report already and p still goes on."""
    t = time.time()
    while True:
        try:
            return p.wait(2)
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        over = now - t > timeout
        if not over and now - START > STOP_AFTER_VIOLATION:
            over = FOUND[0] or (races and b"WARNING: ThreadSanitizer" in read(races))
        if over:
            p.kill()
            p.wait()
            return "timeout" if now - t > timeout else "stopped"


def run_block(binary, variant, prop, tier, seed, first, count, tmp, extra, res, timeout, watchdog=20, env_extra=None):
    """Runs cases [first, first+count), restarting after a case that ended the process."""
    pos, end = first, first + count
    deaths = 0
    while pos < end:
        if HANGS[0] > 6:
            return
        tag = "%s-%d-%d" % (variant, pos, os.getpid())
        out, prog = os.path.join(tmp, tag + ".out"), os.path.join(tmp, tag + ".prog")
        scratch = os.path.join(tmp, tag + ".scratch")
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, **SAN_ENV)
        env.update(env_extra or {})
        env["TZ"] = env.get("VP_TZ", "UTC")
        err = os.path.join(tmp, tag + ".err")
        cmd = [binary, "--prop", prop, "--tier", tier, "--seed", str(seed), "--first", str(pos), "--count",
               str(end - pos), "--out", out, "--progress", prog, "--scratch", scratch, "--watchdog", str(watchdog)] + extra
        with open(err, "wb") as ef:
            code = wait_for(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch), timeout, err if variant == "tsan" else None)
        shutil.rmtree(scratch, ignore_errors=True)
        text = read(err).decode(errors="replace")
        done = False
        if os.path.exists(out):
            for line in read(out).decode(errors="replace").splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["t"] == "viol":
                    res.viols.append((j["key"], j["msg"], j["case"], variant))
                elif j["t"] == "done":
                    done = True
                    for k, v in j["counters"].items():
                        res.counters[k] = res.counters.get(k, 0) + v
                    res.states.update(j["states"].split())
                    res.samples += j["samples"]
        if variant == "tsan":  # races are reported while the run goes on
            for rep in text.split("WARNING: ThreadSanitizer")[1:]:
                res.viols.append(("tsan:" + re.sub(r"\W+", "-", rep.split("\n")[0].split("(")[0]).strip("-") + "@" + repo_frame(rep), rep[:2500], pos, variant))
        if res.viols:
            FOUND[0] = True
        if code == "stopped":
            return
        if done and (code == 0 or (code == 66 and variant == "tsan")):
            res.executed += end - pos
            return
        cur, lab = read_progress(prog)
        if cur is None or cur == 2**64 - 1 or code == 3 or "VP-ERROR" in text:
            res.trouble.append("monitor failed (exit %s) near case %s: %s" % (code, pos, text[-1500:]))
            return
        m = re.search(r"^(\S+?):\d+:\d+: runtime error:", text, re.M)
        if m and m.group(1).startswith(HERE + "/") and "AddressSanitizer" not in text:
            res.trouble.append("undefined behaviour in the monitor itself: " + text[:800])
            return
        res.executed += cur - pos + 1
        if code == 78:   # work budget: violation already recorded
            # name the construct: replace the recorded key by one with the library function
            fr = repo_frame(text.split("VP-BUDGET", 1)[-1])
            if res.viols and res.viols[-1][2] == cur:
                k = res.viols.pop()
                res.viols.append((k[0] + "@" + fr, k[1] + "\n" + text.split("VP-BUDGET", 1)[-1][:3000], cur, variant))
        elif code == 79 or code == "timeout":
            # a wall/CPU limit alone decides nothing: run the case again, by itself, with a larger limit
            if watchdog <= 20:
                sub = Result()
                run_block(binary, variant, prop, tier, seed, cur, 1, tmp, extra, sub, 300, 90, env_extra)
                if sub.viols:
                    res.viols += sub.viols
                elif sub.trouble:
                    res.trouble.append("case %d: no verdict (time limit, then %s)" % (cur, sub.trouble[0][:200]))
                for k, v in sub.counters.items():
                    res.counters[k] = res.counters.get(k, 0) + v
            elif code == "timeout":
                res.trouble.append("case %d: no verdict (wall-clock limit)" % cur)
            else:
                res.viols.append((crash_key(text, code, lab), text[-3000:], cur, variant))
        else:
            res.viols.append((crash_key(text, code, lab), text[:3000], cur, variant))
        FOUND[0] = FOUND[0] or bool(res.viols)
        deaths += 1
        HANGS[0] += code in (79, "timeout")
        # enough to report; a tree that dies on every case must not use up the time limit
        if deaths > 12 or HANGS[0] > 6 or time.time() - START > STOP_AFTER_VIOLATION:
            return
        pos = cur + 1


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in read(p).decode().splitlines():
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)$", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if sys.argv[1] == "--selfcheck":   # setup: nothing to prepare, every check builds from /repo's tree
        for t in ("clang++", "g++"):
            if not shutil.which(t):
                print("missing " + t)
                return 2
        print("%d properties" % len(PROPS))
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        cfg = PROPS[r["property"]]
        binary = build(r["variant"], cfg["harness"])
        tmp = tempfile.mkdtemp(prefix="vp-")
        res = Result()
        run_block(binary, r["variant"], r["property"], r["tier"], r["seed"], r["case"], 1, tmp, cfg.get("args", {}).get(r["variant"], []), res, 600, 180)
        shutil.rmtree(tmp, ignore_errors=True)
        for v in res.viols:
            print("key=%s\n%s" % (v[0], v[1]))
        print("replay: %d violation(s), trouble=%s" % (len(res.viols), res.trouble))
        return 1 if res.viols else 0
    prop, tier = sys.argv[1], sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    evfile = os.path.join(EVID, prop + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    tmp = tempfile.mkdtemp(prefix="vp-")
    res = Result()
    try:
        cases = cfg[tier]
        for variant in cfg["variants"]:
            binary = build(variant, cfg["harness"])
            n = cases[variant] if isinstance(cases, dict) else cases
            n = max(1, int(n * float(os.environ.get("VP_SCALE", "1"))))
            nb = max(1, min(n, cfg.get("blocks", 4 * JOBS)))
            bounds = [n * i // nb for i in range(nb + 1)]
            with cf.ThreadPoolExecutor(cfg.get("jobs", JOBS)) as ex:
                subs = []
                for a, b in zip(bounds, bounds[1:]):
                    if b > a:
                        r = Result()
                        subs.append((r, ex.submit(run_block, binary, variant, prop, tier, seed, a, b - a, tmp,
                                                  cfg.get("args", {}).get(variant, []), r, cfg.get("timeout", 800 if tier == "quick" else 3000))))
                for r, f in subs:
                    f.result()
                    res.viols += r.viols
                    res.trouble += r.trouble
                    res.states |= r.states
                    res.samples += r.samples
                    res.executed += r.executed
                    for k, v in r.counters.items():
                        res.counters[k] = res.counters.get(k, 0) + v
        if "post" in cfg:
            cfg["post"](res, tmp, tier, seed)
    except Trouble as e:
        print("NO-VERDICT property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings(prop)
    by_key = {}
    for key, msg, case, variant in res.viols:
        by_key.setdefault(key, []).append((msg, case, variant))
    new = {k: v for k, v in by_key.items() if not any(k == kk for kk, _ in known)}
    for kk, what in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if kk in by_key else " (not hit in this run)"))

    missing = [c for c in cfg.get("require", []) if not res.counters.get(c)]
    uniq = []
    for s in res.samples:
        if s not in uniq:
            uniq.append(s)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": res.executed, "distinct_nontrivial": len(res.states), "rule": cfg["rule"],
                       "samples": uniq[:6], "observed": dict(sorted(res.counters.items())),
                       "variants": cfg["variants"]},
          "assumptions": cfg.get("assumptions", []), "violations": sorted(new)[:50],
          "wall_s": round(time.time() - t0, 2)}
    with open(evfile + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(evfile + ".tmp", evfile)

    if new:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for k in sorted(new)[:15]:
            msg, case, variant = new[k][0]
            path = os.path.join(rd, "%s-%s.json" % (prop, sha(k)[:10]))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": case, "variant": variant, "key": k,
                           "msg": msg, "cases": len(new[k]), "how": "python3 %s/run.py --replay %s" % (HERE, path)}, f, indent=1)
            print("%s [%d case(s), first %d]\n  %s" % (k, len(new[k]), case, msg[:1500].replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if res.trouble:
        print("NO-VERDICT property=%s: %s" % (prop, res.trouble[0]))
        return 2
    if missing or not res.states:
        print("NO-VERDICT property=%s: the monitors observed nothing of: %s" % (prop, missing or "any state"))
        return 2
    print("HELD property=%s tier=%s cases=%d distinct=%d wall=%.1fs" % (prop, tier, res.executed, len(res.states), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
