#!/usr/bin/env python3
"""Driver of every check:  ./run.py P01 [--tier quick|thorough] [--seed N]
                           ./run.py --replay replays/xyz.json
                           ./run.py --setup
Builds what the property needs from /repo's working tree (content-addressed cache in /verif/build),
runs the property's workloads in sanitizer-instrumented processes, collects what the monitors
observed, matches violations against known_findings.txt, writes evidence/<id>.json.

exit 0  held on everything explored          exit 1  VIOLATION line printed
exit 3  the machinery failed (inconclusive)
"""
import sys, os, re, glob, json, time, hashlib, subprocess, shutil, tempfile, fnmatch, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GEAR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 1)
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

COMMON = ["-g1", "-fno-omit-frame-pointer", "-Wno-deprecated-declarations", "-w"]
VARIANTS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ container assertions, all fatal
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"]),
    "plain": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"]),
}
LIBDIRS = ["gearsurf", "gearimpl", "gearxml"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.cxx, self.flags = VARIANTS[variant]
        self.objdir = os.path.join(BUILD, "obj", variant)
        os.makedirs(self.objdir, exist_ok=True)
        gen = os.path.join(BUILD, "gen")
        os.makedirs(os.path.join(gen, "gear"), exist_ok=True)
        top = read(os.path.join(REPO, "CMakeLists.txt")).decode()
        t = read(os.path.join(REPO, "cmake/GearConfig.h.cmake.in")).decode()
        for v in ("MAJOR", "MINOR", "PATCH"):
            m = re.search(r"_VERSION_%s +([0-9]+)" % v, top)
            t = t.replace("@GEAR_VERSION_%s@" % v, m.group(1) if m else "0")
        t = re.sub(r"#cmakedefine (\w+)[^\n]*", r"/* #undef \1 */", re.sub(r"@\w+@", "0", t))
        cfg = os.path.join(gen, "gear", "GearConfig.h")
        if not os.path.exists(cfg) or read(cfg).decode() != t:
            with open(cfg + ".tmp%d" % os.getpid(), "w") as f:
                f.write(t)
            os.rename(cfg + ".tmp%d" % os.getpid(), cfg)
        self.inc = ["-I" + gen, "-I" + REPO + "/include", "-I" + REPO + "/include/gear", "-I" + VERIF + "/harness"]
        hs = []
        for root, _, files in sorted(os.walk(REPO + "/include")):
            for f in sorted(files):
                hs.append(f.encode() + read(os.path.join(root, f)))
        self.hdr = sha(t, *hs)
        self.hhdr = sha(*[read(os.path.join(VERIF, "harness", f)) for f in sorted(os.listdir(VERIF + "/harness")) if f.endswith(".h")])

    def compile(self, src, harness=False, extra=()):
        fl = self.flags + COMMON + list(extra)
        key = sha(self.cxx, " ".join(fl), self.hdr, self.hhdr if harness else "", os.path.basename(src), read(src))
        obj = os.path.join(self.objdir, os.path.basename(src)[:-3] + "-" + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d.o" % os.getpid()
            r = subprocess.run([self.cxx] + fl + self.inc + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("compiling %s\n%s" % (src, r.stderr[-6000:]))
            os.rename(tmp, obj)
        else:
            os.utime(obj)
        return obj

    def libsources(self):
        out = []
        for d in LIBDIRS:
            p = os.path.join(REPO, "src", d)
            out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith((".cc", ".cpp", ".cxx"))]
        return out

    def build(self, harness, extra_src=(), mock=None):
        """returns the path of the executable of harness/<harness>.cc linked against the library objects"""
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            hsrc = os.path.join(VERIF, "harness", harness + ".cc")
            mi = []
            if mock:  # headers standing in for a package that is not installed
                md = os.path.join(VERIF, "harness", mock)
                mi = ["-I" + md, "-DMOCK_" + sha(*[read(os.path.join(md, f)) for f in sorted(os.listdir(md))])]
                stub = os.path.join(BUILD, "stub", "libgear%s.so" % mock)
                if not os.path.exists(stub):  # the library GearXML looks for: its code is linked in already
                    os.makedirs(os.path.dirname(stub), exist_ok=True)
                    subprocess.run(["g++", "-x", "c++", "-shared", "-fPIC", "-o", stub + ".tmp", "-"], input="", text=True, check=True)
                    os.rename(stub + ".tmp", stub)
            jobs = [(hsrc, True, mi), (os.path.join(VERIF, "harness", "mon_main.cc"), True, [])]
            jobs += [(s, False, []) for s in self.libsources()]
            jobs += [(f, False, mi) for s in extra_src for f in sorted(glob.glob(os.path.join(REPO, s)))]
            jobs.sort(key=lambda j: -os.path.getsize(j[0]))
            with ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda j: self.compile(*j), jobs))
            exe = os.path.join(BUILD, "bin", self.variant)
            os.makedirs(exe, exist_ok=True)
            exe = os.path.join(exe, harness + "-" + sha(*sorted(objs)))
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d" % os.getpid()
                r = subprocess.run([self.cxx] + self.flags + objs + ["-lCLHEP", "-lpthread", "-o", tmp], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("linking %s\n%s" % (harness, r.stderr[-6000:]))
                os.rename(tmp, exe)
            prune()
            return exe


class BuildError(Exception):
    pass


def prune(limit=3 << 30):
    fs = []
    for sub in ("obj", "bin"):
        for root, _, files in os.walk(os.path.join(BUILD, sub)):
            for f in files:
                p = os.path.join(root, f)
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for _, s, p in sorted(fs):
        if tot < limit:
            break
        os.unlink(p)
        tot -= s


ENV = {
    # use-after-return detection is switched on for the first cases of every workload only: with g++ frames left by an
    # exception stay in the fake stack, which makes long runs slower and slower
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=88:detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=0:strict_string_checks=0:"
                    "allocator_may_return_null=0:max_allocation_size_mb=4000:hard_rss_limit_mb=6000:detect_odr_violation=0:handle_abort=1:handle_sigfpe=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=0:report_objects=0:leak_check_at_exit=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"),
}


def crash_key(err, rc):
    """a stable name of a crash: kind and innermost library function"""
    def func():
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err):
            fn = m.group(1)
            mm = re.search(r"((?:gear|mon)::[A-Za-z_0-9:~]+)", fn)
            if "gear::" in fn and "/src/gear" in fn or "/include/gear" in fn:
                return re.sub(r"\(.*", "", mm.group(1) if mm else fn.split("(")[0].split()[0])
        m = re.search(r"#\d+ 0x[0-9a-f]+ in [^\n]*?(gear::[A-Za-z_0-9:~]+)", err)
        return m.group(1) if m else "?"
    if "MON-HANG" in err:
        return "hang"
    m = re.search(r"(?:WARNING|ERROR): ThreadSanitizer: ([a-z -]+)", err)
    if m:
        mm = re.search(r"(?m)^ +#\d+ [^\n]*?(gear::[A-Za-z_0-9]+(?:::~?[A-Za-z_0-9]+)?|TiXml\w+(?:::\w+)?)[^\n]*?/(?:src|include)/gear", err)
        return "tsan:" + m.group(1).strip().replace(" ", "-") + ":" + (mm.group(1) if mm else "?")
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z-]+)", err)
    if "Assertion" in err and "failed" in err:
        mm = re.search(r"([\w.]+\.(?:cc|h|tcc)):\d+: .*Assertion .(.*?). failed", err)
        return "assert:" + ((mm.group(1) + ":" + mm.group(2)[:60]) if mm else func())
    m2 = re.search(r"([\w.]+):\d+:\d+: runtime error: ([a-z -]+)", err)
    if m2:
        return "ubsan:" + m2.group(2).strip().replace(" ", "-")[:50] + ":" + m2.group(1) + ":" + func()
    if m:
        return "asan:" + m.group(1) + ":" + func()
    if "terminate called" in err:
        mm = re.search(r"instance of '([^']+)'", err)
        return "terminate:" + (mm.group(1) if mm else "?")
    if "hard rss limit" in err:
        return "memory-exhaustion"
    return "exit:%d" % rc


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.events, self.states, self.samples, self.inconcl, self.vcounts = {}, set(), [], {}, {}
        self.viol = {}    # key -> first record
        self.errors = []
        self.lock = threading.Lock()
        self.hung = set()
        self.deadline = time.time() + (700 if tier == "quick" else 3 * 3600)
        self.tmp = tempfile.mkdtemp(prefix="gearmon-%s-" % pid)

    def absorb(self, path, wl):
        done = False
        if not os.path.exists(path):
            return False
        with open(path, errors="replace") as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                t = r.get("t")
                with self.lock:
                    if t == "v":
                        self.add(r["key"], wl, r["case"], r["detail"], r.get("describe", ""))
                    elif t == "e":
                        self.events[r["k"]] = self.events.get(r["k"], 0) + r["n"]
                    elif t == "i":
                        self.inconcl[r["k"]] = self.inconcl.get(r["k"], 0) + r["n"]
                    elif t == "vc":
                        self.vcounts[r["k"]] = self.vcounts.get(r["k"], 0) + r["n"]
                    elif t == "s":
                        self.samples.append(r["x"])
                    elif t == "st":
                        self.states.update(r["h"])
                    elif t == "done":
                        done = True
        return done

    def add(self, key, wl, case, detail, describe="", exe=None, err=None):
        if key not in self.viol or case < self.viol[key]["case"]:
            self.viol[key] = dict(key=key, workload=wl, case=case, detail=detail, describe=describe)
            if err:
                self.viol[key]["stderr"] = err[-6000:]

    def cmd(self, exe, wl, frm, to, out, status, scratch, cpu):
        c = [exe, "--prop", self.pid, "--workload", wl, "--seed", str(self.seed), "--from", str(frm), "--to", str(to),
             "--out", out, "--status", status, "--scratch", scratch, "--cpu", str(cpu)]
        if self.tier == "thorough":
            c.append("--thorough")
        return c

    def chunk(self, exe, wl, frm, to, n, uar=False, env=None, prefix=(), cpu=8):
        crashes = 0
        part = 0
        while frm < to:
            if time.time() > self.deadline:
                with self.lock:
                    self.inconcl[wl + "/deadline"] = self.inconcl.get(wl + "/deadline", 0) + (to - frm)
                return
            part += 1
            out = os.path.join(self.tmp, "%s-%d-%d.out" % (wl, n, part))
            status = out + ".st"
            scratch = os.path.join(self.tmp, "%s-%d-%d.d" % (wl, n, part))
            os.makedirs(scratch)
            e = dict(ENV)
            if uar:
                e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("use_after_return=0", "use_after_return=1")
            e.update(env or {})
            try:
                r = subprocess.run(list(prefix) + self.cmd(exe, wl, frm, to, out, status, scratch, cpu), env=e, cwd=scratch,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800)
                rc, err = r.returncode, r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as x:
                rc, err = -99, (x.stderr or b"").decode("utf-8", "replace")
            shutil.rmtree(scratch, ignore_errors=True)
            ok = self.absorb(out, wl)
            if rc == 0 and ok:
                return
            cur = frm
            try:
                cur = int(read(status).split()[0])
            except Exception:
                pass
            if rc == -99:
                with self.lock:
                    self.errors.append("workload %s chunk %d-%d: wall-clock watchdog fired at case %d (inconclusive)" % (wl, frm, to, cur))
                return
            if rc == 2:
                with self.lock:
                    self.errors.append("harness error: " + err[-2000:])
                return
            key = crash_key(err, rc)
            if key == "hang" and wl in self.hung:
                with self.lock:
                    self.inconcl[wl + "/hang-limit"] = self.inconcl.get(wl + "/hang-limit", 0) + (to - cur)
                return
            if key == "hang":
                # a CPU-time budget overrun: re-run this case alone with a larger budget before calling it a hang
                o2 = out + ".re"
                os.makedirs(scratch, exist_ok=True)
                try:
                    r2 = subprocess.run(self.cmd(exe, wl, cur, cur + 1, o2, o2 + ".st", scratch, 5 * cpu), env=e, cwd=scratch,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
                    rc2, err2 = r2.returncode, r2.stderr.decode("utf-8", "replace")
                except subprocess.TimeoutExpired:
                    rc2, err2 = -99, ""
                shutil.rmtree(scratch, ignore_errors=True)
                if self.absorb(o2, wl) and rc2 == 0:
                    with self.lock:
                        self.inconcl[wl + "/slow-case"] = self.inconcl.get(wl + "/slow-case", 0) + 1
                    frm = cur + 1
                    continue
                err = err + err2
                key = crash_key(err2, rc2) if rc2 != -99 else "hang"
                if key == "hang":
                    self.hung.add(wl)
            with self.lock:
                full = wl + "/" + key
                self.vcounts[full] = self.vcounts.get(full, 0) + 1
                self.events[wl + "/sanitizer-report"] = self.events.get(wl + "/sanitizer-report", 0) + 1
                self.add(full, wl, cur, (err[err.find("ThreadSanitizer"):][:3000] if "ThreadSanitizer" in err else err.strip()[-3000:]), "", err=err)
            crashes += 1
            if crashes > 12 or (key == "hang"):
                with self.lock:
                    self.inconcl[wl + "/crash-limit"] = 1
                return
            frm = cur + 1


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def run_property(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    R = Run(pid, tier, seed)
    try:
        try:
            for h in P["harness"]:
                variant = h.get("variant", "asan")
                if h.get("only") and h["only"] != tier:
                    continue
                exe = Builder(variant).build(h["name"], h.get("extra_src", ()), h.get("mock"))
                lst = subprocess.run([exe, "--list", "--prop", pid], capture_output=True, text=True, env=ENV).stdout.split("\n")
                tasks = []
                for l in lst:
                    f = l.split()
                    if len(f) != 4 or (h.get("workloads") and f[1] not in h["workloads"]):
                        continue
                    n = int(f[3] if tier == "thorough" else f[2])
                    n = int(n * h.get("scale", 1)) if n > 50 else n
                    if n <= 0:
                        continue
                    nchunk = max(1, min(n, JOBS * (4 if tier == "thorough" else 1)))
                    b = [n * i // nchunk for i in range(nchunk + 1)]
                    first = min(60, b[1])
                    if variant == "asan" and first < b[1]:
                        b.insert(1, first)
                    for i in range(len(b) - 1):
                        tasks.append((f[1], b[i], b[i + 1], len(tasks), i == 0))
                if not tasks and not h.get("optional"):
                    R.errors.append("harness %s has no workload for %s" % (h["name"], pid))
                with ThreadPoolExecutor(h.get("jobs", JOBS)) as ex:
                    list(ex.map(lambda t: R.chunk(exe, t[0], t[1], t[2], t[3], t[4], h.get("env"), h.get("prefix", ()), h.get("cpu", 8)), tasks))
            if P.get("post"):
                P["post"](R)
        except BuildError as e:
            R.errors.append("build failed: " + str(e))
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)

    known = [k for k in load_known() if k[0] == pid]
    unlisted, listed = [], {}
    for key, v in sorted(R.viol.items()):
        hit = [k for k in known if fnmatch.fnmatchcase(key, k[1])]
        if hit:
            listed.setdefault(hit[0][1], []).append(v)
        else:
            unlisted.append(v)
    cases = sum(n for k, n in R.events.items() if k.endswith("/cases"))
    oracles = sum(n for k, n in R.events.items() if not k.endswith("/cases"))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "exploration"),
              coverage=dict(evaluations=cases, distinct_nontrivial=len(R.states), rule=P["rule"],
                            samples=[s for s in R.samples][:6] or ["none"], oracle_observations=oracles,
                            observed_per_oracle=dict(sorted(R.events.items())), inconclusive=R.inconcl,
                            known_findings_seen=sorted(listed), harness_errors=R.errors[:5]),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k[1] in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    for v in unlisted:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, sha(v["key"])[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s (x%d) case %d: %s" % (v["key"], R.vcounts.get(v["key"], 1), v["case"], v["detail"][:400 if "stderr" not in v else 1500]))
        if v["describe"]:
            print("   case: " + v["describe"][:300])
    if unlisted:
        return 1
    if R.errors:
        print("INCONCLUSIVE property=%s: %s" % (pid, "; ".join(R.errors)[:6000]))
        return 3
    if cases == 0 or oracles == 0 or not R.states:
        print("INCONCLUSIVE property=%s: nothing observed (cases=%d oracles=%d states=%d)" % (pid, cases, oracles, len(R.states)))
        return 3
    print("HELD property=%s cases=%d observations=%d distinct=%d wall=%.1fs" % (pid, cases, oracles, len(R.states), time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    P = PROPS[v["property"]]
    for h in P["harness"]:
        exe = Builder(h.get("variant", "asan")).build(h["name"], h.get("extra_src", ()), h.get("mock"))
        lst = subprocess.run([exe, "--list", "--prop", v["property"]], capture_output=True, text=True, env=ENV).stdout
        if (" %s " % v["workload"]) not in lst:
            continue
        tmp = tempfile.mkdtemp(prefix="gearmon-replay-")
        e = dict(ENV)
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("use_after_return=0", "use_after_return=1")
        e.update(h.get("env") or {})
        c = [exe, "--prop", v["property"], "--workload", v["workload"], "--seed", str(v["seed"]), "--from", str(v["case"]), "--to",
             str(v["case"] + 1), "--scratch", tmp, "--cpu", "200", "--verbose"] + (["--thorough"] if v["tier"] == "thorough" else [])
        r = subprocess.run(c, env=e, cwd=tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        return r.returncode
    return 3


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if a and a[0] == "--setup":
        for n in sorted({(h["name"], h.get("variant", "asan"), tuple(h.get("extra_src", ())), h.get("mock") or "") for P in PROPS.values() for h in P["harness"]}):
            Builder(n[1]).build(n[0], n[2], n[3])
            print("built", n[0], n[1])
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 3
    return run_property(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
