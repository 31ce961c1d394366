#!/usr/bin/env python3
"""Runs the monitors for one property: builds the harness against /repo's working tree, runs the phases,
merges what the monitors observed into evidence/<id>.json, writes replay files, applies known-findings.txt.

  run.py C05 [--tier quick|thorough] [--seed N]     exit 0 held, 1 VIOLATION printed, 3 no answer
  run.py --replay replays/C05-1.json                 rebuild and re-run just the job that failed
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.modules["run"] = sys.modules[__name__]  # checks.py imports from here: one copy of the exception classes
from checks import CHECKS, TECH  # noqa: E402

HOST = "x86_64-unknown-linux-gnu"


class NoAnswer(Exception):
    pass


class Unsupported(NoAnswer):
    """the tool cannot interpret something the code does; not a verdict"""


# ------------------------------------------------------------------ builds
def cpu_has(flag):
    try:
        return re.search(r"\b%s\b" % flag, open("/proc/cpuinfo").read()) is not None
    except OSError:
        return False


BUILDS = {
    # name: (cargo arguments, environment, path of the binary below the target directory)
    "simd": (["build", "--release"], {}, "release/jmon"),
    "std": (["build", "--release", "--no-default-features", "--features", "std,galloc,thirdparty"], {}, "release/jmon"),
    "nostd": (["build", "--release", "--no-default-features", "--features", "galloc"], {}, "release/jmon"),
    "checked": (["build", "--profile", "checked"], {}, "checked/jmon"),
    "checked-std": (["build", "--profile", "checked", "--no-default-features", "--features", "std,galloc,thirdparty"], {}, "checked/jmon"),
    # no monitoring allocator: for valgrind
    "plain": (["build", "--release", "--no-default-features", "--features", "simd"], {}, "release/jmon"),
    # every heap block beside an inaccessible page
    "fence": (["build", "--release", "--no-default-features", "--features", "simd,fence"], {}, "release/jmon"),
    "asan": (["+nightly", "build", "--release", "--target", HOST, "--no-default-features", "--features", "simd"],
             {"RUSTFLAGS": "-Zsanitizer=address", "CARGO_PROFILE_RELEASE_DEBUG": "1"}, HOST + "/release/jmon"),
    "msan": (["+nightly", "build", "-Zbuild-std", "--release", "--target", HOST, "--no-default-features", "--features", "simd"],
             {"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins", "CARGO_PROFILE_RELEASE_DEBUG": "1"}, HOST + "/release/jmon"),
    "tsan": (["+nightly", "build", "-Zbuild-std", "--release", "--target", HOST, "--no-default-features", "--features", "simd"],
             {"RUSTFLAGS": "-Zsanitizer=thread", "CARGO_PROFILE_RELEASE_DEBUG": "1"}, HOST + "/release/jmon"),
}
MIRI = {
    # name: (target, features, extra rustflags)
    "miri": (HOST, "simd", "-Ctarget-feature=+avx2"),
    "miri-scalar": (HOST, "std", ""),
    # the SIMD build on a processor with AVX but without AVX2 (AMD Piledriver): executing AVX2 code is undefined behaviour there
    "miri-noavx2": (HOST, "simd", "-Ctarget-feature=+avx,+fma,+f16c,+bmi1,+lzcnt,+popcnt"),
    "i686": ("i686-unknown-linux-gnu", "std", ""),
    "i686-nostd": ("i686-unknown-linux-gnu", "", ""),
    "s390x": ("s390x-unknown-linux-gnu", "std", ""),
}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def build(name):
    args, env, out = BUILDS[name]
    tc = [a for a in args if a.startswith("+")]
    rest = [a for a in args if not a.startswith("+")]
    d = os.path.join(TARGET, name)
    e = dict(ENV, CARGO_TARGET_DIR=d, **env)
    cmd = ["cargo"] + tc + rest + ["--offline", "--locked"]
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("the harness does not build (%s):\n%s" % (name, r.stdout[-3000:]))
    return os.path.join(d, out)


# ------------------------------------------------------------------ native 32-bit x86
CRT32 = """.globl _start
.type _start,@function
_start:
 xorl %ebp,%ebp
 popl %esi
 movl %esp,%ecx
 andl $-16,%esp
 pushl %eax
 pushl %esp
 pushl %edx
 pushl $0
 pushl $0
 pushl %ecx
 pushl %esi
 pushl $main
 call __libc_start_main
 hlt
.section .note.GNU-stack,"",@progbits
"""


def build_i686(features, profile="release"):
    """32-bit x86 binaries, one per feature set, with the standard library built from its source. The 32-bit C library is
    installed but neither its start-up file nor its linker names are: both are made here."""
    d = os.path.join(TARGET, "i686n")
    lib = os.path.join(d, "crt")
    os.makedirs(lib, exist_ok=True)
    for n in ("libc.so.6", "libm.so.6", "libpthread.so.0", "libdl.so.2", "librt.so.1", "libutil.so.1", "libgcc_s.so.1"):
        real = os.path.join("/usr/lib32", n)
        if not os.path.exists(real):
            raise Unsupported("no 32-bit C library here (%s)" % real)
        link = os.path.join(lib, n[:n.index(".so") + 3])
        if not os.path.islink(link):
            os.symlink(real, link)
    open(os.path.join(lib, "start.s"), "w").write(CRT32)
    for c in ("as --32 start.s -o start.o", "ar rcs libgcc.a", "ar rcs libgcc_eh.a"):
        r = subprocess.run(c, shell=True, cwd=lib, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Unsupported("32-bit start-up file: " + r.stdout[-500:])
    rf = "-Clinker=gcc -Clink-arg=-m32 -Clink-arg=-nostartfiles -Clink-arg=-L%s -Clink-arg=%s/start.o -Crelocation-model=static -Clink-arg=-no-pie" % (lib, lib)
    out = {}
    for f in features:
        t = dict(ENV, CARGO_TARGET_DIR=d, RUSTFLAGS=rf)
        cmd = ["cargo", "+nightly", "build", "-Zbuild-std", "--profile", profile, "--target", "i686-unknown-linux-gnu", "--offline", "--locked",
               "--no-default-features"] + (["--features", f] if f else [])
        r = subprocess.run(cmd, cwd=HARNESS, env=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoAnswer("the harness does not build (i686 %s):\n%s" % (f, r.stdout[-3000:]))
        b = os.path.join(d, "jmon-%s-%s" % (f or "nostd", profile))
        shutil.copy(os.path.join(d, "i686-unknown-linux-gnu", profile, "jmon"), b)
        out[f] = b
    p = subprocess.run([b, "dump", "none", "--shard", "999999/1000000"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not p.stdout.startswith("END"):
        raise Unsupported("32-bit programs do not run here: %s" % p.stdout[-300:])
    return out


def build_agent():
    """the program that runs one encode on the emulated big-endian MIPS"""
    d = os.path.join(TARGET, "agent")
    e = dict(ENV, CARGO_TARGET_DIR=d)
    cmd = ["cargo", "+nightly", "build", "-Zbuild-std=core,alloc", "--release", "--target", "mips-mti-none-elf", "--offline", "--locked"]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "agent"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("the agent does not build:\n%s" % r.stdout[-3000:])
    return os.path.join(d, "mips-mti-none-elf/release/agent")


def build_all(names):
    res, err = {}, []

    def go(n):
        try:
            res[n] = build(n)
        except NoAnswer as x:
            err.append(x)
    ts = [threading.Thread(target=go, args=(n,)) for n in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return res


# ------------------------------------------------------------------ running
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


class Run:
    """one property, one run"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.viol = []
        self.frag = []
        self.extra = {}
        self.samples = []
        self.notes = []
        self.bins = {}
        self.lock = threading.Lock()
        self.dir = os.path.join(WORK, "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)

    def add(self, phase, build, msg, what="", tag="", idx=0, seed=None, replay=None):
        with self.lock:
            self.viol.append(dict(property=self.prop, tier=self.tier, phase=phase, build=build, seed=self.seed if seed is None else seed,
                                  tag=tag, idx=idx, case=what, message=msg, replay=replay or {}))

    def call(self, cmd, env=None, timeout=None, cwd=None, limit=None):
        if timeout is None:
            timeout = 6000 if self.thorough else 700
        p = subprocess.Popen(cmd, env=env or ENV, cwd=cwd or self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise NoAnswer("no end after %d s: %s" % (timeout, " ".join(cmd)))
        return p.returncode, o, e

    def harness(self, build, args, phase, cmd=None, env=None, sanitizer=None, timeout=None):
        """Run `jmon check`; collect its fragment. `sanitizer` names the tool whose reports are violations."""
        cmd = (cmd or [self.bins[build]]) + args
        rc, o, e = self.call(cmd, env=env, timeout=timeout, cwd=HARNESS if cmd[0] == "cargo" else None)
        frag = None
        for l in o.splitlines():
            if l.startswith("FRAGMENT "):
                frag = json.loads(l[9:])
        rep = dict(kind="harness", build=build, args=args)
        if sanitizer == "Miri" and frag is None:
            m = re.search(r"error: unsupported operation: (.*)", e)
            if m:
                raise Unsupported("Miri cannot interpret this: " + m.group(1)[:300])
        if sanitizer and (frag is None or rc not in (0, 1)):
            m = re.search(r"(==\d+==ERROR: .*|error: Undefined Behavior:.*|error: abnormal termination.*|error: the evaluated program .*"
                          r"|WARNING: ThreadSanitizer:.*|==\d+==WARNING: MemorySanitizer.*|==\d+== (?:Invalid|Conditional|Use of uninit|Syscall|Process terminating).*)", e)
            if m:
                where = re.findall(r"/repo/src/[\w/]+\.rs:\d+", e)
                self.add(phase, build, "%s: %s%s" % (sanitizer, m.group(1)[:400], (" at " + ", ".join(dict.fromkeys(where[:4]))) if where else ""),
                         what=e[-6000:], replay=rep)
                return None
        m = re.search(r"^FENCE (.*?)\t(\d+)\t(\S+)\t(\d+)\t(.*)", e, re.M)
        if m and rc in (139, 135):
            self.add(phase, build, m.group(1), what=m.group(5), tag=m.group(3), idx=int(m.group(4)), seed=int(m.group(2)),
                     replay=dict(kind="harness", build=build, args=args[:2] + ["--seed", m.group(2), "--only", m.group(3) + ":" + m.group(4)]))
            return None
        if rc < 0 and -rc in CRASH or rc in (134, 139, 132, 135, 136):
            self.add(phase, build, "the process died of signal %d: %s" % (-rc if rc < 0 else rc - 128, e[-600:]), replay=rep)
            return None
        if rc not in (0, 1) or frag is None:
            raise NoAnswer("%s ended with %d\n%s\n%s" % (" ".join(cmd), rc, o[-1500:], e[-3000:]))
        frag["phase"] = phase
        frag["build_dir"] = build
        with self.lock:
            self.frag.append(frag)
        for v in frag["violations"]:
            only = [a for a in args if a != "--thorough"]
            keep, skip = [], False
            for a in only:
                if skip:
                    skip = False
                elif a in ("--rounds", "--seed", "--budget", "--shard"):
                    skip = True
                else:
                    keep.append(a)
            keep += ["--seed", str(v["seed"]), "--only", "%s:%d" % (v["tag"], v["idx"])]
            if "--thorough" in args:
                keep.append("--thorough")
            self.add(phase, build, v["msg"], what=v["what"], tag=v["tag"], idx=v["idx"], seed=v["seed"],
                     replay=dict(kind="harness", build=build, args=keep))
        return frag

    def check(self, build, name=None, rounds=1, budget=None, phase=None, extra=()):
        args = ["check", name or self.prop, "--seed", str(self.seed), "--rounds", str(rounds)]
        if budget:
            args += ["--budget", str(budget)]
        if self.thorough:
            args.append("--thorough")
        return self.harness(build, args + list(extra), phase or ("monitors on the %s build" % build))

    # -------------------------------------------------- Miri
    def miri_cmd(self, name, more=""):
        target, feat, rf = MIRI[name]
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, name), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks " + more)
        if rf:
            env["RUSTFLAGS"] = rf
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--target", target, "--no-default-features"]
        if feat:
            cmd += ["--features", feat]
        return cmd + ["--"], env

    def miri(self, name, args, phase, more="", timeout=None):
        cmd, env = self.miri_cmd(name, more)
        return self.harness(name, args, phase, cmd=cmd, env=env, sanitizer="Miri", timeout=timeout)

    setup_lock = threading.Lock()

    def miri_ready(self, name):
        """one sysroot build at a time"""
        with Run.setup_lock:
            cmd, env = self.miri_cmd(name)
            s = ["cargo", "+nightly", "miri", "setup", "-q", "--target", MIRI[name][0]]
            env2 = dict(env)
            env2.pop("RUSTFLAGS", None)
            r = subprocess.run(s, cwd=HARNESS, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise NoAnswer("miri setup failed: " + r.stdout[-2000:])
        # compile once, before several processes run at a time
        rc, o, e = self.call(cmd + ["dump", "none", "--shard", "999999/1000000"], env=env, cwd=HARNESS)
        if rc != 0:
            raise NoAnswer("the harness does not build or start under Miri (%s): %s" % (name, e[-3000:]))

    # -------------------------------------------------- digest lists
    def dump(self, build, lst, extra=(), miri=False, timeout=None):
        args = ["dump", lst, "--seed", str(self.seed)] + list(extra)
        if self.thorough:
            args.append("--thorough")
        if miri:
            cmd, env = self.miri_cmd(build)
            rc, o, e = self.call(cmd + args, env=env, cwd=HARNESS, timeout=timeout)
        else:
            rc, o, e = self.call([self.bins[build]] + args, timeout=timeout)
        rep = dict(kind="dump", build=build, args=args)
        if miri and rc != 0 and "Undefined Behavior" in e:
            self.add("digest list", build, "Miri: " + e[:600], replay=rep)
            return None
        if miri and rc != 0 and "unsupported operation" in e:
            raise Unsupported("Miri cannot interpret this: " + re.search(r"unsupported operation:? *(.*)", e).group(1)[:300])
        if rc == 4 and "--no-avx2" in args:
            raise Unsupported(e.strip()[-200:])
        if rc < 0 and -rc in CRASH:
            self.add("digest list", build, "the process died of signal %d: %s" % (-rc, e[-600:]), replay=rep)
            return None
        lines = o.splitlines()
        if rc != 0 or not lines or not lines[-1].startswith("END "):
            raise NoAnswer("dump %s on %s ended with %d\n%s" % (lst, build, rc, e[-3000:]))
        d = {}
        for l in lines[:-1]:
            _, tag, idx, res, what = l.split("\t", 4)
            d[(tag, int(idx))] = (res, what)
        if len(d) != int(lines[-1].split()[1]):
            raise NoAnswer("digest list is incomplete")
        if "--agent" in args:
            for k, v in d.items():
                if v[0].startswith("UNKNOWN "):
                    raise Unsupported("the emulator gives no verdict on %s#%d: %s" % (k + (v[0][8:],)))
            self.extra["mips_instructions_executed"] = int(lines[-1].split()[-1])
        return d

    def dump_sharded(self, build, lst, extra, n, timeout=None):
        """a digest list under Miri, in n processes"""
        self.miri_ready(build)
        parts = [None] * n

        def one(k):
            def go():
                parts[k] = self.dump(build, lst, list(extra) + ["--shard", "%d/%d" % (k, n)], miri=True, timeout=timeout)
            return go
        parallel(*[one(k) for k in range(n)])
        if any(p is None for p in parts):
            return None
        return {k: v for p in parts for k, v in p.items()}

    def miri_sharded(self, name, args, phase, n, more="", timeout=None):
        self.miri_ready(name)
        parallel(*[(lambda k=k: self.miri(name, args + ["--shard", "%d/%d" % (k, n)], phase, more=more, timeout=timeout)) for k in range(n)])
        fs = [f for f in self.frag if f["phase"] == phase]
        self.frag = [f for f in self.frag if f["phase"] != phase]
        if fs:
            m = fs[0]
            for f in fs[1:]:
                for k in ("evaluations", "distinct", "skipped"):
                    m[k] += f[k]
                for k, v in f["counters"].items():
                    m["counters"][k] = m["counters"].get(k, 0) + v
                m["wall_s"] = max(m["wall_s"], f["wall_s"])
                m["samples"] += f["samples"]
            self.frag.append(m)

    def compare(self, lst, a, b, da, db, phase):
        """every request of the list must have the same outcome in both"""
        if da is None or db is None:
            return
        diff = [k for k in da if da[k][0] != db.get(k, ("missing",))[0]]
        panics = [k for k in da if da[k][0] == "panic" or db.get(k, ("",))[0] == "panic"]
        for k in diff[:5]:
            self.add(phase, a + " / " + b, "%s gives %s, %s gives %s" % (a, da[k][0], b, db.get(k, ("nothing",))[0]), what=da[k][1], tag=k[0], idx=k[1],
                     replay=dict(kind="phase"))
        if not diff:
            for k in panics[:3]:
                self.add(phase, a + " / " + b, "panic on this request", what=da[k][1], tag=k[0], idx=k[1], replay=dict(kind="phase"))
        ok = [k for k in da if not da[k][0].startswith("E:")]
        self.frag.append(dict(phase=phase, build=a + " / " + b, build_dir=a + "/" + b, evaluations=len(da), distinct=len({da[k][1] for k in ok}), skipped=0,
                              wall_s=0, counters={"outcomes_compared": len(da), "files_compared": len(ok), "refusals_compared": len(da) - len(ok)},
                              maxima={}, distinct_seen={"distinct_outcomes": len({v[0] for v in da.values()})},
                              samples=["%s#%d: %s => %s" % (k[0], k[1], da[k][1], da[k][0]) for k in list(ok)[:: max(1, len(ok) // 4)][:4]]))


def parallel(*fs):
    err = []

    def go(f):
        try:
            f()
        except Exception as x:  # noqa: BLE001
            err.append(x)
    ts = [threading.Thread(target=go, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]


# ------------------------------------------------------------------ findings, evidence, replay
def known():
    p = os.path.join(HERE, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=\[(.*?)\] (.*)", l.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def evidence(run, spec, wall):
    cov = dict(evaluations=sum(f["evaluations"] for f in run.frag),
               distinct_nontrivial=sum(f["distinct"] for f in run.frag),
               rule=spec["rule"] + " Counted per phase and build; a case is distinct by its full text (all settings, picture generator and seed).",
               samples=[], phases=[])
    for f in run.frag:
        ph = dict(phase=f["phase"], build=f["build"], evaluations=f["evaluations"], distinct_nontrivial=f["distinct"], wall_s=f["wall_s"],
                  observed=f["counters"])
        if f["maxima"]:
            ph["maxima"] = f["maxima"]
        if f["distinct_seen"]:
            ph["distinct_seen"] = f["distinct_seen"]
        if f["skipped"]:
            ph["jobs_not_started_for_lack_of_time"] = f["skipped"]
        cov["phases"].append(ph)
        cov["samples"] += f["samples"][:4]
    cov["samples"] = (cov["samples"] + run.samples)[:16]
    if spec.get("exhaustive"):
        cov["exhaustive_parts"] = spec["exhaustive"]
    if run.extra:
        cov["tools"] = run.extra
    if run.notes:
        cov["notes"] = run.notes
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level=spec["level"], coverage=cov, assumptions=spec["assumptions"], wall_s=round(wall, 2),
              violations=len(run.viol))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, run.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    v = json.load(open(path))
    print("replaying %s: %s" % (v["property"], v["message"]))
    print("case: %s" % v["case"][:2000])
    r = v["replay"]
    if r.get("kind") == "harness":
        run = Run(v["property"], v["tier"], v["seed"])
        if r["build"] in MIRI:
            run.miri_ready(r["build"])
            run.miri(r["build"], r["args"], v["phase"])
        elif r["build"] == "valgrind":
            raise SystemExit(main_check(v["property"], v["tier"], v["seed"]))
        else:
            if r["build"].startswith("i686-"):
                run.bins = {r["build"]: build_i686([r["build"][5:]], "checked")[r["build"][5:]]}
            else:
                run.bins = build_all([r["build"]])
            run.harness(r["build"], r["args"], v["phase"], sanitizer=r["build"] if "san" in r["build"] else None)
        shutil.rmtree(run.dir, ignore_errors=True)
        for x in run.viol:
            print("REPRODUCED: %s | %s" % (x["message"], x["case"][:500]))
        return 1 if run.viol else 0
    return main_check(v["property"], v["tier"], v["seed"])


def main_check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    run = Run(prop, tier, seed)
    try:
        try:
            run.bins = build_all(spec["builds"](run))
            run.build_s = time.time() - t0
            spec["run"](run)
        except NoAnswer as x:
            # what was seen before still counts
            if not run.viol:
                print("NO ANSWER: %s" % x)
                return 3
            print("incomplete: %s" % x)
        run.extra["build_wall_s"] = round(run.build_s, 1) if hasattr(run, "build_s") else 0
        evidence(run, spec, time.time() - t0)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    kn = [k for k in known() if k[0] == prop]
    seen, bad = set(), 0
    os.makedirs(REPLAYS, exist_ok=True)
    for v in run.viol:
        hit = next((k for k in kn if k[1] in v["case"] + " | " + v["message"]), None)
        if hit:
            if hit[1] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[2]))
                seen.add(hit[1])
            continue
        bad += 1
        p = os.path.join(REPLAYS, "%s-%d.json" % (prop, bad))
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print("  %s [%s %s:%s] %s" % (v["build"], v["phase"], v["tag"], v["idx"], v["message"][:600]))
        print("  case: %s" % v["case"][:400].replace("\n", " / "))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    n = sum(f["evaluations"] for f in run.frag)
    print("%s %s: %d evaluations, %d violations, %.1f s (seed %d)" % (prop, tier, n, bad, time.time() - t0, seed))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d  # noqa: E731
    if a and a[0] == "--replay":
        try:
            return replay(a[1])
        except NoAnswer as x:
            print("NO ANSWER: %s" % x)
            return 3
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    except ValueError:
        seed = 1
    return main_check(a[0], tier, abs(seed) % (1 << 40))


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
