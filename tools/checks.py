"""What is run for each property (see DESIGN.md)."""
import glob, os, re, shutil, subprocess

TECH = {}


def stream(rounds, builds=("simd", "std"), thorough_rounds=400):
    """the same monitor on several builds of the library, one after the other (each uses all cores)"""
    def run(r):
        from run import parallel  # noqa: F401
        for b in builds:
            r.check(b, rounds=thorough_rounds if r.thorough else rounds, budget=1500 if r.thorough else 60)
    return dict(builds=lambda r: list(builds), run=run)


def mem_available_gb():
    for l in open("/proc/meminfo"):
        if l.startswith("MemAvailable:"):
            return int(l.split()[1]) / 1e6
    return 0


def c08(r):
    stream(3)["run"](r)
    if r.thorough:
        if mem_available_gb() > 18:
            r.check("simd", "huge", phase="more than 2^32 symbols on one table", extra=["--hang", "3000"])
        else:
            r.notes.append("too little memory for the picture with more than 2^32 symbols")


def c10(r):
    a = r.dump("simd", "simd")
    b = r.dump("std", "simd")
    r.compare("simd", "simd", "std", a, b, "digest list, SIMD build against scalar build")
    from run import cpu_has
    r.extra["cpu_has_avx2"] = cpu_has("avx2")
    if not cpu_has("avx2"):
        r.notes.append("this CPU has no AVX2: both builds ran scalar code")
    from run import parallel, Unsupported

    def masked():
        try:
            r.compare("simd", "simd without AVX2", "std", r.dump("simd", "simd", ["--no-avx2"]), b, "digest list, SIMD build told by CPUID that there is no AVX2, against scalar build")
        except Unsupported as x:
            r.notes.append(str(x))

    def miri():
        sh = ["--mini", "--shard", "3/12"]
        try:
            r.miri_ready("miri-noavx2")
            d = r.dump("miri-noavx2", "mini", sh, miri=True, timeout=6000 if r.thorough else 500)
            r.compare("mini", "simd without AVX2 under Miri", "std", d, r.dump("std", "mini", sh), "digest list, SIMD build under Miri for a processor without AVX2 (AVX2 code is undefined behaviour), against scalar build")
        except Unsupported as x:
            r.notes.append("SIMD build without AVX2 under Miri: %s" % x)
    parallel(masked, miri)
    if r.thorough:
        seed = r.seed
        for k in range(1, 12):
            r.seed = seed + 1000003 * k
            r.compare("simd", "simd", "std", r.dump("simd", "simd"), r.dump("std", "simd"), "digest list %d" % k)
        r.seed = seed


def c11(r):
    from run import parallel, Unsupported, NoAnswer, build_i686, build_agent
    out, bigs = {}, {}
    I686 = {"i686": "std", "i686-nostd": "", "i686-simd": "simd"}

    def host():
        out["std"] = r.dump("std", "host")
        out["nostd"] = r.dump("nostd", "host")
        out["mini"] = r.dump("std", "mini", ["--mini"])
        bigs["std"] = r.dump("std", "bigs")
        bigs["nostd"] = r.dump("nostd", "bigs")

    def i686():
        try:
            b = build_i686(I686.values(), "checked")
        except (Unsupported, NoAnswer) as x:
            r.notes.append("native 32-bit programs: %s; Miri interprets a small list instead" % x)
            return
        for n, f in I686.items():
            r.bins[n] = b[f]
            out[n] = r.dump(n, "host")
            bigs[n] = r.dump(n, "bigs")

    def mips():
        try:
            r.bins["mips"] = build_agent()
            out["mips"] = r.dump("std", "host", ["--agent", r.bins["mips"]])
        except (Unsupported, NoAnswer) as x:
            r.notes.append("big-endian MIPS: %s" % x)

    def miri(n, shards=6):
        def go():
            try:
                out[n] = r.dump_sharded(n, "mini", ["--mini"], shards, timeout=6000 if r.thorough else 700)
            except Unsupported as x:
                r.notes.append("%s: %s" % (n, x))
        return go
    parallel(host, i686, mips, miri("s390x"))
    r.compare("host", "std", "nostd", out["std"], out["nostd"], "digest list, std against no_std")
    miris = ["s390x"]
    if r.thorough or "i686" not in out:
        miris.append("i686")
    if r.thorough:
        miris.append("i686-nostd")
    parallel(*[miri(n, 4) for n in miris[1:]])
    for n in I686:
        if n in out:
            r.compare("host", "std", n, out["std"], out[n], "digest list, x86_64 against 32-bit x86 run natively with overflow checks (%s)" % (I686[n] or "no_std"))
    for n in bigs:
        if n != "std":
            r.compare("bigs", "std", n, bigs["std"], bigs[n], "pictures of more than 65536 blocks, x86_64 std against %s" % n)
    if "mips" in out:
        r.compare("host", "std", "mips", out["std"], out["mips"], "digest list, x86_64 against no_std on an emulated 32-bit big-endian MIPS with overflow checks")
    for n in miris:
        if n in out:
            r.compare("mini", "std", n, out["mini"], out[n], "digest list, x86_64 native against %s under Miri" % n)
    r.extra["targets_compared"] = sorted(set(out) - {"std", "mini"})


def c12(r):
    from run import parallel

    def native():
        r.check("simd", "C12", rounds=200 if r.thorough else 4, budget=900 if r.thorough else 40, phase="canary and poisoning allocator")
        args = ["check", "mem", "--seed", str(r.seed), "--budget", "900" if r.thorough else "60", "--rounds", "100" if r.thorough else "6"]
        if r.thorough:
            args.append("--thorough")
        from run import ENV
        r.harness("asan", args, "AddressSanitizer", sanitizer="AddressSanitizer",
                  env=dict(ENV, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"))

        args = ["check", "mem", "--seed", str(r.seed), "--budget", "900" if r.thorough else "50", "--rounds", "40" if r.thorough else "2"]
        if r.thorough:
            args.append("--thorough")
        r.harness("fence", args, "every heap block beside an inaccessible page")

    def miri():
        from run import Unsupported
        args = ["check", "memmini", "--seed", str(r.seed), "--budget", "4000" if r.thorough else "400"]
        if r.thorough:
            args.append("--thorough")
        try:
            r.miri_sharded("miri", args, "Miri, AVX2 path", 5, timeout=6000 if r.thorough else 800)
        except Unsupported as x:
            # an intrinsic Miri does not know: no verdict from this phase, the others decide
            r.notes.append("%s; the scalar path was interpreted instead" % x)
            r.miri_sharded("miri-scalar", args, "Miri, scalar path", 5, timeout=6000 if r.thorough else 800)
        if r.thorough:
            r.miri_sharded("miri-scalar", args, "Miri, scalar path, tree borrows", 8, more="-Zmiri-tree-borrows", timeout=6000)
    parallel(native, miri)
    if r.thorough:
        thorough_mem(r)


def thorough_mem(r):
    from run import ENV, build
    for n, opt in (("msan", {"MSAN_OPTIONS": "poison_in_dtor=1"}), ("tsan", {"TSAN_OPTIONS": "halt_on_error=1"})):
        r.bins[n] = build(n)
        r.harness(n, ["check", "mem", "--seed", str(r.seed), "--budget", "400"], n, env=dict(ENV, **opt), sanitizer=n)
    r.bins["plain"] = build("plain")
    r.harness("valgrind", ["check", "memmini", "--seed", str(r.seed), "--threads", "1"], "valgrind memcheck",
              cmd=["valgrind", "-q", "--error-exitcode=99", r.bins["plain"]], sanitizer="valgrind", timeout=3000)


def c13(r):
    for b in ("checked", "checked-std"):
        r.check(b, rounds=100 if r.thorough else 1, budget=1200 if r.thorough else 80)
    r.check("nostd", rounds=20 if r.thorough else 1, budget=600 if r.thorough else 60)
    if r.thorough:
        on_i686(r, ["std", "simd"])


def on_i686(r, features, rounds=20, budget=600):
    """the property's monitors in 32-bit programs with overflow checks"""
    from run import build_i686, Unsupported
    try:
        b = build_i686(features, "checked")
    except Unsupported as x:
        r.notes.append("native 32-bit programs: %s" % x)
        return
    for f in features:
        r.bins["i686-" + f] = b[f]
        r.check("i686-" + f, rounds=rounds, budget=budget, phase="monitors in 32-bit programs (%s)" % f)


def c14(r):
    for b in ("simd", "nostd"):
        r.check(b, rounds=4 if r.thorough else 1, budget=1500 if r.thorough else 100)


def c15(r):
    os.environ["JMON_WORK"] = r.dir
    from run import ENV
    ENV["JMON_WORK"] = r.dir
    r.check("simd", rounds=60 if r.thorough else 3, budget=1500 if r.thorough else 60)


def c18(r):
    r.check("simd", rounds=100 if r.thorough else 2, budget=1500 if r.thorough else 60)
    r.check("std", rounds=20 if r.thorough else 1, budget=600 if r.thorough else 60)
    # fresh processes: other order, other threads, other addresses, other environment
    from run import ENV
    a = r.dump("simd", "proc")
    b = r.dump("simd", "proc", ["--reverse"])
    r.compare("proc", "process 1", "process 2 in reverse order", a, b, "digest list in two processes")
    ENV["MALLOC_PERTURB_"] = "165"
    ENV["TZ"] = "Pacific/Chatham"
    ENV["LC_ALL"] = "tr_TR.UTF-8"
    ENV["RUST_MIN_STACK"] = "16777216"
    c = r.dump("std", "proc", ["--reverse"])
    d = r.dump("std", "proc")
    for k in ("MALLOC_PERTURB_", "TZ", "LC_ALL", "RUST_MIN_STACK"):
        ENV.pop(k)
    r.compare("proc", "process 3 in reverse order", "process 4", c, d, "digest list in two processes, scalar build, other environment")


def c21(r):
    from run import HERE, ENV, NoAnswer, parallel
    third = os.path.join(HERE, "third")
    tools = {}

    def go_build():
        e = dict(ENV, GO111MODULE="off", GOFLAGS="", GOCACHE=os.path.join(r.dir, "gocache"), GOTOOLCHAIN="local", GOPATH=os.path.join(r.dir, "gopath"))
        p = subprocess.run(["go", "build", "-o", os.path.join(r.dir, "godec"), "godec.go"], cwd=third, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoAnswer("go build: " + p.stdout[-2000:])
        tools["go"] = [os.path.join(r.dir, "godec")]

    def java_build():
        p = subprocess.run(["javac", "-d", r.dir, "JavaDec.java"], cwd=third, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoAnswer("javac: " + p.stdout[-2000:])
        tools["java"] = ["java", "-Xmx2g", "-Djava.awt.headless=true", "-cp", r.dir, "JavaDec"]
    parallel(go_build, java_build)
    r.check("simd", rounds=60 if r.thorough else 2, budget=900 if r.thorough else 60, phase="jpeg-decoder (Rust)")
    r.check("std", rounds=20 if r.thorough else 1, budget=300 if r.thorough else 60, phase="jpeg-decoder (Rust), files of the scalar build")
    for k in range(30 if r.thorough else 1):
        for b in ("simd", "std"):
            corpus(r, b, r.seed + 7919 * k, tools, 3000)


def corpus(r, b, seed, tools, n):
    from run import NoAnswer, parallel
    d = os.path.join(r.dir, "corpus-" + b)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, o, e = r.call([r.bins[b], "corpus", d, "--seed", str(seed), "--n", str(n)])
    rep = dict(kind="phase")
    if rc != 0 or not o.splitlines() or not o.splitlines()[-1].startswith("END"):
        raise NoAnswer("corpus ended with %d %s" % (rc, e[-2000:]))
    for l in o.splitlines()[:3]:
        if l.startswith("BAD\t"):
            _, i, m, c = l.split("\t", 3)
            r.add("corpus", b, m, what=c, tag="corpus", idx=int(i), seed=seed, replay=rep)
    idx = dict(l.split("\t", 1) for l in open(os.path.join(d, "index")).read().splitlines())

    def one(name, cmd):
        def go():
            rc, o, e = r.call(cmd + [d])
            last = o.splitlines()[-1].split("\t") if o.splitlines() else [""]
            if rc != 0 or last[0] != "SUMMARY":
                raise NoAnswer("%s ended with %d: %s" % (name, rc, e[-2000:]))
            for l in o.splitlines()[:-1]:
                _, i, m = l.split("\t", 2)
                if len(r.viol) < 20:
                    r.add(name, b, m, what=idx[i], tag="corpus", idx=int(i), seed=seed, replay=rep)
            r.frag.append(dict(phase=name, build=b, build_dir=b, evaluations=int(last[1]), distinct=int(last[1]), skipped=0, wall_s=0,
                               counters={"files_decoded": int(last[1]), "pixels_compared": int(last[2]), "files_outside_the_decoders_feature_set": int(last[3])},
                               maxima={}, distinct_seen={}, samples=["%s: %s" % (k, idx[k]) for k in list(idx)[:: max(1, len(idx) // 2)][:2]]))
        return go
    parallel(one("Go image/jpeg", tools["go"]), one("libjpeg 6b (JDK ImageIO)", tools["java"]))
    shutil.rmtree(d, ignore_errors=True)


GEN = "Requests are drawn from a seeded generator over colour type, size (boundary-biased), content class (noise, saturated, gradient, impulse, flat, cell-constant, ...), quality, tables, factor, scans, Huffman mode, restart interval, density, segments; plus systematic phases. "
TRUST = "The monitors' own JPEG parser/decoder (harness/src/jpeg.rs) and reference arithmetic are trusted; they are cross-checked by C21's three independent decoders on the same kind of files."
CHECKS = {}
META = {}


def claim(pid, spec, level, technique, note, rule, assumptions=(), quick_note=""):
    CHECKS[pid] = dict(spec, level=level, rule=rule, assumptions=[TRUST] + list(assumptions))
    META[pid] = (technique, level, note)


def fn(builds, run):
    return dict(builds=lambda r: list(builds), run=run)


claim("C01", stream(4), "exploration", "runtime monitor on the destination: strict T.81 stream monitor over generated workloads, two builds",
      "Every byte of every generated file goes through a strict parser/decoder; pictures outside the explored set are not covered.",
      GEN + "Non-trivial: a successful encode whose whole output the stream monitor accepted.")
claim("C02", stream(6), "exploration", "runtime monitor: header oracle over the parsed output of generated and systematic requests",
      "All widths and heights are sampled at every 15th value (all in the thorough run); settings by generator.",
      GEN + "Non-trivial: headers compared field by field with the request.")
claim("C03", stream(5), "exploration", "runtime monitor: every decoded coefficient against an f64 reference DCT bound",
      "Bound is half a quantiser step plus the derived fixed-point error; anything smaller passes.",
      GEN + "Non-trivial: a picture all of whose coefficients were compared with the reference transform.",
      ["Fixed-point error allowance: q*(|C|*8+8q+2.5)/65536 + 2.5/8 per coefficient, derived in DESIGN.md (largest observed use 98 %)."])
claim("C04", stream(4), "exploration", "runtime monitor: block geometry oracle over all residues and factors, cell-constant pictures",
      "All residues modulo the MCU and all factors and layouts; content by generator.",
      GEN + "Non-trivial: a picture all of whose blocks were compared with the blocks JPEG prescribes.")
claim("C05", stream(4), "exploration", "metamorphic runtime monitor: coefficients of entropy-coding variants compared",
      "Pairs of encodings of one picture; generated settings.",
      GEN + "Non-trivial: two files with different entropy-coding settings whose coefficients were all compared.")
claim("C06", stream(3), "exploration", "runtime monitor: online checker of the marker/MCU event trace",
      "Intervals around every structural boundary, all modes; up to 65535+ MCUs in a few large pictures.",
      GEN + "Non-trivial: a file whose restart markers and intervals were all checked.")
claim("C07", stream(6), "exploration", "runtime monitor: scan-script trace checker",
      "All scan counts 2..64 for all colour types, both Huffman modes; content by generator.",
      GEN + "Non-trivial: a progressive file whose scan script and block counts were all checked.")
claim("C08", fn(("simd", "std"), c08), "exploration", "runtime monitor: Huffman table oracle (legality, symbol use, cost) over generated and adversarial statistics",
      "Includes Fibonacci-distributed symbol counts that force code length limiting beyond 16 and 32 levels.",
      GEN + "Non-trivial: a file whose optimised tables were checked symbol by symbol and compared in cost.",
      ["'Never worse than the defaults' is judged on coded bits of the same symbol sequence."])
claim("C09", stream(6), "exploration", "runtime monitor: quantisation table oracle, all qualities and presets",
      "All 256 qualities x 9 x 9 presets enumerated; custom tables by generator.",
      GEN + "Non-trivial: a file whose quantisation tables were compared with the independent formula.")
claim("C10", fn(("simd", "std"), c10), "exploration", "differential runtime monitor: two builds run one job list, outcomes compared",
      "Byte-identical files on every job of the list (all 2^24 colours per converted layout, all qualities x extreme blocks, all widths 1..80).",
      "A job is one encode request (or refused request); both builds run it and the digests of the complete output are compared. Non-trivial: both produced a file.",
      ["AVX2 is present (recorded in tools.cpu_has_avx2)."])
claim("C11", fn(("std", "nostd"), c11), "exploration", "differential runtime monitor: std, no_std, native 32-bit x86, an emulated big-endian MIPS and Miri as s390x run one job list",
      "Byte-identical outcomes on every job of the list; the 64-bit big-endian target is interpreted, so its list is small.",
      "A job is one encode request (or refused request); its outcome must be the same in both. Non-trivial: both produced a file.",
      ["The MIPS emulator (harness/src/mips.rs) and Miri's s390x stand for big-endian machines."])
claim("C12", fn(("simd", "asan", "fence"), c12), "exploration", "AddressSanitizer, Miri (AVX2 path), guard-page and canary/poisoning allocators; thorough adds MSan, TSan, valgrind, tree borrows",
      "No report on any executed path; unexecuted paths are not covered.",
      "Requests through the safe API incl. hostile image sources, exact-size heap slices, failing destinations and threads. Non-trivial: a request that ran the encoder under the named tool.",
      ["Tool blind spots: Miri runs tiny pictures; ASan does not see uninitialised reads (Miri, and MSan in the thorough run, do)."])
claim("C13", fn(("checked", "checked-std", "nostd"), c13), "exploration", "runtime monitor on return values, panics and CPU time; overflow checks and debug assertions on",
      "Argument space of every public function swept at its limits; contents by generator.",
      GEN + "Invalid requests: zero dimensions, short buffers, segment numbers and sizes, profiles, scan counts. Non-trivial: a distinct request whose result was compared with the documented one.",
      ["A request that uses more than 60 s of CPU time is called a hang (the slowest measured one needs 2 s)."])
claim("C14", fn(("simd", "nostd"), c14), "fault_enumeration", "fault injection at every output offset with a call-trace oracle",
      "Every byte offset of each chosen file for permanent, transient, zero-length and panicking faults; files by generator.",
      GEN + "Each is encoded once per fault offset. Non-trivial: the fault was reached.")
claim("C15", fn(("simd",), c15), "fault_enumeration", "file-system fault injection: /dev/full, RLIMIT_FSIZE at every offset, stale files, bad paths",
      "Errors that the kernel reports at write time; errors reported only at close or fsync are outside what the API can see.",
      GEN + "Each goes to a file. Non-trivial: the file on disk was compared with the image, or the injected failure was reached.")
claim("C16", stream(6, ("simd", "nostd")), "exploration", "runtime monitor: segment list model driven by random call histories",
      "All segment sizes at the limits, profiles up to and beyond 255 chunks.",
      "A history of segment/profile calls followed by an encode; the file's segment list is compared with a list model. Non-trivial: at least one segment or profile.")
claim("C17", stream(2), "exploration", "runtime monitor: exhaustive sweep of all 2^24 colours; layout equivalences",
      "All colours through the public functions and through the encoder in five layouts.",
      "Exhaustive colour slices and generated layouts. Non-trivial: each slice or picture compared with exact arithmetic.",
      ["'Exact' means within 0.51 of the real-valued JFIF formula."])
claim("C18", fn(("simd", "std"), c18), "exploration", "runtime monitor: repeated, nested, interleaved, concurrent and fresh-process encodes compared; heap poisoning",
      "Thread schedules as the OS provides them under 8-way load, source callbacks that re-enter the encoder.",
      "A request encoded again after, during or beside other work. Non-trivial: the repeated output was compared byte for byte.")
claim("C19", stream(5), "exploration", "runtime monitor: spying image source with an online contract checker",
      "All colour types, factors and modes; call sequences checked call by call.",
      GEN + "Fed through an ImageBuffer that records calls. Non-trivial: the trace was checked and the file compared with the built-in format's.")
claim("C20", stream(4), "exploration", "runtime monitor: settings-record model driven by random setter histories",
      "Histories of up to dozens of setter calls, repeated and reordered.",
      "A setter history; getters and the file are compared with a model record. Non-trivial: history with at least two calls.")
claim("C21", fn(("simd", "std"), c21), "exploration", "differential runtime monitor: jpeg-decoder, Go image/jpeg and libjpeg 6b decode a generated corpus",
      "Three independent decoders; feature gaps of Go's decoder are skipped and counted.",
      GEN + "Each file is decoded and each pixel compared with an interval from the monitor's own decode. Non-trivial: all pixels compared.",
      ["Decoder arithmetic may differ from the exact inverse DCT by 1.6 levels; chroma upsampling may use neighbouring samples."])
claim("C22", stream(3, ("simd", "std")), "exploration", "runtime monitor: allocator trace (peak and residual bytes of every encode)",
      "Bounds are on heap bytes seen by the global allocator.",
      GEN + "Measured by a counting allocator. Non-trivial: an encode whose peak and residue were compared with the bounds.",
      ["Baseline: 64 KB + 192 B per padded column and component, independent of height; other modes: 64 KB + 8 B per padded pixel and component."])
