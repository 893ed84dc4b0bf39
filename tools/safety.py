#!/usr/bin/env python3
"""C27: runs the workloads of all monitors under AddressSanitizer with a standard library that checks the
preconditions of unsafe operations (valid UTF-8 included), and small ones in the interpreter Miri.
usage: safety.py <verif> <repo> <quick|thorough> <seed>"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE, REPO, TIER, SEED = sys.argv[1:5]
H = os.path.join(HERE, "harness")
T = os.path.join(H, "target-safety")
TC = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
thorough = TIER == "thorough"
t0 = time.time()

def stop(msg):
    print("INCONCLUSIVE: " + msg)
    sys.exit(2)

base = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI"))}
base.update(PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TC, CARGO_TERM_COLOR="never")
for k in ("RUSTUP_HOME", "CARGO_HOME"):
    if k in os.environ: base[k] = os.environ[k]

# ---- a standard library whose unchecked conversions to text check their precondition
os.makedirs(T, exist_ok=True)
sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=base, capture_output=True, text=True).stdout.strip()
src = os.path.join(sysroot, "lib/rustlib/src/rust/library")
if not os.path.isdir(src): stop("no sources of the standard library")
lib = os.path.join(T, "library")
def patch():
    if os.path.isdir(lib): shutil.rmtree(lib)
    shutil.copytree(src, lib, symlinks=True)
    p = os.path.join(lib, "core/src/str/converts.rs"); s = open(p).read()
    for f, t in (("pub const unsafe fn from_utf8_unchecked(v: &[u8]) -> &str {\n", "v"), ("pub const unsafe fn from_utf8_unchecked_mut(v: &mut [u8]) -> &mut str {\n", "&*v")):
        if f not in s: stop("unexpected sources of the standard library")
        s = s.replace(f, f + """    crate::ub_checks::assert_unsafe_precondition!(
        check_library_ub,
        "str::from_utf8_unchecked requires valid UTF-8",
        (v: &[u8] = %s) => run_utf8_validation(v).is_ok()
    );
""" % t)
    open(p, "w").write(s)
    p = os.path.join(lib, "alloc/src/string.rs"); s = open(p).read()
    f = "pub unsafe fn from_utf8_unchecked(bytes: Vec<u8>) -> String {\n"
    if f not in s: stop("unexpected sources of the standard library")
    s = s.replace(f, f + "        let _ = unsafe { core::str::from_utf8_unchecked(&bytes) };\n")
    open(p, "w").write(s)
    open(os.path.join(lib, ".patched"), "w").write(open(__file__).read())
try: fresh = open(os.path.join(lib, ".patched")).read() == open(__file__).read()
except OSError: fresh = False
if not fresh: patch()

def digest():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(H, "src"), os.path.join(H, "Cargo.toml"), os.path.join(H, "Cargo.lock"), __file__):
        fs = [top] if os.path.isfile(top) else sorted(f for f in glob.glob(top + "/**", recursive=True) if os.path.isfile(f))
        for f in fs: h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

stamp = os.path.join(T, ".stamp"); d = digest()
asan = dict(base, RUSTFLAGS="--cap-lints warn -Zsanitizer=address", CARGO_TARGET_DIR=os.path.join(T, "asan"), __CARGO_TESTS_ONLY_SRC_ROOT=lib)
bin_ = os.path.join(T, "asan", TRIPLE, "release/r3dmon")
miri = dict(base, RUSTFLAGS="--cap-lints warn", CARGO_TARGET_DIR=os.path.join(T, "miri"), XDG_CACHE_HOME=os.path.join(T, "cache"), MIRI_LIB_SRC=lib,
            MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
local = lambda *a: ["cargo", "miri", "run", "--offline", "--locked", "--", "local", *a]
same = os.path.exists(bin_) and os.path.exists(stamp) and open(stamp).read() == d
if not same:
    if os.path.exists(stamp): os.remove(stamp)
    for env, extra in ((asan, ["--release", "--target", TRIPLE]), (miri, ["--target-dir", os.path.join(T, "miri", "miri")])):
        subprocess.run(["cargo", "clean", "--offline", "-p", "rust-3d", "-p", "r3dmon", *extra], cwd=H, env=env, capture_output=True)
jobs = []
if not same:
    jobs.append(("build", subprocess.Popen(["cargo", "build", "--release", "--offline", "--locked", "-Zbuild-std", "--target", TRIPLE], cwd=H, env=asan, stdout=subprocess.DEVNULL, stderr=open(os.path.join(T, "asan.log"), "w"))))
jobs.append(("interpreter", subprocess.Popen(local("--cap", "0", "--cases", "1"), cwd=H, env=miri, stdout=open(os.path.join(T, "miri0.out"), "w"), stderr=open(os.path.join(T, "miri0.err"), "w"))))
for name, j in jobs:
    j.wait()
if not same and jobs[0][1].returncode != 0:
    print("\n".join(l for l in open(os.path.join(T, "asan.log")).read().splitlines() if l.startswith("error"))[:3000])
    stop("the monitor does not build against %s with AddressSanitizer" % REPO)
err0 = open(os.path.join(T, "miri0.err")).read()
if jobs[-1][1].returncode != 0 and "Undefined Behavior" not in err0 and "unsafe precondition" not in err0:
    print(err0[-2000:]); stop("the interpreter does not run")
open(stamp, "w").write(d)
built = time.time() - t0

# ---- AddressSanitizer and checked preconditions at full speed, the interpreter beside it
logs = os.path.join(T, "logs")
shutil.rmtree(logs, ignore_errors=True); os.makedirs(logs)
opts = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:quarantine_size_mb=64:log_path=" + os.path.join(logs, "asan")
cap = 1200 if thorough else 90
MS = 4
mcap = 1200 if thorough else 150
mj = []
for k in range(MS):
    mj.append((k, subprocess.Popen(local("--cap", str(mcap), "--shard", str(k), "--seed", SEED), cwd=H, env=miri, stdout=open(os.path.join(logs, "miri%d.out" % k), "w"), stderr=open(os.path.join(logs, "miri%d.err" % k), "w"))))
r = subprocess.run([bin_, "run", "--prop", "C27", "--tier", TIER, "--seed", SEED, "--cap", str(cap), "--verif", HERE, "--src", os.path.join(REPO, "src")], env=dict(base, ASAN_OPTIONS=opts), capture_output=True, text=True, errors="replace")
out = r.stdout
viol = [l for l in out.splitlines() if l.startswith("VIOLATION")]
print("\n".join(out.splitlines()[:12]))
for f in sorted(glob.glob(os.path.join(logs, "asan.*")))[:1]:
    print("\n".join(open(f, errors="replace").read().splitlines()[:25]))

cases = {}; total = 0; ends = 0
problems = []
for k, j in mj:
    try: rc = j.wait(timeout=mcap + 240)
    except subprocess.TimeoutExpired:
        j.kill(); problems.append("interpreter %d did not end" % k); continue
    o = open(os.path.join(logs, "miri%d.out" % k), errors="replace").read(); e = open(os.path.join(logs, "miri%d.err" % k), errors="replace").read()
    for m in re.finditer(r"^CASE (\S+)", o, re.M): cases[m.group(1)] = cases.get(m.group(1), 0) + 1; total += 1
    if rc == 0 and "\nLOCAL " in o: ends += 1; continue
    if "Undefined Behavior" in e or "unsafe precondition" in e:
        last = [l for l in o.splitlines() if l.startswith("CASE")][-1:] or ["?"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        p = os.path.join(HERE, "replays", "C27-%s-miri-%d.txt" % (SEED, k))
        i = max(0, min([e.find(x) for x in ("error: Undefined", "unsafe precondition") if x in e]) - 200)
        open(p, "w").write("last case: %s\n%s" % (last[0], e[i:i + 6000]))
        print("VIOLATION property=C27 replay=%s" % p); print(e[i:i + 1200]); viol.append(p)
    else:
        problems.append("interpreter %d ended with %s: %s" % (k, rc, e[-300:]))

# ---- evidence
p = os.path.join(HERE, "evidence", "C27.json")
try: ev = json.load(open(p))
except (OSError, ValueError) as x:
    ev = None; problems.append("evidence: %s" % x)
if ev:
    ev["coverage"]["interpreter"] = {"processes_finished": ends, "cases": total, "cases_per_property": cases}
    ev["coverage"]["sanitizer_logs"] = len(glob.glob(os.path.join(logs, "asan.*")))
    ev["coverage"]["build_s"] = round(built, 1)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(viol)
    json.dump(ev, open(p, "w"), indent=2)
print("interpreter: %d cases in %d processes, build %.0f s, total %.0f s" % (total, ends, built, time.time() - t0))
if viol: sys.exit(1)
if r.returncode != 0: sys.exit(2)
if total < 20: problems.append("the interpreter only got to %d cases" % total)
if problems:
    for x in problems: print("INCONCLUSIVE: " + x)
    sys.exit(2)
