#!/usr/bin/env python3
"""vx.py setup | check ID | build | all: builds the symbolic and native machinery from /repo's current tree and
decides properties with it.  See DESIGN.md."""
import sys, os, subprocess, tempfile, json, hashlib, glob, shutil, time, fcntl, re, tomllib, threading, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.environ.get("VX_BUILD", f"{V}/build")
EV = f"{V}/evidence"
NIGHTLY, STABLE = "nightly-x86_64-unknown-linux-gnu", "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"): ENV.pop(k, None)
BINS = ["ripdlt", "dd_dlt"]
T0 = time.time()

class Broken(Exception): pass
def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, file=sys.stderr, flush=True)
def run(cmd, cwd=None, env=None, timeout=1500, ok=(0,), **kw):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    if r.returncode not in ok:
        
        if b'"reason":"compiler-message"' in r.stdout: r.stdout = "".join(json.loads(l)["message"].get("rendered") or "" for l in r.stdout.decode(errors="replace").splitlines() if '"reason":"compiler-message"' in l and '"level":"error"' in l).encode()
        raise Broken(f"{' '.join(map(str, cmd))[:300]}: exit {r.returncode}\n{r.stdout.decode(errors='replace')[-1500:]}\n{r.stderr.decode(errors='replace')[-6000:]}")
    return r.stdout
def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        fs = [root] if os.path.isfile(root) else []
        for d, ds, ff in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "test_gen", "build", "evidence", "seeded"))
            fs += [f"{d}/{x}" for x in sorted(ff)]
        for f in fs:
            if os.path.islink(f) or not os.path.isfile(f): continue
            h.update(f.encode() + b"\0"); h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()
def stamp(name): 
    try: return open(f"{B}/{name}.stamp").read()
    except OSError: return ""
def set_stamp(name, v): open(f"{B}/{name}.stamp", "w").write(v)
def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text: open(path, "w").write(text)

# ------------------------------------------------------------------ builds
def build_engine():
    h = tree_hash(f"{V}/engine")
    if stamp("engine") == h and os.path.exists(f"{B}/sx"): return
    log("building the engine")
    os.makedirs(f"{B}/eng", exist_ok=True)
    def one(s): run(["g++", "-std=c++20", "-O2", "-w", "-c", f"{V}/engine/{s}.cpp", "-o", f"{B}/eng/{s}.o"])
    with ThreadPoolExecutor(3) as ex: list(ex.map(one, ["sx", "ir", "expr"]))
    run(["g++", "-o", f"{B}/sx", *(f"{B}/eng/{s}.o" for s in ("sx", "ir", "expr")), "-lz3"])
    set_stamp("engine", h)

def toml_val(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, list): return "[" + ", ".join(map(toml_val, v)) + "]"
    return "{ " + ", ".join(f"{k} = {toml_val(x)}" for k, x in v.items()) + " }"
def deps_of(crate):
    """the dependencies of a crate of /repo, with absolute paths"""
    t = tomllib.load(open(f"{REPO}/{crate}/Cargo.toml", "rb")); out = {}
    for k, v in t.get("dependencies", {}).items():
        if isinstance(v, dict) and "path" in v: v = dict(v, path=os.path.normpath(f"{REPO}/{crate}/{v['path']}"))
        out[k] = v
    return t["package"].get("edition", "2021"), out
def write_workspace(root, sym, models=(), race=False):
    members = []
    zc = deps_of("rapiddlt")[1].get("zerocopy", "0.7.32")
    rx = deps_of("matchit")[1].get("regex", "1")
    def member(name, edition, body, deps, extra=""):
        members.append(name)
        put(f"{root}/{name}/Cargo.toml", f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "{edition}"\n{extra}\n{body}\n[dependencies]\n' + "".join(f"{k} = {toml_val(v)}\n" for k, v in deps.items()) + '[lints.rust]\nunexpected_cfgs = "allow"\n')
    rt = {"path": f"{V}/sxrt"}
    if sym: rt["features"] = ["sym"]
    hd = {"sxrt": rt, "matchit": {"path": f"{REPO}/matchit"}, "rapiddlt": {"path": f"{REPO}/rapiddlt"}, "zerocopy": zc, "regex": rx}
    ha = f'autobins = false\n[features]\ndefault = [{chr(34) + "sym" + chr(34) if sym else ""}]\nsym = []\n[lib]\npath = "{V}/harness/src/lib.rs"\n'
    if not sym: ha += f'[[bin]]\nname = "replay"\npath = "{V}/harness/src/bin/replay.rs"\n'
    if not models or race: member("harness", "2021", "", hd, ha)
    if models:
        ed, d = deps_of("ripdlt")
        member("ripdlt_sched", ed, f'[[bin]]\nname = "ripdlt_sched"\npath = "{REPO}/ripdlt/src/main.rs"\n', d, "autobins = false")
    if sym:
        for b in BINS:
            ed, d = deps_of(b)
            member(f"sym_{b}", ed, f'[[bin]]\nname = "sym_{b}"\npath = "{REPO}/{b}/src/main.rs"\n', d, "autobins = false")
    models = ["memchr", "regex", "rayon"] if sym else models
    patch = "\n[patch.crates-io]\n" + "".join(f'{m} = {{ path = "{V}/models/{m}" }}\n' for m in models)
    prof = tomllib.load(open(f"{REPO}/Cargo.toml", "rb")).get("profile", {}).get("release", {})
    prof = {k: v for k, v in prof.items() if k in ("overflow-checks", "debug-assertions")}
    put(f"{root}/Cargo.toml", f'[workspace]\nresolver = "2"\nmembers = {toml_val(members)}\n[profile.release]\n' + "".join(f"{k} = {toml_val(v)}\n" for k, v in prof.items()) + (patch if models else ""))

LOCAL = ["matchit", "rapiddlt", "harness", "sxrt"]
def build_sym():
    """the harness, /repo's crates, their dependencies and the standard library as one LLVM module per program"""
    h = tree_hash(*(f"{REPO}/{c}" for c in ["matchit", "rapiddlt", *BINS]), f"{REPO}/Cargo.toml", f"{V}/harness", f"{V}/sxrt", f"{V}/models", f"{V}/vx.py")
    outs = [f"{B}/ir/{m}.ll" for m in ("lib", *BINS)]
    if stamp("sym") == h and all(map(os.path.exists, outs)): return
    log("building IR from the current tree")
    root = f"{B}/sym"
    write_workspace(root, True)
    env = dict(ENV, RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS="--emit=llvm-bc -Cpanic=abort -Zshare-generics=n -Cno-vectorize-loops -Cno-vectorize-slp -Ccodegen-units=1 -Cdebuginfo=line-tables-only -Clink-arg=-Wl,--unresolved-symbols=ignore-all")
    # the standard library's own source, except that every key of a hash table has the hash 0 (which hash it is, is left open)
    src = run(["rustc", "--print", "sysroot"], env=env).decode().strip() + "/lib/rustlib/src/rust"
    if not os.path.exists(f"{B}/std/done"):
        shutil.rmtree(f"{B}/std", ignore_errors=True)
        shutil.copytree(f"{src}/library", f"{B}/std/library", symlinks=True)
        p = f"{B}/std/library/core/src/hash/sip.rs"; t = open(p).read(); a = "        let mut state = self.state;\n\n        let b: u64 ="
        if t.count(a) == 1: open(p, "w").write(t.replace(a, "        if true { return 0 }\n" + a))
        open(f"{B}/std/done", "w").close()
    env["__CARGO_TESTS_ONLY_SRC_ROOT"] = f"{B}/std/library"
    # file times are not to be trusted: what comes from /repo and /verif is compiled afresh
    for f in glob.glob(f"{root}/target/**/.fingerprint/*", recursive=True) + glob.glob(f"{root}/target/{TRIPLE}/release/build/*"):
        n = os.path.basename(f)
        if any(n == x or n.startswith(x + "-") for x in LOCAL + [f"sym_{b}" for b in BINS] + ["memchr", "regex", "rayon"]): shutil.rmtree(f, ignore_errors=True)
    out = run(["cargo", "build", "--release", "--offline", "-q", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--message-format=json"], cwd=root, env=env)
    bcs, bins = [], {}
    for l in out.decode().splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact" or not any(TRIPLE in f for f in m["filenames"]): continue
        n = m["target"]["name"]
        if n in ("panic_unwind", "unwind", "build-script-build") or "proc-macro" in m["target"]["kind"] or "custom-build" in m["target"]["kind"]: continue
        dirs = {os.path.dirname(f) for f in m["filenames"]} | {os.path.dirname(m["executable"])} if m.get("executable") else {os.path.dirname(f) for f in m["filenames"]}
        cand = []
        for f in m["filenames"]:
            base = re.sub(r"^lib", "", os.path.basename(f)).split(".")[0]
            cand += [g for g in glob.glob(f"{os.path.dirname(f)}/{base}*.bc")] + glob.glob(f"{root}/target/{TRIPLE}/release/build/{m['target']['name'].replace('_','?')}/*/out/*.bc") if m.get("executable") else glob.glob(f"{os.path.dirname(f)}/{base}*.bc")
        cand = sorted({c for c in cand if not c.endswith(".no-opt.bc")})
        if m["target"]["kind"] == ["bin"]:
            if len(cand) != 1: raise Broken(f"bitcode of {n}: {cand}")
            bins[n] = cand[0]
        else:
            if len(cand) != 1: raise Broken(f"bitcode of {n}: {cand} {m['filenames']}")
            bcs.append(cand[0])
    LB = run(["rustc", "--print", "sysroot"], env=env).decode().strip() + f"/lib/rustlib/{TRIPLE}/bin"
    os.makedirs(f"{B}/ir", exist_ok=True)
    hb = [b for b in bcs if os.path.basename(b).startswith("harness-")]
    ents = sorted({m for f in glob.glob(f"{V}/harness/src/*.rs") for m in re.findall(r"\b(h_c\w+)\s*=>", open(f).read())})
    def mod(name):
        lib = name == "lib"
        es = [e for e in ents if (not e.startswith("h_cr_") and not e.startswith("h_cd_")) == lib and (lib or e.startswith("h_cr_") == (name == "ripdlt"))]
        bc = bcs + ([] if lib else [bins[f"sym_{name}"]])
        p = f"{B}/ir/{name}"
        run([f"{LB}/llvm-link", *bc, "-o", f"{p}.all.bc"])
        keep = ",".join(["*Formatter12pad_integral*", "sx_preempt", "sx_task_body"] + es)
        if not es: open(f"{p}.ll", "w").write(""); return
        run([f"{LB}/opt", "-passes=internalize,globaldce", f"-internalize-public-api-list={keep}", f"{p}.all.bc", "-o", f"{p}.int.bc"])
        run([f"{LB}/opt", "-passes=default<O2>", "-vectorize-loops=0", "-vectorize-slp=0", f"{p}.int.bc", "-S", "-o", f"{p}.ll"])
        for x in ("all", "int"): os.unlink(f"{p}.{x}.bc")
    with ThreadPoolExecutor(3) as ex: list(ex.map(mod, ["lib", *BINS]))
    set_stamp("sym", h)

def build_native():
    """the same harness against the real crates, and the real tools"""
    h = tree_hash(*(f"{REPO}/{c}" for c in ["matchit", "rapiddlt", *BINS]), f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock", f"{V}/harness", f"{V}/sxrt", f"{V}/models/rayon", f"{V}/vx.py")
    outs = [f"{B}/shim.so", f"{B}/native/target/release/replay"] + [f"{B}/tools/release/{b}" for b in BINS + ["ripdlt_sched"]]
    if stamp("native") == h and all(map(os.path.exists, outs)): return
    log("building natively from the current tree")
    env = dict(ENV, RUSTUP_TOOLCHAIN=STABLE)
    root = f"{B}/native"
    write_workspace(root, False)
    if os.path.exists(f"{REPO}/Cargo.lock") and not os.path.exists(f"{root}/Cargo.lock"): shutil.copy(f"{REPO}/Cargo.lock", f"{root}/Cargo.lock")
    for d in (f"{root}/target", f"{B}/tools", f"{B}/sched/target"):
        for f in glob.glob(f"{d}/release/.fingerprint/*"):
            if any(os.path.basename(f).startswith(x + "-") for x in LOCAL + BINS + ["test_matchit", "ripdlt_sched", "rayon"]): shutil.rmtree(f, ignore_errors=True)
    def a(): run(["cargo", "build", "--release", "--offline"], cwd=root, env=env)
    def b(): run(["cargo", "build", "--release", "--offline", *sum((["-p", x] for x in BINS), []), "--manifest-path", f"{REPO}/Cargo.toml"], cwd=B, env=dict(env, CARGO_TARGET_DIR=f"{B}/tools"))
    write_workspace(f"{B}/sched", False, ["rayon"])
    def d():
        run(["cargo", "build", "--release", "--offline"], cwd=f"{B}/sched", env=env)
        os.makedirs(f"{B}/tools/release", exist_ok=True); shutil.copy(f"{B}/sched/target/release/ripdlt_sched", f"{B}/tools/release/ripdlt_sched")
    def c(): run(["gcc", "-O1", "-shared", "-fPIC", "-o", f"{B}/shim.so", f"{V}/harness/shim.c"])
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(a), ex.submit(b), ex.submit(c), ex.submit(d)]: f.result()
    set_stamp("native", h)

def build_race():
    """for counterexamples with an interleaving: the harness and ripdlt with every atomic access instrumented"""
    h = stamp("native") + tree_hash(f"{V}/harness", f"{V}/sxrt")
    if stamp("race") == h: return
    log("building the instrumented program")
    root = f"{B}/race"
    write_workspace(root, False, ["rayon"], race=True)
    if os.path.exists(f"{REPO}/Cargo.lock") and not os.path.exists(f"{root}/Cargo.lock"): shutil.copy(f"{REPO}/Cargo.lock", f"{root}/Cargo.lock")
    run(["gcc", "-O1", "-c", "-o", f"{root}/race_rt.o", f"{V}/harness/race_rt.c"])
    shutil.rmtree(f"{root}/target", ignore_errors=True)
    env = dict(ENV, RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS=f"-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg={root}/race_rt.o")
    run(["cargo", "build", "--release", "--offline", "--target", TRIPLE], cwd=root, env=env)
    set_stamp("race", h)

def build():
    os.makedirs(B, exist_ok=True); os.makedirs(EV, exist_ok=True)
    if os.path.abspath(B).startswith(V): put(f"{B}/.gitignore", "*\n")
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lock_before = {p: (open(p, "rb").read() if os.path.exists(p) else None) for p in [f"{REPO}/Cargo.lock"]}
        try:
            with ThreadPoolExecutor(3) as ex:
                for f in [ex.submit(build_engine), ex.submit(build_sym), ex.submit(build_native)]: f.result()
        finally:
            for p, c in lock_before.items():
                if c is not None and open(p, "rb").read() != c: open(p, "wb").write(c)

# ------------------------------------------------------------------ running
def sx(mod, entry, out, procs=8, time_s=300, steps=20_000_000, samples=24, cross=False, depth=3000):
    cmd = [f"{B}/sx", "--entry", entry, "--out", out, "--procs", str(procs), "--time", str(time_s), "--steps", str(steps), "--samples", str(samples), "--depth", str(depth), "--repo", REPO] + (["--cross"] if cross else []) + [f"{B}/ir/{mod}.ll"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try: _, se = p.communicate(timeout=time_s + 120)
    except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.communicate(); raise Broken(f"{entry}: the engine did not stop")
    if p.returncode: raise Broken(f"{entry}: engine exit {p.returncode}: {se.decode(errors='replace')[-800:]}")
    v, s, e, m = [], [], [], None
    for l in open(out):
        try: j = json.loads(l)
        except ValueError: continue
        {"violation": v, "sample": s, "error": e}.get(j["type"], []).append(j)
        if j["type"] == "summary": m = j
    if m is None: raise Broken(f"{entry}: no summary")
    return v, s, e, m

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
def replay_race(entry, hexin, budget=600):
    """run the entry on concrete input with every schedule of one preemption, until one fails"""
    build_race()
    runs, todo, k = 0, [], 0
    with ThreadPoolExecutor(8) as ex:
        while runs < budget:
            if not todo: todo = [(i, 0) for i in range(k, k + 16)]; k += 16
            more, ended = [], False
            for (at, c), (r, n) in zip(todo, ex.map(lambda x: replay(entry, hexin, race=x), todo)):
                runs += 1
                if r[0] in ("failed", "crash"): return r + (f"{at},{c}",)
                if n == 0: ended = True
                elif c == 0: more += [(at, j) for j in range(1, n)]
            todo = more
            if ended and not todo: break
    return "ok", [], f"{runs} schedules", ""
def replay(entry, hexin, timeout=20, race=None):
    """run the entry natively on concrete input: (verdict, observations, text)"""
    with tempfile.TemporaryDirectory(prefix="vx.") as scratch:
        R = f"{B}/race/target/{TRIPLE}/release"
        env = dict(ENV, VX_TOOLS=R if race else f"{B}/tools/release", VX_SHIM=f"{B}/shim.so", VX_SCRATCH=scratch, LD_PRELOAD=f"{B}/shim.so")
        if race:
            r = replay_in(f"{R}/replay", dict(env, VX_PREEMPT="%d,%d" % race, VX_POINTS=f"{scratch}/points"), entry, hexin, timeout)
            return r, int(open(f"{scratch}/points").read()) if os.path.exists(f"{scratch}/points") else 0
        return replay_in(f"{B}/native/target/release/replay", env, entry, hexin, timeout)
def replay_in(prog, env, entry, hexin, timeout):
    p = subprocess.Popen([prog, entry, hexin or "00"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, env=env, start_new_session=True)
    try: so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return "hang", [], f"still running after {timeout} s"
    r = subprocess.CompletedProcess([], p.returncode, so, se)
    o = r.stdout.decode(errors="replace"); obs = re.findall(r"^OBS (\d+)$", o, re.M)
    t = (o[-400:] + r.stderr.decode(errors="replace")[-1200:]).strip()
    if r.returncode == 0 and "DONE" in o: return "ok", obs, t
    if r.returncode in (77, 78): return "assumed", obs, t
    if r.returncode == 102: return "failed", obs, re.sub(r"(?m)^OBS.*\n", "", o).strip()[-400:]
    if r.returncode == 101 or r.returncode < 0: return "crash", obs, next((l + " " + "".join(r.stderr.decode(errors="replace").splitlines()[i+1:i+2]) for i, l in enumerate(r.stderr.decode(errors="replace").splitlines()) if "panicked at" in l), t)
    return "error", obs, f"exit {r.returncode} {t}"

def known(prop):
    out = []
    p = f"{V}/KNOWN_FINDINGS.jsonl"
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                j = json.loads(l)
                if j.get("property") == prop and j.get("status") == "known": out.append(j)
    return out

def check(pid, tier):
    import checks
    spec = checks.CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build()
    tb = time.time() - t0
    os.makedirs(f"{B}/out", exist_ok=True)
    runs = spec["quick"] if tier == "quick" else spec.get("thorough") or spec["quick"]
    tot = {}; per = []; problems = []; unfinished = []; found = []; samples = []; validated = 0; fns = set(); lines = {}
    for r in runs:
        r = {"entry": r} if isinstance(r, str) else dict(r)
        entry, mod = r["entry"], r.get("mod", spec.get("mod", "lib"))
        out = f"{B}/out/{pid}.{tier}.{entry}.jsonl"
        log(f"{pid} {entry}")
        v, s, e, m = sx(mod, entry, out, time_s=r.get("time", max(5, min(240, int(640 - (time.time() - t0))) if tier == "quick" else 3000)), steps=r.get("steps", 20_000_000), samples=r.get("samples", 24), cross=r.get("cross", True), depth=r.get("depth", 3000))
        for k, x in m.items():
            if isinstance(x, (int, float)): tot[k] = max(tot.get(k, 0), x) if k.startswith("max_") else tot.get(k, 0) + x
        fns |= set(m["functions"])
        for f, ls in m["lines"].items(): lines.setdefault(f, set()).update(ls)
        per.append({"entry": entry, "module": mod, "bound": r.get("bound", checks.bound(entry)), **{k: m[k] for k in ("paths", "forks", "assumed_away", "instructions", "asserts", "asserts_const", "asserts_solver", "z3_queries", "z3_unsat", "z3_ms", "byte_domain_queries", "max_depth", "max_steps", "wall_s")}})
        for x in e[:3]: problems.append(f"{entry}: {x['msg']} at {x.get('at', '')[:600]}")
        if m["incomplete"] and not v: unfinished.append(f"{entry}: not everything within the bounds was explored in the time given")
        # counterexamples, against the real code
        seen = {}
        for x in v:
            if len(seen) > 12: break
            k = (x["kind"], x["msg"], x["at"].split(" <- ")[0])
            if seen.get(k, 0) >= 2: continue
            seen[k] = seen.get(k, 0) + 1
            verdict, obs, text = replay(entry, x["input"], r.get("replay_timeout", 20))
            if verdict == "ok" and x.get("preempts") and mod != "dd_dlt":
                verdict, obs, text, at = replay_race(entry, x["input"])
                if verdict != "ok": text += f" (preempted at {at})"; x["kind"] = "schedule, " + x["kind"]
            if verdict in ("failed", "crash") or (verdict == "hang" and x["kind"].split(", ")[-1] in ("hang", "stack", "assert", "panic", "memory")): found.append({"entry": entry, "solver": f"{x['kind']}: {x['msg']}", "at": x["at"], "input": x["input"], "native": verdict, "text": text})
            elif verdict == "ok" and x["kind"] == "hang": unfinished.append(f"{entry}: a path was given up ({x['msg']} at {x['at'][:300]}), input {x['input']}; natively the property holds on it")
            else: problems.append(f"{entry}: solver's counterexample ({x['kind']}: {x['msg']} at {x['at'][:500]}) does not reproduce natively ({verdict} {text[:300]}), input {x['input']}")
        # the encoding, against the real code: concrete inputs of explored paths
        def val(x): return x, replay(entry, x["input"])
        with ThreadPoolExecutor(8) as ex:
            for x, (verdict, obs, text) in ex.map(val, s):
                if found and verdict in ("failed", "crash", "hang"): continue
                if verdict in ("failed", "crash"): # real code that fails on an explored path's input breaks the property, whatever the encoding says
                    found.append({"entry": entry, "solver": "the path was found to satisfy the property", "at": text[:300], "input": x["input"], "native": verdict, "text": text})
                elif verdict != "ok" or obs != x["obs"]: problems.append(f"{entry}: sample {x['input']} gives {verdict} {obs[:8]} natively, {x['obs'][:8]} symbolically; {text[:300]}")
                else: validated += 1
        for x in s[:2]: samples.append({"entry": entry, "input": x["input"], "observed": x["obs"]})
        if not v and not m["incomplete"]:
            miss = [c for c in r.get("covers", checks.covers(entry)) if c not in m["covers"]]
            if miss: problems.append(f"{entry}: vacuous, situations {miss} never reached")
        if m["paths"] == 0 and not v: problems.append(f"{entry}: no path")
    need = spec.get("exercises", [])
    all_lines = {f: sorted(ls) for f, ls in lines.items() if f.startswith(REPO + "/")}
    rfns = sorted(f for f in fns if f.startswith(REPO + "/"))
    # report
    rc = 0; nviol = 0
    kn = known(pid); kn_hit = set()
    os.makedirs(f"{EV}/replay", exist_ok=True)
    for old in glob.glob(f"{EV}/replay/{pid}-*"): os.unlink(old)
    for i, f in enumerate(found):
        hit = [k for k in kn if k["entry"] == f["entry"] and k["input"] == f["input"] or k.get("msg") and k["msg"] in f["solver"] and k.get("at", "") in f["at"]]
        if hit: kn_hit.add(json.dumps(hit[0])); continue
        p = f"{EV}/replay/{pid}-{nviol + 1}.json"
        json.dump({"property": pid, **f, "replay_cmd": f"python3 {V}/vx.py replay {f['entry']} {f['input']}{' race' if f['solver'].startswith('schedule') else ''}"}, open(p, "w"), indent=1)
        nviol += 1; rc = 1
        print(f"VIOLATION property={pid} replay={p}", flush=True)
        print(f"  {f['entry']}: {f['solver']}\n  natively: {f['native']}: {f['text'][:500]}\n  input {f['input']}\n  at {f['at'][:700]}", flush=True)
    for k in kn:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not nviol and problems: rc = 2
    for p in problems[:12]: print("PROBLEM", p, flush=True)
    for p in unfinished[:12]: print("INCOMPLETE", p, flush=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "assumptions": checks.ASSUMPTIONS + spec.get("assumptions", []),
          "coverage": {"states": tot.get("paths", 0) + tot.get("assumed_away", 0), "transitions": tot.get("symbolic_branches", 0), "traces_validated_against_impl": validated, "samples": samples[:8],
                       "explanation": "states: symbolic paths explored to the end, each standing for all inputs that take it; transitions: branches on symbolic data decided by the solver; traces validated: inputs of explored paths on which the native build gave the same observations",
                       "exhaustive": not problems and not unfinished and tot.get("incomplete", 0) == 0, "bounds": {p["entry"]: p["bound"] for p in per}, "outside_the_bounds": spec.get("outside", ""),
                       "functions_encoded": rfns, "repo_lines_encoded": {f[len(REPO) + 1:]: len(x) for f, x in all_lines.items()},
                       "instructions_executed": tot.get("instructions", 0), "forks": tot.get("forks", 0), "assertions": tot.get("asserts", 0), "assertions_decided_by_z3": tot.get("asserts_solver", 0), "assertions_constant_on_path": tot.get("asserts_const", 0),
                       "z3_queries": tot.get("z3_queries", 0), "z3_unsat": tot.get("z3_unsat", 0), "z3_ms": tot.get("z3_ms", 0), "byte_domain_queries": tot.get("byte_domain_queries", 0), "domain_queries_cross_checked_with_z3": tot.get("cross_checked", 0),
                       "entries": per, "build_s": round(tb, 1), "problems": problems[:20], "given_up": unfinished[:20]}}
    json.dump(ev, open(f"{EV}/{pid}.json", "w"), indent=1)
    log(f"{pid} {tier}: exit {rc}, {tot.get('paths', 0)} paths, {nviol} violations, {validated} traces validated, build {tb:.0f} s, total {time.time() - t0:.0f} s")
    return rc

def main():
    a = sys.argv[1:]
    try:
        if not a or a[0] in ("setup", "build"): build(); return 0
        if a[0] == "check": return check(a[1], os.environ.get("VERIF_TIER") or (a[2] if len(a) > 2 else "quick"))
        if a[0] == "replay":
            build()
            if len(a) > 3: v, o, t, at = replay_race(a[1], a[2]); t += f" (preempted at {at})"
            else: v, o, t = replay(a[1], a[2])
            print(v, o, t); return 0 if v == "ok" else 1
        if a[0] == "all":
            import checks
            tier = a[1] if len(a) > 1 else "quick"; bad = 0
            for p in (a[2:] or checks.CHECKS): bad |= check(p, tier) != 0
            return bad
        if a[0] == "sx":
            build(); v, s, e, m = sx(a[1], a[2], f"{B}/out/adhoc.jsonl", time_s=float(a[3]) if len(a) > 3 else 60)
            for x in v[:6] + e[:6]: print(json.dumps(x)[:1800])
            m["lines"] = {}; m["functions"] = []
            print(json.dumps(m)); return 0
    except Broken as e:
        print("BROKEN", e, flush=True); return 2
if __name__ == "__main__": sys.exit(main())
