#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] | setup | dump

Exports the program as the compiler resolves it (MIR, types, callees) from /repo's current working
tree, runs the static analysis of the property over it, and reports.
Exit 0: no violation (known findings are printed).  Exit 1: VIOLATION line(s).
"""
import hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
DRIVER = os.path.join(HERE, "driver/target/release/mirdump")
ENGINE = os.path.join(HERE, "engine/target/release/sa")
HEADER = os.path.join(REPO, "ipmb-ffi/include/ipmb_ffi.h")
TRACE = []


def sh(cmd, cwd, env=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit(f"command failed: {' '.join(cmd)}")
    return p


def newest(d):
    t = 0
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            t = max(t, os.path.getmtime(os.path.join(r, f)))
    return t


def build_tools():
    for d, out, tc in (("driver", DRIVER, ["+nightly"]), ("engine", ENGINE, [])):
        p = os.path.join(HERE, d)
        if not os.path.exists(out) or os.path.getmtime(out) < newest(p):
            sh(["cargo"] + tc + ["build", "--release", "--offline"], p)
            os.utime(out)


def sources():
    out = []
    for base in (REPO, os.path.join(HERE, "fixture")):
        for r, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".cc", ".h", ".hpp", ".cpp", ".json", ".ts", ".js")):
                    out.append(os.path.join(r, f))
    return out


def digest():
    h = hashlib.sha256()
    for p in sources():
        if p == HEADER:
            continue
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    with open(DRIVER, "rb") as f:
        h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def dump():
    """Export the three programs; keyed by the content of every source file."""
    key = digest()
    out = os.path.join(CACHE, "dump-" + key)
    if os.path.exists(os.path.join(out, "done")):
        return out
    os.makedirs(CACHE, exist_ok=True)
    for d in os.listdir(CACHE):
        if d.startswith("dump-"):
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    tmp = out + ".tmp"
    os.makedirs(tmp)
    target = os.path.join(CACHE, "target")
    # cargo must compile the analysed crates anew, whatever their time stamps say
    for prof in ("debug",):
        for sub in ("build", ".fingerprint", "incremental"):
            d = os.path.join(target, prof, sub)
            if os.path.isdir(d):
                for x in os.listdir(d):
                    if x.startswith("ipmb"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    env = dict(os.environ)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env.update(SA_OUT=tmp, RUSTC_WRAPPER=DRIVER, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"))
    env.pop("RUSTFLAGS", None)
    fx = os.path.join(HERE, "fixture")
    saved = open(HEADER, "rb").read() if os.path.exists(HEADER) else None
    st = os.stat(HEADER) if saved is not None else None
    lock = os.path.join(REPO, "Cargo.lock")
    slock = open(lock, "rb").read() if os.path.exists(lock) else None
    try:
        sh(["cargo", "+nightly", "check", "--offline", "--target-dir", target], fx, env)
        sh(["cargo", "+nightly", "check", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
            "-p", "ipmb-ffi", "-p", "ipmb-js", "--target-dir", target], REPO, env)
        # what the build generated, for the rules that look at it, then the committed file again
        if os.path.exists(HEADER):
            shutil.copy(HEADER, os.path.join(tmp, "ipmb_ffi.h"))
    finally:
        if saved is not None and open(HEADER, "rb").read() != saved:
            with open(HEADER, "wb") as f:
                f.write(saved)
            os.utime(HEADER, ns=(st.st_atime_ns, st.st_mtime_ns))
        if slock is not None and open(lock, "rb").read() != slock:
            with open(lock, "wb") as f:
                f.write(slock)
    for n in ("ipmb_fixture", "ipmb_ffi", "ipmb_js"):
        if not os.path.exists(os.path.join(tmp, n + ".json")):
            raise SystemExit("missing dump of " + n)
    open(os.path.join(tmp, "done"), "w").close()
    os.rename(tmp, out)
    return out


def findings():
    """`finding: property=ID | KEY | explanation` suppresses exactly KEY; `fixed:` lines suppress nothing."""
    known = {}
    p = os.path.join(HERE, "known_findings")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                prop, key = [x.strip() for x in line[9:].split(" | ")[:2]]
                known.setdefault(prop.split("=", 1)[1], []).append(key)
    return known


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    t0 = time.time()
    build_tools()
    if sys.argv[1] == "setup":
        dump()
        return 0
    if sys.argv[1] == "dump":
        print(dump())
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    d = dump()
    p = subprocess.run([ENGINE, prop, d, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode == 0:
        r = json.loads(p.stdout)
    else:
        # an analysis that cannot cope with the program decides nothing
        sys.stderr.write(p.stderr[-4000:])
        print(f"{prop}: the analysis failed; nothing was decided")
        return 2
    if prop in ("C29", "C30") and shutil.which("clang++"):
        # the C++ wrapper over the C interface
        sys.path.insert(0, os.path.join(HERE, "cc"))
        sys.dont_write_bytecode = True
        import wrapper
        vio, at, und = (wrapper.errors if prop == "C29" else wrapper.params)(REPO, d)
        r["violations"] += vio
        r["sites"]["C++ wrapper"] = at
        r["counts"]["C++ probes not decided"] = len(und)
        r["roots"] = list(r["roots"]) + ["ipmb-ffi/ipmb.cc"]
        r["programs"] = list(r["programs"]) + ["LLVM IR of ipmb-ffi/ipmb.cc (clang)"]
    known = findings().get(prop, [])
    new = [v for v in r["violations"] if v["key"] not in known]
    old = [v for v in r["violations"] if v["key"] in known]
    sites = r["sites"]
    nsites = sum(len(v) for v in sites.values())
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]} if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {}
    level = man.get(prop, {}).get("level", "other")
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
        coverage=dict(
            explanation="Static analysis of the resolved program (MIR exported by a rustc driver from the current tree). Rule: " + r["rule"],
            rule=r["rule"],
            programs_analysed=r["programs"],
            entry_points=r["roots"],
            functions_analysed=len(r["functions"]),
            functions=r["functions"],
            rule_instances=nsites,
            sites=sites,
            counts=r["counts"],
            obligations=nsites, discharged=max(0, nsites - len(r["violations"])),
            samples=[s for v in sites.values() for s in v][:5],
            known_findings=[v["key"] for v in old],
            fixpoint_reached=not r.get("incomplete", False),
        ),
        assumptions=man.get(prop, {}).get("level_note", "").split("; ")[:8] or [],
        wall_s=round(time.time() - t0, 3),
        violations=len(new),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['key']}")
    print(f"{prop}: {nsites} rule instances in {len(r['functions'])} functions from {len(r['roots'])} entry points, {len(new)} violation(s), {ev['wall_s']} s")
    if r.get("incomplete"):
        print(f"INCOMPLETE: {prop}: the fixpoint was not reached within the budget; only the part above was analysed")
    if new:
        rp = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("rule: " + r["rule"] + "\n\n")
            for v in new:
                f.write(f"{v['key']}\n  {v['msg']}\n  at {v['loc']}\n")
                for t in v["trace"]:
                    f.write(f"    {t}\n")
                f.write("\n")
        for v in new[:10]:
            print(f"  {v['key']}: {v['msg']} [{v['loc']}]")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


sys.exit(main())
