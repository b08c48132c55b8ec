#!/usr/bin/env python3
"""Build and run one check.

  python3 run.py setup                    check the toolchain, nothing is kept
  python3 run.py <ID> [quick|thorough]    decide property <ID> on /repo's working tree
  python3 run.py replay <file>            re-run one reported counterexample, verbosely

Everything is compiled from the sources in /repo (override: VERIF_REPO) at the
moment of the call, into a private directory under /verif/build that is keyed by
the contents of those sources."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
import spec

CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=gnu++20", "-g1", "-w", f"-I{HERE}/shim", f"-I{HERE}/harness"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
FAST = ["-O2"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def headers_of(root):
    out = []
    for d, _, fs in os.walk(root):
        if "/.git" in d or "/_build" in d: continue
        out += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".cpp"))]
    return out

def directives(path):
    d = {}
    for line in open(path):
        m = re.match(r"//\s*(DEPS|SAN|LIBS|FLAGS|INCS):\s*(.*)", line)
        if m: d[m[1]] = m[2].split()
        elif not line.startswith("//"): break
    return d

class BuildError(Exception): pass

def build(harness):
    hp = os.path.join(HERE, "harness", harness + ".cpp")
    dv = directives(hp)
    flags = BASE + [f"-I{REPO}/src"] + [f"-I{REPO}/{i}" for i in dv.get("INCS", [])] \
        + {"yes": SAN, "thread": TSAN}.get(dv.get("SAN", ["yes"])[0], FAST) + dv.get("FLAGS", [])
    libs = dv.get("LIBS", []) + ["-lpthread"]
    key = file_hash(headers_of(REPO + "/src") + headers_of(REPO + "/node") + headers_of(HERE + "/shim") + headers_of(HERE + "/harness"), " ".join(flags + libs) + harness)
    out = os.path.join(BUILD, harness + "-" + key)
    exe = os.path.join(out, "check")
    if os.path.exists(exe): return exe, out
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    def srcs(dirs):
        r = []
        for d in dirs:
            p = os.path.join(REPO, d)
            r += glob.glob(p + "/**/*.cpp", recursive=True) if os.path.isdir(p) else ([p] if os.path.exists(p) else [])
        return sorted(set(r))
    def compile1(src):
        o = os.path.join(tmp, os.path.relpath(src, "/").replace("/", "_") + ".o")
        r = sh([CXX] + flags + ["-c", src, "-o", o])
        return src, (o if r.returncode == 0 else None), r.stdout
    def compile_all(ss):
        with concurrent.futures.ThreadPoolExecutor(8) as ex: return list(ex.map(compile1, ss))
    def link(objs):
        lib = os.path.join(tmp, "librepo.a")
        if os.path.exists(lib): os.unlink(lib)
        repo_objs = [o for s, o, _ in objs if o and s != hp]
        if repo_objs:
            r = sh(["ar", "rcs", lib] + repo_objs)
            if r.returncode: raise BuildError(r.stdout)
        ho = [o for s, o, _ in objs if s == hp][0]
        return sh([CXX] + flags + [ho] + ([lib] if repo_objs else []) + libs + ["-o", os.path.join(tmp, "check")])
    first = srcs(dv.get("DEPS", []))
    res = compile_all([hp] + first)
    if not res[0][1]: raise BuildError("harness does not compile:\n" + res[0][2][:4000])
    r = link(res)
    if r.returncode:   # sources may have moved: fall back to everything the project has
        rest = [s for s in srcs(["src"]) if s not in first]
        res += compile_all(rest)
        r = link(res)
        if r.returncode:
            logs = "\n".join(l[-1500:] for s, o, l in res if not o)
            raise BuildError("link failed:\n" + r.stdout[-3000:] + "\n" + logs)
    for s, o, _ in res:
        if o: os.unlink(o)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    # keep the build folder small
    old = sorted((d for d in glob.glob(os.path.join(BUILD, harness + "-*")) if d != out), key=os.path.getmtime)
    for d in old[:-2]: shutil.rmtree(d, ignore_errors=True)
    return exe, out

def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m: r.append((m[1], m[2], m[3].strip()))
    return r

def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    names = spec.CHECKS[pid]["harness"]
    if isinstance(names, str): names = [names]
    viol, sections, internal, bt = [], [], False, 0.0
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "7200"))
    for name in names:
        b0 = time.time()
        mod = os.path.join(HERE, "harness", name + ".py")
        if os.path.exists(mod):      # harness that is not C++ (or post-processes C++)
            ns = {}
            sys.path.insert(0, os.path.join(HERE, "harness"))
            res = __import__(name).run(pid, tier, seed, REPO, BUILD)
        else:
            exe, out = build(name)
            bt += time.time() - b0
            work = os.path.join(out, "work-%s-%d" % (pid, os.getpid()))
            os.makedirs(work, exist_ok=True)
            rj = os.path.join(work, "result.json")
            r = subprocess.run([exe, "--property", pid, "--tier", tier, "--seed", str(seed), "--out", rj, "--work", work, "--budget", str(max(60, budget - (time.time() - t0)))] + ([] if any(k[0] == pid for k in known_findings()) else ["--after", "45" if tier == "quick" else "600"]))
            if r.returncode or not os.path.exists(rj):
                print(f"error: harness {name} ended with {r.returncode}"); return 2
            res = json.load(open(rj))
            shutil.rmtree(work, ignore_errors=True)
        for v in res["violations"]: v["harness"] = name
        for s in res["sections"]: s["harness"] = name
        viol += res["violations"]; sections += res["sections"]; internal |= res["internal_error"]
        if viol and tier == "quick" and not any(k[0] == pid for k in known_findings()): break
    if not sections and not viol: print("error: nothing was explored for", pid); return 2
    known = known_findings()
    new = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    seen = set()
    for v in viol:
        k = next((k for k in known if k[0] == pid and k[1] == v["key"]), None)
        if k:
            if k not in seen: print(f"KNOWN-FINDING: property={pid} {k[1]}: {k[2]}"); seen.add(k)
            continue
        new.append(v)
    for i, v in enumerate(new):
        rp = os.path.join(HERE, "replays", f"{pid}-{i}.json")
        v = dict(v, property=pid, tier=tier)
        json.dump(v, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  section {v['section']} key {v['key']}: {v['msg'][:1500]}")
        print(f"  (python3 run.py replay {rp})")
    cov = {
        "states": sum(s["states"] for s in sections),
        "transitions": sum(s["transitions"] for s in sections),
        "traces_validated_against_impl": sum(s["traces"] for s in sections),
        "samples": [x for s in sections for x in s["samples"][:2]] or ["(no samples)"],
        "exhaustive": not any(s["capped"] for s in sections),
        "sections": [{k: s[k] for k in ("harness", "name", "executions", "states", "transitions", "traces", "pruned", "outcomes", "capped", "wall")} for s in sections],
        "explanation": "Every execution ran the real code in /repo and was compared step by step with a reference model; "
                       "'states' are distinct canonical states or inputs, 'transitions' calls into the code, 'traces' complete executions whose every observation was compared; "
                       "'outcomes' in a section are distinct observed results (a vacuity measure).",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["craftpp (not in the repository, not available offline) is replaced by the stand-in in shim/, validated by the project's own 175 tests (see DESIGN.md)",
                          "bounds: " + spec.CHECKS[pid]["note"]],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new: return 1
    if internal: print("error: internal error in the explorer (see above)"); return 2
    print(f"OK {pid} {tier}: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces, "
          f"exhaustive={cov['exhaustive']}, build {bt:.1f}s, total {time.time()-t0:.1f}s")
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "setup":
        r = sh([CXX, "--version"]); print(r.stdout.splitlines()[0]); return r.returncode
    if a[0] == "replay":
        v = json.load(open(a[1]))
        if os.path.exists(os.path.join(HERE, "harness", v["harness"] + ".py")):
            sys.path.insert(0, os.path.join(HERE, "harness")); return __import__(v["harness"]).replay(v, REPO, BUILD)
        exe, _ = build(v["harness"])
        return subprocess.run([exe, "--property", v["property"], "--tier", v.get("tier", "quick"), "--replay", v["section"], v["choices"]]).returncode
    try:
        return run_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except BuildError as e:
        print("error: cannot build the check:", e); return 2

if __name__ == "__main__":
    sys.exit(main())
