#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay STATE]
Builds what the check needs from /repo's working tree, explores, writes evidence/<property>.json,
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored; 1: violation; 2: the
check itself could not run."""
import argparse, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(V, "build")
EV = os.environ.get("MC_EV", os.path.join(V, "evidence"))
MAIN, HCD = "/opt/bezdeps/main", "/opt/bezdeps/hcd"
SP = "lib/python3.12/site-packages/cmeel.prefix"
CORES = os.cpu_count() or 4

INC = ["-I" + V + "/mc", "-I" + REPO + "/include", "-I" + V + "/mc/compat/include",
       "-isystem", f"{MAIN}/{SP}/include", "-isystem", f"{MAIN}/{SP}/include/eigen3",
       "-isystem", f"{HCD}/{SP}/include", "-isystem", f"{HCD}/{SP}/include/cddlib",
       "-isystem", f"{HCD}/{SP}/include/coin"]
DEF = ["-DNDEBUG", "-DUSE_GLPK_SOLVER=1", "-DqpOASES_FOUND", "-DCLP_FOUND"]
LIBS = [f"-L{MAIN}/{SP}/lib", f"-L{HCD}/{SP}/lib", "-lhpp-centroidal-dynamics", "-lglpk", "-lpthread",
        f"-Wl,-rpath,{MAIN}/{SP}/lib:{HCD}/{SP}/lib"]
# Eigen: the alignment of the prebuilt library, its own assertions and those of the repository on
SAN = ["-UNDEBUG", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-O1", "-g1", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    "plain": dict(cxx="g++", lib=["-O1"], har=["-O1"], link=[]),
    "fill": dict(cxx="g++", lib=["-O1"], har=["-O1", "-DMC_FILL"], link=[]),
    "asan": dict(cxx="g++", lib=SAN, har=SAN, link=["-fsanitize=address,undefined"]),
}
# the instrumentation calls mc/sched.cpp, not the runtime of the sanitizer; the library calls named
# here are points where the scheduler may change threads (keep in step with the list in mc/sched.cpp)
POINTS = ["memcpy", "memmove", "memset", "glp_create_prob", "glp_add_rows", "glp_add_cols", "glp_load_matrix",
          "glp_simplex", "glp_delete_prob", "glp_free_env", "rand", "srand",
          "_ZNK19centroidal_dynamics11Equilibrium23getPolytopeInequalitiesERN5Eigen6MatrixIdLin1ELin1ELi1ELin1ELin1EE"
          "ERNS2_IdLin1ELi1ELi0ELin1ELi1EEE"]
VARIANTS["threads"] = dict(cxx="g++", lib=["-O1", "-fsanitize=thread"], har=["-O1", "-fsanitize=thread"],
                           more=["sched.cpp"], more_flags=["-O2", "-fno-threadsafe-statics"],
                           link=["-Wl,--wrap=" + f for f in POINTS] + ["-ldl"])
# the Python module of the repository and a module that hands the same data to the C++ library
PYINC = ["-isystem", "/usr/include/python3.12", "-isystem", f"{MAIN}/lib/python3.12/site-packages/numpy/core/include"]
PYLIBS = ["-leigenpy", "-lboost_python312", "-lboost_serialization"]
VARIANTS["python"] = dict(cxx="g++", lib=["-O1", "-fPIC"] + PYINC, har=["-O1", "-fPIC"] + PYINC, link=["-shared"],
                          modules=[("hpp_bezier_com_traj", REPO + "/python/bezier_com_traj.cpp"), ("mcref", V + "/mc/pyref.cpp")])
# property -> harness source, variant, level, and extra arguments
PROPS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C16", "C17"):
    PROPS[p] = dict(har="comtraj.cpp", variant="plain")
PROPS["C17"] = dict(parts=[
    ("planning", "comtraj.cpp", "plain", [], []),
    ("capturability", "zerostep.cpp", "plain", [], []),
    ("effector", "endeff.cpp", "plain", [], []),
])
PROPS["C07"] = dict(har="zerostep.cpp", variant="plain")
PROPS["C08"] = dict(har="endeff.cpp", variant="plain")
PROPS["C09"] = dict(har="algebra.cpp", variant="plain")
PROPS["C10"] = dict(har="solver.cpp", variant="plain")
PROPS["C11"] = dict(har="reject.cpp", variant="plain")
PROPS["C12"] = dict(har="timegrid.cpp", variant="plain")
PROPS["C13"] = dict(har="history.cpp", variant="plain")
PROPS["C14"] = dict(har="threads.cpp", variant="threads")
PROPS["C15"] = dict(har="reject.cpp", variant="plain")
PROPS["C18"] = dict(har="pybind.py", variant="python")
crash = ["--only-crash", "--depth"]
PROPS["C19"] = dict(parts=[
    ("sizes", "memory.cpp", "asan", [], []),
    ("contents", "memory.cpp", "fill", [], []),
    ("zerostep", "zerostep.cpp", "asan", crash + ["2"], crash + ["3"]),
    ("effector", "endeff.cpp", "asan", crash + ["1"], crash + ["2"]),
    ("symbolic", "algebra.cpp", "asan", crash + ["1"], crash + ["1"]),
    ("lifetimes", "history.cpp", "asan", crash + ["2"], crash + ["-1"]),
])
for p, c in PROPS.items():
    c.setdefault("parts", [("", c.get("har"), c.get("variant"), [], [])])


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def deps_of(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    return sorted({os.path.realpath(p) for p in t.split(":", 1)[1].split()})


def content_key(files):
    m = []
    for f in files:
        try:
            m.append(f.encode())
            m.append(open(f, "rb").read())
        except OSError:
            return None
    return h(*m)


def obj_for(src, cmd, names):
    """object of `src`: reused when neither the command nor the content of any file of /repo or
    /verif it was made from has changed, compiled otherwise. Returns (object, error)."""
    slot = os.path.join(BUILD, os.path.basename(src) + "." + h(src, names, " ".join(cmd)))
    try:
        rec = json.load(open(slot + ".json"))
        if content_key(rec["deps"]) == rec["key"] and os.path.exists(os.path.join(BUILD, rec["obj"])):
            return os.path.join(BUILD, rec["obj"]), None
    except (OSError, ValueError, KeyError):
        pass
    tmp = f"{slot}.{os.getpid()}"
    r = run(cmd + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"])
    if r.returncode:
        return None, src + "\n" + r.stdout[-4000:]
    deps = deps_of(tmp + ".d")
    os.unlink(tmp + ".d")
    key = content_key(deps)
    obj = os.path.basename(src) + "." + h(slot, key) + ".o"
    os.replace(tmp + ".o", os.path.join(BUILD, obj))
    with open(tmp + ".json", "w") as f:
        json.dump(dict(deps=deps, key=key, obj=obj), f)
    os.replace(tmp + ".json", slot + ".json")
    return os.path.join(BUILD, obj), None


def build(har, variant):
    return build_many([(har, variant)])[0]


def build_many(targets):
    os.makedirs(BUILD, exist_ok=True)
    # a header added or removed could change what an include finds
    names = " ".join(sorted(os.path.relpath(os.path.join(r, f), REPO)
                            for r, _, fs in os.walk(REPO + "/include") for f in fs))
    srcs = sorted((REPO + "/src/" + f for f in os.listdir(REPO + "/src") if f.endswith(".cpp")),
                  key=lambda f: -os.path.getsize(f))
    plan, jobs = [], {}
    for har, variant in targets:
        v = VARIANTS[variant]
        base = [v["cxx"], "-std=gnu++17", "-w"] + DEF + INC
        mine = [(m[1], base + v["har"]) for m in v["modules"]] if "modules" in v else [(os.path.join(V, "mc", har), base + v["har"])]
        mine += [(os.path.join(V, "mc", m), base + v["more_flags"]) for m in v.get("more", [])]
        mine += [(f, base + v["lib"]) for f in srcs]
        plan.append((har, variant, mine))
        for j in mine:
            jobs[(j[0], " ".join(j[1]))] = j
    # the longest compilations first
    slow = ("waypoints_definition.cpp", "comtraj.cpp", "computeCOMTraj.cpp", "endeff.cpp", "zerostep.cpp", "bezier_com_traj.cpp")
    order = sorted(jobs.values(), key=lambda j: (os.path.basename(j[0]) not in slow, -os.path.getsize(j[0])))
    done = {}
    with ThreadPoolExecutor(CORES) as ex:
        for j, (o, err) in zip(order, ex.map(lambda j: obj_for(j[0], j[1], names), order)):
            if err:
                die("compilation failed: " + err)
            done[(j[0], " ".join(j[1]))] = o

    def link(p):
        har, variant, mine = p
        v = VARIANTS[variant]
        objs = [done[(j[0], " ".join(j[1]))] for j in mine]
        if "modules" in v:
            k = len(v["modules"])
            d = os.path.join(BUILD, "modules-" + h(*objs))
            os.makedirs(d, exist_ok=True)
            for (name, _), o in zip(v["modules"], objs):
                so = os.path.join(d, name + ".so")
                if not os.path.exists(so):
                    r = run([v["cxx"]] + v["link"] + [o] + objs[k:] + PYLIBS + LIBS + ["-o", f"{so}.{os.getpid()}"])
                    if r.returncode:
                        die("link failed:\n" + r.stdout[-4000:])
                    os.replace(f"{so}.{os.getpid()}", so)
            return d
        exe = os.path.join(BUILD, har.replace(".cpp", "") + "-" + variant + "-" + h(*objs))
        if not os.path.exists(exe):
            r = run([v["cxx"]] + v["link"] + objs + LIBS + ["-o", f"{exe}.{os.getpid()}"])
            if r.returncode:
                die("link failed:\n" + r.stdout[-4000:])
            os.replace(f"{exe}.{os.getpid()}", exe)
        return exe
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(link, plan))


def setup():
    """compiles every explorer once, so that a check only compiles what has changed since"""
    t = sorted({x[1:3] for c in PROPS.values() for x in c["parts"]})
    build_many(t)
    print(f"setup: {len(t)} explorers built")


def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=\[(.*?)\] state=\[(.*?)\] (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def command(har, exe):
    """the command that runs an explorer, and its environment"""
    e = env()
    if not har.endswith(".py"):
        return [exe], e
    py = "lib/python3.12/site-packages"
    e["PYTHONPATH"] = f"{exe}:{MAIN}/{py}:{MAIN}/{SP}/{py}:{HCD}/{SP}/{py}"
    e["PYTHONMALLOC"] = "malloc"  # freed objects are overwritten
    e["MALLOC_PERTURB_"] = "165"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return [f"{MAIN}/bin/python3", "-W", "ignore", os.path.join(V, "mc", har)], e


def env():
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = f"{MAIN}/{SP}/lib:{HCD}/{SP}/lib:" + e.get("LD_LIBRARY_PATH", "")
    e["OMP_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", help="a property id, or 'setup'")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    if prop == "setup":
        return setup()
    parts = PROPS[prop]["parts"]
    exes = build_many([x[1:3] for x in parts])
    tb = time.time() - t0
    os.makedirs(EV, exist_ok=True)
    if a.replay:
        st = a.replay
        if os.path.exists(st):
            st = json.load(open(st))["state"]
        k = 0
        if len(parts) > 1:
            name, st = st.split("|", 1)
            k = [x[0] for x in parts].index(name)
        cmd, e = command(parts[k][1], exes[k])
        sys.exit(subprocess.call(cmd + ["--prop", prop, "--tier", tier, "--replay", st], env=e))
    kf = known(prop)
    all_, end = None, time.time() + (600 if tier == "quick" else 3300)
    for k, (name, har, variant, quick, deep) in enumerate(parts):
        pre = name + "|" if len(parts) > 1 else ""
        res = os.path.join(BUILD, f"{prop}-{os.getpid()}.json")
        kfile = os.path.join(BUILD, f"{prop}-{os.getpid()}.known")
        with open(kfile, "w") as f:
            for s, st, _ in kf:
                if st.startswith(pre):
                    f.write(s + "\t" + st[len(pre):] + "\n")
        # what is left of the time, shared among the remaining parts
        dl = (end - time.time()) / (1 if k + 1 == len(parts) else 1.5)
        cmd, e = command(har, exes[k])
        cmd += ["--prop", prop, "--tier", tier, "--out", res, "--known", kfile, "--deadline", str(int(dl)),
               "--workers", str(CORES)] + (quick if tier == "quick" else deep)
        r = run(cmd, env=e)
        if r.returncode or not os.path.exists(res):
            die(f"explorer ended with status {r.returncode}\n" + r.stdout[-3000:])
        d = json.load(open(res))
        os.unlink(res)
        os.unlink(kfile)
        d["metrics"].setdefault("impl_runs", d["executed"])
        all_ = merge(all_, d, pre)
    finish(prop, tier, all_, kf, time.time() - t0, tb)


def merge(a, d, pre):
    """adds the results of one part to those of the parts before"""
    if pre:
        for v in d["violations"]:
            v["state"] = pre + v["state"]
        d["known_hits"] = [[s, pre + st] for s, st in d["known_hits"]]
        d["samples"] = [pre + x for x in d["samples"][:2]]
        d["bounds"] = pre[:-1] + ": " + d["bounds"]
        d["metrics"] = {(k if k == "impl_runs" else pre[:-1] + "_" + k): v for k, v in d["metrics"].items()}
        d["metrics"][pre[:-1] + "_states"] = d["executed"]
    if a is None:
        return d
    for k in ("states", "transitions", "executed"):
        a[k] += d[k]
    a["exhaustive"] = a["exhaustive"] and d["exhaustive"]
    a["bounds"] += "; " + d["bounds"]
    for k in ("samples", "unconfirmed", "violations", "known_hits"):
        a[k] += d[k]
    for k in ("metrics", "violation_counts"):
        for m, v in d[k].items():
            a[k][m] = a[k].get(m, 0) + v
    return a


def finish(prop, tier, d, kf, wall, tb):
    m = dict(d["metrics"])
    runs = m.pop("impl_runs", d["executed"])
    cov = dict(states=d["states"], transitions=d["transitions"], traces_validated_against_impl=runs,
               samples=d["samples"], states_executed=d["executed"], exhaustive_within_bounds=d["exhaustive"],
               bounds=d["bounds"], checks=m, known_findings_met=len(d["known_hits"]),
               unconfirmed_observations=len(d["unconfirmed"]))
    if "schedules" in m:
        cov["schedules"] = m["schedules"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=cov, wall_s=round(wall, 2), build_s=round(tb, 2),
              violations=d["violations"], violation_counts=d["violation_counts"])
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    hit = {tuple(x) for x in d["known_hits"]}
    for s, st, txt in kf:
        if (s, st) in hit:
            print(f"KNOWN-FINDING: property={prop} {txt}")
    for u in d["unconfirmed"][:5]:
        print("note: not reproduced in a fresh process, not reported: " + u[:300])
    print(f"{prop} {tier}: {d['states']} states, {d['transitions']} transitions, {runs} implementation runs, "
          f"exhaustive={d['exhaustive']}, build {tb:.0f}s, total {wall:.0f}s")
    if d["violations"]:
        rd = os.path.join(EV, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(d["violations"]):
            p = os.path.join(rd, f"{prop}-{i}.json")
            with open(p, "w") as f:
                json.dump(dict(property=prop, state=v["state"], signature=v["sig"], message=v["msg"],
                               replay=f"python3 {V}/run.py {prop} --replay {p}"), f, indent=1)
            print(f"  {v['sig']} at [{v['state']}]: {v['msg'][:300]}")
            print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
