#!/usr/bin/env python3
"""Build and run the check of one property.

  check.py C01                 build from /repo's working tree, run the search, write the evidence
  check.py --setup             build everything
  check.py C01 --replay FILE   replay one failing input

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Extra arguments after the id are handed to the test binary (--scale, --facet, --stats 1, ...).
Exit status: 0 the property held on everything explored, 1 it is broken.
"""
import concurrent.futures, fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DFMT_HEADER_ONLY=1", "-DMINI_OPT_SERIALIZATION",
          "-DMINI_OPT_TRACING", "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + H, "-pthread"]
FLAVOURS = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=null", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "notrace": ["-UMINI_OPT_TRACING"],
}
REPO_SRC = ["qp.cc", "nonlinear.cc", "residual.cc", "structs.cc", "serialization.cc", "tracing.cc"]

# id -> list of (binary suffix, harness sources, repo sources, flavour)
QPH = ["engine.cc", "gen.cc", "ref.cc"]
NLH = ["engine.cc", "gen.cc", "ref.cc", "nlsgen.cc"]


def targets():
    t = {}
    for f in sorted(os.listdir(H)):
        if f.startswith("p_C") and f.endswith(".cc"):
            pid = f[2:-3].split("_")[0]
            first = open(os.path.join(H, f)).readline()
            # first line: // build: <harness set> <flavour> [repo sources...]
            spec = first.split("build:")[1].split()
            harness = {"qp": QPH, "nls": NLH, "io": NLH, "bare": ["engine.cc"]}[spec[0]]
            repo = spec[2:] if len(spec) > 2 else REPO_SRC
            t.setdefault(pid, []).append((f[2:-3], [f] + harness, repo, spec[1]))
    return t


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def compile_obj(src, flavour):
    flags = COMMON + FLAVOURS[flavour]
    if os.path.dirname(src) == H:
        flags = flags + ["-Wall", "-Wextra"]
    pre = subprocess.run(["g++", "-E", "-P"] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[-4000:]))
    # -I paths do not influence the result beyond the preprocessed text
    key = hashlib.sha256(pre.stdout + " ".join(f for f in flags if not f.startswith("-I")).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        # assertion texts contain __LINE__ and __FILE__, so preprocessed text is what we compile
        r = sh(["g++", "-c", "-o", tmp] + flags + [src])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(binaries):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = {}
    for name, hs, rs, flavour in binaries:
        for s in hs:
            jobs[(os.path.join(H, s), flavour)] = None
        for s in rs:
            jobs[(os.path.join(REPO, "source", s), flavour)] = None
    # longest first
    order = sorted(jobs, key=lambda j: (not j[0].endswith("qp.cc"), -os.path.getsize(j[0])))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = {j: ex.submit(compile_obj, *j) for j in order}
        for j, f in futs.items():
            jobs[j] = f.result()
        out = {}

        def link(b):
            name, hs, rs, flavour = b
            objs = [jobs[(os.path.join(H, s), flavour)] for s in hs] + \
                   [jobs[(os.path.join(REPO, "source", s), flavour)] for s in rs]
            key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, "bin", name + "-" + key)
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                r = sh(["g++", "-o", tmp] + FLAVOURS[flavour] + objs + ["-pthread"])
                if r.returncode != 0:
                    # code may have moved between source files: link all of them
                    src = os.path.join(REPO, "source")
                    every = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith((".cc", ".cpp"))]
                    all_objs = [jobs[(os.path.join(H, s), flavour)] for s in hs] + [compile_obj(f, flavour) for f in every]
                    r = sh(["g++", "-o", tmp] + FLAVOURS[flavour] + all_objs + ["-pthread"])
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
                os.replace(tmp, exe)
            else:
                os.utime(exe)
            return name, exe
        for name, exe in ex.map(link, binaries):
            out[name] = exe
    return out


# The quick tier runs this many times the cases the facets name.
QUICK_SCALE = {"C01": 3, "C03": 4, "C04": 2, "C05": 3, "C06": 4, "C08": 2, "C09": 3, "C10": 2, "C11": 2, "C12": 3, "C13": 2, "C14": 2,
               "C15": 2, "C16": 2, "C17": 2, "C18": 2, "C19": 1.5, "C20": 3, "C21": 2, "C22": 2, "C23": 3, "C24": 4, "C26": 2, "C27": 1.5,
               "C28": 2, "C29": 4, "C30": 1.5}


def prune():
    """Drop cached objects and binaries nobody used for two days."""
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        for f in os.listdir(p) if os.path.isdir(p) else []:
            q = os.path.join(p, f)
            try:
                if time.time() - os.path.getmtime(q) > 2 * 86400:
                    os.remove(q)
            except OSError:
                pass


def main():
    args = sys.argv[1:]
    T = targets()
    if args and args[0] == "--setup":
        build([b for bs in T.values() for b in bs])
        prune()
        print("built %d checks" % len(T))
        return 0
    pid = args[0]
    extra = args[1:]
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in extra:
        i = extra.index("--tier")
        tier = extra[i + 1]
        del extra[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        exes = build(T[pid])
    except BuildError as e:
        print(e)
        return 2
    evdir = os.path.join(VERIF, "evidence")
    rep = os.path.join(evdir, "replays")
    os.makedirs(rep, exist_ok=True)
    ev = os.path.join(evdir, pid + ".json")
    rc_all = 0
    parts = []
    for name, _, _, flavour in T[pid]:
        part = ev if len(T[pid]) == 1 else os.path.join(evdir, ".part_" + name + ".json")
        cmd = [exes[name], "--tier", tier, "--seed", seed, "--evidence", part, "--replay-dir", rep,
               "--known", os.path.join(VERIF, "known_findings.txt")] + extra
        if tier == "quick" and not {"--scale", "--replay"} & set(extra):
            cmd += ["--scale", str(QUICK_SCALE.get(pid, 1))]
        if "--replay" in extra:
            facet = [l.split()[1] for l in open(extra[extra.index("--replay") + 1]) if l.startswith("facet ")][0]
            if len(T[pid]) > 1 and facet.endswith("_" + flavour) != (flavour != "plain"):
                continue
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:detect_leaks=0"
        env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        sys.stdout.flush()
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1):
            return r.returncode
        rc_all = max(rc_all, r.returncode)
        parts.append(part)
        if rc_all:
            break
    if len(T[pid]) > 1 and "--replay" not in extra:
        merge(parts, ev)
    return rc_all


def merge(parts, ev):
    res = None
    for p in parts:
        j = json.load(open(p))
        os.remove(p)
        if res is None:
            res = j
            continue
        res["wall_s"] += j["wall_s"]
        res["violations"] += j["violations"]
        res["assumptions"] += [a for a in j["assumptions"] if a not in res["assumptions"]]
        for k, v in j["coverage"].items():
            o = res["coverage"].get(k)
            if o is None:
                res["coverage"][k] = v
            elif isinstance(v, bool):
                res["coverage"][k] = o or v if k != "exhaustive" else o and v
            elif isinstance(v, (int, float, list)):
                res["coverage"][k] = o + v
            elif isinstance(v, dict):
                o.update(v)
            elif k == "rule" and v != o:
                res["coverage"][k] = o + " | " + v
    with open(ev + ".tmp", "w") as f:
        json.dump(res, f, indent=1)
    os.replace(ev + ".tmp", ev)


if __name__ == "__main__":
    sys.exit(main())
