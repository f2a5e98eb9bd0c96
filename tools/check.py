#!/usr/bin/env python3
"""Builds fuzzylite from /repo's working tree with sanitizers and runs the generated-input check of one property.

usage: check.py <property> quick|thorough [--replay FILE]
       check.py --setup
Exits 0 when the property held on everything explored, 1 (with a VIOLATION line) otherwise.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"

SAN = {
    "asan": ["-fsanitize=address,bounds,null,return,shift,integer-divide-by-zero,vla-bound,vptr,pointer-overflow,object-size,unreachable,enum,bool",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LIB_FLAGS = ["-std=c++11", "-O1", "-gline-tables-only", "-w"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]
HARNESS_FLAGS = ["-std=c++17", "-O1", "-gline-tables-only", "-Wall", "-Wno-unused-function", "-Wno-varargs"]

sys.path.insert(0, os.path.join(VERIF, "tools"))


def config():
    with open(os.path.join(VERIF, "tools", "config.json")) as f:
        return json.load(f)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(files):
    h = hashlib.sha256()
    for p in sorted(files):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def run_compile(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    if cmd[-1].endswith("/src/main.cpp"):  # the program's main becomes a function that the harness calls
        r = subprocess.run(["objcopy", "--redefine-sym", "main=fuzzylite_command_line", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace"))
    os.replace(tmp, out)


def touch(p):
    try:
        os.utime(p)
    except OSError:
        pass


def build(props, flavour, jobs=8):
    """Returns {property: executable}, compiling what is not in the content-addressed cache."""
    objdir, bindir = os.path.join(BUILD, "obj"), os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(bindir, exist_ok=True)
    headers = glob.glob(REPO + "/fuzzylite/**/*.h", recursive=True) + glob.glob(REPO + "/fl/**/*.h", recursive=True)
    hh = tree_hash(headers)
    lib_src = sorted(s for s in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if s != REPO + "/src/main.cpp")
    harness_headers = tree_hash(glob.glob(VERIF + "/harness/*.h"))
    harness_src = sorted(glob.glob(VERIF + "/harness/*.cpp"))
    compiler = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE).stdout
    jobs_list, lib_objs, harness_objs, prop_objs = [], [], [], {}

    def obj(src, flags, extra):
        key = sha(compiler, " ".join(flags), src, read(src), hh, extra)
        o = os.path.join(objdir, key + ".o")
        if os.path.exists(o):
            touch(o)
        else:
            jobs_list.append(([CXX] + flags + ["-c", src], o, os.path.getsize(src)))
        return o

    for s in lib_src:
        lib_objs.append(obj(s, LIB_FLAGS + SAN[flavour] + (COV if flavour == "asan" else []) + ["-I" + REPO], ""))
    hflags = HARNESS_FLAGS + SAN[flavour] + ["-I" + REPO, "-I" + VERIF + "/harness", '-DVERIF_REPO="%s"' % REPO,
                                             '-DVERIF_DIR="%s"' % VERIF]
    for s in harness_src:
        harness_objs.append(obj(s, hflags, harness_headers))
    main_obj = None
    for p in props:
        if p == "P35" and os.path.exists(REPO + "/src/main.cpp"):
            main_obj = obj(REPO + "/src/main.cpp", LIB_FLAGS + SAN[flavour] + ["-I" + REPO], "")
        prop_objs[p] = obj(VERIF + "/props/%s.cpp" % p, hflags, harness_headers)
    jobs_list.sort(key=lambda j: -j[2])
    errors = []

    def one(j):
        if errors:
            return
        try:
            run_compile(j[0], j[1])
        except BuildError as e:
            errors.append(e)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, jobs_list))
    if errors:
        raise errors[0]
    exes = {}
    links = []
    lld = "/usr/lib/llvm-18/bin/ld.lld"
    for p in props:
        objs = lib_objs + harness_objs + [prop_objs[p]] + ([main_obj] if p == "P35" and main_obj else [])
        exe = os.path.join(bindir, p + "-" + sha(flavour, *objs))
        exes[p] = exe
        if os.path.exists(exe):
            touch(exe)
            continue
        cmd = [CXX] + SAN[flavour] + (["--ld-path=" + lld] if os.path.exists(lld) else []) + objs + ["-lpthread", "-ldl", "-rdynamic"]
        links.append((cmd, exe, 0))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, links))
    if errors:
        raise errors[0]
    return exes


def prune(limit=6 << 30):
    files = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for m, s, f in sorted(files):
        if total <= limit:
            break
        os.unlink(f)
        total -= s


def known_findings(prop):
    """Lines 'known: property=P01 key=<key> <what fails>'; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if not line.startswith("known: property=%s " % prop):
                continue
            rest = line.split(" ", 2)[2].strip()
            key, _, what = rest.partition(" ")
            out[key[len("key="):]] = what
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        cfg = config()
        by = {}
        for p, c in cfg["properties"].items():
            by.setdefault(c.get("flavour", "asan"), []).append(p)
        for fl, ps in by.items():
            build(ps, fl)
        prune()
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    extra = sys.argv[sys.argv.index("--") + 1:] if "--" in sys.argv else []
    cfg = config()["properties"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        exe = build([prop], cfg.get("flavour", "asan"))[prop]
    except BuildError as e:
        print("build failed: %s" % e)
        return 2
    if "--build" in sys.argv:
        print(exe)
        return 0
    t_build = time.time() - t0
    out = os.path.join(VERIF, "out", prop + "-" + tier)
    if not replay:
        shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    known = known_findings(prop)
    cmd = [exe, "--out", out]
    for k in known:
        cmd += ["--known", k]
    if replay:
        return subprocess.run(cmd + ["--replay", replay] + extra).returncode
    if tier == "thorough":
        cmd += ["--thorough"]
    cmd += ["--seed", str(seed), "--budget", str(cfg.get("budget_" + tier, 90 if tier == "quick" else 600))] + extra
    env = dict(os.environ)
    env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer"
    env["TMPDIR"] = out
    env["LC_ALL"] = "C"
    r = subprocess.run(cmd, env=env, timeout=None, cwd=out)
    res_path = os.path.join(out, "result.json")
    if not os.path.exists(res_path):
        print("harness error: no result (exit %d)" % r.returncode)
        return 2
    res = json.load(open(res_path))
    facets = {}
    edges = 0
    kcount = {}
    for w in res["workers"]:
        edges = max(edges, w["edges"])
        for k, v in w["known"].items():
            kcount[k] = kcount.get(k, 0) + v
        for f in w["facets"]:
            g = facets.setdefault(f["name"], {"name": f["name"], "rule": f["rule"], "planned": 0, "evaluations": 0, "nontrivial": 0,
                                              "discarded": 0, "stopped_at_known_finding": 0, "labels": {}, "samples": []})
            for k in ("planned", "evaluations", "nontrivial", "discarded"):
                g[k] += f[k]
            g["stopped_at_known_finding"] += f["known"]
            for k, v in f["labels"].items():
                g["labels"][k] = g["labels"].get(k, 0) + v
            if len(g["samples"]) < 3:
                g["samples"] += f["samples"][:1]
    samples = []
    for g in facets.values():
        samples += ["[%s] %s" % (g["name"], s) for s in g.pop("samples")]
    nviol = 0
    for f in res["failures"]:
        if f.get("reproduced"):
            nviol += 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(g["evaluations"] for g in facets.values()),
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": cfg["rule"],
            "samples": samples[:12] or ["(no non-trivial case was completed)"],
            "facets": list(facets.values()),
            "library_edges_covered_by_one_worker": edges,
            "known_findings_hit": kcount,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for g in facets.values():
        print("%s/%s: %d of %d cases, %d non-trivial, %d discarded; %s" % (
            prop, g["name"], g["evaluations"], g["planned"], g["nontrivial"], g["discarded"],
            ", ".join("%s=%d" % kv for kv in sorted(g["labels"].items()))))
    print("%s %s seed %d: %.1f s (build %.1f s), %d distinct non-trivial" % (prop, tier, seed, time.time() - t0, t_build, res["distinct_nontrivial"]))
    for f in res["failures"]:
        if f.get("reproduced"):
            print("what failed (%s, %s): %s\n%s" % (f["facet"], f["key"], f["msg"], f["case"]))
            print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
        elif not f.get("skipped"):
            print("not reproduced (%s, %s): %s" % (f["facet"], f["key"], f["msg"][:500]))
    return 1 if nviol else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
