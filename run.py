#!/usr/bin/env python3
"""Driver: builds the exploration harnesses from /repo's working tree, runs one
property's exhaustive exploration, confirms any counterexample by replaying it in
fresh processes, and writes evidence/<ID>.json.

  run.py setup                 build everything
  run.py check ID [TIER]       quick | thorough (default: $VERIF_TIER or quick)
  run.py replay FILE           replay a stored counterexample
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
MC = os.path.join(HERE, "mc")
CXX = "clang++-18"
# What the project's own tests have in scope through their other headers.
PRELUDE = ["algorithm", "array", "bitset", "cassert", "cstdint", "cstring", "functional", "iterator", "limits",
           "map", "memory", "numeric", "optional", "set", "string", "string_view", "tuple", "type_traits",
           "utility", "variant", "vector"]
CXXFLAGS = ["-std=c++17", "-O1", "-g1", *sum([["-include", h] for h in PRELUDE], []),
            "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined",
            "-fno-sanitize=alignment,vptr,function", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w"]
# Harnesses that need the code under test compiled with more than that.
MORE = {"indep": ["-fsanitize-coverage=edge,trace-pc-guard",
                  "-fsanitize-coverage-allowlist=" + os.path.join(MC, "cov_allow.txt")]}
LDFLAGS = ["-fsanitize=address,undefined", "-fuse-ld=lld", "-lprotobuf-lite", "-lpthread"]
ASAN = ("detect_leaks=0:exitcode=99:abort_on_error=0:max_allocation_size_mb=2048:"
        "hard_rss_limit_mb=3000:malloc_fill_byte=190:max_malloc_fill_size=65536:"
        "detect_stack_use_after_return=1:allocator_may_return_null=0:symbolize=0:"
        "quarantine_size_mb=16:handle_abort=0")

HARNESS = json.load(open(os.path.join(HERE, "mc", "harness.json")))  # id -> {...}
WORKERS = max(2, min(8, os.cpu_count() or 8))


def sha(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def tree(root, exts):
    out = []
    for d, dn, fn in os.walk(root):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def contents(files, base):
    out = []
    for f in files:
        out.append(os.path.relpath(f, base))
        out.append(open(f, "rb").read())
    return out


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-2500:])


def cached(name, key, make):
    """make(tmpdir) fills a directory; the result is published atomically."""
    dst = os.path.join(BUILD, name + "-" + key)
    if os.path.isdir(dst):
        os.utime(dst)
        return dst
    tmp = dst + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        make(tmp)
        os.rename(tmp, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # Keep the cache small.
    old = sorted((d for d in os.listdir(BUILD) if d.startswith(name + "-") and ".tmp" not in d),
                 key=lambda d: os.stat(os.path.join(BUILD, d)).st_mtime)
    for d in old[:-6]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return dst


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = os.path.join(REPO, "include")
        protodir = os.path.join(inc, "ygopen", "proto")
        protos = [f for f in tree(protodir, (".proto",)) if os.path.dirname(f) == protodir]
        src = tree(os.path.join(REPO, "src"), (".cpp", ".hpp", ".inl", ".h"))
        hdr = tree(inc, (".hpp", ".inl", ".h"))
        flags = " ".join(CXXFLAGS + LDFLAGS)
        k_pb = sha([flags] + contents(protos, REPO))

        def mk_pb(d):
            # client_msg imports a proto that does not exist in some trees: generate one by one.
            gen = os.path.join(d, "gen")
            os.makedirs(gen)
            ok = []
            for p in protos:
                r = subprocess.run(["protoc", "--proto_path=" + protodir, "--cpp_out=lite:" + gen, p],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0:
                    ok.append(os.path.basename(p)[:-6])
                else:
                    print("note: protoc failed for", p, r.stdout, file=sys.stderr)
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda b: run([CXX] + CXXFLAGS + ["-I" + gen, "-c", os.path.join(gen, b + ".pb.cc"),
                                                             "-o", os.path.join(d, b + ".o")]), ok))
        pb = cached("pb", k_pb, mk_pb)
        gen = os.path.join(pb, "gen")
        incs = ["-I" + inc, "-I" + gen, "-I" + MC]
        k_src = [k_pb] + contents(src, REPO) + contents(hdr, REPO)
        mch = tree(MC, (".hpp", ".txt"))

        def codec_of(more):
            def mk(d):
                cpps = [f for f in src if f.endswith(".cpp")]
                with ThreadPoolExecutor(8) as ex:
                    list(ex.map(lambda f: run([CXX] + CXXFLAGS + more + incs + [
                        "-c", f, "-o", os.path.join(d, sha([f]) + ".o")]), cpps))
            tag = "codec" if not more else "codecm"
            return cached(tag, sha(k_src + more + (contents(mch, HERE) if more else [])), mk)
        codecs = {}
        for n in names:
            t = tuple(MORE.get(n, []))
            if t not in codecs:
                codecs[t] = codec_of(list(t))

        def one(n):
            f = os.path.join(MC, n + ".cpp")
            more = MORE.get(n, [])
            codec = codecs[tuple(more)]
            k = sha(k_src + more + contents(mch + [f], HERE))

            def mk(d):
                o = os.path.join(d, n + ".o")
                run([CXX] + CXXFLAGS + more + incs + ["-c", f, "-o", o])
                objs = [os.path.join(x, y) for x in (pb, codec) for y in sorted(os.listdir(x)) if y.endswith(".o")]
                run([CXX, o] + objs + LDFLAGS + ["-o", os.path.join(d, n)])
                os.unlink(o)
            return os.path.join(cached("h_" + n, k, mk), n)
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(names, ex.map(one, names)))
    finally:
        lock.close()


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98"
    e["LC_ALL"] = "C"
    return e


def known_for(pid):
    out = []
    f = os.path.join(HERE, "known_findings.jsonl")
    for line in open(f):
        line = line.strip()
        if line:
            j = json.loads(line)
            if j.get("property") == pid and j.get("status") == "known":
                out.append(j)
    return out


def replay(binary, pid, path, limit=120):
    try:
        r = subprocess.run([binary, "replay", pid, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env(), timeout=limit)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace")


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    h = HARNESS[pid]
    binary = build([h["harness"]])[h["harness"]]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    budget = float(os.environ.get("MC_BUDGET", "420" if tier == "quick" else "780"))
    outf = os.path.join(EVID, ".%s.%d.raw" % (pid, os.getpid()))
    only = os.environ.get("MC_ONLY", "")
    r = subprocess.run([binary, "explore", pid, tier, outf, str(WORKERS), str(budget)] + ([only] if only else []),
                       env=env())
    try:
        data = json.load(open(outf))
    except Exception as e:
        print("error: no result from the harness (exit %s): %s" % (r.returncode, e))
        return 2
    finally:
        if os.path.exists(outf):
            os.unlink(outf)
    sp = data["spaces"]
    viol = [s for s in sp if s["violated"]]
    internal = [s for s in sp if s["internal"]]
    tot = lambda k: sum(s[k] for s in sp)
    rc = 0
    lines = []
    nviol = 0
    if internal:
        print("error: %s" % internal[0]["why"])
        rc = 2
    for s in viol:
        path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, s["name"].replace("/", "_")))
        with open(path, "w") as f:
            f.write("property %s\nharness %s\ntier %s\nspace %s\nchoices %s\n" % (
                pid, h["harness"], tier, s["name"], " ".join(map(str, s["trace"]))))
            f.write("message %s\n" % s["why"].replace("\n", "\nmessage "))
        c1, o1 = replay(binary, pid, path)
        c2, o2 = replay(binary, pid, path)
        with open(path, "a") as f:
            f.write("\n--- replay ---\n" + o1)
        if c1 == 0 or c2 == 0 or c1 == 4 or c2 == 4:
            print("error: counterexample did not reproduce (%s, %s): %s" % (c1, c2, s["why"][:400]))
            rc = 2
            continue
        nviol += 1
        print("counterexample in space %s: %s" % (s["name"], s["why"][:1200]))
        tail = [l for l in o1.splitlines() if l.strip()][-40:]
        print("\n".join(tail)[:6000])
        lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
    samples = []
    for s in sp:
        for x in s["samples"][:1]:
            samples.append({"space": s["name"], "execution": x})
    cov = {
        "states": tot("states"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "samples": samples[:12],
        "exhaustive": all(s["exhaustive"] for s in sp) and not viol and not any(s["table_full"] for s in sp),
        "distinct_outcomes": tot("outcomes"),
        "executions_cut_at_known_states": tot("cut"),
        "spaces": [{k: s[k] for k in ("name", "bounds", "deviation_bound", "executions", "transitions", "states",
                                      "outcomes", "cut", "exhaustive", "wall_s", "why")} for s in sp],
        "note": "Executions are runs of the real compiled code from /repo (no separate model to bind): every explored "
                "trace is validated against the implementation step by step by the reference oracle. 'states' counts "
                "distinct canonical states (or distinct inputs for input spaces) by 56-bit hash.",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": h.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: spaces=%d executions=%d transitions=%d states=%d outcomes=%d exhaustive=%s wall=%.1fs" % (
        pid, tier, len(sp), tot("executions"), tot("transitions"), tot("states"), tot("outcomes"),
        cov["exhaustive"], time.time() - t0))
    if nviol:
        for l in lines:
            print(l)
        return 1
    for k in known_for(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    return rc


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "setup":
            names = sorted({v["harness"] for v in HARNESS.values()})
            build(names)
            print("built:", " ".join(names))
            return 0
        if sys.argv[1] == "check":
            pid = sys.argv[2]
            tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
            return check(pid, tier)
        if sys.argv[1] == "replay":
            f = sys.argv[2]
            pid = [l.split()[1] for l in open(f) if l.startswith("property ")][0]
            n = HARNESS[pid]["harness"]
            c, o = replay(build([n])[n], pid, f)
            print(o)
            print("exit", c)
            return 0 if c == 0 else 1
    except BuildError as e:
        print("error: build failed\n%s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
