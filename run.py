#!/usr/bin/env python3
"""Runner: builds a property's harness from /repo's current tree, explores its bounded space on all
cores, replays any mismatch/crash/hang alone, writes evidence/<id>.json, and exits 0 or 1."""
import json, os, shutil, subprocess, sys, tempfile, time, struct, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
NCPU = max(1, min(8, os.cpu_count() or 8))

BASE_INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
BASE_DEF = ["-DLEXY_HAS_UNICODE_DATABASE=1", "-DLEXY_EXPERIMENTAL=1"]
COV = os.environ.get("VERIF_COVFLAGS", "").split()  # development aid: coverage of /repo by a check

CANARY = r'''
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
struct P { static constexpr auto rule = lexy::dsl::list(LEXY_LIT("a")) + lexy::dsl::eof;
           static constexpr auto value = lexy::noop; };
int main() { return lexy::match<P>(lexy::zstring_input("aaa")) ? 0 : 1; }
'''


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    def __init__(self, cmd, text):
        super().__init__(text)
        self.cmd, self.text = cmd, text


def run_cmd(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, **kw)


def compile_one(cmd):
    last = None
    for attempt in range(2):
        try:
            r = run_cmd(cmd)
        except subprocess.TimeoutExpired:
            last = BuildError(cmd, "compiler timeout")
            continue
        if r.returncode == 0:
            return
        last = BuildError(cmd, r.stdout)
        # a compiler killed by memory pressure is retried, a diagnosed error is not
        if " error: " in r.stdout:
            break
    raise last


def build(chk, tier, bdir):
    """Returns the list of (binary, label) of this check."""
    bins = []
    jobs = []
    for b in chk.binaries(tier, bdir):
        cxx = b.get("cxx", "clang++")
        flags = ["-std=c++20", "-w", "-fno-color-diagnostics" if "clang" in cxx else
                 "-fdiagnostics-color=never"] + b.get("flags", ["-O1"]) + COV + BASE_DEF + \
            b.get("defs", []) + BASE_INC + ["-I" + bdir]
        objs = []
        for src in b["sources"]:
            path = src if os.path.isabs(src) else os.path.join(VERIF, "harness", src)
            obj = os.path.join(bdir, "%s.%s.o" % (b["name"], hashlib.md5(path.encode())
                                                  .hexdigest()[:10]))
            jobs.append([cxx] + flags + ["-c", path, "-o", obj])
            objs.append(obj)
        binary = os.path.join(bdir, b["name"])
        bins.append((b, binary, [cxx] + b.get("flags", ["-O1"]) + COV + objs + ["-o", binary, "-pthread"] +
                     b.get("ldflags", [])))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, jobs))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda x: compile_one(x[2]), bins))
    return [(b, binary) for b, binary, _ in bins]


def env_for(b):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=1:allocator_may_return_null=1:" \
                        "symbolize=0:print_summary=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    e["LSAN_OPTIONS"] = "exitcode=96"
    e["LC_ALL"] = "C.UTF-8"
    e.update(b.get("env", {}))
    return e


def exec_harness(b, binary, args, bdir, tag, timeout):
    out = os.path.join(bdir, "out." + tag)
    prog = os.path.join(bdir, "prog." + tag)
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [binary] + args + ["--out", out, "--prog", prog] + b.get("args", [])
    t0 = time.time()
    cwd = os.path.join(bdir, "cwd." + tag)
    os.makedirs(cwd, exist_ok=True)
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=env_for(b), timeout=timeout, cwd=cwd)
        rc, err = p.returncode, p.stderr[-6000:].decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, err = 97, "TIMEOUT " + ((e.stderr or b"")[-2000:].decode("utf-8", "replace"))
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = None
    case = None
    if os.path.exists(prog):
        raw = open(prog, "rb").read(8)
        if len(raw) == 8:
            v = struct.unpack("<Q", raw)[0]
            case = v - 1 if v else None
    return dict(rc=rc, err=err, res=res, case=case, wall=time.time() - t0)


def load_known(pid):
    """known_findings.txt: `known: property=<id> bin=<name> case=<exact case description> ## <what fails>`"""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                body = line.split("case=", 1)[1]
                case, _, what = body.partition(" ## ")
                res.append((case, what))
    return res


def write_evidence(pid, chk, tier, cov, wall, violations):
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level=chk.level, coverage=cov, wall_s=round(wall, 3), violations=violations,
              assumptions=chk.assumptions)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


def report(pid, info):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(info, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    info["property"] = pid
    info["how_to_replay"] = "python3 /verif/run.py %s --replay %s" % (pid, path)
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    for k in ("binary", "case", "desc", "detail", "stderr"):
        if info.get(k) not in (None, ""):
            log("  %s: %s" % (k, str(info[k])[:1500]))
    log("VIOLATION property=%s replay=%s" % (pid, path))
    return path


def main():
    import registry
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--replay":
            replay = json.load(open(args[i + 1])); i += 1
        elif args[i] == "--keep":
            keep = True
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if replay:
        tier = replay.get("tier", tier)
    chk = registry.get(pid)
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        sys.exit(drive(pid, chk, tier, replay, bdir, t0))
    finally:
        if keep:
            log("kept", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)


def drive(pid, chk, tier, replay, bdir, t0):
    try:
        bins = build(chk, tier, bdir)
    except BuildError as e:
        log(" ".join(e.cmd))
        log("\n".join([l for l in e.text.splitlines() if " error: " in l][:12]))
        log(e.text[:900])
        # Is the library itself uncompilable, or did only this harness stop compiling?
        can = os.path.join(bdir, "canary.cpp")
        open(can, "w").write(CANARY)
        r = run_cmd(["clang++", "-std=c++20", "-w"] + BASE_DEF + BASE_INC +
                    [can, "-o", os.path.join(bdir, "canary")])
        if r.returncode == 0 and " error: " in e.text and \
                (REPO + "/include" in e.text or "static assertion" in e.text):
            # Valid use of the public interface no longer compiles.
            write_evidence(pid, chk, tier, dict(states=0, transitions=0,
                           traces_validated_against_impl=0, samples=["build"], exhaustive=False),
                           time.time() - t0, 1)
            report(pid, dict(kind="build", tier=tier, detail="public-API harness no longer "
                             "compiles", stderr=e.text[-900:], binary=e.cmd[-3]))
            return 1
        log("ERROR: cannot build")
        return 2
    t_build = time.time() - t0
    known = load_known(pid)
    kargs = []
    if known:
        kf = os.path.join(bdir, "known")
        open(kf, "w").write("".join(k + "\n" for k, _ in known))
        kargs = ["--known", kf]

    if replay:
        for b, binary in bins:
            if b["name"] != replay.get("binary"):
                continue
            if replay.get("case") is None:
                continue
            r = exec_harness(b, binary, ["--tier", tier, "--case", str(replay["case"])] + kargs,
                             bdir, "replay", 300)
            log(r["err"])
            if r["rc"] != 0:
                report(pid, dict(replay, stderr=r["err"][-3000:],
                                 detail=str((r["res"] or {}).get("mismatches"))))
                return 1
            log("replayed: no violation")
            return 0
        log("nothing to replay; running the whole check instead")

    jobs = []
    for b, binary in bins:
        n = b.get("shards", NCPU)
        for i in range(n):
            jobs.append((b, binary, i, n))
    limit = 840 if tier == "quick" else 6 * 3600

    def one(j):
        b, binary, i, n = j
        return j, exec_harness(b, binary,
                               ["--shard", "%d/%d" % (i, n), "--tier", tier] + kargs, bdir,
                               "%s.%d" % (b["name"], i), limit)
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, jobs))

    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
               cases_enumerated=0, cases_executed=0, exhaustive=True, bounds=chk.bounds(tier),
               what_is_a_state=chk.what_is_a_state, build_s=round(t_build, 2), per_binary={})
    found = []
    known_hit = set()
    for (b, binary, i, n), r in results:
        res = r["res"]
        if res:
            pb = cov["per_binary"].setdefault(b["name"], dict(cases=0, executed=0, wall_s=0))
            pb["cases"] = max(pb["cases"], res["enumerated"])
            pb["executed"] += res["executed"]
            pb["wall_s"] = round(max(pb["wall_s"], r["wall"]), 2)
            cov["states"] += res["outcomes"]
            cov["transitions"] += res["transitions"]
            cov["traces_validated_against_impl"] += res["traces"]
            cov["cases_executed"] += res["executed"]
            if i == 0:
                cov["samples"] += res["samples"][:3]
            for k in res["known"]:
                known_hit.add(k)
            for m in res["mismatches"]:
                found.append((b, binary, m["id"], m["desc"], m["detail"], "mismatch", r))
        if r["rc"] not in (0, 10) or res is None:
            kind = "hang" if r["rc"] == 97 else "crash"
            found.append((b, binary, r["case"], None, "exit status %s" % r["rc"], kind, r))
    cov["cases_enumerated"] = sum(p["cases"] for p in cov["per_binary"].values())
    cov["samples"] = cov["samples"][:12]
    found.sort(key=lambda f: (f[2] is None, f[2] or 0))

    for k, what in known:
        if k in known_hit:
            log("KNOWN-FINDING: property=%s %s [%s]" % (pid, what, k))

    confirmed = None
    unconfirmed = []
    for b, binary, case, desc, detail, kind, r in found[:6]:
        if case is None:
            rr = exec_harness(b, binary, ["--shard", "0/1", "--tier", tier] + kargs, bdir, "rep",
                              limit)
        else:
            rr = exec_harness(b, binary, ["--case", str(case), "--tier", tier, "--hang", "60"] +
                              kargs, bdir, "rep", 300)
        if rr["rc"] == 0 and kind != "hang":
            # Not reproducible alone: state carried over between cases can matter (it must not for
            # a pure library), so replay the shard's prefix by running the same shard again.
            again = [x for x in results if x[1] is r][0][0]
            rr = exec_harness(b, binary, ["--shard", "%d/%d" % (again[2], again[3]), "--tier",
                                          tier] + kargs, bdir, "rep2", limit)
        if rr["rc"] != 0:
            ms = (rr["res"] or {}).get("mismatches") or []
            if ms:
                desc, detail = ms[0]["desc"], ms[0]["detail"]
            if desc is None:
                for line in rr["err"].splitlines():
                    if line.startswith("CASE "):
                        desc = line
            confirmed = dict(kind=kind, tier=tier, binary=b["name"], case=case, desc=desc,
                             detail=detail, stderr=rr["err"][-3000:] or r["err"][-3000:])
            break
        unconfirmed.append((b["name"], case, desc, detail))
    cov["build_s"] = round(t_build, 2)
    if confirmed:
        cov["exhaustive"] = False
        write_evidence(pid, chk, tier, cov, time.time() - t0, len(found))
        report(pid, confirmed)
        return 1
    if unconfirmed:
        cov["exhaustive"] = False
        cov["unconfirmed"] = [str(u) for u in unconfirmed]
        log("note: not reproducible, ignored:", unconfirmed)
    write_evidence(pid, chk, tier, cov, time.time() - t0, 0)
    log("OK property=%s tier=%s cases=%d traces=%d states=%d transitions=%d build=%.1fs wall=%.1fs"
        % (pid, tier, cov["cases_executed"], cov["traces_validated_against_impl"], cov["states"],
           cov["transitions"], t_build, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
