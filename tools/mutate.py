#!/usr/bin/env python3
"""Development aid (no check uses it): systematic small mutants of /repo, to find blind spots.

  mutate.py list                      number of mutants per file
  mutate.py run FILE[,FILE..] OUT [--stride N] [--offset K] [--props C01,C02]
For each mutant: the checks of the properties anchored in the file run first (from a copy of /verif, on a
copy of /repo); only what they miss goes through the repository's tests. Misses that pass the tests are
logged as MISSED for review (many are equivalent)."""
import json, os, re, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(path, text):
    res = []
    lines = text.split("\n")
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if not s or s.startswith(("//", "#", "static_assert", "LEXY_ASSERT", "LEXY_PRECONDITION", "using ", "template",
                                  "namespace", "struct ", "class ", "friend", "return \"")):
            continue
        code = l.split("//")[0]
        if "static_assert" in code or "LEXY_ASSERT" in code or "LEXY_PRECOND" in code or "operator" in code:
            continue
        def rep(a, b, name):
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code:
                    res.append((i, new, name))
        rep(r" == ", " != ", "eq")
        rep(r" != ", " == ", "ne")
        rep(r" <= ", " < ", "le")
        rep(r" >= ", " > ", "ge")
        rep(r"(?<!template)(?<!operator) < (?!typename|auto)", " <= ", "lt")
        rep(r" > ", " >= ", "gt")
        rep(r" && ", " || ", "and")
        rep(r" \|\| ", " && ", "or")
        rep(r"if \(!", "if (", "not")
        rep(r"if \((?!!|auto|constexpr)([a-z][^;]*)\)$", r"if (!(\1))", "neg")
        rep(r" \+ 1\b", " + 2", "p1")
        rep(r" - 1\b", "", "m1")
        rep(r"\breturn true\b", "return false", "rt")
        rep(r"\breturn false\b", "return true", "rf")
        rep(r"\bbegin\b(?=,)", "end", "be") if re.search(r"\bend\b", code) else None
        rep(r"(?<![\w'.])(\d+)(?![\w'.])", lambda_inc, "num") if False else None
        for m in re.finditer(r"(?<![\w'.<])(0x[0-9A-Fa-f']+|\d+)(?![\w'.>])", code):
            try:
                v = int(m.group(1).replace("'", ""), 0)
            except ValueError:
                continue
            if v == 0:
                continue
            n = hex(v + 1) if m.group(1).startswith("0x") else str(v + 1)
            res.append((i, code[:m.start()] + n + code[m.end():], "num"))
        if re.match(r"^\s+(\+\+\w[\w.>-]*|--\w[\w.]*|[\w.:>()-]+ ?[-+|&]?= .*|[\w.:]+(<.*>)?(\.|->|::)?\w*\(.*\));$", code) and \
                not s.startswith("return"):
            res.append((i, re.match(r"\s*", code).group(0) + ";", "del"))
    return lines, res


FAST = ["C01", "C02"]


def props_for(f):
    r = []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        if f in p["anchors"]["files"]:
            r.append(p["id"])
    return r


def main():
    files = subprocess.run("git -C /repo ls-files include src", shell=True, text=True, stdout=subprocess.PIPE).stdout.split()
    if sys.argv[1] == "list":
        for f in files:
            if "unicode_database" in f:
                continue
            _, m = mutants(f, open("/repo/" + f).read())
            print("%4d %-50s %s" % (len(m), f, " ".join(props_for(f))))
        return
    args = sys.argv[4:]
    opt = lambda n, d: args[args.index(n) + 1] if n in args else d
    stride, offset = int(opt("--stride", 1)), int(opt("--offset", 0))
    props = opt("--props", None)
    W = opt("--work", "/tmp/mut/w")
    R, VC = W + "/repo", W + "/verif"
    subprocess.run("rm -rf %s/verif; mkdir -p %s; [ -d %s ] || cp -a /repo %s; git clone -q /verif %s; mkdir -p %s/evidence" %
                   (W, W, R, R, VC, VC), shell=True)
    subprocess.run("cd %s && git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R, shell=True)
    out = open(sys.argv[3], "a")
    for f in sys.argv[2].split(","):
        path = os.path.join(R, f)
        orig = open("/repo/" + f).read()
        lines, ms = mutants(f, orig)
        pl = props.split(",") if props else props_for(f)
        for k, (i, new, name) in list(enumerate(ms))[offset::stride]:
            t0 = time.time()
            ll = list(lines)
            ll[i] = new
            open(path, "w").write("\n".join(ll))
            verdict = None
            for p in pl:
                r = subprocess.run(["timeout", "600", "python3", VC + "/run.py", p], env=dict(os.environ, VERIF_REPO=R),
                                   text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 1:
                    verdict = "caught " + p + (" (build)" if "no longer" in r.stdout else "")
                    break
                if r.returncode != 0:
                    verdict = "nobuild"
                    break
            if verdict is None:
                o = "/tmp/mut/out.%d.json" % os.getpid()
                subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s" % (R, o)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                b = json.load(open("/opt/vp/BASELINE.json"))
                base = set(b.get("passed") or [b[x] for x in b if isinstance(b[x], list)][0])
                miss = base - set(json.load(open(o))["passed"])
                verdict = "tests(%d)" % len(miss) if miss else "MISSED"
            out.write("%s:%d [%s #%d] %s  {%.0fs}  | %s  ->  %s\n" % (f, i + 1, name, k, verdict, time.time() - t0,
                                                                 lines[i].strip(), new.strip()))
            out.flush()
        open(path, "w").write(orig)


main()
