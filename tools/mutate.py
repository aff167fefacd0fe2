#!/usr/bin/env python3
"""Small random changes of the code under test, each run against the checks that should see it.

  tools/mutate.py <plan> <out.jsonl> [--workers N] [--jobs N] [--seconds S] [--seed N] [--per-file N]

plan: lines "<file glob> <properties, comma separated> [mutants per file]". Works on private copies of
/repo under /tmp/mut*. Survivors are to be read: either no observable change, or a gap in a check.
"""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS

SKIP = re.compile(r"KASSERT|\bDBG|\bLOG|TIMER|IFDBG|IFSTATS|IF_STATS|static_assert|^\s*#|^\s*//|ASSERT|SET_|\bprint|std::cout|"
                  r"reserve|\bHEAP|stats|StreamSta|std::endl|<<|DISABLE|using |template|namespace|typename|__builtin_prefetch")


def candidates(lines):
    depth_skip = 0
    for i, l in enumerate(lines):
        if depth_skip > 0:
            depth_skip += l.count("(") - l.count(")")
            continue
        if re.search(r"KASSERT|ASSERT|\bDBG|\bLOG", l):
            depth_skip = max(0, l.count("(") - l.count(")"))
            continue
        if SKIP.search(l) or not l.startswith("  "):
            continue
        code = l.split("//")[0]
        for a, b in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "),
                     (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), (" + ", " - "),
                     (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" * ", " + "), ("std::min", "std::max"),
                     ("std::max", "std::min"), ("return true;", "return false;"), ("return false;", "return true;"),
                     ("continue;", ";"), ("break;", ";"), (" = 0;", " = 1;"), ("++", "--"), (" % ", " / "),
                     (" false)", " true)"), (" true)", " false)"), ("!", "")]:
            p = code.find(a)
            if p >= 0 and not (a == "!" and code[p + 1:p + 2] == "="):
                yield i, code[:p] + b + code[p + len(a):].rstrip("\n") + "\n"
        m = re.match(r"^(\s+)if (constexpr )?\((.*)\) \{\s*$", code)
        if m and not m.group(2):
            yield i, f"{m.group(1)}if (true) {{\n"
            yield i, f"{m.group(1)}if (false) {{\n"
            yield i, f"{m.group(1)}if (!({m.group(3)})) {{\n"
        m = re.match(r"^(\s+)__atomic_fetch_(add|sub)\(&(.+), (.+?), __ATOMIC_\w+\);\s*$", code)
        if m:
            yield i, f"{m.group(1)}{m.group(3)} {'+' if m.group(2) == 'add' else '-'}= {m.group(4)};\n"
        prev = lines[i - 1].split("//")[0].rstrip() if i else ""
        if (prev.endswith((";", "{", "}")) or not prev) and re.match(r"^\s+[A-Za-z_(*][^={]*(\(.*\)|\+\+|--|[^=]= .*)\s*;\s*$", code) \
                and not re.match(r"^\s+(const|auto|return|static|std::\w+(<.*>)? \w+|[A-Z]\w+(<.*>)? \w+|int|bool|double|constexpr|explicit|virtual|throw)\b", code):
            yield i, re.match(r"^\s*", code).group(0) + ";\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Worker(threading.Thread):
    def __init__(self, no, todo, out, jobs, seconds):
        super().__init__()
        self.no, self.todo, self.out, self.jobs, self.seconds = no, todo, out, jobs, seconds
        self.base = f"/tmp/mut{no}"
        self.repo = self.base + "/repo"
        os.makedirs(self.base, exist_ok=True)
        sh(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", "/repo/", self.repo + "/"])
        self.env = dict(os.environ, SIM_REPO=self.repo, SIM_BUILD=self.base + "/build", SIM_JOBS=str(jobs))

    def build(self, part):
        code = ("import sys; sys.path.insert(0, %r)\nimport simbuild as s\np = %r\ntry:\n  f = s.build_dist_check if p.get('dist') else s.build_shm_check\n"
                "  print('EXE', f(p['exe'], p['libs'], only=p.get('only'), verbose=False))\nexcept s.BuildError as e:\n  print('FAILED', str(e)[-600:])\n") % (V, part)
        r = sh([sys.executable, "-c", code], env=self.env).stdout
        m = re.search(r"^EXE (.*)$", r, re.M)
        return (m.group(1) if m else None), r

    def check(self, prop):
        """caught/clean/build, details"""
        for part in CHECKS[prop]["parts"]:
            exe, txt = self.build(part)
            if exe is None:
                return "build", txt[-300:]
            tmp = tempfile.mkdtemp(prefix="mutrun")
            cmd = [exe, "batch", "--seed", "1", "--seconds", str(self.seconds), "--jobs", str(self.jobs), "--minimise", "1",
                   "--out", tmp + "/o.json", "--tmp", tmp + "/w", "--property", prop, "--replay-out", tmp + "/r.json", "--first", "0"]
            for k in known(prop):
                cmd += ["--known", k["class"], k["match"]]
            p = sh(cmd, cwd=tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            if p.returncode == 1:
                c = re.search(r"^class.*$", p.stdout, re.M)
                r = re.search(r"run[ =]\d+", p.stdout)
                return "caught", (c.group(0) if c else "?")
            if p.returncode != 0:
                return "error", p.stdout[-300:]
        return "clean", ""

    def run(self):
        while True:
            with LOCK:
                if not self.todo:
                    return
                f, line, new, props = self.todo.pop(0)
            path = os.path.join(self.repo, f)
            with open(path) as h:
                orig = h.read()
            lines = orig.split("\n")
            old = lines[line]
            lines[line] = new.rstrip("\n")
            t0 = time.time()
            res, det = "clean", []
            try:
                with open(path, "w") as h:
                    h.write("\n".join(lines))
                for p in props:
                    r, d = self.check(p)
                    det.append((p, r, d))
                    if r != "clean":
                        res = r
                        break
            finally:
                with open(path, "w") as h:
                    h.write(orig)
            with LOCK:
                with open(self.out, "a") as h:
                    h.write(json.dumps(dict(file=f, line=line + 1, old=old.strip(), new=new.strip(), res=res, det=det,
                                            s=round(time.time() - t0))) + "\n")


def known(prop):
    res = []
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("{"):
            k = json.loads(l)
            if k.get("property") == prop and "class" in k:
                res.append(k)
    return res


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


LOCK = threading.Lock()
if __name__ == "__main__":
    plan, out = sys.argv[1], sys.argv[2]
    rnd = random.Random(int(opt("--seed", "1")))
    todo = []
    for l in open(plan):
        l = l.split("#")[0].split()
        if not l:
            continue
        for path in sorted(glob.glob("/repo/" + l[0], recursive=True)):
            src = open(path).read().split("\n")
            c = list(candidates([x + "\n" for x in src]))
            rnd.shuffle(c)
            seen = set()
            k = 0
            for i, new in c:
                if i in seen:
                    continue
                seen.add(i)
                todo.append((os.path.relpath(path, "/repo"), i, new, l[1].split(",")))
                k += 1
                if k >= int(l[2] if len(l) > 2 else opt("--per-file", "4")):
                    break
    if "--shuffle" in sys.argv:
        rnd.shuffle(todo)
    todo = todo[int(opt("--skip", "0")):]
    print(len(todo), "changes", flush=True)
    if "--list" in sys.argv:
        for t in todo: print(t[0], t[1] + 1, t[2].strip())
        sys.exit()
    ws = [Worker(i, todo, out, int(opt("--jobs", "2")), float(opt("--seconds", "12"))) for i in range(int(opt("--workers", "4")))]
    for w in ws: w.start()
    for w in ws: w.join()
