#!/opt/veriftools/pyvenv/bin/python3
"""Planted bugs (a development tool; no check uses it).
  bugs.py add SPEC.py      specs: a list BUGS of dicts id, prop, edits [(file, old, new)], needs, breaks, case (text or None), funcs
  bugs.py run [ID ...]     which checks catch which bugs
"""
import json
import os
import re
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + "/seeded"
W = "/tmp/w/bugs"
SLOT = os.environ.get("SLOT", "0")
MUT = W + "/mut" + SLOT
BLD = W + "/bld" + SLOT
FUNCS = "pub fn call(_n: &str, _a: &[String]) -> String { String::new() }\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(MUT):
        sh("git clone -q /repo %s" % MUT)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", cwd=MUT)


def check(prop, to=900):
    env = dict(os.environ, VERIF_REPO=MUT, VERIF_BUILD=BLD, VERIF_EVID=W + "/ev" + SLOT)
    r = subprocess.run([ROOT + "/run_check", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=ROOT,
                       timeout=to)
    return r.returncode, r.stdout


def native(funcs):
    env = dict(os.environ, VERIF_REPO=MUT, VERIF_BUILD=BLD)
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\nfrom vkit import build\nprint(build.native(open(%r).read()))"
                        % (ROOT, funcs)], stdout=subprocess.PIPE, text=True, env=env, cwd=ROOT)
    return r.stdout.strip().split("\n")[-1]


def runcase(exe, case):
    o = subprocess.run([exe], input=case, capture_output=True, text=True).stdout
    o = "".join(l + "\n" for l in o.split("\n") if re.match(r"(case|result|cpi|acct|ret) ", l))
    return re.sub(r"(?m)^result (err|panic) .*$", "result err", o)


def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = sys.argv[3:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = SEED + "/" + b["id"]
        fresh()
        for f, old, new in b["edits"]:
            p = MUT + "/programs/dynamic-bonding-curve/src/" + f if not f.startswith("dyn") else MUT + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "pattern found", s.count(old), "times in", f, repr(old[:60]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh("git diff", cwd=MUT).stdout
            shutil.rmtree(W + "/ev" + SLOT, ignore_errors=True)
            code, out = check(b["prop"])
            print(b["id"], "check exit", code, "|", out.strip().split("\n")[-1])
            if code not in (0, 1):
                print(out[-2500:])
                continue
            if code == 1:
                print("   ", "; ".join(l for l in out.split("\n") if l.startswith("violated")))
            case = b.get("case")
            if case is None and code == 1:
                m = re.findall(r"replay=(\S+)", out)
                for x in m:
                    j = json.load(open(x))
                    if j["case"] and j["case"]["lines"]:
                        case = "case demo\n" + "\n".join(j["case"]["lines"]) + "\n"
                        fn = j["case"].get("funcs")
                        break
            if case is None:
                print("   no case: not added")
                if b.get("keep"):
                    os.makedirs(W + "/nocase", exist_ok=True)
                    open(W + "/nocase/%s.diff" % b["id"], "w").write(diff)
                continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/case.txt", "w").write(case)
            fs = b.get("funcs")
            if fs is None and "func " in case:
                sys.path.insert(0, ROOT)
                names = re.findall(r"(?m)^func (\S+)", case)
                r = subprocess.run([sys.executable, "-c", "import sys, importlib; sys.path.insert(0, %r)\nfrom vkit import check\nimportlib.import_module('checks.%s')\nsys.stdout.write(check.funcs_src(%r))" % (ROOT, b["prop"], sorted(set(names)))], stdout=subprocess.PIPE, text=True, cwd=ROOT)
                fs = r.stdout
            open(d + "/funcs.rs", "w").write(fs or FUNCS)
            shutil.copy(ROOT + "/replay/src/main.rs", d + "/main.rs")
            shutil.copy(ROOT + "/replay/Cargo.toml.txt", d + "/Cargo.toml.txt")
            shutil.copy(ROOT + "/tools/demo.sh", d + "/demo.sh")
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            bad = runcase(native(d + "/funcs.rs"), case)
            fresh()
            good = runcase(native(d + "/funcs.rs"), case)
            open(d + "/expected.txt", "w").write(good)
            print("   demo", "differs" if bad != good else "THE SAME", "| tests:", tests(diff))


def tests(diff):
    """do the repository's tests still pass with the patch?"""
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".diff", delete=False) as f:
        f.write(diff)
    sh("git -C /repo apply " + f.name)
    try:
        o = W + "/t.json"
        if os.path.exists(o):
            os.unlink(o)
        sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh " + o)
        j = json.load(open(o))
        base = json.load(open("/opt/vp/BASELINE.json"))
        st = base.get("stable") or base.get("passed") or base
        miss = [t for t in st if t not in j["passed"]] if isinstance(st, list) else "?"
        return "pass" if miss == [] else "FAIL %s" % str(miss)[:200]
    except Exception as e:
        return "error %s" % e
    finally:
        sh("git -C /repo checkout -- .")
        os.unlink(f.name)


def run(ids):
    ids = ids or sorted(os.listdir(SEED))
    for i in ids:
        fresh()
        r = sh("git apply %s/%s/patch.diff" % (SEED, i), cwd=MUT)
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        prop = json.load(open("%s/%s/meta.json" % (SEED, i)))["property"]
        code, out = check(prop)
        v = [l for l in out.split("\n") if l.startswith("violated")]
        print("%-28s %s %s %s" % (i, prop, "CAUGHT" if code == 1 else "missed (%d)" % code, "; ".join(v)[:200]), flush=True)


if sys.argv[1] == "add":
    add(sys.argv[2])
else:
    run(sys.argv[2:])
