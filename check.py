#!/usr/bin/env python3
"""Driver: builds one check's harness from /repo's working tree, runs its
property campaigns in parallel shards, replays failures, writes evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--scale X]
                   [--prop NAME] [--count N] [--seed N]
exit 0: held on everything explored; exit 1: VIOLATION line printed;
exit 2: the check itself could not run."""
import argparse, fcntl, json, os, re, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SHARDS = 8

sys.path.insert(0, ROOT)
from checks_config import CHECKS, LIBSETS, PYTHON  # noqa: E402

CXX = "/usr/bin/g++"
COMMON = ("-std=c++17 -g1 -w -fPIC -fno-omit-frame-pointer -D_GNU_SOURCE "
          "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS")
SAN = ("-fsanitize=address,undefined -fno-sanitize=vptr,alignment "
       "-fno-sanitize-recover=all")
LINK = ("-fuse-ld=lld -L/usr/lib/llvm-14/lib -lLLVMSupport -lLLVMDemangle -lxml2 -lz3 -lz "
        "-ltinfo -lpthread -ldl -lm")


def incs():
    return (f"-I{ROOT}/harness -I{ROOT}/harness/shims -I{REPO}/include -I{REPO}/lib/Feature "
            "-I/usr/lib/llvm-14/include -I/usr/include/libxml2")


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def emit_ninja():
    os.makedirs(BUILD, exist_ok=True)
    o = []
    o.append("ninja_required_version = 1.5")
    o.append("rule lib\n  command = %s %s %s $opt -fsanitize-coverage=trace-pc %s -MMD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc" % (CXX, COMMON, SAN, incs()))
    o.append("rule har\n  command = %s %s %s $opt %s -MMD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc" % (CXX, COMMON, SAN, incs()))
    o.append("rule link\n  command = %s %s -o $out $in %s $libs" % (CXX, SAN, LINK))
    libs = sorted({s for ls in LIBSETS.values() for s in ls})
    tools = {c["tool"] for c in CHECKS.values() if "tool" in c}
    for s in tools:
        name = re.sub(r"\W", "_", os.path.basename(os.path.dirname(s)))
        o.append(f"build tool/{s}.o: lib {REPO}/{s}\n  opt = -O0 -Dmain={name}_main")
    for s in PYTHON:
        o.append(f"build py/{s}.o: har {REPO}/{s}\n  opt = -O0 -I/usr/include/python3.12")
    for s in libs:
        # the parser instantiates std::regex several times: -O0 halves its
        # compile time
        opt = "-O0" if s.endswith("FeatureModelParser.cpp") else "-O1"
        o.append(f"build lib/{s}.o: lib {REPO}/{s}\n  opt = {opt}")
    for h in ("pbt", "refmodel", "cgrammar"):
        o.append(f"build har/{h}.o: har {ROOT}/harness/{h}.cpp\n  opt = -O1")
    for cid, c in CHECKS.items():
        if "src" not in c:
            continue
        src = c["src"]
        o.append(f"build har/{src}.o: har {ROOT}/harness/{src}\n  opt = {c.get('opt', '-O0')}")
        objs = " ".join(f"lib/{s}.o" for s in LIBSETS[c["libs"]])
        if "python" in c:
            objs += " " + " ".join(f"py/{s}.o" for s in PYTHON)
        if "tool" in c:
            objs += f" tool/{c['tool']}.o"
        o.append(f"build bin/{cid}: link har/{src}.o har/pbt.o har/refmodel.o har/cgrammar.o {objs}"
                 + ("\n  libs = -lpython3.12" if "python" in c else ""))
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(o) + "\n")


def build(target):
    emit_ninja()
    r = subprocess.run(["/usr/bin/ninja", "-C", BUILD, "-j", str(os.cpu_count() or 8), target],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"ERROR: building {target} failed")
        sys.exit(2)


def known_findings(cid):
    """id -> description of the listed, unrepaired findings of this property"""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                out[m.group(2)] = m.group(3)
    return out


def replay_file(cid, n, f):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{cid}-{n}.replay")
    with open(p, "w") as o:
        o.write(f"check {cid}\nprop {f['prop']}\nsize {f['size']}\n")
        o.write("choices " + " ".join(map(str, f["choices"])) + "\n")
        if "campaign" in f:
            o.write("campaign " + f["campaign"] + "\n")
        o.write(f"# kind: {f['kind']}\n# message: {f['msg']}\n")
        for line in f.get("desc", "").splitlines():
            o.write("# " + line + "\n")
        o.write(f"# rerun: python3 check.py {cid} --replay {p}\n")
    return p


def run_shards(binary, args, env):
    procs = []
    for s in range(SHARDS):
        # output to a file: a shard must never block on a full pipe
        out = tempfile.TemporaryFile(mode="w+")
        procs.append((out, subprocess.Popen(
            [binary, "--shard", str(s), "--shards", str(SHARDS)] + args,
            stdout=out, stderr=subprocess.DEVNULL, env=env)))
    res = []
    for s, (out, p) in enumerate(procs):
        rc = p.wait()
        out.seek(0)
        got = []
        for line in out:
            try:
                got.append(json.loads(line))
            except ValueError:
                pass
        out.close()
        for g in got:
            g["shard"] = s
        if rc != 0:
            got.append({"type": "shard-error", "shard": s, "rc": rc})
        res.append(got)
    return [g for r in res for g in r]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default=None)
    ap.add_argument("--prop")
    ap.add_argument("--count")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    cid = a.id
    cfg = CHECKS[cid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if "module" in cfg:  # checks that are not C++ harnesses
        mod = __import__(cfg["module"])
        sys.exit(mod.main(cid, a, t0))
    build(f"bin/{cid}")
    tb = time.time() - t0
    binary = os.path.join(BUILD, "bin", cid)
    env = dict(os.environ)
    scratch = tempfile.TemporaryDirectory(prefix=f"{cid.lower()}-")
    env["TMPDIR"] = scratch.name  # files of killed cases go with it
    if a.replay:
        text = open(a.replay).read()
        m = re.search(r"^campaign (.*)$", text, re.M)
        if m:
            r = run_shards(binary, m.group(1).split(), env)
            bad = [x for x in r if x["type"] in ("failure", "flaky")]
            print(json.dumps(bad, indent=1)[:4000])
            sys.exit(1 if bad else 0)
        sys.exit(subprocess.run([binary, "--replay", a.replay], env=env).returncode)

    args = ["--seed", str(int(a.seed)), "--tier", a.tier]
    for k in ("scale", "prop", "count"):
        if getattr(a, k):
            args += ["--" + k, getattr(a, k)]
    # Counts decide the length of a campaign; the budget only keeps a slow
    # machine or a hanging change within the time a check may take.
    args += ["--budget", os.environ.get("VERIF_BUDGET", "400" if a.tier == "quick" else "600")]
    results = run_shards(binary, args, env)
    violations = []

    # pinned known findings
    listed = known_findings(cid)
    kout = subprocess.run([binary, "--known", "1"], stdout=subprocess.PIPE, env=env, text=True).stdout
    for line in kout.splitlines():
        k = json.loads(line)
        if k["fails"]:
            if k["id"] in listed:
                print(f"KNOWN-FINDING: property={cid} {k['id']}: {listed[k['id']]}")
            else:
                violations.append({"prop": "known_" + k["id"], "size": 50, "choices": [],
                                   "kind": k["kind"], "msg": k["msg"], "desc": ""})

    errors = [r for r in results if r["type"] == "shard-error"]
    seen = set()
    for f in [r for r in results if r["type"] == "failure"]:
        key = (f["prop"], f["kind"])
        if key in seen:
            continue
        if f["repro"] >= 3:
            seen.add(key)
            violations.append(f)
        else:
            f["type"] = "flaky"
    # Failures that do not reproduce from their own choices alone (they depend
    # on heap state left by earlier cases): the deterministic unit is the shard.
    for f in [r for r in results if r["type"] == "flaky"]:
        key = (f["prop"], f["kind"])
        if key in seen or time.time() - t0 > 500:
            continue
        again = 0
        cargs = args + (["--prop", f["prop"]] if not a.prop else [])
        for _ in range(2):
            r = run_shards(binary, cargs, env)
            if any(x["type"] in ("failure", "flaky") and x["prop"] == f["prop"] for x in r):
                again += 1
        if again == 2:
            seen.add(key)
            f["campaign"] = " ".join(cargs)
            violations.append(f)
        else:
            print(f"note: not reproducible, not counted: {f['prop']} {f['kind']} {f['msg'][:300]}")

    # evidence
    per, tags, samples, keys = {}, {}, [], set()
    ev = nt = dis = inc = 0
    for r in results:
        if r["type"] != "stats":
            continue
        p = per.setdefault(r["prop"], {"evaluations": 0, "discards": 0, "nontrivial": 0})
        p["evaluations"] += r["evals"]
        p["discards"] += r["discards"]
        p["nontrivial"] += r["nontrivial"]
        ev += r["evals"]
        dis += r["discards"]
        nt += r["nontrivial"]
        inc += r["inconclusive"]
        for k, v in r["tags"].items():
            t = r["prop"] + "/" + k
            tags[t] = tags.get(t, 0) + v
        for k in r["keys"]:
            keys.add(r["prop"] + k)
        if sum(1 for s in samples if s["prop"] == r["prop"]) < 3:
            samples += [{"prop": r["prop"], "case": s} for s in r["samples"][:1]]
    for p in per:
        per[p]["distinct_nontrivial"] = sum(1 for k in keys if k.startswith(p) and
                                            len(k) - len(p) <= 16)
    evidence = {
        "property": cid, "tier": a.tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys),
            "rule": cfg["rule"], "samples": samples[:24] or ["none"],
            "discarded": dis, "inconclusive": inc, "per_property": per,
            "classes": dict(sorted(tags.items())),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
        "violations": len(violations),
    }
    if not (a.prop or a.count or a.scale):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{cid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{cid} [{a.tier}] seed {a.seed}: {ev} cases, {len(keys)} distinct non-trivial, "
          f"{dis} discarded, {inc} inconclusive; build {tb:.0f}s total {time.time()-t0:.0f}s")
    if a.prop or a.count or a.scale or os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(tags.items()):
            print("   ", k, v)
    for i, f in enumerate(violations):
        p = replay_file(cid, i, f)
        print(f"--- {f['prop']}: {f['kind']}: {f['msg'][:1500]}")
        print("\n".join("    " + x for x in f.get("desc", "").splitlines()[:40]))
        print(f"VIOLATION property={cid} replay={p}")
    if violations:
        sys.exit(1)
    if errors or ev == 0:
        print("ERROR: a shard ended abnormally", errors)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
