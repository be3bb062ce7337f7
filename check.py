#!/usr/bin/env python3
"""Runs the check of one property:  check.py C03 [quick|thorough] [--replay FILE] [--only SCENARIO]

Builds the harness of the property together with the library sources of /repo's current working tree
(objects are cached under build/ by content), explores, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION; 3: the check itself could not run.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")
SHIM = os.path.join(MC, "shim")

sys.path.insert(0, MC)
import config  # noqa: E402


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_digest(root, exts, skip=()):
    h = []
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.append(os.path.relpath(p, root))
                h.append(sha(read(p)))
    return sha(*h)


FLAGS = {
    "plain": ["-O1", "-g"],
    "debug": ["-O1", "-g", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
              "-fno-sanitize-recover=undefined,float-cast-overflow", "-ftrivial-auto-var-init=pattern",
              "-fno-omit-frame-pointer", "-D_GLIBCXX_DEBUG", "-DMC_SANITIZE"],
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DMC_SANITIZE"],
}
COMMON = ["-fno-pie", "-D_GLIBCXX_ASSERTIONS", "-D_FILE_OFFSET_BITS=64", "-w"]


def generate_shim():
    """Forwarding headers htd/<name>.hpp for every header the repository ships, all leading to the stand-in."""
    out = os.path.join(BUILD, "shim", "htd")
    names = set(os.listdir(os.path.join(REPO, "include", "htd"))) if os.path.isdir(
        os.path.join(REPO, "include", "htd")) else set()
    names |= {"main.hpp", "PostOrderTreeTraversal.hpp"}
    os.makedirs(out, exist_ok=True)
    for n in names:
        if n.endswith(".hpp"):
            p = os.path.join(out, n)
            body = '#pragma once\n#include "mc_htd_shim.hpp"\n'
            if not os.path.exists(p) or open(p).read() != body:
                tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
                open(tmp, "w").write(body)
                os.rename(tmp, p)
    return os.path.join(BUILD, "shim")


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.shim = generate_shim()
        self.inc = ["-I", self.shim, "-I", SHIM, "-I", os.path.join(REPO, "include"), "-I", MC]
        self.psdd_headers = tree_digest(os.path.join(REPO, "include", "psdd"), (".h", ".hpp"))
        self.other_headers = sha(*[tree_digest(os.path.join(REPO, "include", d), (".h", ".hpp"))
                                   for d in ("sdd", "nlohmann", "kahypar")])
        self.src_headers = tree_digest(os.path.join(REPO, "src"), (".h", ".hpp", ".inc"))
        self.mc_headers = sha(tree_digest(MC, (".h", ".hpp")))
        self.jobs = []

    def compile(self, path, variant, extra=()):
        lang_c = path.endswith(".c")
        cmd = (["gcc", "-std=gnu99"] if lang_c else ["g++", "-std=gnu++17"]) + FLAGS[variant] + COMMON + list(
            extra) + self.inc
        key = sha(read(path), path, " ".join(cmd), self.psdd_headers, self.other_headers, self.src_headers,
                  self.mc_headers)
        obj = os.path.join(BUILD, "obj", key + ".o")
        if os.path.exists(obj):
            os.utime(obj)
        else:
            self.jobs.append((cmd + ["-c", path, "-o"], obj))
        return obj

    def run_jobs(self):
        def one(job):
            cmd, obj = job
            if os.path.exists(obj):
                return
            tmp = "%s.%d.%d.tmp.o" % (obj, os.getpid(), threading.get_ident())
            r = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            os.rename(tmp, obj)

        with ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(one, self.jobs))
        self.jobs = []

    def lib_objects(self, variant):
        src = os.path.join(REPO, "src")
        return [self.compile(os.path.join(src, f), variant) for f in sorted(os.listdir(src))
                if f.endswith((".cpp", ".c"))]

    def link(self, mains, libs, variant, name):
        out_key = sha(*(mains + libs), variant, name)
        out = os.path.join(BUILD, "bin", out_key, name)
        if os.path.exists(out):
            os.utime(os.path.dirname(out))
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmpdir = tempfile.mkdtemp(dir=os.path.join(BUILD, "bin"))
        try:
            ar = os.path.join(tmpdir, "libpsdd.a")
            subprocess.run(["ar", "rcs", ar] + libs, check=True)
            cmd = ["g++", "-no-pie"] + FLAGS[variant] + mains + [ar, os.path.join(
                REPO, "lib", "linux", "libsdd.a"), "-lgmp", "-lgmpxx", "-lpthread", "-o", os.path.join(tmpdir, name)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("link failed\n" + r.stdout[-6000:])
            os.rename(os.path.join(tmpdir, name), out)
        finally:
            shutil.rmtree(tmpdir, ignore_errors=True)
        return out

    def prune(self):
        for sub, limit in (("obj", 400), ("bin", 80)):
            d = os.path.join(BUILD, sub)
            if not os.path.isdir(d):
                continue
            es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=lambda p: os.stat(p).st_mtime)
            for p in es[:-limit] if len(es) > limit else []:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def build(pid, cfg):
    b = Builder()
    variant = os.environ.get("MC_VARIANT") or cfg.get("variant", "plain")
    mains = [b.compile(os.path.join(MC, f), variant) for f in
             ["explorer.cpp", "ref.cpp", "family.cpp", "match.cpp", cfg["source"]] + cfg.get("extra", [])]
    if cfg.get("shim", True):
        mains.append(b.compile(os.path.join(SHIM, "shim_explorer.cpp"), variant))
    libs = b.lib_objects(variant)
    progs = {}
    for prog in cfg.get("programs", []):
        progs[prog] = (b.compile(os.path.join(REPO, config.PROGRAMS[prog]), variant),
                       b.compile(os.path.join(SHIM, "shim_env.cpp"), variant))
    b.run_jobs()
    exe = b.link(mains, libs, variant, "explore_" + pid)
    env = {}
    for prog, (m, s) in progs.items():
        env["MC_PROG_" + prog.upper()] = b.link([m, s], libs, variant, prog)
    b.prune()
    return exe, env


def known_findings():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 3
    if args[0] == "--prebuild":
        try:
            for p in sorted(config.CLAIMED):
                build(p, config.PROPERTIES[p])
        except (BuildError, subprocess.CalledProcessError, OSError) as e:
            print("prebuild: %s" % e)  # each check reports it again
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = only = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--replay":
            i += 1
            replay = os.path.abspath(args[i])
        elif args[i] == "--only":
            i += 1
            only = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = config.PROPERTIES[pid]
    t0 = time.time()
    try:
        exe, env_add = build(pid, cfg)
    except (BuildError, subprocess.CalledProcessError, OSError) as e:
        print("CHECK-ERROR property=%s the harness does not build: %s" % (pid, e))
        return 3
    t_build = time.time() - t0
    env = dict(os.environ)
    env.update(env_add)
    env["VERIF_TIER"] = tier
    env["LC_ALL"] = "C"
    if (os.environ.get("MC_VARIANT") or cfg.get("variant")) in ("asan", "debug"):
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=1000"
    env.pop("MC_NOASLR", None)
    if replay:
        for line in open(replay):
            if line.startswith("tier "):
                tier = line.split()[1]
        return subprocess.run([exe, "--property", pid, "--tier", tier, "--replay", replay], env=env).returncode
    known = [k for k in known_findings() if k.get("property") == pid and k.get("kind") == "finding"]
    res_dir = tempfile.mkdtemp(prefix="mcres_%s_" % pid)
    out = os.path.join(res_dir, "result.json")
    limit = cfg.get("limit_" + tier, 600 if tier == "quick" else 840)
    cmd = [exe, "--property", pid, "--tier", tier, "--out", out, "--time-limit", str(limit), "--exec-timeout",
           str(cfg.get("exec_timeout", 30))]
    if only:
        cmd += ["--only", only]
    for k in known:
        cmd += ["--known", k["sig"]]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            print("CHECK-ERROR property=%s explorer ended with %s: %s" % (pid, r.returncode, r.stdout[-3000:]))
            return 3
        res = json.load(open(out))
    finally:
        shutil.rmtree(res_dir, ignore_errors=True)
    v = res["violation"]
    for k in known:
        if res["known_hits"].get(k["sig"], 0):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": res["states"],
            "transitions": res["ops"],
            "traces_validated_against_impl": res["executions"],
            "samples": res["samples"],
            "exhaustive": not res["capped"] and v is None and not res["divergence"],
            "pruned_combinations": res["pruned"],
            "max_choice_depth": res["max_choice_depth"],
            "determinism_rechecks": res["determinism_rechecks"],
            "work_units_per_scenario": res["scenarios"],
            "state_set_capped": res["states_capped"],
            "explanation": "states: distinct fingerprints of reached circuits and observed outcomes; transitions: "
                           "answers of the real code compared with the reference model; "
                           "traces_validated_against_impl: executions (complete choice sequences) of the compiled "
                           "sources of /repo, each one run to its end. exhaustive: all choice sequences within the "
                           "bounds written in DESIGN.md were executed.",
        },
        "assumptions": cfg.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if (v and v["confirmed"]) else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    print("%s %s: %d executions, %d states, %d comparisons, %d pruned, depth<=%d, build %.1fs, explore %.1fs%s" % (
        pid, tier, res["executions"], res["states"], res["ops"], res["pruned"], res["max_choice_depth"], t_build,
        res["wall_s"], " (time limit reached)" if res["capped"] else ""))
    if v and v["confirmed"]:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.replay" % (pid, sha(v["scenario"], str(v["execution"]))[:12]))
        with open(path, "w") as f:
            f.write("property %s\ntier %s\nscenario %s\nmode %s\nunit %s\nexecution %s\n" % (
                pid, tier, v["scenario"], v["mode"], " ".join(map(str, v["unit"])),
                " ".join(map(str, v["execution"]))))
            f.write("# %s: %s\n" % (v["sig"], v["msg"].replace("\n", "\n# ")))
            f.write("".join("# %s\n" % line for line in v["description"].split("\n")))
        print("%s [%s] %s: %s" % (v["scenario"], v["kind"], v["sig"], v["msg"]))
        print(v["description"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if v or res["divergence"]:
        print("CHECK-ERROR property=%s unconfirmed: %s %s" % (pid, res["divergence"], json.dumps(v)))
        return 3
    if res["executions"] == 0:
        print("CHECK-ERROR property=%s nothing was executed" % pid)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
