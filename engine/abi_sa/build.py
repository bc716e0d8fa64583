"""Compile /repo's current sources (through driver units) to bitcode and run irtool on them."""
import hashlib, json, os, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SA_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
CXXFLAGS = ["-std=gnu++17", "-include", "cstdint", "-include", "limits", "-I" + ENGINE + "/shim",
            "-I" + ENGINE + "/drivers", "-I" + REPO + "/include", "-I" + REPO + "/src", "-O1", "-Xclang", "-disable-llvm-passes",
            "-fno-discard-value-names", "-w", "-g", "-fno-inline-functions", "-emit-llvm", "-c"]


class Broken(Exception):
    """The analysis cannot give an answer (exit 2)."""


def _hash_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".pyc",)):
                    continue
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def repo_hash():
    return _hash_tree([REPO + "/include", REPO + "/src"])


def irtool():
    src = _hash_tree([ENGINE + "/irtool"])
    exe = os.path.join(BUILD, "irtool-" + src)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                r = subprocess.run([ENGINE + "/irtool/build.sh", exe], capture_output=True, text=True)
                if r.returncode:
                    raise Broken("cannot build irtool: " + r.stderr[-2000:])
    return exe


_cachedir = None


def cachedir():
    global _cachedir
    if _cachedir is None:
        h = hashlib.sha256((repo_hash() + _hash_tree([ENGINE + "/drivers", ENGINE + "/shim", ENGINE + "/irtool"])
                            + " ".join(CXXFLAGS)).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "cache-" + h)
        if not os.path.isdir(d):
            os.makedirs(d, exist_ok=True)
            for o in os.listdir(BUILD):
                if o.startswith("cache-") and o != os.path.basename(d):
                    shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        _cachedir = d
    return _cachedir


def _unit_path(unit):
    """unit: 'drv:name' (engine/drivers/name.cpp) or 'src:name.cpp' or 'c:fpconv', with optional '+DEF' suffixes"""
    base = unit.split("+")[0]
    kind, name = base.split(":")
    if kind == "drv":
        return os.path.join(ENGINE, "drivers", name + ".cpp"), False
    if kind == "src":
        return os.path.join(REPO, "src", name), False
    if kind == "c":
        return os.path.join(REPO, "include/eosio", name), True
    if kind == "gen":          # a driver generated by the check
        return os.path.join(cachedir(), name + ".cpp"), False
    raise Broken("unknown unit " + unit)


def compile_unit(unit):
    src, is_c = _unit_path(unit)
    out = os.path.join(cachedir(), unit.replace(":", "_").replace("/", "_").replace("=", "_") + ".bc")
    if os.path.exists(out):
        return out
    if not os.path.exists(src):
        raise Broken("source vanished: " + src)
    defs = ["-D" + d for d in unit.split("+")[1:]]
    if is_c:
        cmd = ["clang-18", "-std=gnu11"] + [f for f in CXXFLAGS if f not in ("-std=gnu++17", "-include", "cstdint", "limits")] + defs + [src, "-o", out + ".tmp%d" % os.getpid()]
    else:
        if unit.startswith("gen:"): defs.append("-fstandalone-debug")
        cmd = ["clang++-18"] + CXXFLAGS + defs + [src, "-o", out + ".tmp%d" % os.getpid()]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot compile %s:\n%s" % (unit, "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:1500]))
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


def dump(units, key, roots=None, inline=None, keep=None, raw=False, closure=False, globals_=False, types=False, passes=None, sig=None):
    """Link the units, normalise, return the parsed JSON."""
    out = os.path.join(cachedir(), key + ".json")
    args = []
    if roots: args.append("--roots=" + roots)
    if inline: args.append("--inline=" + inline)
    if keep: args.append("--keep=" + keep)
    if raw: args.append("--raw")
    if closure: args.append("--closure")
    if globals_: args.append("--globals")
    if types: args.append("--types")
    if sig: args.append("--sig=" + sig)
    if passes: args.append("--passes=" + passes)
    hs = hashlib.sha256(json.dumps([units, args]).encode()).hexdigest()[:12]
    out = os.path.join(cachedir(), key + "-" + hs + ".json")
    if not os.path.exists(out):
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(compile_unit, units))
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([irtool()] + args + bcs + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irtool failed: " + (r.stderr or str(r.returncode))[-2000:])
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f)
