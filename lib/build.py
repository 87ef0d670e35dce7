"""Builds the system under test from /repo's working tree.

Everything is compiled from the current contents of /repo (keyed by a hash of
those contents, so an unchanged tree is not rebuilt during development; in a
fresh copy of /verif there is nothing to reuse).
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"

RT_FLAGS = ("-std=gnu++20 -fPIC -DNDEBUG -O2 -g1 -fno-exceptions -fno-rtti "
            "-DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB "
            "-include algorithm -include cstdlib -include utility -w").split()
DFSAN_FLAGS = ("-DNDEBUG -std=gnu++20 -fPIC -m64 -fno-lto -fno-builtin "
               "-fno-exceptions -fomit-frame-pointer -funwind-tables "
               "-fno-stack-protector -fno-sanitize=safe-stack -fvisibility=hidden "
               "-O3 -gline-tables-only -nostdinc++ -fno-rtti -w").split()
DRV_FLAGS = ("-std=gnu++20 -DNDEBUG -fPIC -O1 -g1 -fno-builtin -w "
             "-include algorithm -include cstdlib -include utility").split()


class BuildError(Exception):
    pass


def _inc(repo):
    return ["-I%s/polytracker/include" % repo,
            "-I%s/polytracker/src/compiler-rt/include" % repo]


def _tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _all_files(root):
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".h", ".cpp", ".c", ".inc", ".S", ".def", ".hpp", ".cc")):
                yield os.path.join(d, f)


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _parallel(cmds):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, c) for c in cmds]:
            f.result()


def build(driver="ptdrv.cpp", name=None, extra=(), need_dfsan=True, repo=None,
          sanitize=(), rt_extra=(), link_extra=()):
    """Returns the path of the driver linked with the tracker's runtime."""
    repo = repo or REPO
    name = name or os.path.splitext(os.path.basename(driver))[0]
    rt_src = []
    for d in ("polytracker", "taint_sources", "taintdag"):
        rt_src += glob.glob("%s/polytracker/src/%s/*.cpp" % (repo, d))
    files = set(_all_files(repo + "/polytracker/include"))
    for d in ("polytracker", "taint_sources", "taintdag", "compiler-rt"):
        files |= set(_all_files("%s/polytracker/src/%s" % (repo, d)))
    drvdir = os.path.join(VERIF, "drv")
    files |= set(_all_files(drvdir))
    files.add(os.path.abspath(__file__))
    key = _tree_hash(files) + "".join(c for c in "_".join([*sanitize, *rt_extra]) if c.isalnum())
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    # keep the cache small; what another process may be using stays
    olds = [os.path.join(BUILD, o) for o in os.listdir(BUILD)]
    olds = sorted((o for o in olds if os.path.isdir(o)), key=os.path.getmtime)
    for p in olds[:-8]:
        if time.time() - os.path.getmtime(p) > 1200 and p != out:
            shutil.rmtree(p, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cmds, rt_o, df_o = [], [], []
    done_rt = os.path.isdir(out)
    base = out if done_rt else tmp
    for s in rt_src:
        o = "%s/rt_%s_%s.o" % (base, os.path.basename(os.path.dirname(s)),
                               os.path.basename(s))
        rt_o.append(o)
        if not os.path.exists(o):
            cmds.append([CXX, *RT_FLAGS, *sanitize, *rt_extra, *_inc(repo), "-c", s, "-o", o])
    if need_dfsan:
        for line in open(os.path.join(VERIF, "lib", "dfsan_sources.txt")):
            rel = line.strip()
            s = os.path.join(repo, rel)
            if not os.path.exists(s):
                continue
            fl = list(DFSAN_FLAGS)
            if "/lib/dfsan/" in s:
                fl += ["-ffreestanding", "-fPIE"]
            if "/sanitizer_common/" in s:
                fl += ["-DHAVE_RPC_XDR_H=0"]
            o = "%s/df_%s_%s.o" % (base, os.path.basename(os.path.dirname(s)),
                                   os.path.basename(s))
            df_o.append(o)
            if not os.path.exists(o):
                cmds.append([CXX, *fl, "-I%s/polytracker/include" % repo,
                             "-I" + os.path.dirname(s) + "/..", "-c", s, "-o", o])
    do = "%s/drv_%s.o" % (base, name)
    cmds.append([CXX, *DRV_FLAGS, *sanitize, *extra, *_inc(repo),
                 "-c", os.path.join(drvdir, driver), "-o", do])
    _parallel(cmds)
    link = [CXX, do, *sanitize, *link_extra, "-Wl,--allow-multiple-definition", *rt_o, *df_o,
            "-lspdlog", "-lfmt", "-lpthread", "-ldl", "-lrt", "-lm",
            "-o", base + "/" + name]
    _run(link)
    if not done_rt:
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                shutil.copy(tmp + "/" + name, exe)
    shutil.rmtree(tmp, ignore_errors=True)
    return exe


WRAPPED = ("pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock "
           "pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock").split()


def threaded(sched):
    """The multi-threaded driver, under its scheduler or running freely."""
    link = ["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)]
    if sched:
        return build("concdrv.cpp", "concdrv", extra=["-DCONC_SCHED"], link_extra=link,
                     rt_extra=("-fsanitize=thread", "-DSANITIZER_CDECL="))
    return build("concdrv.cpp", "concfree", link_extra=link)


if __name__ == "__main__":
    print(build(*sys.argv[1:]))
