"""Builds /repo's current working tree (cached by content) outside /repo."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, ".build")

VARIANTS = {
    "plain": dict(cxx="g++", cc="gcc", flags="-O2 -w", link=""),
    "asan": dict(cxx="clang++", cc="clang",
                 flags="-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,bounds,null,alignment,vla-bound,return,unreachable -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", link=""),
    "fuzz": dict(cxx="clang++", cc="clang",
                 flags="-O1 -g -w -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,bounds,null,alignment,vla-bound,return,unreachable -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", link=""),
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _cmake(dirname, v):
    cmd = ["cmake", "-S", os.path.join(REPO, "src"), "-B", dirname, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=" + v["cc"], "-DCMAKE_CXX_COMPILER=" + v["cxx"],
           "-DCMAKE_CXX_FLAGS=" + v["flags"], "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
           "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", "-DINSTALL_GTEST=OFF"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return False, r.stdout
    r = subprocess.run(["ninja", "-C", dirname, "coderdbc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0 and os.path.exists(os.path.join(dirname, "coderdbc")), r.stdout


def build(variant="plain"):
    """Returns the directory that holds the freshly built 'coderdbc' of the current tree."""
    v = VARIANTS[variant]
    os.makedirs(CACHE, exist_ok=True)
    key = "%s-%s" % (variant, hashlib.sha256((tree_hash() + REPO + repr(sorted(v.items()))).encode()).hexdigest()[:20])
    d = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "done")):
            os.utime(os.path.join(d, "done"))
            return d
        shutil.rmtree(d, ignore_errors=True)
        ok, log = _cmake(d, v)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError("cannot build coderdbc (%s):\n%s" % (variant, log[-3000:]))
        open(os.path.join(d, "done"), "w").close()
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(CACHE, variant + "-*")), key=lambda p: os.path.getmtime(p))
        for p in olds[:-3]:
            if p != d:
                shutil.rmtree(p, ignore_errors=True)
    return d
