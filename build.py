#!/usr/bin/env python3
"""Builds the simulator: YASL's sources from /repo's working tree, with their libc calls redirected to the simulator, linked with the harness."""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf
REPO = os.environ.get("YSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("YSIM_BUILD", os.path.join(HERE, "build"))
SEAM = """malloc calloc realloc reallocarray free strdup strndup fopen fopen64 freopen fclose fread fwrite fgetc getc fgets ungetc fseek fseeko ftell ftello
rewind fflush feof ferror clearerr fputc putc fputs vfprintf fprintf setvbuf fileno isatty printf vprintf puts putchar getchar perror remove rename getenv system
srand rand random rand_r time clock gettimeofday clock_gettime exit dlopen dlsym dlerror dlclose stdin stdout stderr""".split()
INC = [".", "compiler", "data-structures", "interpreter", "util", "std"]
PRE = os.path.join(HERE, "sim", "seam_pre.h")
YFLAGS = ("-std=gnu99 -D_GNU_SOURCE -w -Wno-error=implicit-function-declaration -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -O1 -g -fwrapv -fno-builtin -fno-omit-frame-pointer -fsanitize=address,bounds -fsanitize-trap=bounds "
          "-fsanitize-coverage=trace-pc-guard").split()
HFLAGS = "-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -Wno-everything".split()

def sh(*a):
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError(" ".join(a) + "\n" + p.stdout)

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def build(verbose=False):
    objd = os.path.join(OUT, "obj"); os.makedirs(objd, exist_ok=True)
    srcs = []
    for d in INC[1:]:
        srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    srcs += [os.path.join(REPO, f) for f in ("yasl.c", "yasl_aux.c", "main.c")]
    heads = []
    for d in INC:
        for ext in ("*.h", "*.x", "*.inl", "*.inc", "*.def"):
            heads += sorted(glob.glob(os.path.join(REPO, d, ext)))
    hh = h(*[x + "\0" + h(read(x)) for x in heads])
    seam = os.path.join(OUT, "seam.%d.txt" % os.getpid())
    lines = []
    for s in SEAM:
        lines.append("%s sim_%s" % (s, s))
    with open(seam, "w") as f:
        f.write("\n".join(lines) + "\n")
    jobs, objs = [], []
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        fl = list(YFLAGS) + (["-Dmain=yasl_main"] if rel == "main.c" else [])
        key = h(read(s), hh, " ".join(fl), read(seam), rel, read(PRE))
        o = os.path.join(objd, "y_" + rel.replace("/", "_") + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(("y", s, o, fl, rel))
    hsrc = sorted(glob.glob(os.path.join(HERE, "sim", "*.cc")))
    hhh = h(*[h(read(x)) for x in sorted(glob.glob(os.path.join(HERE, "sim", "*.h")))] + [h(read(os.path.join(REPO, f))) for f in ("yasl.h", "yasl_aux.h", "yasl_conf.h", "yasl_error.h")])
    for s in hsrc:
        key = h(read(s), hhh, " ".join(HFLAGS))
        o = os.path.join(objd, "h_" + os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(("h", s, o, HFLAGS, os.path.basename(s)))
    def one(j):
        kind, s, o, fl, rel = j
        tmp = o + ".%d.tmp.o" % os.getpid()
        if kind == "y":
            sh("clang", *fl, "-include", PRE, *["-I" + os.path.join(REPO, d) for d in INC], "-fdebug-prefix-map=" + REPO + "=.", "-c", s, "-o", tmp)
            sh("objcopy", "--redefine-syms=" + seam, tmp)
        else:
            sh("clang++", *fl, "-I" + REPO, "-c", s, "-o", tmp)
        os.rename(tmp, o)
    jobs.sort(key=lambda j: 0 if j[0] == "h" else 1)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    exe = os.path.join(OUT, "ysim." + h(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        sh("clang++", "-fsanitize=address", "-g", *objs, "-lm", "-ldl", "-o", tmp)
        os.rename(tmp, exe)
    os.unlink(seam)
    return exe

if __name__ == "__main__":
    try:
        print(build())
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n"); sys.exit(2)
