"""Builds variants of /repo (current working tree) into /verif/build/<variant>."""
import os, subprocess, sys, hashlib, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")

MC_FULL = ("-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 "
           "-mllvm -tsan-handle-cxx-exceptions=0")
MC_FAST = (MC_FULL + " -mllvm -tsan-instrument-memory-accesses=0 "
           "-mllvm -tsan-instrument-memintrinsics=0")
# VPATH: meson needs env at ninja time, so the flags are baked into a wrapper
VARIANTS = {
    # name: (cc, meson args, cflags for harness, libs)
    "asan": dict(cc="clang", args=["-Denable_asm=false", "-Dbuildtype=debug",
                 "-Doptimization=1", "-Dc_args=-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -fno-sanitize=alignment,shift-base"],
                 enable_tools=False),
    "plain": dict(cc="gcc", args=["-Dbuildtype=release", "-Db_ndebug=false"], enable_tools=False),
    "noasm": dict(cc="gcc", args=["-Dbuildtype=release", "-Denable_asm=false", "-Db_ndebug=false"], enable_tools=False),
    "ndebug": dict(cc="gcc", args=["-Dbuildtype=release", "-Db_ndebug=true"], enable_tools=False),
    "alldsp": dict(cc="gcc", args=["-Dbuildtype=release", "-Db_ndebug=false", "-Dtrim_dsp=false"], enable_tools=False),
    "mcfull": dict(cc="mc", mc=MC_FULL, args=["-Denable_asm=false", "-Dbuildtype=debugoptimized", "-Doptimization=2"], enable_tools=False),
    "mcfast": dict(cc="mc", mc=MC_FAST, args=["-Denable_asm=false", "-Dbuildtype=debugoptimized", "-Doptimization=2"], enable_tools=False),
    "cli": dict(cc="gcc", args=["-Dbuildtype=debugoptimized", "-Dxxhash_muxer=enabled"], enable_tools=True),
    "cliasan": dict(cc="clang", args=["-Denable_asm=false", "-Dbuildtype=debug", "-Doptimization=1", "-Dxxhash_muxer=enabled", "-Db_lundef=false",
                 "-Dc_args=-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,shift-base",
                 "-Dc_link_args=-fsanitize=address,undefined"], enable_tools=True),
}

def sh(cmd, env=None, quiet=True, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        sys.stdout.flush()
        print("BUILD FAILED: %s" % " ".join(cmd)); sys.stdout.flush()
        sys.exit(2)
    return r.stdout

def build(variant):
    v = VARIANTS[variant]
    d = os.path.join(B, variant)
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ)
    for k in ("CFLAGS", "LDFLAGS", "CPPFLAGS"): env.pop(k, None)
    env["HOME"] = "/root"; env["LC_ALL"] = "C"
    cc = v["cc"]
    if cc == "mc":
        w = os.path.join(B, "cc-" + variant)
        txt = "#!/bin/bash\nexport MCRT_FLAGS='%s'\nexec %s/bin/mccc \"$@\"\n" % (v["mc"], VERIF)
        if not os.path.exists(w) or open(w).read() != txt:
            open(w, "w").write(txt); os.chmod(w, 0o755)
        cc = w
    env["CC"] = cc
    stamp = os.path.join(d, ".vconf")
    conf = repr((cc, v["args"], v["enable_tools"], REPO))
    if not (os.path.exists(os.path.join(d, "build.ninja")) and os.path.exists(stamp) and open(stamp).read() == conf):
        shutil.rmtree(d, ignore_errors=True)
        sh(["meson", "setup", d, REPO, "--wrap-mode=nodownload", "-Dwerror=false", "-Ddefault_library=static",
            "-Denable_tests=false", "-Denable_tools=%s" % ("true" if v["enable_tools"] else "false")] + v["args"], env)
        open(stamp, "w").write(conf)
    sh(["ninja", "-C", d], env)
    return d

def lib(variant):
    return os.path.join(build(variant), "src", "libdav1d.a")

def incs(variant):
    d = os.path.join(B, variant)
    return ["-I" + REPO + "/include", "-I" + d + "/include", "-I" + d + "/include/dav1d", "-I" + d, "-I" + REPO, "-I" + VERIF + "/lib"]

def harness(name, variant, srcs, extra_c=(), extra_l=(), cc=None):
    """compile a harness against a variant's static library"""
    l = lib(variant)
    v = VARIANTS[variant]
    cc = cc or ("clang" if v["cc"] != "gcc" else "gcc")
    out = os.path.join(B, "%s-%s" % (name, variant))
    san = []
    if variant == "asan": san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    cmd = [cc, "-g", "-O1" if san else "-O2", "-std=gnu11", "-Wall", "-Wno-unused-function", "-o", out] + san + list(extra_c) + incs(variant)
    cmd += [os.path.join(VERIF, s) for s in srcs] + [l] + list(extra_l) + ["-lpthread", "-lm", "-ldl"]
    sh(cmd)
    return out

MC_WRAPS = ("malloc calloc realloc free posix_memalign aligned_alloc pthread_once pthread_mutex_init pthread_mutex_destroy "
            "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait "
            "pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join").split()

def mc_harness(name, variant, src):
    """a harness running the library under the controlled scheduler"""
    l = lib(variant)
    full = variant == "mcfull"
    out = os.path.join(B, "%s-%s" % (name, variant))
    objs = []
    def cc(src, flags):
        o = os.path.join(B, "%s-%s-%s.o" % (name, variant, os.path.basename(src)[:-2]))
        sh(["clang", "-g", "-O2", "-std=gnu11", "-Wall", "-Wno-unused-function", "-c", "-o", o] + flags + incs(variant) +
           ["-I" + VERIF + "/mcrt", os.path.join(VERIF, src)])
        objs.append(o)
    # the application side is instrumented too: it reads picture memory
    cc(src, (MC_FULL if full else MC_FAST).split())
    cc("lib/av1w.c", [])
    cc("mcrt/mcrt.c", ["-DMC_FULL"] if full else [])
    sh(["clang", "-g", "-rdynamic", "-o", out] + objs + [l] + ["-Wl,--wrap=" + w for w in MC_WRAPS] + ["-lpthread", "-lm", "-ldl"])
    return out

if __name__ == "__main__":
    for v in sys.argv[1:]: print(build(v))
