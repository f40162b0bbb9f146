"""Builds a harness together with the sources of the code under test, straight
from the repository's working tree, with the requested instrumentation."""
import glob, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

# What each part of the repository is made of. Directories are globbed, so a file
# that is added or split off is picked up.
GROUPS = {
    "facts": ["msat/facts.cpp"],
    "hrit": ["msat/hrit/*.cpp", "msat/xrit/*.cpp"],
    "gdal": ["gdal/utils.cpp", "gdal/reflectance/*.cpp", "gdal/xrit/*.cpp", "gdal/grib/*.cpp", "msat/gdal/*.cpp"],
    "utils": ["msat/utils/string.cc", "msat/utils/sys.cc", "msat/utils/subprocess.cc"],
    "base": ["msat/Progress.cpp", "msat/auto_arr_ptr.cpp"],
    "ini": ["msat/iniparser.c"],
    "native": ["msat/msg-native/*.cpp"],
    "omtp": ["msat/omtp-ids/*.cc"],
    "hri": ["msat/hri/*.cpp"],
    "openmtp": ["msat/openmtp/*.cpp"],
    "thornsds": ["msat/thornsds_db1/*.cpp"],
    "netcdf": ["gdal/netcdf/*.cpp"],
}
LIBS = {
    "gdal": ["-lgdal", "-leccodes"],
    "hri": ["-lnetcdf"],
    "netcdf": ["-lnetcdf"],
    "magick": ["-lMagick++-6.Q16", "-lMagickWand-6.Q16", "-lMagickCore-6.Q16"],
}

COMMON = ["-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
# Only checks whose firing means harm: out of bounds, null, no return, bad
# division. Wrapping arithmetic is left to the behavioural oracles.
UB = "bounds,null,object-size,vla-bound,return,unreachable,integer-divide-by-zero,builtin"
CONFIGS = {
    "asan": (["-O1", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=address", "-fsanitize=" + UB]),
    "tsan": (["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (["-O1", "-fno-inline"], []),
    # every automatic variable starts out with one of two patterns: anything
    # that differs between the two was never written
    "initz": (["-O1", "-ftrivial-auto-var-init=zero"], []),
    "initp": (["-O1", "-ftrivial-auto-var-init=pattern"], []),
}
CONFIG_H = """#pragma once
#define HAVE_GDAL 1
#define HAVE_GRIBAPI 1
#define HAVE_HRIT 1
#define HAVE_MAGICKPP 1
#define HAVE_NETCDF 1
#define HAVE_STDINT_H 1
#define MSAT_DEFAULT_INSTITUTION "ARPA-SIM"
#define MSAT_HAVE_GDAL 1
#define MSAT_HAVE_HRIT 1
#define MSAT_HAVE_MAGICKPP 1
#define MSAT_HAVE_NETCDF 1
#define PACKAGE_STRING "meteosatlib 1.36"
#define PACKAGE_VERSION "1.36"
"""
INC = ["-I{b}/gen", "-I{b}/gen/msat", "-I" + REPO, "-I" + VERIF + "/harness/stubs", "-I" + VERIF + "/harness", "-I/usr/include/gdal"]
MAGICK = ["-I/usr/include/x86_64-linux-gnu/ImageMagick-6", "-I/usr/include/ImageMagick-6",
          "-DMAGICKCORE_HDRI_ENABLE=0", "-DMAGICKCORE_QUANTUM_DEPTH=16"]


class BuildError(Exception):
    pass


def sources(groups):
    res = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                res.append(f)
    return res


def build(target, config, harness, groups=(), extra=(), defs=(), libs=(), magick=False, sofile=False):
    """Build executable `target`; returns its path.
    extra: repository files (relative) compiled with -Dmain=... when given as (file, newmain)."""
    b = os.path.join(BUILD, config)
    os.makedirs(os.path.join(b, "gen", "msat"), exist_ok=True)
    for p in ("gen/config.h", "gen/msat/config.h"):
        path = os.path.join(b, p)
        if not os.path.exists(path) or open(path).read() != CONFIG_H:
            open(path, "w").write(CONFIG_H)
    cflags, ldflags = CONFIGS[config]
    inc = [i.format(b=b) for i in INC] + (MAGICK if magick else [])
    flags = " ".join(COMMON + cflags + inc + list(defs))
    lines = ["ninja_required_version = 1.5", "flags = " + flags,
             "rule cxx", "  command = g++ -std=gnu++17 $flags $more -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule cc", "  command = gcc $flags $more -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = g++ $in -o $out " + " ".join(ldflags + ["-pthread"]) + " $libs"]
    objs = []

    def add(src, more="", tag=""):
        rel = src.lstrip("/").replace("/", "_") + tag
        o = os.path.join(b, target + ".d" if (more or defs or magick) else "obj", rel + ".o")
        rule = "cc" if src.endswith(".c") else "cxx"
        lines.append("build %s: %s %s" % (o, rule, src))
        if more:
            lines.append("  more = " + more)
        objs.append(o)

    for s in sources(groups):
        add(s)
    for e in extra:
        if isinstance(e, tuple):
            add(os.path.join(REPO, e[0]), e[1], "." + e[2] if len(e) > 2 else "")
        else:
            add(os.path.join(REPO, e))
    harness = list(harness)
    if "hrit" in groups:
        harness.append("globwrap.cpp")
        libs = list(libs) + ["-Wl,--wrap=glob"]
    for h in harness:
        add(os.path.join(VERIF, "harness", h))
    ll = []
    for g in groups:
        ll += LIBS.get(g, [])
    if magick:
        ll += LIBS["magick"]
    ll += list(libs) + ["-ldl"]
    out = os.path.join(b, target)
    lines.append("build %s: link %s" % (out, " ".join(objs)))
    lines.append("  libs = " + " ".join(ll))
    lines.append("default " + out)
    nf = os.path.join(b, target + ".ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    env = dict(os.environ, LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "--quiet", "-f", nf], cwd=b, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise BuildError("build of %s (%s) failed" % (target, config))
    return out
