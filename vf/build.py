"""Builds what the checks need from /repo's current working tree.

Library targets are built incrementally in /repo/_build/main (git ignores it; it is the same
tree /opt/vp/build.sh uses), harnesses in /verif/build.  Everything is decided by content
hashes on top of ninja's mtimes, so a file whose content changed is always recompiled."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
MAIN = os.path.join(REPO, "_build/main")
OUT = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, timeout=1500, env=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, shell=isinstance(cmd, str))
    out = p.stdout.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, cmd, out[-4000:]))
    return out

def _sha(path):
    h = hashlib.sha1()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        return None
    return h.hexdigest()

def _lock():
    os.makedirs(OUT, exist_ok=True)
    f = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _source_files():
    exts = (".cpp", ".h", ".c", ".cc", ".hpp", ".inl", ".yxx", ".lxx", ".yy", ".ll", ".y", ".l",
            ".txt", ".cmake", ".py", ".xml", ".sl", ".xsl", ".cxx", ".hxx", ".in")
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if x not in ("_build", ".git")]
        for f in fn:
            if f.endswith(exts):
                yield os.path.join(d, f)

def _touch_stale():
    """A source whose content differs from the one recorded at the last build, but whose mtime
    does not say so, would be missed by ninja: give such a file a fresh mtime."""
    man = os.path.join(OUT, "srchash.json")
    old = {}
    try:
        old = json.load(open(man))
    except Exception:
        pass
    new = {}
    for p in _source_files():
        st = os.stat(p)
        o = old.get(p)
        key = [st.st_mtime_ns, st.st_size]
        h = _sha(p)
        new[p] = key + [h]
        if o and o[2] != h and st.st_mtime_ns <= o[0]:
            os.utime(p)
            st = os.stat(p)
            new[p] = [st.st_mtime_ns, st.st_size, h]
    return man, new

CMAKE = ["cmake", "-S", REPO, "-B", MAIN, "-G", "Ninja", "-Wno-dev",
         "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_EXE_LINKER_FLAGS=-Wl,--no-as-needed",
         "-Daqsis_enable_testing=ON", "-DAQSIS_ENABLE_DOCS=OFF",
         "-DCMAKE_CXX_FLAGS=-Wno-error -DBOOST_MESSAGE=BOOST_TEST_MESSAGE",
         "-DCMAKE_C_FLAGS=-Wno-error",
         "-DCMAKE_PROJECT_aqsis_all_INCLUDE=/opt/vp/cmake/overrides.cmake"]

def ninja(targets):
    """Build the given ninja targets of aqsis."""
    lk = _lock()
    try:
        env = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", CC="gcc", CXX="g++")
        if not os.path.exists(os.path.join(MAIN, "build.ninja")):
            sh(CMAKE, env=env)
        man, new = _touch_stale()
        sh(["ninja", "-C", MAIN] + list(targets), env=env)
        tmp = man + ".tmp"
        json.dump(new, open(tmp, "w"))
        os.replace(tmp, man)
    finally:
        lk.close()

INC = ["-I" + REPO + "/include", "-I" + MAIN + "/include", "-I/usr/include/Imath",
       "-I/usr/include/OpenEXR", "-I" + OUT + "/gen", "-I" + HARN]

def _depfiles(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [x for x in txt.split() if x and not x.startswith("/usr/")]

def compile_obj(src, obj, flags=(), std="gnu++14", opt="-O1"):
    """Compile src to obj unless an object made from identical content exists."""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    meta = obj + ".meta"
    cmd = ["g++", "-std=" + std, opt, "-g0", "-w", "-fPIC", "-DNDEBUG", "-MD", "-MF", obj + ".d",
           "-c", src, "-o", obj] + list(flags) + INC
    key = json.dumps(cmd)
    try:
        m = json.load(open(meta))
        if m["cmd"] == key and os.path.exists(obj) and all(_sha(f) == h for f, h in m["deps"].items()):
            return False
    except Exception:
        pass
    sh(cmd)
    json.dump({"cmd": key, "deps": {f: _sha(f) for f in _depfiles(obj + ".d")}}, open(meta, "w"))
    return True

LIBDIRS = {"util": "libs/util", "math": "libs/math", "riutil": "libs/riutil", "tex": "libs/tex",
           "slcomp": "libs/slcomp", "ri2rib": "libs/ri2rib"}

def link(exe, objs, libs, extra=(), shared=False):
    cmd = ["g++", "-o", exe + ".tmp"] + (["-shared"] if shared else []) + list(objs)
    for l in libs:
        d = os.path.join(MAIN, LIBDIRS[l])
        cmd += ["-L" + d, "-Wl,-rpath," + d]
    for d in LIBDIRS.values():
        cmd += ["-Wl,-rpath-link," + os.path.join(MAIN, d)]
    cmd += ["-laqsis_" + l for l in libs] + list(extra)
    sh(cmd)
    os.replace(exe + ".tmp", exe)

RILIBS = ["riutil", "util", "math"]
BOOST = ["-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lboost_regex", "-ldl", "-lpthread", "-lz",
         "-lboost_iostreams"]

def gen_recorder():
    import subprocess as sp
    os.makedirs(OUT + "/gen", exist_ok=True)
    out = sp.check_output([sys.executable, os.path.join(HARN, "gen_recorder.py"),
                           REPO + "/include/aqsis/riutil/ricxx.h"])
    p = OUT + "/gen/recorder_gen.h"
    if not os.path.exists(p) or open(p, "rb").read() != out:
        open(p, "wb").write(out)

def ribtool():
    ninja(["aqsis_riutil", "aqsis_util"])
    lk = _lock()
    try:
        gen_recorder()
        exe = OUT + "/ribtool"
        o = OUT + "/obj/ribtool.o"
        compile_obj(HARN + "/ribtool.cpp", o)
        link(exe, [o], ["riutil", "util"], BOOST)
    finally:
        lk.close()
    return exe

def capitool():
    """harness/capitool linked with libaqsis_ri2rib"""
    ninja(["aqsis_ri2rib", "aqsis_riutil", "aqsis_util"])
    lk = _lock()
    try:
        import subprocess as sp
        os.makedirs(OUT + "/gen", exist_ok=True)
        out = sp.check_output([sys.executable, os.path.join(HARN, "gen_capi.py"), REPO + "/include/aqsis/ri/ri.h"], stderr=sp.DEVNULL)
        p = OUT + "/gen/capi_gen.h"
        if not os.path.exists(p) or open(p, "rb").read() != out: open(p, "wb").write(out)
        exe, o = OUT + "/capitool", OUT + "/obj/capitool.o"
        compile_obj(HARN + "/capitool.cpp", o)
        link(exe, [o], ["ri2rib", "riutil", "util"], BOOST)
    finally:
        lk.close()
    return exe


CORE_TARGETS = ["libs/core/libaqsis_core_objects.a", "libs/shadervm/libaqsis_shadervm_objects.a", "aqsis_util", "aqsis_math", "aqsis_riutil",
                "aqsis_tex", "aqsis_slcomp", "aqsl"]
COREBOOST = ["-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lboost_timer", "-lboost_regex", "-ltiff", "-ldl", "-lpthread"]
COREARCH = ["-Wl,--start-group", MAIN + "/libs/core/libaqsis_core_objects.a", MAIN + "/libs/shadervm/libaqsis_shadervm_objects.a", "-Wl,--end-group"]
CORELIBS = ["tex", "util", "math", "riutil", "slcomp"]

def _stamp(exe, files):
    """True if exe was linked from exactly these files' contents."""
    key = json.dumps([(f, _sha(f)) for f in files])
    s = exe + ".stamp"
    ok = os.path.exists(exe) and os.path.exists(s) and open(s).read() == key
    return ok, key

def renderer(extra_targets=()):
    """The renderer linked into harness/rendtool, the capturing display and the test shaders.  Returns (exe, display dir, shader dir)."""
    ninja(CORE_TARGETS + list(extra_targets))
    lk = _lock()
    try:
        o1, o2, o3 = OUT + "/obj/stub.o", OUT + "/obj/rendtool.o", OUT + "/obj/cap_dspy.o"
        compile_obj(HARN + "/stub.cpp", o1, ["-I" + REPO + "/libs/shadervm"])
        compile_obj(HARN + "/rendtool.cpp", o2)
        compile_obj(HARN + "/cap_dspy.cpp", o3)
        exe = OUT + "/rendtool"
        deps = [o1, o2, COREARCH[1], COREARCH[2]]
        ok, key = _stamp(exe, deps)
        if not ok:
            link(exe, [o1, o2] + COREARCH, CORELIBS, COREBOOST + ["-rdynamic"])
            open(exe + ".stamp", "w").write(key)
        dd = OUT + "/dspy"; os.makedirs(dd, exist_ok=True)
        ok, key = _stamp(dd + "/cap_dspy.so", [o3])
        if not ok:
            link(dd + "/cap_dspy.so", [o3], [], shared=True)
            open(dd + "/cap_dspy.so.stamp", "w").write(key)
        sd = shaders_dir()
    finally:
        lk.close()
    return exe, dd, sd

def plugin(name, d):
    """harness/<name>.cpp as the shared object d/<name>.so, which uses the symbols of the renderer"""
    lk = _lock()
    try:
        o = OUT + "/obj/%s.o" % name; compile_obj(HARN + "/%s.cpp" % name, o); so = "%s/%s.so" % (d, name)
        ok, key = _stamp(so, [o])
        if not ok:
            link(so, [o], [], shared=True); open(so + ".stamp", "w").write(key)
    finally:
        lk.close()

AQSL = MAIN + "/tools/aqsl/aqsl"
def shaders_dir():
    """compile harness/sl/*.sl with the current aqsl"""
    sd = OUT + "/sl"; os.makedirs(sd, exist_ok=True)
    import glob
    libs = [MAIN + "/libs/slcomp/libaqsis_slcomp.so", MAIN + "/libs/util/libaqsis_util.so", AQSL]
    for f in glob.glob(HARN + "/sl/*.sl") + [REPO + "/shaders/light/%s.sl" % n for n in ("ambientlight", "pointlight", "distantlight")]:
        out = sd + "/" + os.path.basename(f)[:-3] + ".slx"
        ok, key = _stamp(out, [f] + libs)
        if not ok:
            sh([AQSL, "-o", out, f], cwd=sd, timeout=60)
            open(out + ".stamp", "w").write(key)
    return sd
