"""Builds the simulation binaries from /repo's working tree. Objects are cached by the content of everything they include."""
import hashlib, json, os, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SCALOPUS_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

WRAPS = """memcpy memmove memset memcmp
_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base
_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base
_ZNSt8__detail15_List_node_base7_M_hookEPS0_
_ZNSt8__detail15_List_node_base9_M_unhookEv
_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv
__cxa_end_catch
_ZNSt13__future_base12_Result_baseD2Ev""".split()

COMMON = ["-g", "-fno-pie", "-w"]
INSTR = ["g++", "-std=c++14", "-O1", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern",
         "-fno-omit-frame-pointer", "-DSCALOPUS_SIM_BUILD",
         "-include", os.path.join(VERIF, "stubs", "prelude.h")] + COMMON
CORE = ["g++", "-std=c++17", "-O2", "-fno-threadsafe-statics", "-fno-builtin-malloc"] + COMMON

def repo_sources(*dirs, exclude=()):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) not in exclude:
                out.append(f)
    return out

def includes():
    inc = [os.path.join(VERIF, "stubs"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "scen")]
    for m in ("interface", "general", "transport", "tracing", "catapult"):
        for s in ("include", "include_consumer", "src"):
            p = os.path.join(REPO, "scalopus_" + m, s)
            if os.path.isdir(p):
                inc.append(p)
    for s in ("native", "lttng"):
        inc.append(os.path.join(REPO, "scalopus_tracing/src", s, "include"))
        inc.append(os.path.join(REPO, "scalopus_tracing/src", s))
    return ["-I" + p for p in inc]

def base_sources():
    return repo_sources("scalopus_interface/src", "scalopus_transport/src", "scalopus_general/src")

def tracing_common():
    return repo_sources("scalopus_tracing/src")

def native_sources():
    return repo_sources("scalopus_tracing/src/native")

def lttng_sources():
    return repo_sources("scalopus_tracing/src/lttng", exclude=("scope_tracepoint_lttng.cpp", "lttng_tracepoint.cpp"))

def lttng_producer():
    return repo_sources("scalopus_tracing/src/lttng", exclude=("ctfevent.cpp", "babeltrace_tool.cpp", "babeltrace_parser.cpp",
                                                               "lttng_provider.cpp", "lttng_source.cpp"))

def catapult_sources():
    return repo_sources("scalopus_catapult/src", exclude=("scalopus_catapult_server.cpp",))

def scen(*names):
    return [os.path.join(VERIF, "scen", n) for n in names]

def producer_sources():
    return base_sources() + tracing_common() + native_sources()

P1, P2 = ["-Dscalopus=scalopus_p1", "-DSIM_COPY=1"], ["-Dscalopus=scalopus_p2", "-DSIM_COPY=2"]
P3, P4 = [["-Dscalopus=scalopus_p%d" % i, "-DSIM_COPY=%d" % i, "-DSIM_LTTNG"] for i in (3, 4)]

def group(name):
    """-> list of (source, extra flags)"""
    if name == "unix":
        return [(s, []) for s in base_sources() + tracing_common() + native_sources() + scen("unix.cpp", "loopback.cpp", "general.cpp")]
    if name == "tracing":
        l = [(s, []) for s in base_sources() + tracing_common() + native_sources() + lttng_sources() + catapult_sources() + scen("tracing.cpp", "lttng.cpp", "system.cpp")]
        for p in (P1, P2):
            l += [(s, p) for s in producer_sources() + scen("producer.cpp")]
        for p in (P3, P4):
            l += [(s, p) for s in base_sources() + tracing_common() + lttng_producer() + scen("producer.cpp")]
        return l
    if name == "catapult":
        return [(s, []) for s in base_sources() + tracing_common() + native_sources() + lttng_sources() + catapult_sources() + scen("catapult.cpp")]
    raise KeyError(name)

_hash_cache = {}
def fhash(p):
    if p not in _hash_cache:
        try:
            _hash_cache[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            _hash_cache[p] = None
    return _hash_cache[p]

class BuildError(Exception):
    pass

def compile_one(src, flags, core=False):
    cmd = (CORE if core else INSTR) + flags + (["-I" + os.path.join(VERIF, "sim")] if core else includes())
    key = hashlib.sha256(json.dumps([src, cmd]).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m["deps"].items()):
                return obj
        except Exception:
            pass
    tmp = "%s.%d.%d.tmp.o" % (obj, os.getpid(), threading.get_ident())
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stdout[-4000:]))
    if core:
        args = []
        for s in ("memcpy", "memmove", "memset", "memcmp"):
            args += ["--redefine-sym", "%s=__real_%s" % (s, s)]
        subprocess.check_call(["objcopy"] + args + [tmp])
    txt = open(dep).read().replace("\\\n", " ").split(":", 1)[1]
    deps = {p: fhash(p) for p in txt.split()}
    os.unlink(dep)
    os.rename(tmp, obj)
    with open(meta + ".tmp%d" % threading.get_ident(), "w") as f:
        json.dump({"deps": deps}, f)
    os.rename(f.name, meta)
    return obj

def build(name, jobs=None, verbose=False):
    """Build simulation binary `name`, return its path."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    units = [(s, f, False) for s, f in group(name)] + [(os.path.join(VERIF, "sim", "core.cpp"), [], True)]
    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda u: compile_one(u[0], u[1], u[2]), units))
    h = hashlib.sha256()
    for o in objs:
        h.update(hashlib.sha256(open(o, "rb").read()).digest())
    h.update(repr(WRAPS).encode())
    out = os.path.join(BUILD, "%s-%s" % (name, h.hexdigest()[:16]))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = ["g++", "-no-pie", "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-ldl", "-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link\n" + r.stdout[-6000:])
        os.rename(tmp, out)
        for old in glob.glob(os.path.join(BUILD, name + "-????????????????")):
            if old != out and os.path.getmtime(old) < os.path.getmtime(out) - 3600:
                os.unlink(old)
    return out

if __name__ == "__main__":
    for g in sys.argv[1:]:
        print(build(g))
