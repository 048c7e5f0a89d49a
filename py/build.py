"""Builds of /repo's working tree and of the checkers, in a scratch directory."""
import io, os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX, CC = "clang++", "clang"


class Keep(io.BytesIO):
    def close(self): pass                                   # what was written stays readable


class Capture(io.TextIOWrapper):
    """A stand-in for sys.stdout / sys.stderr with all that a real one offers (buffer, reconfigure, close)."""
    def __init__(self, errors="strict"): self.store = Keep(); super().__init__(self.store, "utf-8", errors, newline="", write_through=True)
    def getvalue(self): return self.store.getvalue().decode("utf-8", "surrogateescape")


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)
    if p.returncode:
        sys.stdout.write("build step failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
    return p.returncode


def configure(d, flags="-O1 -g1 -fwrapv", small=False, extra=()):
    return sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DBUILD_H264_TESTS=OFF", "-DBUILD_CLANG_FUZZER=OFF", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_CXX_COMPILER=" + CXX, "-DCMAKE_C_COMPILER=" + CC, "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags]
              + (["-DH264NAL_SMALL_FOOTPRINT=ON"] if small else []) + list(extra))


def library(d, flags="-O1 -g1 -fwrapv", small=False, target="h264nal"):
    """Configure and build a target of /repo; True on success."""
    return configure(d, flags, small) == 0 and sh(["ninja", "-C", d, target]) == 0


def tool(d, flags="-O1 -g1 -fwrapv", small=False):
    """The h264nal command line tool; returns its path or None."""
    if configure(d, flags, small) or sh(["ninja", "-C", d]): return None
    p = os.path.join(d, "tools", "h264nal")
    return p if os.path.exists(p) else None


def harness(prop, scratch, spec):
    """Compile /verif/mc/<src>.cc for one property and link it with the library."""
    d = os.path.join(scratch, "lib")
    lf = spec.get("libflags", "-O1 -g1 -fwrapv")
    hf = spec.get("flags", "-O1 -g1")
    if configure(d, lf, spec.get("small", False)): return None
    obj = os.path.join(scratch, spec["src"] + ".o"); exe = os.path.join(scratch, spec["src"])
    defs = [] if spec.get("small") else ["-DFDUMP_DEFINE", "-DRTP_DEFINE"]
    cc = subprocess.Popen([CXX, "-std=c++17", "-w"] + hf.split() + defs + ["-DRUN_" + prop, "-I" + VERIF + "/mc", "-I" + REPO + "/include", "-I" + d + "/src", "-I" + REPO + "/src",
                           "-c", VERIF + "/mc/" + spec["src"] + ".cc", "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
    rc = sh(["ninja", "-C", d] + ([] if any(not small for _, small in spec.get("tools", [])) else ["h264nal"]))
    out, _ = cc.communicate()
    if cc.returncode:
        sys.stdout.write("compiling the checker failed:\n" + out[-6000:] + "\n"); return None
    if rc: return None
    if not shims(prop, scratch, spec): return None
    for name, small in spec.get("tools", []):
        td = d
        if small:
            td = os.path.join(scratch, "lib_tool_small")
            if tool(td, lf, True) is None: return None
        if not os.path.exists(td + "/tools/h264nal"):
            sys.stdout.write("the build made no tools/h264nal\n"); return None
        shutil.copy(td + "/tools/h264nal", os.path.join(scratch, name))
    if sh([CXX] + hf.split() + spec.get("ldflags", "").split() + [obj, "-o", exe, d + "/src/libh264nal.a", "-lpthread", "-ldl"]): return None
    return exe


def shims(prop, scratch, spec):
    """Shared objects with differently built parsers: spec["shims"] = [(name, library flags, small)]."""
    ps = []
    for name, flags, small, *ld in spec.get("shims", []):
        d = os.path.join(scratch, "lib_" + name); flags += " -fPIC"
        if configure(d, flags, small): return False
        defs = [] if small else ["-DFDUMP_DEFINE", "-DRTP_DEFINE"]
        o = os.path.join(scratch, name + ".so")
        obj = os.path.join(scratch, name + ".shim.o")
        cc = subprocess.Popen([CXX, "-std=c++17", "-w", "-fPIC", "-fvisibility=hidden"] + flags.split() + defs + ["-I" + VERIF + "/mc", "-I" + REPO + "/include", "-I" + d + "/src", "-I" + REPO + "/src", "-c", VERIF + "/mc/shim.cc", "-o", obj])
        nj = subprocess.Popen(["ninja", "-C", d, "h264nal"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
        ps.append((cc, nj, obj, d, o, ld))
    for cc, nj, obj, d, o, ld in ps:
        out, _ = nj.communicate(); cc.wait()
        if nj.returncode: sys.stdout.write("build step failed\n" + out[-6000:])
        if nj.returncode or cc.returncode: return False
        if sh([CXX, "-shared", "-Wl,-Bsymbolic", obj, "-o", o, "-Wl,--exclude-libs,ALL", d + "/src/libh264nal.a"] + ld): return False
    return True
