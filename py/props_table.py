"""Which machinery decides which property, and its evidence level."""
def syn(**k): return ("bin", dict({"src": "mc_syntax"}, **k))

TABLE = {p: syn() for p in ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20", "C22")}
TABLE.update({p: ("bin", {"src": "mc_framing"}) for p in ("C01", "C02", "C03")})
TABLE.update({p: ("bin", {"src": "mc_bits"}) for p in ("C04", "C05", "C30")})
TABLE.update({p: ("bin", {"src": "mc_session"}) for p in ("C14", "C17", "C18", "C21")})
TABLE["C16"] = ("bin", {"src": "mc_pure", "shims": [("zero", "-O1 -g1 -ftrivial-auto-var-init=zero", False), ("pattern", "-O2 -g1 -ftrivial-auto-var-init=pattern", False)]})
TABLE["C26"] = ("bin", {"src": "mc_pure", "tools": [("h264nal", False), ("h264nal_small", True)], "shims": [("full", "-O1 -g1 -fwrapv", False), ("small", "-O1 -g1 -fwrapv", True)]})
_SAN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
TABLE["C15"] = ("bin", {"src": "mc_robust", "libflags": _SAN, "flags": _SAN})
TABLE["C23"] = ("bin", {"src": "mc_cli", "tools": [("h264nal", False)]})
TABLE["C24"] = ("bin", {"src": "mc_io", "tools": [("h264nal", False)]})
TABLE["C25"] = ("bin", {"src": "mc_threads", "ldflags": "-rdynamic", "shims": [("tsan", "-O1 -g1 -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1", False, "-Wl," + ",".join("--wrap=" + f for f in ("strlen", "snprintf", "sprintf", "fprintf", "strcpy", "strncpy", "strcat", "strcmp", "memcmp")))]})
TABLE["C27"] = ("py", "c27")
TABLE["C28"] = ("py", "c28")
TABLE["C29"] = ("py", "c29")

LEVEL = {"C24": "fault_enumeration"}  # default: model_checking
ASSUME_ALL = ["values outside the enumerated alphabets and bounds are not covered", "clang 18 x86-64 build of /repo's working tree"]
ASSUME = {}

NA = {}
_SYN = "explicit-state exploration of all syntax branches against a reference decoder/encoder model of the standard, each model trace replayed on the real library"
_N = "Bounded: complete within the deviation bound and value alphabets given in the evidence (bounds); trusts the reference model written from ITU-T H.264, the compiler, and that behaviour outside the alphabets is uniform."
TECH = {
 "C01": ("explicit-state exploration: all byte strings over a covering alphabet up to a length bound, against a reference scanner automaton", _N),
 "C02": ("explicit-state exploration of all length-prefixed layouts (widths x sizes x truncations) against a reference walker", _N),
 "C03": ("explicit-state exploration: all byte strings over the escape alphabet up to a length bound, against a reference unescape automaton", _N),
 "C04": ("explicit-state model checking of operation sequences on the real bit reader against a bit-vector model", _N),
 "C30": ("explicit-state exploration of every position of all short buffers and of structured long ones, real end-of-payload functions against a bit-vector model", _N),
 "C05": ("explicit-state model checking of write sequences on the real bit writer against a bit-vector model", _N),
}
for _p in ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20", "C22"): TECH[_p] = (_SYN, _N)
TECH.update({
 "C14": ("explicit-state model checking of all NAL unit sequences up to a depth against a session model, every transition replayed on the real session", _N),
 "C16": ("exhaustive replay of unit sequences under every environment of a finite set (memory fill, alignment, other sessions, buffer lifetime, two differently initialised builds), compared state by state", _N),
 "C17": ("exhaustive exploration of unit sequences x feeding paths, all paths compared state by state on the real code and with the model", _N),
 "C18": ("exhaustive exploration of RTP payload layouts against a reference depacketiser model, replayed on the real parser", _N),
 "C21": ("exhaustive exploration of streams, gaps and option combinations against a reference location and checksum model", _N),
 "C26": ("exhaustive lock-step exploration of the two build configurations on the same inputs, states compared after every step", _N),
})
TECH["C15"] = ("exhaustive bounded exploration of inputs x session states x entry points on the real code built with address and undefined-behaviour checkers, with heap and processor-time monitors", _N)
TECH["C23"] = ("exhaustive exploration of streams x option sets on the real tool binary, exit status and output compared with the reference model", _N)
TECH["C24"] = ("stateless exploration of all input/output outcome sequences (short transfers, errors, file changes at every system call, up to a deviation bound) on the real tool under a controlling system-call tracer", _N)
TECH["C27"] = ("exhaustive exploration of stream histories on the real split script and tool, all produced files compared with the model's cut points", _N)
TECH["C28"] = ("explicit-state model checking of reference marking: all reachable model states up to a depth with every legal command sequence, every transition replayed on the real script and tool", _N)
TECH["C29"] = ("exhaustive exploration of streams and parser failures on the real summary script and tool, every row compared with the row derived from the reference model", _N)
TECH["C25"] = ("stateless model checking of the real code: two real threads under a controlling scheduler, all interleavings of their accesses to common memory up to a preemption bound, each execution compared with the jobs alone", _N)
