"""Which models and suites decide which property."""
import os

ASSUMPTIONS = [
    "TLC 1.8.0 and the arbitrary-precision overrides of spec/Num.tla (compared with the TLA+ definitions by MC_Num)",
    "the harness reports what the public API returned (text of the values, panics, errors)",
    "behaviour outside the explored inputs follows the same pattern",
]


def suites(prop, tier):
    return [prop]


def _m(module, cfg=None, **k):
    return dict(module=module, cfg=(cfg or module) + ".cfg", **k)


def models(prop, tier):
    """The models that decide the specification itself: theorems of the abstract
    model, refinement of the documented algorithms, the protocol between threads.
    `fails`: a deliberately wrong model, which must be refuted."""
    deep = tier == "thorough"

    def pick(module):
        return _m(module, module + "_deep" if deep else module, timeout=3000)
    n = int(prop[1:])
    ms = []
    if n in (1, 2, 4, 5, 8):
        ms += [pick("MC_Field")]
    if n == 1:
        table = "out/num-table-%d.json" % os.getpid()
        ms += [_m("MC_Num", "Empty", env={"MODE": "write", "PROG": table}, stateless=True),
               _m("MC_Num", "Empty", env={"MODE": "check", "PROG": table}, stateless=True, big=True, remove=table)]
    if n in (2, 3, 7):
        ms += [pick("MC_Roots")]
    if n in (4, 6):
        ms += [pick("MC_QuadField")]
    if n in (9, 10, 11, 13):
        ms += [pick("MC_Groups")]
    if n in (9, 10, 11, 12):
        ms += [pick("MC_Impl")]
    if n in (14, 15):
        ms += [pick("MC_Codec")]
    if n in (17, 18, 19, 20, 24):
        ms += [pick("MC_Maps")]
    if n in (21, 22):
        ms += [pick("MC_Morph")]
    if n in (12, 17, 19, 20, 22, 23):
        ms += [_m("MC_Anchors", big=True)]
    if n in (16, 27):
        ms += [_m("MC_Machine", "MC_Machine_" + k) for k in "wmeq"]
    if n == 28:
        ms += [pick("MC_Text")]
    if n in (25, 26):
        ms += [_m("Shared"), _m("Shared", "Shared_two")]
        if deep:
            ms += [_m("Shared", "Shared_deep", timeout=3000)]
        ms += [_m("Shared", "Shared_none", fails="Invariant RightConstants is violated"),
               _m("Shared", "Shared_borrow", fails="Invariant NoPanic is violated"),
               _m("Shared", "Shared_global", fails="Invariant RightConstants is violated")]
    return ms


def tours(prop, tier):
    """Machines whose every transition is replayed: (module, config, name)."""
    if prop != "C27":
        return []
    return [("MC_Machine", "MC_Machine_%s_edges.cfg" % k, "tour/" + k) for k in "wmeq"]


def bins(prop):
    return {"C25": ["par"], "C26": ["mem"]}.get(prop, [])


def binary(prop):
    """The program that executes the calls, and the mode of Trace.tla."""
    return ("mem", "occupancy") if prop == "C26" else ("exec", "full")


def unchecked(prop, tier):
    """Whether the programs are also run on a build without overflow checks and debug assertions."""
    return prop != "C25" and (prop != "C26" or tier == "thorough")


def extra(prop):
    return []


def build_verdict(prop, text):
    """Failing to build is a verdict only when values of the library cannot be shared between threads."""
    return prop == "C25" and ("cannot be shared between threads safely" in text or "cannot be sent between threads safely" in text)
