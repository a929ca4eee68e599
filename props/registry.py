"""Property -> units (C++ translation units over /repo's sources), contracts, replay harnesses, assumptions."""
import importlib, os

TRUSTED = [
    "clang 18 front end and the listed LLVM simplification passes (the verified text is the LLVM IR clang emits for /repo's sources, with assertions on)",
    "irvc symbolic executor and verification-condition generator (/verif/irvc)",
    "z3 5.3 / cvc5 1.3 (unsat answers)",
    "machine integers are exact (wrap-around is an obligation); float/double arithmetic is treated as real arithmetic except where a contract says otherwise",
    "distinct pointer arguments do not alias",
]
MODULES = {}


class Unit:
    def __init__(self, file, specs, noinline="", incs=(), defs=(), fold=True):
        self.file, self.specs, self.noinline, self.incs, self.defs = file, specs, noinline, incs, defs
        self.key = file


class Info:
    def __init__(self, m):
        self.level = getattr(m, "LEVEL", "proof")
        self.replay = getattr(m, "REPLAY", [])
        self.assumptions = getattr(m, "ASSUME", [])
        self.note = getattr(m, "NOTE", "")


PROP_MODULE = {"C02": "fill"}
for _i in range(1, 100):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c%02d.py" % _i)):
        PROP_MODULE["C%02d" % _i] = "c%02d" % _i



def _m(prop):
    return importlib.import_module(PROP_MODULE[prop])


def units(prop):
    m = _m(prop)
    return [u for u in m.UNITS if not hasattr(u, "props") or prop in u.props]


def info(prop):
    return Info(_m(prop))


NOT_APPLICABLE = {"C27": "the converter is Python (rosbag and numpy message code); no deductive verifier for Python is installed (crosshair is a bounded symbolic executor, icontract and deal check at run time), and its ROS imports are not available"}


def level_note(prop):
    m = _m(prop)
    return getattr(m, "LEVEL_NOTE", "All obligations of the contracts on the compiled real functions are discharged for all inputs and all loop iterations; assumes the trusted base (compiler front end, VC generator, SMT solvers, real arithmetic for floating point) and: " + "; ".join(getattr(m, "ASSUME", [])))
