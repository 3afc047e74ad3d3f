"""C39: parameter validation."""
from vf.common import *
from vf.core import Prop, require, Violation
from fractions import Fraction
from corgidrp import check

PROP = Prop("C39", "Every validator of corgidrp.check against values of every kind: Python and numpy integers, floats (incl. infinities, NaN, signed zeros, subnormals), fractions, complex numbers (also with zero imaginary part), strings, containers, arrays of 0-4 dimensions (also empty) and of all dtypes, nested and ragged lists, None, "
            "functions, ranges; accepted exactly when the documented kind holds (predicate on the generated kind), otherwise exactly the given exception class; the value is returned unchanged (arrays: same elements and the array itself when an array was given). Names and exception classes that are not one are refused. "
            "Non-trivial: every value.")


class Mine(Exception):
    pass


class Sub(Mine):
    pass


ints = st.one_of(st.sampled_from([0, 1, -1, 2 ** 70, -2 ** 70]), st.integers(-10 ** 6, 10 ** 6))
floats = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-320, -1e-320, float("inf"), float("-inf"), float("nan")]), st.floats())
NPI, NPF = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"], ["float16", "float32", "float64", "longdouble"]
shapes = st.lists(st.integers(0, 3), min_size=0, max_size=4)
case = {
    "int": ints.map(lambda v: ["int", str(v)]), "float": floats.map(lambda v: ["float", repr(v)]),
    "npint": st.tuples(st.sampled_from(NPI), st.integers(-128, 127)).map(lambda v: ["npint", v[0], abs(v[1]) if v[0][0] == "u" else v[1]]),
    "npfloat": st.tuples(st.sampled_from(NPF), st.sampled_from([0.0, -0.0, 1.5, -1.5, float("nan"), float("inf"), -float("inf")])).map(lambda v: ["npfloat", v[0], repr(v[1])]),
    "fraction": st.tuples(st.integers(-5, 5), st.integers(1, 7)).map(lambda v: ["fraction", v[0], v[1]]),
    "complex": st.tuples(st.sampled_from([0.0, 1.0, -2.0]), st.sampled_from([0.0, 1.0])).map(lambda v: ["complex", v[0], v[1]]),
    "npcomplex": st.sampled_from([0.0, 1.0]).map(lambda v: ["npcomplex", v]),
    "str": st.text(max_size=4).map(lambda v: ["str", v]), "npstr": st.just(["npstr"]),
    "none": st.just(["none"]), "fun": st.just(["fun"]), "class": st.just(["class"]), "set": st.just(["set"]), "object": st.just(["object"]),
    "dict": st.integers(0, 3).map(lambda v: ["dict", v]), "ddict": st.just(["ddict"]),
    "bool": st.booleans().map(lambda v: ["bool", v]), "npbool": st.booleans().map(lambda v: ["npbool", v]),
    "array": st.tuples(shapes, st.sampled_from(["f8", "f4", "i4", "u2", "?", "c16", "U3", "O", "S2", "c8"]), st.booleans()).map(lambda v: ["array", v[0], v[1], v[2]]),
    "list": st.tuples(shapes.filter(lambda s: len(s) > 0), st.sampled_from(["f8", "i8", "?", "c16", "U3"]), st.booleans()).map(lambda v: ["list", v[0], v[1], v[2]]),
    "ragged": st.integers(0, 3).map(lambda v: ["ragged", v]),
}


def build(c):
    k = c[0]
    if k == "int": return int(c[1])
    if k == "float": return float(c[1])
    if k == "npint": return np.dtype(c[1]).type(c[2])
    if k == "npfloat": return np.dtype(c[1]).type(float(c[2]))
    if k == "fraction": return Fraction(c[1], c[2])
    if k == "complex": return complex(c[1], c[2])
    if k == "npcomplex": return np.complex64(c[1])
    if k == "str": return c[1]
    if k == "npstr": return np.str_("a")
    if k == "none": return None
    if k == "fun": return len
    if k == "class": return int
    if k == "set": return {1, 2}
    if k == "object": return object()
    if k == "dict": return {i: i for i in range(c[1])}
    if k == "ddict":
        import collections
        return collections.OrderedDict(a=1)
    if k == "bool": return c[1]
    if k == "npbool": return np.bool_(c[1])
    if k == "ragged": return [[[1.0], [1.0, 2.0]], [[1, 2], [3]], [[[1], [2]], [3]], [np.zeros((2, 2)), np.zeros(3)]][c[1]]
    n = int(np.prod(c[1]))
    a = np.arange(n) if c[2] not in "US" else np.array(["a%d" % i for i in range(n)])
    a = a.astype(c[2]).reshape(c[1])
    if k == "array":
        return np.asfortranarray(a) if c[3] else a
    a = a.tolist()
    return tuple(a) if c[3] else a


NUM = ("int", "float", "npint", "npfloat", "fraction")
INT = ("int", "npint")


def ndim(c, v):
    if c[0] in ("array", "list"):
        return np.ndim(v)
    return None if c[0] == "ragged" else 0


def kind(c, v):
    return np.asarray(v).dtype.kind


SPEC = {
    "real_scalar": lambda c, v: c[0] in NUM,
    "real_positive_scalar": lambda c, v: c[0] in NUM and bool(v > 0),
    "real_nonnegative_scalar": lambda c, v: c[0] in NUM and bool(v >= 0),
    "scalar_integer": lambda c, v: c[0] in INT,
    "positive_scalar_integer": lambda c, v: c[0] in INT and v > 0,
    "nonnegative_scalar_integer": lambda c, v: c[0] in INT and v >= 0,
    "string": lambda c, v: c[0] in ("str", "npstr"),
    "boolean": lambda c, v: c[0] == "bool",
    "dictionary": lambda c, v: c[0] in ("dict", "ddict"),
    "real_array": lambda c, v: c[0] in ("array", "list") and np.ndim(v) > 0 and kind(c, v) in "biuf",
    "oneD_array": lambda c, v: ndim(c, v) == 1,
    "twoD_array": lambda c, v: ndim(c, v) == 2,
    "twoD_square_array": lambda c, v: ndim(c, v) == 2 and np.shape(v)[0] == np.shape(v)[1],
    "threeD_array": lambda c, v: ndim(c, v) == 3,
}
ARR = ("real_array", "oneD_array", "twoD_array", "twoD_square_array", "threeD_array")


def same_value(a, b):
    return type(a) is type(b) and (a is b or a == b or a != a)


@PROP.sub("validators", [st.fixed_dictionaries({"fn": st.sampled_from(sorted(SPEC)), "v": case[k], "sub": st.booleans()}) for k in case], 4200, 60000, shards=1)
def validators(c, rec):
    v, fn = build(c["v"]), getattr(check, c["fn"])
    if c["v"][0] == "bool" and c["fn"] not in ("boolean", "string", "dictionary") + ARR:
        return      # whether a bool is a number is not documented
    if c["v"][0] in ("bool", "npbool", "none", "str", "object") and c["fn"] == "real_array":
        pass
    rec.nt(); rec.label(c["v"][0])
    exc = Sub if c["sub"] else Mine
    ok = SPEC[c["fn"]](c["v"], v)
    before = v.copy() if isinstance(v, np.ndarray) else None
    try:
        out = fn(v, "name", exc)
    except Exception as e:
        require(type(e) is exc, "{}({!r}) raises {}: {} instead of the given exception", c["fn"], v, type(e).__name__, e)
        require("name" in str(e), "{}({!r}): the message {!r} does not name the variable", c["fn"], v, str(e))
        require(not ok, "{}({!r}) rejected: {}", c["fn"], v, e)
        return
    require(ok, "{}({!r}) accepted", c["fn"], v)
    if c["fn"] in ARR:
        require(isinstance(out, np.ndarray) and out.shape == np.shape(v) and np.array_equal(out, np.asarray(v)), "{}({!r}) returns {!r}", c["fn"], v, out)
        if before is not None:
            require(np.array_equal(v, before) and out.dtype == before.dtype, "{} alters the value", c["fn"])
    else:
        require(same_value(out, v), "{}({!r}) returns {!r}", c["fn"], v, out)


@PROP.sub("names", st.fixed_dictionaries({"fn": st.sampled_from(sorted(SPEC)), "name": st.sampled_from([None, 1, 2.5, ["a"], ("a",), 1j]), "exc": st.sampled_from(["instance", "int", "text", "none", "base", "func"]), "which": st.booleans()}), 300, 1500)
def names(c, rec):
    """a bad name or exception argument is refused with CheckException, whatever the value"""
    rec.nt()
    good = {"real_array": [1.0], "oneD_array": [1], "twoD_array": [[1]], "twoD_square_array": [[1]], "threeD_array": [[[1]]], "string": "a", "boolean": True, "dictionary": {}}.get(c["fn"], 3)
    fn = getattr(check, c["fn"])
    if c["which"]:
        args = (good, c["name"], Mine)
    else:
        args = (good, "name", {"instance": Mine("x"), "int": int, "text": "Exception", "none": None, "base": BaseException, "func": len}[c["exc"]])
    try:
        fn(*args)
    except check.CheckException:
        return
    except Exception as e:
        raise Violation("%s with arguments %r raises %r" % (c["fn"], args[1:], e))
    raise Violation("%s accepts the arguments %r" % (c["fn"], args[1:]))
