"""C05: splitting a dataset is a partition by keyword values."""
from vf.common import *
from vf.core import Prop, require

PROP = Prop("C05", "Datasets of 1-9 frames whose split keywords (1-4 of them, primary and/or image header) take random values from small pools of "
            "ints, floats, strings or booleans; the result is compared with grouping by value tuples. Non-trivial: at least two groups, one of them with two frames.")

KEYS = {"int": st.sampled_from([0, 1, 2, 10, -3]), "float": st.sampled_from([0.1, 0.2, 1.0, 2.5, 1e-9, 123456.789, 0.30000000000000004, 0.3]),
        "str": st.sampled_from(["", "A", "a", "ABC", "1", "1.0", "x y"]), "bool": st.booleans(),
        # equal values written in different ways, undefined values, and keywords whose values are not all of one type
        "number": st.sampled_from([1, 1.0, 2, 2.0, 0, 0.0, 0.5, 123456789, 123456789.0]), "undefined": st.sampled_from([None, None, 1, 2.5]),
        "mixed": st.sampled_from([None, "A", 1, 2.0, "b"])}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 9))
    keys = []
    for i in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from(sorted(KEYS)))
        pool = draw(st.lists(KEYS[t], min_size=1, max_size=3, unique_by=repr))
        keys.append({"name": "SPLT%d" % i, "hdr": draw(st.sampled_from(["pri", "ext"])), "type": t, "vals": [draw(st.sampled_from(pool)) for _ in range(n)]})
    # the two headers may hold the same keyword, with other values
    two = [k for k in keys if k["hdr"] == "pri"][:1], [k for k in keys if k["hdr"] == "ext"][:1]
    if all(two) and draw(st.booleans()):
        two[1][0]["name"] = two[0][0]["name"]
    return {"n": n, "keys": keys, "s": draw(seeds)}


def norm(v):
    return v.item() if isinstance(v, np.generic) else v


@PROP.sub("partition", cases(), 400, 6000)
def partition(c, rec):
    r = rng(c["s"])
    frames = []
    for i in range(c["n"]):
        f = img(r.normal(size=(2, 3)), filename="f%d.fits" % i)
        for k in c["keys"]:
            (f.pri_hdr if k["hdr"] == "pri" else f.ext_hdr)[k["name"]] = k["vals"][i]
        f.ext_hdr["FRAMENO"] = i
        frames.append(f)
    ds = data.Dataset(frames)
    vals = ds.all_data.copy()
    pk = [k["name"] for k in c["keys"] if k["hdr"] == "pri"]
    ek = [k["name"] for k in c["keys"] if k["hdr"] == "ext"]
    kw = {}
    if pk: kw["prihdr_keywords"] = pk
    if ek: kw["exthdr_keywords"] = ek
    groups, keys = ds.split_dataset(**kw)
    order = [k for k in c["keys"] if k["hdr"] == "pri"] + [k for k in c["keys"] if k["hdr"] == "ext"]
    tup = lambda i: tuple(k["vals"][i] for k in order)
    want = {}
    for i in range(c["n"]):
        want.setdefault(tup(i), []).append(i)
    got = [[f.ext_hdr["FRAMENO"] for f in g] for g in groups]
    require(len(groups) == len(keys), "{} groups but {} value sets", len(groups), len(keys))
    require(sorted(sum(got, [])) == list(range(c["n"])), "frames in the groups: {}", got)
    for g, fr, kv in zip(groups, got, keys):
        require(isinstance(g, data.Dataset), "group is a {}", type(g))
        t = tup(fr[0])
        require(fr == want[t], "group {} for values {} but frames with those values are {}", fr, t, want[t])
        eq(g.all_data, vals[fr], "pixels of the group")
        kvt = kv if isinstance(kv, tuple) else (kv,)
        require(len(kvt) == len(t), "reported {} for keywords {}", kv, [k["name"] for k in order])
        for a, b in zip(kvt, t):
            a = norm(a)
            ok = (a is None or a != a) if b is None else a == b or str(a) == str(b) or \
                (not isinstance(b, str) and a is not None and a not in ("True", "False") and float(a) == float(b))
            require(ok, "reported value {!r} for a group with {!r}", a, b)
    rec.nt(len(want) > 1 and max(map(len, want.values())) > 1)
    rec.label("%d keys" % len(order))


@PROP.sub("none", st.fixed_dictionaries({"n": st.integers(1, 3)}), 5, 10)
def none(c, rec):
    ds = data.Dataset([img(np.zeros((2, 2))) for _ in range(c["n"])])
    rejects(lambda: ds.split_dataset(), (ValueError,), "splitting on no keyword")
    rejects(lambda: ds.split_dataset(exthdr_keywords=["NOSUCHKW"]), Exception, "splitting on an absent keyword")
    rec.nt()
