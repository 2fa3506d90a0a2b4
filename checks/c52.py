"""Data-type schemas: validation, and the one-to-one map between variables, features and columns."""
from checks import env  # noqa: F401
from symx import core

VALID = ["binary", "continuous", "count", "categorical:1", "categorical:2", "categorical:3", "categorical:11"]
UNKNOWN = ["unknown", "", "Binary", "noncontinuous", "binarycount", "counts", "continuous:2", " binary", "noncategorical:3", "real"]
NOCARD = ["categorical", "categorical:", "categorical:0", "categorical:01", "categorical:x", "categorical:-2", "categorical:2x", "categorical:2:3", "categorical: 2", "categorical:1.5"]
NAMES = ["A", 0, ("t", 1), "A_1x", True, "b c"]


def _mod():
    import causalnex.structure.categorical_variable_mapper as m

    return m


def split(t):
    return (t.split(":")[0], int(t.split(":")[1])) if ":" in t else (t, None)


def ref_features(schema):
    out = {}
    for k, t in schema.items():
        typ, card = split(t)
        out[k] = [k] if card is None else ["%s_%d" % (k, i) for i in range(card)]
    return out


def validate(c, n):
    """Exactly the permissible types are accepted; nodes outside the schema get the default; the schema is not modified."""
    m = _mod()
    names = NAMES[:n]
    how = c.choice("nodes-given-as", ["list", "set", "view"])
    schema, bad_t, bad_c = {}, False, False
    default = c.choice("default", ["continuous", "categorical:4", "noncontinuous", "categorical"])
    need_default = False
    for i, x in enumerate(names):
        kind = c.choice("kind-%d" % i, ["valid", "unknown", "no-cardinality", "absent"] if i == 0 else ["valid", "absent"])
        if kind == "absent":
            need_default = True
            continue
        pool = {"valid": VALID, "unknown": UNKNOWN, "no-cardinality": NOCARD}[kind]
        schema[x] = c.choice("type-%d" % i, pool if i == 0 else pool[2:4])
        bad_t |= kind == "unknown"
        bad_c |= kind == "no-cardinality"
    extra = c.choice("extra", [None, "unknown"])
    if extra:
        schema["not-a-node"] = extra
    before = dict(schema)
    nodes = list(names)
    if how == "set":
        nodes = set(names)
    elif how == "view":
        import networkx as nx

        g = nx.DiGraph()
        g.add_nodes_from(names)
        nodes = g.nodes()
    arg = None if not schema and c.choice("empty-as-none", [True, False]) else schema
    call = lambda: m.validate_schema(nodes=nodes, schema=arg, default_type=default)
    if bad_t or bad_c or default == "noncontinuous" or (default == "categorical" and need_default):
        c.raises("invalid-rejected", ValueError, call, "schema %r default %r" % (schema, default))
    elif default == "categorical":
        return
    else:
        got = c.no_raise("valid-accepted", call)
        want = {x: before.get(x, default) for x in names}
        c.check("imputed", got == want, lambda: "validated %r, expected %r" % (got, want))
    c.check("schema-unchanged", schema == before, lambda: "schema became %r" % (schema,))


def mapping(c, names, types):
    """Features and columns are in one-to-one correspondence and every accessor agrees with it."""
    m = _mod()
    schema = {}
    for x in c.permutation("order", list(range(len(names)))):
        schema[names[x]] = c.choice("type-%d" % x, types)
    feats = ref_features(schema)
    before = dict(schema)
    mp = c.no_raise("maps", lambda: m.VariableFeatureMapper(schema))
    total = sum(len(v) for v in feats.values())
    same = lambda a, b: len(a) == len(b) and all(type(p) is type(q) and p == q for p, q in zip(a, b))
    idx = {x: list(mp.get_indices(x)) for x in schema}
    c.check("columns-partition", sorted(i for v in idx.values() for i in v) == list(range(total)) and all(len(idx[x]) == len(feats[x]) for x in schema), lambda: "indices %r for %r" % (idx, schema))
    fl = list(mp.get_feature_names())
    c.check("counts", mp.n_features == total == len(fl) and mp.n_variables == len(schema) and len(mp.variable_list) == len(schema) and set(mp.variable_list) == set(schema),
            lambda: "n_features %r n_variables %r variables %r" % (mp.n_features, mp.n_variables, mp.variable_list))
    c.check("schema-unchanged", schema == before)
    for x, t in schema.items():
        typ, card = split(t)
        names_x = mp.get_feature_names(x)
        names_x = [names_x] if card is None else list(names_x)
        c.check("feature-names", same(names_x, feats[x]), lambda: "features of %r: %r, expected %r" % (x, names_x, feats[x]))
        c.check("feature-columns", [mp.get_feature_index(f) for f in names_x] == idx[x] and same([fl[i] for i in idx[x]], feats[x]), lambda: "columns of %r: %r names there %r" % (x, idx[x], [fl[i] for i in idx[x]]))
        sq = mp.get_indices(x, squeeze=True)
        c.check("squeeze", sq == (idx[x][0] if card is None else idx[x]), lambda: "squeezed indices of %r: %r" % (x, sq))
        for t2 in ("binary", "continuous", "count", "categorical"):
            c.check("types", mp.is_var_of_type(x, t2) == (t2 == typ), lambda: "%r of type %s: %r" % (x, t2, mp.is_var_of_type(x, t2)))
        if card is not None and x not in fl:
            c.raises("variable-is-not-a-feature", ValueError, lambda: mp.get_feature_index(x))
    want_cat = sorted(idx[x] for x, t in schema.items() if split(t)[1] is not None)
    c.check("categorical-indices", sorted(map(list, mp.get_categorical_indices())) == want_cat, lambda: "categorical indices %r expected %r" % (mp.get_categorical_indices(), want_cat))
    order = c.permutation("asked-order", list(names)) if len(names) < 3 else list(names)
    want = [i for x in order for i in idx[x]]
    c.check("several", list(mp.get_indices(list(order))) == want and sorted(mp.get_indices(set(order))) == sorted(want) and list(mp.get_indices(iter(order))) == want and list(mp.get_indices(iter([]))) == [],
            lambda: "indices of %r: %r expected %r" % (order, mp.get_indices(list(order)), want))
    # the caller owns what it gets
    got = mp.get_indices(list(order))
    got.append(99)
    c.check("several", list(mp.get_indices(list(order))) == want, "indices changed after the caller extended an earlier answer")
    c.raises("unsupported", ValueError, lambda: mp.get_indices("no such variable"))
    c.raises("unsupported", ValueError, lambda: mp.get_var_of_type("real"))
    c.raises("unsupported", ValueError, lambda: mp.is_var_of_type(names[0], "categorical:2"))


def collide(c):
    """Feature names that coincide cannot be told apart: rejected, never silently merged."""
    m = _mod()
    which = c.choice("pair", [("A", "A_0"), ("A", "A_1"), (0, "0"), (("t", 1), "('t', 1)_1")])
    ta = c.choice("first", ["categorical:2", "categorical:3", "continuous"])
    tb = c.choice("second", ["binary", "continuous", "count", "categorical:2"])
    schema = dict([(which[0], ta), (which[1], tb)][:: 1 if c.bool("listed-in-order") else -1])
    feats = [f for v in ref_features(schema).values() for f in v]
    if len(set(feats)) < len(feats):
        c.raises("coinciding-rejected", ValueError, lambda: m.VariableFeatureMapper(schema), "schema %r" % (schema,))
    else:
        mp = c.no_raise("distinct-accepted", lambda: m.VariableFeatureMapper(schema))
        c.check("columns-partition", sorted(i for x in schema for i in mp.get_indices(x)) == list(range(len(feats))))


LABELS = ["invalid-rejected", "imputed", "columns-partition", "feature-names", "feature-columns", "several", "types", "coinciding-rejected", "schema-unchanged"]
ASSUMPTIONS = ["type strings come from the listed permissible and non-permissible ones (the solver chooses; strings are not symbolic character by character)"]
BOUNDS = {"quick": "up to 3 variables of mixed label kinds, every order and every combination of 7 permissible types; 20 non-permissible type strings; 3 ways of passing the nodes",
          "thorough": "up to 4 variables"}


def cases(tier):
    out = [("validate2", validate, dict(n=2), 10), ("map2", mapping, dict(names=["A", 0], types=VALID), 3),
           ("map3", mapping, dict(names=[("t", 1), "A", True], types=["binary", "continuous", "count", "categorical:2", "categorical:3"]), 20), ("collide", collide, {}, 1)]
    if tier == "thorough":
        out += [("validate3", validate, dict(n=3), 60), ("map4", mapping, dict(names=[("t", 1), "A", True, "b c"], types=["binary", "continuous", "count", "categorical:2"]), 90)]
    return out
