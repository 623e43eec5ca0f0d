"""C30 schemas refuse incomplete or malformed dumps."""
import copy
import json
import random

from rv import core, layouts
from rv.props import c16

ID = "C30"
SCALE = 8
RULE = (
    "Valid dumps of random records of every type are changed in one place, every field in turn (removed, null, every "
    "JSON kind that cannot represent it, an unknown field, the whole dump of another kind), alone and together with a "
    "second change, and loaded with the registered schema; each must be refused with ValidationError naming the field, and "
    "the unchanged dump must load.  The same for the configuration schemas.  Distinct = distinct malformed JSON texts."
)
MIN = {"missing": 5000, "null": 5000, "malformed": 20000, "unknown": 500, "whole": 500, "two-changes": 1000, "config": 300,
       "intact-loaded": 500, "nested": 200}

# JSON values that cannot represent a field holding a value of the type
BAD = {
    bool: ("maybe", "", {}, [], [True]),  # some schemas keep flags as numbers
    int: ("abc", "", {}, [], [1], "0x10", "1.5x", {"a": 1}),
    float: ("abc", "", {}, [], [1.0], "1,5"),
    str: (5, 0, {}, [], True, 1.5, ["a"]),
    list: ("x", {}, 5, True, "", [5], [None], [{}]),
    dict: (5, "x", [1], "", True),
}


def gen(ctx):
    for i, lay in enumerate(layouts.DECODABLE):
        for s in ctx.seeds(("type", i), 1, 16):
            yield {"m": "type", "code": lay.code, "seed": s}
    # the types whose records cannot be decoded have schemas, too
    for code in layouts.UNDECODABLE:
        for s in ctx.seeds(("made", code), 1, 16):
            yield {"m": "type", "code": code, "seed": s}
    for s in ctx.seeds("config", 24, 600):
        yield {"m": "config", "seed": s}


def refused(obs, schema, x, what, field=None):
    import marshmallow

    obs.eval()
    text = json.dumps(x)
    try:
        r = schema.load(json.loads(text))
    except marshmallow.ValidationError as e:
        if field is not None:
            m = e.messages
            obs.expect(isinstance(m, dict) and field in m, lambda: f"{what}: refused with {m!r:.300}, which does not name {field}", "unnamed")
        obs.seen(text)
        return
    except (core.CaseTimeout, core.Violation):
        raise
    except Exception as e:
        obs.fail(f"{what}: {type(e).__name__}: {e} instead of ValidationError; JSON {text[:300]}", "wrong-exception")
    obs.fail(f"{what}: loaded as {r!r:.400}", "malformed-accepted")


def changes(obj, lay, dump, rng):
    """(field, description, function applying the change)."""
    optional = {n for n, _ in lay.tail} | {"owner_sim_number"}
    for k in dump:
        yield k, "missing", (lambda d, k=k: d.pop(k))
        v = getattr(obj, k)
        if k not in optional:
            yield k, "null", (lambda d, k=k: d.update({k: None}))
        kind = next((t for t in (bool, int, float, str, list, dict) if isinstance(v, t)), None)
        if kind is None and v is not None:  # a nested object
            kind = dict
        for b in BAD.get(kind, ({}, [])):
            yield k, "malformed", (lambda d, k=k, b=b: d.update({k: b}))


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    if case["m"] == "config":
        return config(E, obs, rng)
    T = E["parameters.enumerations"].ParameterObjectType
    lay = layouts.BY_CODE[case["code"]]
    for tail in (True, False):
        data, want = c16.finite_record(rng, lay, tail)
        obj = c16.made(E, rng, lay, want) if lay.code in layouts.UNDECODABLE else E["parameters.factory"].ParameterFactory.from_bytes(T(lay.code), data)
        schema = c16.schema(E, lay.code)
        dump = json.loads(json.dumps(schema.dump(obj)))
        every = list(changes(obj, lay, dump, rng))
        for k, how, change in every:
            x = copy.deepcopy(dump)
            change(x)
            refused(obs, schema, x, f"{lay.cls} dump with {k} {how} ({x.get(k)!r})", k)
            obs.count(how)
            if rng.random() < 0.05:
                k2, how2, change2 = rng.choice(every)
                if k2 != k:
                    change2(x)
                    refused(obs, schema, x, f"{lay.cls} dump with {k} {how} and {k2} {how2}", k)
                    obs.count("two-changes")
        for name in ("surplus", "object_type", "", "Number", "__class__"):
            if name not in dump:
                x = {**copy.deepcopy(dump), name: rng.choice((1, None, "x", {}, []))}
                refused(obs, schema, x, f"{lay.cls} dump with the unknown field {name!r}", name)
                obs.count("unknown")
        for x in ([], "x", 5, [copy.deepcopy(dump)], {}):
            refused(obs, schema, x, f"{x!r:.60} in place of a {lay.cls} dump")
            obs.count("whole")
        for k, v in dump.items():
            if isinstance(v, dict):
                for part in v:
                    for how in ("missing", "null", "malformed"):
                        x = copy.deepcopy(dump)
                        if how == "missing":
                            del x[k][part]
                        else:
                            x[k][part] = None if how == "null" else rng.choice(("abc", {}, []))
                        refused(obs, schema, x, f"{lay.cls} dump with {k}.{part} {how}", k)
                        obs.count("nested")
                for name in ("surplus", "", "c11h24", "CO2"):
                    x = copy.deepcopy(dump)
                    x[k][name] = rng.choice((1, 1.5, None, "x", {}))
                    refused(obs, schema, x, f"{lay.cls} dump with the unknown field {k}.{name}", k)
                    obs.count("nested")
        obs.eval()
        d = layouts.compare(schema.load(dump), lay, want)
        obs.expect(not d, lambda: f"{lay.cls}: an intact dump no longer loads after refusals: {d[:3]}", "field")
        obs.count("intact-loaded")
    obs.sample({"type": lay.cls, "fields": len(dump)}, 3)


def config(E, obs, rng):
    import marshmallow

    I = E["integration"]
    T = E["parameters.enumerations"].ParameterObjectType
    objs = []
    for _ in range(rng.choice((1, 3, 8))):
        lay = rng.choice(layouts.DECODABLE)
        data, want = c16.finite_record(rng, lay, rng.random() < 0.5)
        obj = E["parameters.factory"].ParameterFactory.from_bytes(T(lay.code), data)
        objs.append({"parameter_type": lay.code, "data": json.loads(json.dumps(c16.schema(E, lay.code).dump(obj))), "series_name": rng.choice((None, "m3"))})
    whole = {"objects": objs}
    i = rng.randrange(len(objs))
    for k, bads in (("parameter_type", BAD[int] + (None,)), ("data", BAD[dict] + (None,)), ("series_name", BAD[str])):
        for b in ("missing",) + bads:
            def spoil(o):
                o = dict(o)
                if b == "missing":
                    del o[k]
                else:
                    o[k] = b
                return o

            x = copy.deepcopy(whole)
            x["objects"][i] = spoil(x["objects"][i])
            refused(obs, I.UtilitarianConfigurationSchema(), x, f"configuration whose object {i} has {k} {b!r}", "objects")
            refused(obs, I.UtilitarianConfigurationObjectSchema(), x["objects"][i], f"configuration object with {k} {b!r}", k)
            if k != "series_name":
                y = spoil({n: objs[i][n] for n in ("parameter_type", "data")})
                refused(obs, I.ConfigurationObjectSchema(), y, f"configuration object with {k} {b!r}", k)
            obs.count("config")
    for name in ("surplus", "", "type", "seriesName"):
        v = rng.choice((1, None, "x", {}, []))
        x = copy.deepcopy(whole)
        x["objects"][i][name] = v
        refused(obs, I.UtilitarianConfigurationSchema(), x, f"configuration whose object {i} has the unknown entry {name!r}", "objects")
        refused(obs, I.UtilitarianConfigurationObjectSchema(), x["objects"][i], f"configuration object with the unknown entry {name!r}", name)
        y = {n: objs[i][n] for n in ("parameter_type", "data")}
        refused(obs, I.ConfigurationObjectSchema(), {**y, name: v}, f"configuration object with the unknown entry {name!r}", name)
        obs.count("config")
    for bad in (5, "x", {}, None):
        refused(obs, I.UtilitarianConfigurationSchema(), {"objects": bad}, f"configuration whose objects are {bad!r}", "objects")
    refused(obs, I.UtilitarianConfigurationSchema(), {**whole, "surplus": 1}, "configuration with an unknown field", "surplus")
    obs.count("config")
