"""C16 schemas: dump, JSON, load."""
import json
import math
import random

from rv import core, layouts

ID = "C16"
SCALE = 12
RULE = (
    "Random records of every type (finite floats, all text and integer extremes, with and without the optional tail) "
    "are decoded, dumped with the registered schema, written and read as JSON and loaded; the result must equal the "
    "original field by field and type by type.  Configurations built from such dumps pass through the configuration "
    "schemas.  Distinct = distinct JSON texts."
)
MIN = {"round-trip": 3000, "types": 300, "none-tail": 800, "configurations": 40, "config-objects": 300, "constructed": 50}


def gen(ctx):
    for s in ctx.seeds("rt", 120, 3500):
        yield {"m": "rt", "seed": s}
    for s in ctx.seeds("conf", 48, 800):
        yield {"m": "conf", "seed": s}
    for s in ctx.seeds("made", 40, 400):
        yield {"m": "made", "seed": s}


def finite_record(rng, lay, tail):
    while True:
        data, want = layouts.gen_record(rng, lay, tail=tail, finite=True)
        vals = list(want.values()) + [x for v in want.values() if isinstance(v, dict) for x in v.values()]
        if all(math.isfinite(v) for v in vals if isinstance(v, float)):
            return data, want


def made(E, rng, lay, want):
    """An object of a type whose records cannot be decoded; completes want."""
    for f in ("error_bit_order_in_actual_values", "error_bit_order_in_binary_archive_record", "error_bit_order_in_data_archive_record"):
        want[f] = layouts.gen_int(rng, 2)
    return getattr(E["parameters.factory"], lay.cls)(**want)


def schema(E, code):
    t = E["parameters.enumerations"].ParameterObjectType(code)
    s = E["parameters.factory"].ParameterSchemaFactory.by_parameter_id(t)
    return s() if isinstance(s, type) else s


def same(obs, a, b, lay, want, text):
    obs.expect(type(a) is type(b), lambda: f"{lay.cls} loaded back as {type(b).__name__}", "type")
    if want is not None:
        d = layouts.compare(b, lay, want)
        obs.expect(not d, lambda: f"after dump and load: {d[:3]}; JSON {text[:300]}", "field")
    for n in lay.names:
        va, vb = getattr(a, n, None), getattr(b, n, None)
        obs.expect(va == vb, lambda: f"{lay.cls}.{n} was {va!r}, after dump and load {vb!r}", "field")
    obs.expect(a == b, lambda: f"{lay.cls} not equal after dump and load: {a!r:.300} / {b!r:.300}", "field")


def trip(obs, E, lay, obj, want):
    obs.eval()
    try:
        sch = schema(E, lay.code)
        text = json.dumps(sch.dump(obj))
        back = sch.load(json.loads(text))
    except Exception as e:
        obs.fail(f"{lay.cls} {obj!r:.300}: dump/load raised {type(e).__name__}: {e}", "refused")
    same(obs, obj, back, lay, want, text)
    obs.seen(text)
    obs.count("round-trip")
    return text


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    m = case["m"]
    T = E["parameters.enumerations"].ParameterObjectType
    F = E["parameters.factory"].ParameterFactory
    if m == "rt":
        for lay in layouts.DECODABLE:
            tail = rng.random() < 0.5
            data, want = finite_record(rng, lay, tail)
            obj = F.from_bytes(T(lay.code), data)
            text = trip(obs, E, lay, obj, want)
            if lay.tail and not tail:
                obs.count("none-tail")
        obs.count("types", len(layouts.DECODABLE))
        obs.sample(text[:200], 2)
    elif m == "made":
        # the two types whose records cannot be decoded still have usable classes
        for code in layouts.UNDECODABLE:
            lay = layouts.BY_CODE[code]
            data, want = layouts.gen_record(rng, lay, tail=rng.random() < 0.7)
            obj = made(E, rng, lay, want)
            trip(obs, E, lay, obj, want)
            obs.count("constructed")
    else:
        I = E["integration"]
        objs = []
        originals = []
        for _ in range(rng.choice((0, 1, 5, 20))):
            lay = rng.choice(layouts.DECODABLE)
            data, want = finite_record(rng, lay, rng.random() < 0.5)
            obj = F.from_bytes(T(lay.code), data)
            dumped = schema(E, lay.code).dump(obj)
            name = rng.choice((None, "", "m3", "Förbrukning \u2192", "a" * 300))
            objs.append(I.UtilitarianConfigurationObject(parameter_type=rng.choice((lay.code, T(lay.code))), data=dumped, series_name=name))
            originals.append((lay, obj, want, dumped, name))
        obs.eval()
        conf = I.UtilitarianConfiguration(objects=objs)
        sch = I.UtilitarianConfigurationSchema()
        text = json.dumps(sch.dump(conf))
        back = sch.load(json.loads(text))
        items = back["objects"] if isinstance(back, dict) else back.objects
        obs.equal(len(items), len(originals), "objects in a configuration after dump and load", "config")
        for got, (lay, obj, want, dumped, name) in zip(items, originals):
            get = (lambda k: got[k]) if isinstance(got, dict) else (lambda k: getattr(got, k))
            obs.equal(int(get("parameter_type")), lay.code, "parameter_type in a configuration", "config")
            obs.equal(get("series_name"), name, "series_name in a configuration", "config")
            obs.equal(get("data"), json.loads(json.dumps(dumped)), "object data in a configuration", "config")
            same(obs, obj, schema(E, lay.code).load(get("data")), lay, want, str(get("data")))
            obs.count("config-objects")
            one = I.ConfigurationObject(parameter_type=lay.code, data=dumped)
            s1 = I.ConfigurationObjectSchema()
            g1 = s1.load(json.loads(json.dumps(s1.dump(one))))
            g1 = g1 if isinstance(g1, dict) else core.attributes(g1)
            obs.equal(int(g1["parameter_type"]), lay.code, "parameter_type", "config")
            obs.equal(g1["data"], json.loads(json.dumps(dumped)), "object data", "config")
        obs.count("configurations")
        obs.seen(text)
