"""C40 symbolic names stand for their protocol codes, both ways."""
import json
import random

from rv import core, device, layouts, ref
from rv.props import c16, c21

ID = "C40"
SCALE = 4
RULE = (
    "Every name of the protocol's tables (services, archives, protocols, device types, object types ...) is used in "
    "requests read by the simulated device, and every code is sent by the device and read back as its name; the names "
    "are also counted, compared, hashed, written as JSON and looked up as numbers.  Decoded objects of every type are "
    "asked for their type and the width of their value.  Distinct = distinct (table, name, use)."
)
MIN = {"names-sent": 300, "names-received": 400, "looked-up": 600, "object-types": 400, "value-lengths": 120, "services": 60}

CONSTANTS = {
    "ServiceNumber": dict(
        READ_VALUES=0x64, WRITE_VALUES=0x65, SEARCH_ARCHIVE_POINTERS_OLD=0x67, SEARCH_ARCHIVE_POINTERS=0x7B,
        READ_ARCHIVES_OLD=0x68, READ_ARCHIVES=0x7C, READ_DEVICE_TIME=0x6C, READ_SCADA_PARAMETERS=0x70,
        WRITE_DEVICE_TIME=0x71, GROUP_WRITE_VALUES=0x77, GROUP_READ_VALUES=0x79, CALL=0x87,
        READ_ARCHIVES_BY_DATE_OLD=0x91, READ_ARCHIVES_BY_DATE=0x7D,
    ),
    "Archive": dict(EXTREME=0, DATA=1, BINARY=2, DAILY=3, MONTHLY=4, SETTING=5, FAST_1=6, FAST_2=7, STATUS=8, BILLING=9,
                    GAS_COMPOSITION=10),
    "Protocol": dict(ELGAS2=0, QMD=1, RDS=2, MODBUS=3),
}
ENUMERATIONS = {
    "DeviceType": dict(ELCOR=128, ELCOR_PLUS=131, ELCOR_LITE=134),
    "CertificationVariant": dict(CMI_MID=2, GENERIC=4),
    "SwitchFunction": dict(NONE=0, PROTECT_METROLOGICAL=1, PROTECT_ALL=2),
    "CompressibilityFormula": dict(CONST=0, AGANX19=1, SGERG88=2, AGANX19MOD=3, AGA8G1=4, AGA8G2=5, AGA892DC=6, GOSTNX19MOD=7),
    "ParameterObjectType": dict(
        SYSTEM_PARAMETER=0, ANALOG_MEASURAND=30, BINARY=31, COUNTER=32, STANDARD_COUNTER=33, FLOW_RATE=34,
        STANDARD_FLOW_RATE=35, CONVERSION_COEFFICIENT=36, ERROR_COUNTER=45, ERROR_STANDARD_COUNTER=46,
        COMPRESSIBILITY=47, TIME_WINDOW=48, CORRECTION_COUNTER=49, DOUBLE_COUNTER=53, DOUBLE_ERROR_COUNTER=54,
        DIAGNOSTICS=59, DEVICE_ERROR=61, SUM_OF_ALARMS=62, TIMER=65, TARIFF_COUNTER=68, BASE_TARIFF_COUNTER=69,
        SET_POINT=70, DIFFERENCE_COUNTER=72, DIFFERENCE_BASE_COUNTER=73, COMPRESSIBILITY_Z=74,
        COMPRESSIBILITY_Z_BASE=75, ENERGY=77, ERROR_ENERGY=78, DOUBLE_TARIFF_COUNTER=79, ANALOG_STATISTICS=80,
        COUNTER_STATISTICS=81, STANDARD_COUNTER_STATISTICS=82, STATISTICS=83, ANALOG_TIME_STATISTICS=84,
        TIME_STATISTICS=85, MODEM=141,
    ),
}
# bytes a measured value of the type takes in the instantaneous values
VALUE = {
    "AnalogQuantity": 2, "Counter": 4, "DoubleCounter": 8, "StandardCounter": 8, "FlowRate": 4, "StandardFlowRate": 4,
    "ConversionCoefficient": 4, "ErrorCounter": 4, "DoubleErrorCounter": 8, "CorrectionCounter": 4,
    "ErrorStandardCounter": 8, "Compressibility": 4, "CompressibilityZ": 4, "CompressibilityZBase": 4,
    "DifferenceCounter": 8, "DifferenceBaseCounter": 8, "Timer": 4,
}
SERVICES = {
    "values": "READ_VALUES", "time": "READ_DEVICE_TIME", "write_time": "WRITE_DEVICE_TIME", "params": "READ_SCADA_PARAMETERS",
    "archive": "READ_ARCHIVES", "archive_by_time": "READ_ARCHIVES_BY_DATE",
}


def gen(ctx):
    for s in ctx.seeds("names", 24, 200):
        yield {"m": "archives", "seed": s}
        yield {"m": "services", "seed": s}
        yield {"m": "protocols", "seed": s}
        yield {"m": "types", "seed": s}
        yield {"m": "tables", "seed": s}


def enumeration(E, table):
    return getattr(E["constants"] if table in CONSTANTS else E["parameters.enumerations"], table)


def named(obs, got, table, name, code, what):
    """got is the member of that name."""
    obs.expect(getattr(got, "name", None) == name and int(got) == code,
               lambda: f"{what}: {got!r}, code {code} of {table} is {name}", "name")


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    {"archives": archives, "services": services, "protocols": protocols, "types": types, "tables": tables}[case["m"]](E, obs, rng)


def archives(E, obs, rng):
    A = E["application"]
    c = device.rand_config(rng, addresses="client")
    for name, code in CONSTANTS["Archive"].items():
        dev = device.SimDevice(c, rng)
        client = device.make_client(E, c, device.MemoryTransport(E, dev))
        client.connect()
        member = getattr(enumeration(E, "Archive"), name)
        obs.eval()
        try:
            client.read_archive(member, 3, 7)
            client.read_archive_by_time(member, 3, device.rand_time(rng))
        except E["exceptions"].ElgasError as e:
            obs.fail(f"reading archive {name}: {e!r}; {dev.bad}", "name")
        for fields, *_ in dev.log:
            obs.equal(fields["archive"], code, f"archive number the device reads for {name}", "code")
            obs.count("names-sent")
        for kind, cls in (("archive", "ReadArchiveResponse"), ("archive_by_time", "ReadArchiveByTimeResponse")):
            data, want = device.gen_reply(rng, kind, 40)
            pdu = getattr(A, cls).from_bytes(bytes((code,)) + data[1:])
            named(obs, pdu.archive, "Archive", name, code, f"archive in a {cls}")
            obs.count("names-received")
        obs.seen("Archive", name)


def services(E, obs, rng):
    F, A, S = E["frames"], E["application"], enumeration(E, "ServiceNumber")
    c = device.rand_config(rng, addresses="client")
    for kind, name in SERVICES.items():
        code = CONSTANTS["ServiceNumber"][name]
        request = device.make_request(E, kind, device.gen_request(rng, kind, c["password"]))
        obs.eval()
        named(obs, request.service, "ServiceNumber", name, code, f"service of a {type(request).__name__}")
        conn = device.make_connection(E, c)
        (_, service) = device.read_request(c, conn.send(request))
        obs.equal(service, code, f"service number on the wire of a {type(request).__name__}", "code")
        obs.count("services")
    for name, code in CONSTANTS["ServiceNumber"].items():
        for k, cls in ((ref.REQ, "Request"), (ref.RESP, "Response"), (ref.EREQ, "EncryptedRequest"), (ref.ERESP, "EncryptedResponse")):
            data = rng.randbytes(rng.randrange(20))
            frame = ref.frame(k, code, data, (1, 2), (3, 4))
            named(obs, getattr(F, cls).from_bytes(frame).service, "ServiceNumber", name, code, f"service of a decoded {cls}")
            obs.count("names-received")
            made = getattr(F, cls)(service=getattr(S, name), data=data, destination_address_1=1, destination_address_2=2,
                                   source_address_1=3, source_address_2=4)
            obs.equal(bytes(made.to_bytes())[3], code, f"service number in a {cls} of {name}", "code")
            obs.count("names-sent")
        obs.seen("ServiceNumber", name)


def protocols(E, obs, rng):
    for name, code in CONSTANTS["Protocol"].items():
        obs.eval()
        pdu = E["application"].CallRequest.from_bytes(c21.message(rng, (code,)))
        named(obs, pdu.protocol, "Protocol", name, code, "protocol in a registration message")
        obs.count("names-received")
        obs.seen("Protocol", name)


def types(E, obs, rng):
    T = enumeration(E, "ParameterObjectType")
    F = E["parameters.factory"]
    names = {code: name for name, code in ENUMERATIONS["ParameterObjectType"].items()}
    for lay in layouts.BY_CODE.values():
        t = getattr(T, names[lay.code])
        data, want = layouts.gen_record(rng, lay)
        obs.eval()
        if lay.code in layouts.UNDECODABLE:
            obj = c16.made(E, rng, lay, want)
        else:
            obj = F.ParameterFactory.from_bytes(t, data)
            again = E["parser"].ScadaParameterParser().parse(layouts.envelope(lay.code, data))[0]
            obs.equal(type(again).__name__, lay.cls, f"class of an object of type {lay.code} in a stream", "class")
        obs.equal(type(obj).__name__, lay.cls, f"class of an object of type {t!r}", "class")
        named(obs, obj.object_type, "ParameterObjectType", names[lay.code], lay.code, f"object_type of a {lay.cls}")
        obs.count("object-types")
        schema = F.ParameterSchemaFactory.by_parameter_id(t)
        schema = schema() if isinstance(schema, type) else schema
        back = schema.load(json.loads(json.dumps(schema.dump(obj)))) if lay.code in layouts.UNDECODABLE else obj
        if lay.cls in VALUE:
            for o in (obj, type(obj), back):
                obs.equal(getattr(o, "value_length", None), VALUE[lay.cls], f"width of a value of a {lay.cls}", "value-length")
            obs.count("value-lengths")
        obs.seen("object", lay.cls)


def tables(E, obs, rng):
    tables = [(table, entries, enumeration(E, table)) for table, entries in {**CONSTANTS, **ENUMERATIONS}.items()]
    if hasattr(E["application"], "Archive"):  # a second table of the same archives
        tables.append(("Archive", CONSTANTS["Archive"], E["application"].Archive))
    for table, entries, enum in tables:
        for name, code in entries.items():
            obs.eval()
            m = getattr(enum, name, None)
            obs.expect(m is not None, lambda: f"{table} has no {name}", "name")
            named(obs, m, table, name, code, f"{table}.{name}")
            obs.expect(enum(code) is m and enum[name] is m, lambda: f"{table}({code}) is {enum(code)!r}, not {m!r}", "name")
            obs.expect(m == code and hash(m) == hash(code) and {code: 1}.get(m) == 1 and isinstance(m, int) and json.dumps(m) == str(code)
                       and f"{m:d}" == str(code) and code.__index__() == m.__index__(),
                       lambda: f"{m!r} cannot stand for its code {code}", "number")
            obs.count("looked-up")
            obs.seen(table, name, "table")
        codes = [int(m) for m in enum]
        obs.equal(len(set(codes)), len(codes), f"distinct codes in {table}", "number")
        for code in [*range(256), *rng.sample(range(-300, 70000), 50)]:
            if code in codes:
                continue
            try:
                got = enum(code)
            except ValueError:
                continue
            obs.fail(f"{table}({code}) is {got!r}, there is no such code", "number")
