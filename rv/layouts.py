"""Independent layout table of every parameter object type, and a record encoder.

Each type is a list of (field, kind) in wire order.  Kinds: uN little-endian
unsigned of N bytes; f4/f8 IEEE floats; f4r single rounded to 7 decimals; tN fixed
text; hN bytes shown as hex; ip dotted address; sN N unused bytes; bits flags byte
kept as `bit_control`; access the system record's access byte; gas the 23 gas
components; rows count-prefixed list of 10-byte rows.  `tail` is optional.
"""
from __future__ import annotations

import math
import struct

from rv import ref

HEAD = "number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 "
BHEAD = (
    "number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 "
    "bit_order_in_binary_archive_record:u2 "
)
DAILY = "address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 "
BILL = DAILY + "address_in_billing_archive_record:u2 "
DEC = "decimals:u1"
ACT = "action_during_change:u1 text_log_0:t13 text_log_1:t13"
ERR3 = (
    "error_bit_order_in_actual_values:u2 error_bit_order_in_binary_archive:u2 "
    "error_bit_order_in_data_archive:u2 "
)

DDM = {"in_data_archive": 1, "in_daily_archive": 2, "in_monthly_archive": 4}
MET = {"is_metrological_quantity": 16}
FAC = {"in_factory_archive": 8}
BB = {"in_binary_archive": 1, "in_data_archive": 2}

GAS = (
    "co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 "
    "ic4h10 nc4h10 ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22"
).split()

ENERGY = HEAD + (
    "bit_control:bits name:t23 unit:t8 number_of_standard_counter:u1 "
    "number_of_calorific_value:u1 number_of_conversion:u1 " + BILL
)
STAT = HEAD + (
    "bit_control:bits name:t23 unit:t8 digit:f4r offset:f4 number_of_primary_quantity:u1 "
    "statistics_type:u1 " + DAILY
)
CSTAT = HEAD + (
    "bit_control:bits name:t23 unit:t8 digit:f8 type_of_primary_quantity:u1 "
    "number_of_primary_quantity:u1 statistics_type:u1 " + DAILY
)
COUNTER = HEAD + (
    "bit_control:bits name:t23 unit:t8 digit:f8 serial_number_of_gas_meter:u4 " + ERR3 + BILL
    + "serial_number_of_gas_meter_text:t17"
)
ECOUNTER = HEAD + "bit_control:bits name:t23 unit:t8 digit:f8 number_of_primary_counter:u1 " + BILL
DIFF = ECOUNTER
TARIFF = HEAD + (
    "bit_control:bits name:t23 unit:t8 digit:f8 number_of_primary_counter:u1 tariff:u1 " + BILL
)
COMPR = HEAD + "bit_control:bits name:t23 number_of_conversion_coefficient:u1 " + DAILY
ALARM = BHEAD + "bit_control:bits name:t23"

SYSTEM = (
    "device_type:u1 serial_number:u4 firmware_version:t5 service_version:u1 "
    "certification_variant:u1 station_id:t17 -:access parameter_crc:u2 measuring_period:u1 "
    "archive_period:u2 base_pressure:f4 base_temperature:f4 compressibility_formula:u1 "
    "gas_composition:gas data_archive_record_length:u2 binary_archive_record_length:u2 "
    "daily_archive_record_length:u2 monthly_archive_record_length:u2 "
    "instantaneous_values_error_bit_order:u2 binary_archive_record_error_bit_order:u2 "
    "data_archive_record_error_bit_order:u2 optical_port_speed:u1 optical_port_protocol:u1 "
    "optical_port_bit_control:u1 communication_port_0_speed:u1 communication_port_0_protocol:u1 "
    "communication_port_0_bit_control:u1 communication_port_1_speed:u1 "
    "communication_port_1_protocol:u1 communication_port_1_bit_control:u1 "
    "communication_port_2_speed:u1 communication_port_2_protocol:u1 "
    "communication_port_2_bit_control:u1 gas_day_hour:u1 fixed_barometric_pressure:f4 "
    "altitude:f4 -:s17 status_archive_record_length:u2 pressure_unit_type:u1 "
    "pressure_unit_text:t8 temperature_unit_type:u1 temperature_unit_text:t8 "
    "altitude_unit_type:u1 altitude_unit_text:t8 gross_calorific_value_type:u1 "
    "gross_calorific_value_text:t8 dst_region:u1 gmt_hour_shift:u1 "
    "billing_archive_record_length:u2 conditions_for_combustion_heat:u1 device_variant:u1 "
    "-:s1 bit_control:u1 places_for_corrected_volume_counters:u1 device_features_bits:u1 "
    "device_features:h16 version_metrological_part:t5 metrological_crc:u2 "
    "metrological_crc_32:u4 application_crc_32:u4"
)
ACCESS = {
    "password_for_full_access_active": 1,
    "password_for_reading_is_on": 2,
    "metrological_switch": 4,
    "user_switch": 8,
}
MODEM = (
    "number:u1 bit_control_0:u1 title:t7 modem_type:u1 initialization:t32 "
    "call_to_dispatching:t32 modem_hang_up:t8 special_initialization:t80 "
    "ip_address_for_registration_and_diagnostics:ip ip_address_for_calling_to_dispatching:ip "
    "registration_send_period:u1 authentication_mode:u1 port_for_registration:u2 "
    "port_for_calling_to_dispatching:u2 sms_call:t32 gprs_user_name:t49 gprs_password:h33 "
    "ip_address_for_ping:ip ping_period:u2 transition_into_command_mode:t8 pin:h9 "
    "owner_sim_number:t17"
)


class Layout:
    def __init__(self, code, cls, fields, bits=None, tail=""):
        self.code, self.cls, self.bits = code, cls, bits or {}
        self.fields = [tuple(f.split(":")) for f in fields.split()]
        self.tail = [tuple(f.split(":")) for f in tail.split()]

    @property
    def names(self):
        out = []
        for n, k in self.fields + self.tail:
            if k == "rows":
                out += ["rows_in_window", "rows"]
            elif k == "access":
                out += list(ACCESS) + ["switch_function"]
            elif n != "-":
                out.append(n)
            if k == "bits":
                out += list(self.bits)
        return out


L = [
    Layout(0, "SystemParameters", SYSTEM),
    Layout(
        30, "AnalogQuantity",
        HEAD + "bit_control:bits name:t23 unit:t8 digit:f4r offset:f4 "
        "lower_limit_measuring_range:f4r upper_limit_measuring_range:f4 "
        "serial_number_transducer:u4 " + ERR3 + DAILY + "samples_in_fast_archive:u1",
        {**DDM, **MET, "in_fast_archive_1": 32, "in_fast_archvie_2": 64}, DEC,
    ),
    Layout(
        31, "Binary",
        BHEAD + "bit_control:bits name:t23 error_bit_order_in_actual_values:u2 "
        "error_bit_order_in_binary_archive_record:u2 error_bit_order_in_data_archive_record:u2",
        {**BB, "active_indicator": 64}, ACT,
    ),
    Layout(32, "Counter", COUNTER, {**DDM, **FAC, **MET, "accept_counting_direction": 64}, DEC),
    Layout(
        33, "StandardCounter",
        HEAD + "bit_control:bits name:t23 unit:t8 number_of_primary_counter:u1 "
        "number_of_conversion:u1 " + BILL, {**DDM, **FAC, **MET}, DEC,
    ),
    Layout(34, "FlowRate", HEAD + "bit_control:bits name:t23 unit:t8 " + ERR3 + DAILY, {**DDM, **MET}, DEC),
    Layout(
        35, "StandardFlowRate",
        HEAD + "bit_control:bits name:t23 unit:t8 number_of_primary_flow_rate:u1 "
        "number_of_conversion:u1 " + DAILY, {**DDM, **MET}, DEC,
    ),
    Layout(
        36, "ConversionCoefficient",
        HEAD + "bit_control:bits name:t23 number_of_analog_pressure:u1 "
        "number_of_analog_temperature:u1 compressibility_calculation_method:u1 "
        "default_value_pressure:f4 default_value_temperature:f4 "
        "alternate_value_of_compressibility:f4 " + DAILY, {**DDM, **MET}, DEC,
    ),
    Layout(45, "ErrorCounter", ECOUNTER, {**DDM, **FAC, **MET}, DEC),
    Layout(
        46, "ErrorStandardCounter",
        HEAD + "bit_control:bits name:t23 unit:t8 number_of_standard_counter:u1 " + BILL,
        {**DDM, **FAC, **MET}, DEC,
    ),
    Layout(47, "Compressibility", COMPR, {**DDM, **MET}, DEC),
    Layout(48, "TimeWindow", BHEAD + "bit_control:bits name:t23 rows:rows", BB, ACT),
    Layout(49, "CorrectionCounter", ECOUNTER, {**DDM, **FAC, **MET}, DEC),
    Layout(53, "DoubleCounter", COUNTER, {**DDM, **FAC, **MET, "accept_counting_direction": 64}, DEC),
    Layout(54, "DoubleErrorCounter", ECOUNTER, {**DDM, **FAC, **MET}, DEC),
    Layout(
        59, "Diagnostics",
        HEAD + "bit_control:bits name:t23 " + DAILY + "mask_1_of_status_archive:u4 "
        "mask_2_of_status_archive:u4 mask_1_of_alarm:u4 mask_2_of_alarm:u4 "
        "mask_1_of_calling_to_dispatching:u4 mask_2_of_calling_to_dispatching:u4 "
        "action_during_change:u1", {**DDM, **FAC},
    ),
    Layout(61, "DeviceError", ALARM, BB, ACT),
    Layout(62, "SumOfAlarms", ALARM, BB, ACT),
    Layout(65, "Timer", HEAD + "bit_control:bits name:t23 " + DAILY, {**DDM, **MET}),
    Layout(68, "TariffCounter", TARIFF, {**DDM, **FAC, **MET}, DEC),
    Layout(
        69, "BaseTariffCounter",
        HEAD + "bit_control:bits name:t23 unit:t8 number_of_base_counter:u1 tariff:u1 " + BILL,
        {**DDM, **FAC, **MET}, DEC,
    ),
    Layout(
        70, "SetPoint",
        BHEAD + "bit_control:bits name:t23 value_of_limit:f4 type_of_primary_quantity:u1 "
        "number_of_primary_quantity:u1", {**BB, "active_indicator": 64}, ACT,
    ),
    Layout(72, "DifferenceCounter", DIFF, {**DDM, "is_double": 8, **MET}, DEC),
    Layout(73, "DifferenceBaseCounter", DIFF, {**DDM, "is_double": 8, **MET}, DEC),
    Layout(74, "CompressibilityZ", COMPR, {**DDM, **MET}, DEC),
    Layout(75, "CompressibilityZBase", COMPR, {**DDM, **MET}, DEC),
    Layout(77, "Energy", ENERGY, {**DDM, **FAC, **MET}, DEC),
    Layout(78, "ErrorEnergy", ENERGY, {**DDM, **FAC, **MET}, DEC),
    Layout(79, "DoubleTariffCounter", TARIFF, {**DDM, **FAC, **MET}, DEC),
    Layout(80, "AnalogStatistics", STAT, {**DDM, **MET}, DEC),
    Layout(81, "CounterStatistics", CSTAT, {**DDM, **MET}),
    Layout(82, "StandardCounterStatistics", CSTAT, {**DDM, **MET}),
    Layout(83, "Statistics", STAT, {**DDM, **MET}, DEC),
    Layout(84, "AnalogTimeStatistics", STAT, {**DDM, **MET}, DEC),
    Layout(85, "TimeStatistics", STAT, {**DDM, **MET}, DEC),
    Layout(141, "Modem", MODEM),
]
BY_CODE = {l.code: l for l in L}
UNDECODABLE = (61, 62)  # see KNOWN_FINDINGS.txt
DECODABLE = [l for l in L if l.code not in UNDECODABLE]


# -- generating records ----------------------------------------------------

TEXT_POOL = (
    b"Primary volume Vm", b"MJ/m3\x003", b"\xb0C", b"m3", b"%", b"bar", b"", b" lead",
    b"trail ", b"a\x00b", b"0123456789", b"\r\n", b"\x1b\x0d\x8d", b"\xff\xfe", b"Sm\xb3/h",
)


def gen_text(rng, n):
    mode = rng.randrange(6)
    if mode == 0:
        t = rng.choice(TEXT_POOL)[: n - 1]
    elif mode == 1:  # fills the field, no terminator
        return bytes(rng.randrange(33, 256) for _ in range(n))
    elif mode == 2:
        return bytes(n)
    elif mode == 3:  # arbitrary bytes with NULs anywhere
        return bytes(rng.choice((0, 0, 32, rng.randrange(256))) for _ in range(n))
    else:
        t = bytes(rng.randrange(32, 256) for _ in range(rng.randrange(0, n)))
    return t + bytes(n - len(t))


def gen_int(rng, n):
    top = 256**n - 1
    mode = rng.randrange(8)
    if mode == 0:
        return 0
    if mode == 1:
        return top
    if mode == 2:
        return min(top, rng.choice((1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 2**24, 2**31)))
    if mode == 3:
        return 1 << rng.randrange(8 * n)
    return rng.randrange(top + 1)


F_POOL = (0.0, -0.0, 1.0, -1.0, 101.325, 0.0015259, 1e-7, 5e-8, 1e30, -1e-30, 1e-45, 3.4028234e38, 0.1, 1e7 + 0.5)


def gen_float_bytes(rng, size, finite=True):
    fmt = "<f" if size == 4 else "<d"
    while True:
        mode = rng.randrange(4)
        if mode == 0:
            b = struct.pack(fmt, rng.choice(F_POOL))
        elif mode == 1:
            b = struct.pack(fmt, rng.uniform(-1000, 1000))
        else:
            b = rng.randbytes(size)
        if not finite or math.isfinite(struct.unpack(fmt, b)[0]):
            return b


def gen_field(rng, kind, finite=True):
    c, n = kind[0], kind[1:]
    if kind in ("bits", "access"):
        return bytes((gen_int(rng, 1),))
    if c == "u":
        return gen_int(rng, int(n)).to_bytes(int(n), "little")
    if kind in ("f4", "f4r"):
        return gen_float_bytes(rng, 4, finite)
    if kind == "f8":
        return gen_float_bytes(rng, 8, finite)
    if c == "t":
        return gen_text(rng, int(n))
    if c in "hs":
        return rng.randbytes(int(n))
    if kind == "ip":
        return rng.choice((bytes(4), b"\xff" * 4, rng.randbytes(4)))
    if kind == "gas":
        return b"".join(gen_float_bytes(rng, 4, finite) for _ in range(23))
    if kind == "rows":
        k = rng.choice((0, 1, 2, 3, 7, rng.randrange(0, 30)))
        if rng.random() < 0.05:
            k = rng.choice((127, 128, 255, rng.randrange(256)))
        rows = rng.randbytes(10 * k)
        if rng.random() < 0.1:
            rows = rows[: len(rows) // 2] + bytes(len(rows) - len(rows) // 2)
        return bytes((k,)) + rows
    raise AssertionError(kind)


def decode_field(name, kind, raw, bits):
    """Expected attribute values for one encoded field."""
    c = kind[0]
    if c == "u":
        return {name: sum(x << (8 * i) for i, x in enumerate(raw))}
    if kind == "bits":
        return {name: raw[0], **{f: (raw[0] // m) % 2 == 1 for f, m in bits.items()}}
    if kind == "access":
        return {
            **{f: (raw[0] // m) % 2 == 1 for f, m in ACCESS.items()},
            "switch_function": (raw[0] // 16) % 4,
        }
    if kind == "f4":
        return {name: struct.unpack("<f", raw)[0]}
    if kind == "f4r":
        return {name: round(struct.unpack("<f", raw)[0], 7)}
    if kind == "f8":
        return {name: struct.unpack("<d", raw)[0]}
    if c == "t":
        return {name: ref.text(raw)}
    if c == "h":
        return {name: "".join(f"{x:02x}" for x in raw)}
    if kind == "ip":
        return {name: "%d.%d.%d.%d" % tuple(raw)}
    if kind == "gas":
        return {name: dict(zip(GAS, struct.unpack("<23f", raw)))}
    if kind == "rows":
        return {
            "rows_in_window": raw[0],
            "rows": ["".join(f"{x:02x}" for x in raw[1 + 10 * i: 11 + 10 * i]) for i in range(raw[0])],
        }
    if c == "s":
        return {}
    raise AssertionError(kind)


def gen_record(rng, layout, tail=None, finite=True, override=None):
    """(record data without length/type header, expected attribute values)."""
    data, want = b"", {}
    if tail is None:
        tail = rng.random() < 0.6
    for name, kind in layout.fields:
        raw = (override or {}).get(name) or gen_field(rng, kind, finite)
        data += raw
        want.update(decode_field(name, kind, raw, layout.bits))
    for name, kind in layout.tail:
        if tail:
            raw = (override or {}).get(name) or gen_field(rng, kind, finite)
            data += raw
            want.update(decode_field(name, kind, raw, layout.bits))
        else:
            want[name] = None
    return data, want


def envelope(code, data):
    """The record as it stands in a parameter stream."""
    return struct.pack("<HB", len(data) + 3, code) + data


def same_value(got, want):
    if isinstance(want, float):
        if isinstance(got, bool) or not isinstance(got, (float, int)):
            return False
        if math.isnan(want):
            return math.isnan(got)
        return got == want and math.copysign(1, got) == math.copysign(1, want)
    if isinstance(want, bool):
        return got in (0, 1) and isinstance(got, int) and bool(got) == want
    if isinstance(want, dict):  # nested gas composition
        return all(same_value(getattr(got, k, None), v) for k, v in want.items())
    if isinstance(want, list):
        return list(got) == want
    if want is None:
        return got is None
    return type(got) is type(want) and got == want or (isinstance(want, int) and isinstance(got, int) and not isinstance(got, bool) and got == want)


def compare(obj, layout, want):
    """List of differences between a decoded object and the expected values."""
    out = []
    if type(obj).__name__ != layout.cls:
        out.append(f"type {layout.code} decoded as {type(obj).__name__}, expected {layout.cls}")
        return out
    for k, v in want.items():
        if not hasattr(obj, k):
            out.append(f"{layout.cls}.{k} missing")
        elif not same_value(getattr(obj, k), v):
            out.append(f"{layout.cls}.{k} = {getattr(obj, k)!r}, expected {v!r}")
    return out
