"""Reference model of the ELGAS wire format, written from its description alone.

Nothing here imports the code under test; AES comes from the `cryptography` package.
"""

import calendar
import math
import struct
from datetime import datetime, timedelta, timezone, tzinfo

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

STX, END = 0x02, 0x0D
REQUEST, ENC_REQUEST, RESPONSE, ENC_RESPONSE = 0x84, 0x85, 0x86, 0x87

READ_VALUES, READ_TIME, READ_PARAMS = 0x64, 0x6C, 0x70
WRITE_TIME, READ_ARCHIVE, READ_ARCHIVE_TIME, CALL = 0x71, 0x7C, 0x7D, 0x87
SERVICES = (
    0x64, 0x65, 0x67, 0x7B, 0x68, 0x7C, 0x6C, 0x70, 0x71, 0x77, 0x79, 0x87, 0x91, 0x7D,
)  # fmt: skip
ANSWERED = (READ_VALUES, READ_TIME, READ_PARAMS, READ_ARCHIVE_TIME, READ_ARCHIVE, WRITE_TIME)

MAX_PAYLOAD = 0xFFFF - 15


# -- byte stuffing -----------------------------------------------------------------------

_PAIR = {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}
_BACK = {0x0E: 0x0D, 0x1B: 0x1B, 0x0F: 0x8D}


def stuff(frame):
    assert frame[-1] == END
    out = bytearray()
    for b in frame[:-1]:
        out += _PAIR.get(b) or bytes((b,))
    out.append(END)
    return bytes(out)


def unstuff(wire):
    """None when the bytes are not the stuffed form of anything."""
    out = bytearray()
    i = 0
    while i < len(wire) - 1:
        b = wire[i]
        if b == 0x1B:
            if i + 1 >= len(wire) - 1 or wire[i + 1] not in _BACK:
                return None
            out.append(_BACK[wire[i + 1]])
            i += 2
        else:
            out.append(b)
            i += 1
    if len(wire) == 0 or wire[-1] != END:
        return None
    out.append(END)
    return bytes(out)


def loose_unstuff(wire):
    """Every known pair replaced from left to right, anything else kept."""
    out = bytearray()
    i = 0
    while i < len(wire):
        b = wire[i]
        if b == 0x1B and i + 1 < len(wire):
            n = wire[i + 1]
            if n in _BACK:
                out.append(_BACK[n])
            else:
                out += bytes((b, n))
            i += 2
        else:
            out.append(b)
            i += 1
    return bytes(out)


# -- check bytes and frames --------------------------------------------------------------


def checks(data):
    x = s = d = 0
    for b in data:
        x ^= b
        s += b
        d = ((d << 1) | (d >> 7)) & 0xFF ^ b
    return bytes((x, s & 0xFF, d))


def build_frame(kind, service, dst1, dst2, src1, src2, payload, length=None):
    if length is None:
        length = len(payload) + 15
    body = bytes((0xFE, kind, service)) + struct.pack(
        "<HHBHB", length & 0xFFFF, dst1, dst2, src1, src2
    )
    body += bytes(payload)
    return b"\x02" + body + checks(body) + b"\x0d"


def valid_frame(data, kind):
    """Whether data is a complete, correct frame of that kind."""
    return (
        len(data) >= 16
        and data[0] == 0x02
        and data[1] == 0xFE
        and data[2] == kind
        and data[-1] == END
        and data[3] in SERVICES
        and data[4] | data[5] << 8 == len(data) - 1
        and checks(data[1:-4]) == data[-4:-1]
    )


def split_frame(data):
    dst1, dst2, src1, src2 = struct.unpack("<HBHB", data[6:12])
    return {
        "kind": data[2],
        "service": data[3],
        "dst1": dst1,
        "dst2": dst2,
        "src1": src1,
        "src2": src2,
        "payload": data[12:-4],
    }


# -- encryption --------------------------------------------------------------------------


def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = crc >> 1 ^ 0xA001 if crc & 1 else crc >> 1
    return struct.pack("<H", crc)


def aes(key):
    return Cipher(algorithms.AES(key), modes.CBC(key))


def padding_needed(n):
    return -(n + 2) % 16


def encrypt(payload, key, key_id, padding, stated=None):
    header = struct.pack("<HB", len(payload) if stated is None else stated, key_id)
    inner = bytes(payload) + padding
    inner += crc16(header + inner)
    e = aes(key).encryptor()
    return header + e.update(inner) + e.finalize()


def open_cipher(data, key):
    """(stated length, key id, clear text without CRC, CRC correct) or None."""
    if len(data) < 3 + 16 or (len(data) - 3) % 16:
        return None
    stated, key_id = struct.unpack("<HB", data[:3])
    d = aes(key).decryptor()
    clear = d.update(bytes(data[3:])) + d.finalize()
    return stated, key_id, clear[:-2], crc16(bytes(data[:3]) + clear[:-2]) == clear[-2:]


def decrypt(data, key, key_id):
    """The payload, or None if it has to be refused."""
    got = open_cipher(data, key)
    if got is None:
        return None
    stated, kid, clear, good = got
    if kid != key_id or not good or stated > len(clear):
        return None
    return clear[:stated]


# -- timestamps --------------------------------------------------------------------------


def bcd(n):
    return bytes((n // 10 << 4 | n % 10,))


def time_bytes(t, flags=0):
    out = bcd(t.second) + bcd(t.minute) + bytes((bcd(t.hour)[0] | flags,))
    return out + bcd(t.day) + bcd(t.month) + bcd(t.year - 2000)


def parse_time(data):
    """(datetime, dst, supports) or None."""
    if len(data) != 6:
        return None
    d = bytearray(data)
    dst, supports = bool(d[2] & 0x80), bool(d[2] & 0x40)
    d[2] &= 0x3F
    nums = []
    for b in d:
        if b >> 4 > 9 or b & 15 > 9:
            return None
        nums.append((b >> 4) * 10 + (b & 15))
    s, mi, h, day, mo, y = nums
    y += 2000
    if s > 59 or mi > 59 or h > 23 or not 1 <= mo <= 12:
        return None
    if not 1 <= day <= calendar.monthrange(y, mo)[1]:
        return None
    return datetime(y, mo, day, h, mi, s), dst, supports


EPOCH = datetime(2000, 1, 1)


def gen_time(s):
    """A timestamp from 2000 to 2099, whole seconds."""
    year = 2000 + s.int(0, 99)
    if s.chance(0.06):
        # within the hour that many zones leave out, or have twice
        month, sunday = s.choice(((3, -1), (3, 1), (10, -1), (11, 0)))
        sundays = [w[6] for w in calendar.Calendar().monthdayscalendar(year, month) if w[6]]
        return datetime(year, month, sundays[sunday], s.int(1, 2), s.int(0, 59), s.int(0, 59))
    month = s.int(1, 12)
    last = calendar.monthrange(year, month)[1]
    day = s.int(1, last)
    return datetime(year, month, day, s.int(0, 23), s.int(0, 59), s.int(0, 59))


class Zone(tzinfo):
    def __init__(self, offset, dst):
        self.offset, self.summer = timedelta(minutes=offset), timedelta(minutes=dst)

    def utcoffset(self, t):
        return self.offset

    def dst(self, t):
        return self.summer

    def tzname(self, t):
        return "zone"


def with_extras(s, t):
    """The same date and time of day with a fraction of a second, a time zone, a fold."""
    zone = s.choice(
        (None, timezone.utc, timezone(timedelta(minutes=s.int(-1439, 1439))),
         Zone(s.int(-720, 840), s.choice((0, 30, 60, 120))))
    )
    fraction = s.weighted([(1, 0), (1, 999999), (2, s.int(0, 999999))])
    return t.replace(microsecond=fraction, tzinfo=zone, fold=s.int(0, 1))


# -- texts -------------------------------------------------------------------------------


def text_values(raw):
    """The acceptable readings of a text field (blanks trimmed as ASCII or as Unicode)."""
    i = raw.rfind(b"\x00")
    if i >= 0:
        raw = raw[:i]
    raw = raw.replace(b"\x00", b" ")
    return raw.strip().decode("latin-1"), raw.decode("latin-1").strip()


def gen_text(s, n):
    """n raw bytes of a text field."""
    mode = s.weighted(
        [(6, "padded"), (2, "inner"), (2, "garbage"), (1, "full"), (1, "raw"), (1, "blank")]
    )
    if mode == "raw":
        return s.bytes(n)
    if mode == "blank":
        return bytes(s.choice((0, 32)) for _ in range(min(n, 6))) + bytes(max(0, n - 6))
    if mode == "full":
        raw = s.bytes(n)
        return bytes(b or 0x41 for b in raw)
    k = s.int(0, n - 1)
    txt = bytes(b or 0x20 for b in s.bytes(k))
    if mode == "padded":
        return txt + bytes(n - k)
    if mode == "inner":
        b = bytearray(txt)
        for _ in range(s.int(1, 3)):
            if b:
                b[s.int(0, len(b) - 1)] = 0
        if b and s.bool():
            b[0] = 0x20
        return bytes(b) + bytes(n - k)
    tail = s.bytes(n - k - 1)
    return txt + b"\x00" + tail


# -- parameter objects -------------------------------------------------------------------

HEAD = [
    ("u16", "number"),
    ("u16", "id"),
    ("u16", "address_in_actual_values"),
    ("u16", "address_in_data_archive_record"),
]
BIT_HEAD = [
    ("u16", "number"),
    ("u16", "id"),
    ("u16", "bit_order_in_actual_values"),
    ("u16", "bit_order_in_data_archive_record"),
    ("u16", "bit_order_in_binary_archive_record"),
]
DAILY_MONTHLY = [
    ("u16", "address_in_daily_archive_record"),
    ("u16", "address_in_monthly_archive_record"),
]
BILLING = DAILY_MONTHLY + [("u16", "address_in_billing_archive_record")]
NAME = [("t23", "name")]
NAME_UNIT = NAME + [("t8", "unit")]
DECIMALS = [("opt", [("u8", "decimals")])]
ACTION = [
    ("opt", [("u8", "action_during_change"), ("t13", "text_log_0"), ("t13", "text_log_1")])
]


def bits(**flags):
    return [("bits", ("bit_control", flags))]


ARCH = {"in_data_archive": 1, "in_daily_archive": 2, "in_monthly_archive": 4}
FACT = {"in_factory_archive": 8}
METRO = {"is_metrological_quantity": 16}
BINARY_BITS = {"in_binary_archive": 1, "in_data_archive": 2}
GAS = (
    "co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 ic4h10"
    " nc4h10 ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22"
).split()


def u16s(*names):
    return [("u16", n) for n in names]


def u8s(*names):
    return [("u8", n) for n in names]


ERR = u16s(
    "error_bit_order_in_actual_values",
    "error_bit_order_in_binary_archive",
    "error_bit_order_in_data_archive",
)
ERR_REC = u16s(
    "error_bit_order_in_actual_values",
    "error_bit_order_in_binary_archive_record",
    "error_bit_order_in_data_archive_record",
)

_compress = (
    HEAD
    + bits(**ARCH, **METRO)
    + NAME
    + u8s("number_of_conversion_coefficient")
    + DAILY_MONTHLY
    + DECIMALS
)
_counter = (
    HEAD
    + bits(**ARCH, **FACT, **METRO, accept_counting_direction=0x40)
    + NAME_UNIT
    + [("f8", "digit"), ("u32", "serial_number_of_gas_meter")]
    + ERR
    + BILLING
    + [("t17", "serial_number_of_gas_meter_text")]
    + DECIMALS
)
_error_counter = (
    HEAD
    + bits(**ARCH, **FACT, **METRO)
    + NAME_UNIT
    + [("f8", "digit"), ("u8", "number_of_primary_counter")]
    + BILLING
    + DECIMALS
)
_energy = (
    HEAD
    + bits(**ARCH, **FACT, **METRO)
    + NAME_UNIT
    + u8s("number_of_standard_counter", "number_of_calorific_value", "number_of_conversion")
    + BILLING
    + DECIMALS
)
_tariff = (
    HEAD
    + bits(**ARCH, **FACT, **METRO)
    + NAME_UNIT
    + [("f8", "digit"), ("u8", "number_of_primary_counter"), ("u8", "tariff")]
    + BILLING
    + DECIMALS
)
_analog_stat = (
    HEAD
    + bits(**ARCH, **METRO)
    + NAME_UNIT
    + [("f4r", "digit"), ("f4", "offset")]
    + u8s("number_of_primary_quantity", "statistics_type")
    + DAILY_MONTHLY
    + DECIMALS
)
_counter_stat = (
    HEAD
    + bits(**ARCH, **METRO)
    + NAME_UNIT
    + [("f8", "digit")]
    + u8s("type_of_primary_quantity", "number_of_primary_quantity", "statistics_type")
    + DAILY_MONTHLY
)
_alarm = BIT_HEAD + bits(**BINARY_BITS) + NAME + ACTION

LAYOUTS = {
    0: (
        "SystemParameters",
        [
            ("u8", "device_type"),
            ("u32", "serial_number"),
            ("t5", "firmware_version"),
            ("u8", "service_version"),
            ("u8", "certification_variant"),
            ("t17", "station_id"),
            ("access", None),
            ("u16", "parameter_crc"),
            ("u8", "measuring_period"),
            ("u16", "archive_period"),
            ("f4", "base_pressure"),
            ("f4", "base_temperature"),
            ("u8", "compressibility_formula"),
            ("gas", "gas_composition"),
        ]
        + u16s(
            "data_archive_record_length",
            "binary_archive_record_length",
            "daily_archive_record_length",
            "monthly_archive_record_length",
            "instantaneous_values_error_bit_order",
            "binary_archive_record_error_bit_order",
            "data_archive_record_error_bit_order",
        )
        + u8s(
            "optical_port_speed",
            "optical_port_protocol",
            "optical_port_bit_control",
            "communication_port_0_speed",
            "communication_port_0_protocol",
            "communication_port_0_bit_control",
            "communication_port_1_speed",
            "communication_port_1_protocol",
            "communication_port_1_bit_control",
            "communication_port_2_speed",
            "communication_port_2_protocol",
            "communication_port_2_bit_control",
            "gas_day_hour",
        )
        + [
            ("f4", "fixed_barometric_pressure"),
            ("f4", "altitude"),
            ("skip", 17),
            ("u16", "status_archive_record_length"),
            ("u8", "pressure_unit_type"),
            ("t8", "pressure_unit_text"),
            ("u8", "temperature_unit_type"),
            ("t8", "temperature_unit_text"),
            ("u8", "altitude_unit_type"),
            ("t8", "altitude_unit_text"),
            ("u8", "gross_calorific_value_type"),
            ("t8", "gross_calorific_value_text"),
            ("u8", "dst_region"),
            ("u8", "gmt_hour_shift"),
            ("u16", "billing_archive_record_length"),
            ("u8", "conditions_for_combustion_heat"),
            ("u8", "device_variant"),
            ("skip", 1),
            ("u8", "bit_control"),
            ("u8", "places_for_corrected_volume_counters"),
            ("u8", "device_features_bits"),
            ("h16", "device_features"),
            ("t5", "version_metrological_part"),
            ("u16", "metrological_crc"),
            ("u32", "metrological_crc_32"),
            ("u32", "application_crc_32"),
        ],
    ),
    30: (
        "AnalogQuantity",
        HEAD
        + bits(**ARCH, **METRO, in_fast_archive_1=0x20, in_fast_archvie_2=0x40)
        + NAME_UNIT
        + [
            ("f4r", "digit"),
            ("f4", "offset"),
            ("f4r", "lower_limit_measuring_range"),
            ("f4", "upper_limit_measuring_range"),
            ("u32", "serial_number_transducer"),
        ]
        + ERR
        + DAILY_MONTHLY
        + u8s("samples_in_fast_archive")
        + DECIMALS,
    ),
    31: ("Binary", BIT_HEAD + bits(**BINARY_BITS, active_indicator=0x40) + NAME + ERR_REC + ACTION),
    32: ("Counter", _counter),
    33: (
        "StandardCounter",
        HEAD
        + bits(**ARCH, **FACT, **METRO)
        + NAME_UNIT
        + u8s("number_of_primary_counter", "number_of_conversion")
        + BILLING
        + DECIMALS,
    ),
    34: ("FlowRate", HEAD + bits(**ARCH, **METRO) + NAME_UNIT + ERR + DAILY_MONTHLY + DECIMALS),
    35: (
        "StandardFlowRate",
        HEAD
        + bits(**ARCH, **METRO)
        + NAME_UNIT
        + u8s("number_of_primary_flow_rate", "number_of_conversion")
        + DAILY_MONTHLY
        + DECIMALS,
    ),
    36: (
        "ConversionCoefficient",
        HEAD
        + bits(**ARCH, **METRO)
        + NAME
        + u8s(
            "number_of_analog_pressure",
            "number_of_analog_temperature",
            "compressibility_calculation_method",
        )
        + [
            ("f4", "default_value_pressure"),
            ("f4", "default_value_temperature"),
            ("f4", "alternate_value_of_compressibility"),
        ]
        + DAILY_MONTHLY
        + DECIMALS,
    ),
    45: ("ErrorCounter", _error_counter),
    46: (
        "ErrorStandardCounter",
        HEAD
        + bits(**ARCH, **FACT, **METRO)
        + NAME_UNIT
        + u8s("number_of_standard_counter")
        + BILLING
        + DECIMALS,
    ),
    47: ("Compressibility", _compress),
    48: (
        "TimeWindow",
        BIT_HEAD + bits(**BINARY_BITS) + NAME + [("rows", ("rows_in_window", "rows"))] + ACTION,
    ),
    49: ("CorrectionCounter", _error_counter),
    53: ("DoubleCounter", _counter),
    54: ("DoubleErrorCounter", _error_counter),
    59: (
        "Diagnostics",
        HEAD
        + bits(**ARCH, **FACT)
        + NAME
        + DAILY_MONTHLY
        + [
            ("u32", "mask_1_of_status_archive"),
            ("u32", "mask_2_of_status_archive"),
            ("u32", "mask_1_of_alarm"),
            ("u32", "mask_2_of_alarm"),
            ("u32", "mask_1_of_calling_to_dispatching"),
            ("u32", "mask_2_of_calling_to_dispatching"),
            ("u8", "action_during_change"),
        ],
    ),
    61: ("DeviceError", _alarm),
    62: ("SumOfAlarms", _alarm),
    65: ("Timer", HEAD + bits(**ARCH, **METRO) + NAME + DAILY_MONTHLY),
    68: ("TariffCounter", _tariff),
    69: (
        "BaseTariffCounter",
        HEAD
        + bits(**ARCH, **FACT, **METRO)
        + NAME_UNIT
        + u8s("number_of_base_counter", "tariff")
        + BILLING
        + DECIMALS,
    ),
    70: (
        "SetPoint",
        BIT_HEAD
        + bits(**BINARY_BITS, active_indicator=0x40)
        + NAME
        + [("f4", "value_of_limit")]
        + u8s("type_of_primary_quantity", "number_of_primary_quantity")
        + ACTION,
    ),
    72: (
        "DifferenceCounter",
        HEAD
        + bits(**ARCH, is_double=8, **METRO)
        + NAME_UNIT
        + [("f8", "digit"), ("u8", "number_of_primary_counter")]
        + BILLING
        + DECIMALS,
    ),
    73: ("DifferenceBaseCounter", None),
    74: ("CompressibilityZ", _compress),
    75: ("CompressibilityZBase", _compress),
    77: ("Energy", _energy),
    78: ("ErrorEnergy", _energy),
    79: ("DoubleTariffCounter", _tariff),
    80: ("AnalogStatistics", _analog_stat),
    81: ("CounterStatistics", _counter_stat),
    82: ("StandardCounterStatistics", _counter_stat),
    83: ("Statistics", _analog_stat),
    84: ("AnalogTimeStatistics", _analog_stat),
    85: ("TimeStatistics", _analog_stat),
    141: (
        "Modem",
        u8s("number", "bit_control_0")
        + [
            ("t7", "title"),
            ("u8", "modem_type"),
            ("t32", "initialization"),
            ("t32", "call_to_dispatching"),
            ("t8", "modem_hang_up"),
            ("t80", "special_initialization"),
            ("ip", "ip_address_for_registration_and_diagnostics"),
            ("ip", "ip_address_for_calling_to_dispatching"),
            ("u8", "registration_send_period"),
            ("u8", "authentication_mode"),
            ("u16", "port_for_registration"),
            ("u16", "port_for_calling_to_dispatching"),
            ("t32", "sms_call"),
            ("t49", "gprs_user_name"),
            ("h33", "gprs_password"),
            ("ip", "ip_address_for_ping"),
            ("u16", "ping_period"),
            ("t8", "transition_into_command_mode"),
            ("h9", "pin"),
            ("t17", "owner_sim_number"),
        ],
    ),
}

UNDECODABLE = (61, 62, 73)  # recorded findings: no documented layout matches the class
TYPES = tuple(t for t in LAYOUTS if t not in UNDECODABLE)


def fixed_bytes(items):
    """Bytes taken by the fixed-size entries of a layout."""
    total = 0
    for kind, arg in items:
        if kind[0] in "th":
            total += int(kind[1:])
        else:
            total += {
                "u8": 1, "u16": 2, "u32": 4, "f4": 4, "f4r": 4, "f8": 8, "ip": 4, "bits": 1,
                "access": 1, "gas": 92, "opt": 0, "rows": 1,
            }.get(kind, arg if kind == "skip" else 0)  # fmt: skip
    return total


class Text:
    """Expected value of a text field."""

    def __init__(self, raw):
        self.options = text_values(raw)

    def __repr__(self):
        return repr(self.options[0])


def same(got, want):
    """Whether a decoded field has the expected value (NaN equals NaN)."""
    if isinstance(want, Text):
        return isinstance(got, str) and got in want.options
    if isinstance(want, bool):
        return got in (0, 1) and bool(got) == want
    if isinstance(want, float):
        if not isinstance(got, (int, float)) or isinstance(got, bool):
            return False
        if math.isnan(want):
            return math.isnan(got)
        return got == want
    if isinstance(want, int):
        return isinstance(got, int) and not isinstance(got, bool) and got == want
    if want is None:
        return got is None
    if isinstance(want, dict):
        return all(same(getattr(got, k, None), v) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and list(got) == want
    return type(got) is type(want) and got == want


UNUSUAL = (float("inf"), float("-inf"), float("nan"), -0.0)


def gen_f4(s, finite):
    if not finite and s.chance(0.3):
        return struct.pack("<f", s.choice(UNUSUAL))
    if s.chance(0.5):
        v = s.choice((0.0, 1.0, -1.0, 0.5, 101.325, 15.0, 1e-7, 1e7, -273.15, 0.0000001, 3e38))
        return struct.pack("<f", v)
    b = bytearray(s.bytes(4))
    if finite and b[3] & 0x7F == 0x7F and b[2] & 0x80:
        b[3] ^= 0x40
    return bytes(b)


def gen_f8(s, finite):
    if not finite and s.chance(0.3):
        return struct.pack("<d", s.choice(UNUSUAL))
    if s.chance(0.5):
        v = s.choice((0.0, 1.0, -1.0, 0.01, 0.1, 10.0, 1e-300, 1e300, 1 / 3, 5e-324))
        return struct.pack("<d", v)
    b = bytearray(s.bytes(8))
    if finite and b[7] & 0x7F == 0x7F and b[6] & 0xF0 == 0xF0:
        b[7] ^= 0x40
    return bytes(b)


def round7(x):
    return round(x, 7)


def encode_items(s, items, finite, optional, expected, out):
    for kind, arg in items:
        if kind == "u8":
            v = s.u8()
            out.append(v)
            expected[arg] = v
        elif kind == "u16":
            v = s.u16()
            out += struct.pack("<H", v)
            expected[arg] = v
        elif kind == "u32":
            v = s.u32()
            out += struct.pack("<I", v)
            expected[arg] = v
        elif kind in ("f4", "f4r"):
            raw = gen_f4(s, finite)
            v = struct.unpack("<f", raw)[0]
            out += raw
            expected[arg] = round7(v) if kind == "f4r" else v
        elif kind == "f8":
            raw = gen_f8(s, finite)
            out += raw
            expected[arg] = struct.unpack("<d", raw)[0]
        elif kind == "ip":
            raw = s.bytes(4)
            out += raw
            expected[arg] = "%d.%d.%d.%d" % tuple(raw)
        elif kind == "bits":
            name, flags = arg
            v = s.u8()
            out.append(v)
            expected[name] = v
            for flag, mask in flags.items():
                expected[flag] = bool(v & mask)
        elif kind == "access":
            v = s.u8()
            out.append(v)
            expected["password_for_full_access_active"] = bool(v & 1)
            expected["password_for_reading_is_on"] = bool(v & 2)
            expected["metrological_switch"] = bool(v & 4)
            expected["user_switch"] = bool(v & 8)
            expected["switch_function"] = v >> 4 & 3
        elif kind == "gas":
            values = {}
            for g in GAS:
                raw = gen_f4(s, finite)
                out += raw
                values[g] = struct.unpack("<f", raw)[0]
            expected[arg] = values
        elif kind == "skip":
            out += s.bytes(arg)
        elif kind == "rows":
            n = s.int(0, 255) if s.chance(0.2) else s.int(0, 4)
            out.append(n)
            rows = [s.bytes(10) for _ in range(n)]
            for r in rows:
                out += r
            expected[arg[0]] = n
            expected[arg[1]] = [r.hex() for r in rows]
        elif kind == "opt":
            if optional:
                encode_items(s, arg, finite, optional, expected, out)
            else:
                for _, name in arg:
                    expected[name] = None
        elif kind[0] == "t":
            raw = gen_text(s, int(kind[1:]))
            out += raw
            expected[arg] = Text(raw)
        elif kind[0] == "h":
            raw = s.bytes(int(kind[1:]))
            out += raw
            expected[arg] = raw.hex()
        else:
            raise AssertionError(kind)


class Obj:
    """A generated parameter object: its bytes and the expected fields."""

    def __init__(self, type_number, data, expected, optional):
        self.type = type_number
        self.name = LAYOUTS[type_number][0]
        self.data = data
        self.expected = expected
        self.optional = optional

    def block(self):
        return struct.pack("<HB", len(self.data) + 3, self.type) + self.data

    def mismatch(self, got):
        """None, or what is wrong with the decoded object."""
        if type(got).__name__ != self.name:
            return f"type {self.type} gave a {type(got).__name__}, not a {self.name}"
        if getattr(got, "object_type", None) != self.type:
            return f"object_type is {getattr(got, 'object_type', None)!r}, not {self.type}"
        for field, want in self.expected.items():
            if not hasattr(got, field):
                return f"{self.name} has no field {field}"
            value = getattr(got, field)
            if not same(value, want):
                return f"{self.name}.{field} is {value!r}, transmitted was {want!r}"
        return None


def has_optional(t):
    return any(kind == "opt" for kind, _ in LAYOUTS[t][1])


def gen_object(s, type_number=None, finite=True, types=TYPES):
    t = s.choice(types) if type_number is None else type_number
    optional = has_optional(t) and s.chance(0.6)
    expected, out = {}, bytearray()
    encode_items(s, LAYOUTS[t][1], finite, optional, expected, out)
    return Obj(t, bytes(out), expected, optional)


def gen_small_object(s, finite=True):
    """An object that is cheap to generate (for long blocks)."""
    return gen_object(s, s.choice((65, 34, 47, 33, 31, 78, 82)), finite)


def plus_seconds(n):
    return EPOCH + timedelta(seconds=n)
