"""Layouts and decoders of the parameter objects (C15)."""
import math

from elgas.parameters.factory import *
from elgas.parameters.gas_composition import GasComposition

from contracts.codec_c import clean_text, dotted
from dv.vlib import *

TEXTS = [b"", b"Vb1\x00", b"  m3 \x00\x00", b"\x00abc \x00", b"\xe9\x85 x", b"\x1c\x1f\xa0\x09"]


def layout(text):
    """list of (name, kind, size) of a description "name kind" separated by commas"""
    out = []
    for part in text.split(","):
        part = part.strip()
        if not part:
            continue
        name, kind = part.split()
        out.append((name, kind, size_of(kind)))
    return out


SIZES = {"b": 1, "w": 2, "l": 4, "f": 4, "f7": 4, "d": 8, "ip": 4, "gas": 92}


def size_of(kind):
    if kind[0] == "&":
        return 0
    if kind in SIZES:
        return SIZES[kind]
    return int(kind[1:])


def Q(bits, unit=True):
    """head of quantities: & marks a bit of the byte before"""
    flags = "".join(", %s &%d" % (n, m) for n, m in bits)
    return "number w, id w, address_in_actual_values w, address_in_data_archive_record w, bit_control b, in_data_archive &1, in_daily_archive &2, in_monthly_archive &4%s, name t23%s, " % (flags, ", unit t8" if unit else "")


def B(bits=()):
    """head of binary-like objects"""
    flags = "".join(", %s &%d" % (n, m) for n, m in bits)
    return "number w, id w, bit_order_in_actual_values w, bit_order_in_data_archive_record w, bit_order_in_binary_archive_record w, bit_control b, in_binary_archive &1, in_data_archive &2%s, name t23, " % flags


MET = ("is_metrological_quantity", 16)
FACT = ("in_factory_archive", 8)
ACTIVE = ("active_indicator", 64)
DAYMONTH = "address_in_daily_archive_record w, address_in_monthly_archive_record w, "
BILLING = DAYMONTH + "address_in_billing_archive_record w, "
ERRORS = "error_bit_order_in_actual_values w, error_bit_order_in_binary_archive w, error_bit_order_in_data_archive w, "
DECIMALS = "decimals b"
LOG = "action_during_change b, text_log_0 t13, text_log_1 t13"

PORTS = "".join("%s_speed b, %s_protocol b, %s_bit_control b, " % (p, p, p) for p in ("optical_port", "communication_port_0", "communication_port_1", "communication_port_2"))
UNITS = "".join("%s_type b, %s_text t8, " % (p, p) for p in ("pressure_unit", "temperature_unit", "altitude_unit", "gross_calorific_value"))
SYSTEM = (
    "device_type b, serial_number l, firmware_version t5, service_version b, certification_variant b, station_id t17, "
    "_access b, password_for_full_access_active &1, password_for_reading_is_on &2, metrological_switch &4, user_switch &8, switch_function &4-5, "
    "parameter_crc w, measuring_period b, archive_period w, base_pressure f, base_temperature f, compressibility_formula b, gas_composition gas, "
    "data_archive_record_length w, binary_archive_record_length w, daily_archive_record_length w, monthly_archive_record_length w, "
    "instantaneous_values_error_bit_order w, binary_archive_record_error_bit_order w, data_archive_record_error_bit_order w, "
    + PORTS
    + "gas_day_hour b, fixed_barometric_pressure f, altitude f, _unused x17, status_archive_record_length w, "
    + UNITS
    + "dst_region b, gmt_hour_shift b, billing_archive_record_length w, conditions_for_combustion_heat b, device_variant b, _unused x1, bit_control b, "
    "places_for_corrected_volume_counters b, device_features_bits b, device_features h16, version_metrological_part t5, metrological_crc w, metrological_crc_32 l, application_crc_32 l"
)
MODEM = (
    "number b, bit_control_0 b, title t7, modem_type b, initialization t32, call_to_dispatching t32, modem_hang_up t8, special_initialization t80, "
    "ip_address_for_registration_and_diagnostics ip, ip_address_for_calling_to_dispatching ip, registration_send_period b, authentication_mode b, "
    "port_for_registration w, port_for_calling_to_dispatching w, sms_call t32, gprs_user_name t49, gprs_password h33, ip_address_for_ping ip, ping_period w, "
    "transition_into_command_mode t8, pin h9, owner_sim_number t17"
)
ANALOG = (
    Q([MET, ("in_fast_archive_1", 32), ("in_fast_archvie_2", 64)])
    + "digit f7, offset f, lower_limit_measuring_range f7, upper_limit_measuring_range f, serial_number_transducer l, "
    + ERRORS + DAYMONTH + "samples_in_fast_archive b"
)
COUNTER = (
    Q([FACT, MET, ("accept_counting_direction", 64)])
    + "digit d, serial_number_of_gas_meter l, " + ERRORS + BILLING + "serial_number_of_gas_meter_text t17"
)
ERROR_COUNTER = Q([FACT, MET]) + "digit d, number_of_primary_counter b, " + BILLING
DIFFERENCE = Q([("is_double", 8), MET]) + "digit d, number_of_primary_counter b, " + BILLING
ENERGY = Q([FACT, MET]) + "number_of_standard_counter b, number_of_calorific_value b, number_of_conversion b, " + BILLING
TARIFF = Q([FACT, MET]) + "digit d, number_of_primary_counter b, tariff b, " + BILLING
COMPRESS = Q([MET], unit=False) + "number_of_conversion_coefficient b, " + DAYMONTH
STATS = Q([MET]) + "digit f7, offset f, number_of_primary_quantity b, statistics_type b, " + DAYMONTH
COUNTER_STATS = Q([MET]) + "digit d, type_of_primary_quantity b, number_of_primary_quantity b, statistics_type b, " + DAYMONTH

OT = ParameterObjectType

# class, object type, mandatory fields, optional trailing fields
TABLE = [
    (SystemParameters, OT.SYSTEM_PARAMETER, SYSTEM, ""),
    (AnalogQuantity, OT.ANALOG_MEASURAND, ANALOG, DECIMALS),
    (Binary, OT.BINARY, B([ACTIVE]) + "error_bit_order_in_actual_values w, error_bit_order_in_binary_archive_record w, error_bit_order_in_data_archive_record w", LOG),
    (Counter, OT.COUNTER, COUNTER, DECIMALS),
    (DoubleCounter, OT.DOUBLE_COUNTER, COUNTER, DECIMALS),
    (StandardCounter, OT.STANDARD_COUNTER, Q([FACT, MET]) + "number_of_primary_counter b, number_of_conversion b, " + BILLING, DECIMALS),
    (FlowRate, OT.FLOW_RATE, Q([MET]) + ERRORS + DAYMONTH, DECIMALS),
    (StandardFlowRate, OT.STANDARD_FLOW_RATE, Q([MET]) + "number_of_primary_flow_rate b, number_of_conversion b, " + DAYMONTH, DECIMALS),
    (
        ConversionCoefficient,
        OT.CONVERSION_COEFFICIENT,
        Q([MET], unit=False)
        + "number_of_analog_pressure b, number_of_analog_temperature b, compressibility_calculation_method b, default_value_pressure f, default_value_temperature f, alternate_value_of_compressibility f, "
        + DAYMONTH,
        DECIMALS,
    ),
    (ErrorCounter, OT.ERROR_COUNTER, ERROR_COUNTER, DECIMALS),
    (CorrectionCounter, OT.CORRECTION_COUNTER, ERROR_COUNTER, DECIMALS),
    (DoubleErrorCounter, OT.DOUBLE_ERROR_COUNTER, ERROR_COUNTER, DECIMALS),
    (ErrorStandardCounter, OT.ERROR_STANDARD_COUNTER, Q([FACT, MET]) + "number_of_standard_counter b, " + BILLING, DECIMALS),
    (Compressibility, OT.COMPRESSIBILITY, COMPRESS, DECIMALS),
    (CompressibilityZ, OT.COMPRESSIBILITY_Z, COMPRESS, DECIMALS),
    (CompressibilityZBase, OT.COMPRESSIBILITY_Z_BASE, COMPRESS, DECIMALS),
    (
        Diagnostics,
        OT.DIAGNOSTICS,
        Q([FACT], unit=False)
        + DAYMONTH
        + "mask_1_of_status_archive l, mask_2_of_status_archive l, mask_1_of_alarm l, mask_2_of_alarm l, mask_1_of_calling_to_dispatching l, mask_2_of_calling_to_dispatching l, action_during_change b",
        "",
    ),
    (DeviceError, OT.DEVICE_ERROR, B(), LOG),
    (SumOfAlarms, OT.SUM_OF_ALARMS, B(), LOG),
    (Timer, OT.TIMER, Q([MET], unit=False) + DAYMONTH, ""),
    (TariffCounter, OT.TARIFF_COUNTER, TARIFF, DECIMALS),
    (DoubleTariffCounter, OT.DOUBLE_TARIFF_COUNTER, TARIFF, DECIMALS),
    (BaseTariffCounter, OT.BASE_TARIFF_COUNTER, Q([FACT, MET]) + "number_of_base_counter b, tariff b, " + BILLING, DECIMALS),
    (SetPoint, OT.SET_POINT, B([ACTIVE]) + "value_of_limit f, type_of_primary_quantity b, number_of_primary_quantity b", LOG),
    (DifferenceCounter, OT.DIFFERENCE_COUNTER, DIFFERENCE, DECIMALS),
    (DifferenceBaseCounter, OT.DIFFERENCE_BASE_COUNTER, DIFFERENCE, DECIMALS),
    (Energy, OT.ENERGY, ENERGY, DECIMALS),
    (ErrorEnergy, OT.ERROR_ENERGY, ENERGY, DECIMALS),
    (AnalogStatistics, OT.ANALOG_STATISTICS, STATS, DECIMALS),
    (Statistics, OT.STATISTICS, STATS, DECIMALS),
    (AnalogTimeStatistics, OT.ANALOG_TIME_STATISTICS, STATS, DECIMALS),
    (TimeStatistics, OT.TIME_STATISTICS, STATS, DECIMALS),
    (CounterStatistics, OT.COUNTER_STATISTICS, COUNTER_STATS, ""),
    (StandardCounterStatistics, OT.STANDARD_COUNTER_STATISTICS, COUNTER_STATS, ""),
    (Modem, OT.MODEM, MODEM, ""),
]

GASES = (
    "co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 ic4h10 nc4h10 ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22"
).split()


# ---------------------------------------------------------------- meaning of a layout
def little(data):
    n = 0
    k = 1
    for b in data:
        n = n + k * b
        k = k * 256
    return n


def gas_mixture(data):
    values = {}
    i = 0
    for name in GASES:
        values[name] = float_le(data[i : i + 4], "f")
        i = i + 4
    return make(GasComposition, values)


def make(cls, values):
    """object of a class with exactly these attributes"""
    o = cls.__new__(cls)
    for name in values:
        setattr(o, name, values[name])
    return o


def value_of(kind, data):
    if kind == "b":
        return data[0]
    if kind == "w" or kind == "l":
        return little(data)
    if kind == "f":
        return float_le(data, "f")
    if kind == "f7":
        return round(float_le(data, "f"), 7)
    if kind == "d":
        return float_le(data, "d")
    if kind == "ip":
        return dotted(data)
    if kind == "gas":
        return gas_mixture(data)
    if kind[0] == "h":
        return data.hex()
    return clean_text(data)


def decoded(values, fields, data):
    """adds the fields at the start of data to values; returns the rest of data"""
    i = 0
    last = 0
    for name, kind, size in fields:
        if kind == "&4-5":
            values[name] = last // 16 % 4
        elif kind[0] == "&":
            values[name] = last // int(kind[1:]) % 2 == 1
        elif kind[0] != "x":
            value = value_of(kind, data[i : i + size])
            last = value
            if name[0] != "_":
                values[name] = value
        i = i + size


def absent(values, fields):
    for name, kind, size in fields:
        values[name] = None


def total(fields):
    return sum(size for name, kind, size in fields)


def _body(mandatory, optional):
    def gen(rng):
        out = bytearray()
        for name, kind, size in mandatory + optional:
            if kind[0] == "t" and rng.random() < 0.8:
                out += (rng.choice(TEXTS) + bytes(size))[:size]
            elif kind in ("f", "f7", "d") and rng.random() < 0.8:
                import struct

                out += struct.pack("<" + kind[0], rng.choice([0.0, 0.1, -1.5, 1e-5, 101.325, rng.uniform(-1e4, 1e4)]))
            else:
                out += rng.randbytes(size)
        k = rng.random()
        if k < 0.3:
            del out[total(mandatory) :]
        elif k < 0.4:
            del out[rng.randrange(len(out)) :]
        return bytes(out)

    return gen


# attributes that are never sent
EXTRA = {
    DeviceError: ("error_bit_order_in_actual_values", "error_bit_order_in_binary_archive_record", "error_bit_order_in_data_archive_record"),
    SumOfAlarms: ("error_bit_order_in_actual_values", "error_bit_order_in_binary_archive_record", "error_bit_order_in_data_archive_record"),
}


def declare(target, mandatory, optional):
    least = total(mandatory)
    most = least + total(optional)
    path = "%s.%s.from_bytes" % (target.__module__, target.__name__)
    unset = EXTRA.get(target, ())

    @contract(path, "C15", name="%s of a body" % target.__name__, cls=Const(target), data=Sampled(Bytes(), _body(mandatory, optional)))
    def parameter_object(cls, data):
        if len(data) < least:
            raise Reject()
        if len(data) != least and len(data) != most:
            raise Unspecified()
        values = {}
        for name in unset:
            values[name] = None
        decoded(values, mandatory, data)
        if len(data) > least:
            decoded(values, optional, data[least:])
        else:
            absent(values, optional)
        return make(cls, values)


for _cls, _type, _mandatory, _optional in TABLE:
    declare(_cls, layout(_mandatory), layout(_optional))


# ---------------------------------------------------------------- time windows
WINDOW = layout(B() + "rows_in_window b")
WINDOW_LOG = layout(LOG)
WINDOW_HEAD = total(WINDOW)
ROW = 10


def _window(rng):
    n = rng.choice([0, 1, 2, 3, 7])
    d = bytearray(_body(layout(B()), [])(rng))[:WINDOW_HEAD - 1]
    d += bytes(WINDOW_HEAD - 1 - len(d)) + bytes([n]) + rng.randbytes(ROW * n)
    k = rng.random()
    if k < 0.4:
        d += rng.randbytes(27)
    elif k < 0.6:
        del d[rng.randrange(len(d)) :]
    return bytes(d)


@contract("elgas.parameters.time_window.TimeWindow.from_bytes", "C15", name="TimeWindow of a body", cls=Const(TimeWindow), data=Sampled(Bytes(), _window))
def time_window(cls, data):
    if len(data) < WINDOW_HEAD:
        raise Reject()
    values = {}
    decoded(values, WINDOW, data)
    count = values["rows_in_window"]
    rows = []
    i = 0
    end = WINDOW_HEAD
    while i < count:
        loopvar(i=UInt(), end=UInt(), rows=Listing())
        invariant(i <= count and end == WINDOW_HEAD + ROW * i and end <= len(data) and len(rows) == i)
        ghosts(rest=data[end:], left=count - i)
        decreases(count - i)
        if len(data) < end + ROW:
            raise Reject()
        rows.append(data[end : end + ROW].hex())
        end = end + ROW
        i = i + 1
    if len(data) != end and len(data) != end + total(WINDOW_LOG):
        raise Unspecified()
    values["rows"] = rows
    if len(data) > end:
        decoded(values, WINDOW_LOG, data[end:])
    else:
        absent(values, WINDOW_LOG)
    return make(cls, values)


# ---------------------------------------------------------------- types, schemas (C17, C18)
NUMBERS = {
    0: SystemParameters, 30: AnalogQuantity, 31: Binary, 32: Counter, 33: StandardCounter, 34: FlowRate, 35: StandardFlowRate, 36: ConversionCoefficient,
    45: ErrorCounter, 46: ErrorStandardCounter, 47: Compressibility, 48: TimeWindow, 49: CorrectionCounter, 53: DoubleCounter, 54: DoubleErrorCounter,
    59: Diagnostics, 61: DeviceError, 62: SumOfAlarms, 65: Timer, 68: TariffCounter, 69: BaseTariffCounter, 70: SetPoint, 72: DifferenceCounter,
    73: DifferenceBaseCounter, 74: CompressibilityZ, 75: CompressibilityZBase, 77: Energy, 78: ErrorEnergy, 79: DoubleTariffCounter, 80: AnalogStatistics,
    81: CounterStatistics, 82: StandardCounterStatistics, 83: Statistics, 84: AnalogTimeStatistics, 85: TimeStatistics, 141: Modem,
}  # fmt: skip

NUMBER_OF = {cls: number for number, cls in NUMBERS.items()}
ROWS = [(NUMBER_OF[c], c, layout(m), layout(o)) for c, t, m, o in TABLE]


def finite(obj, fields):
    """all floating-point attributes are finite"""
    ok = True
    for name, kind, size in fields:
        if kind == "f" or kind == "f7" or kind == "d":
            ok = ok & math.isfinite(getattr(obj, name))
        if kind == "gas":
            for gas in GASES:
                ok = ok & math.isfinite(getattr(obj.gas_composition, gas))
    return ok


def declare_type(number, target, mandatory, optional):
    least = total(mandatory)
    full = mandatory + optional
    sizes = [Bytes(least)] + ([Bytes(total(full))] if optional else [])
    gen = _body(mandatory, [])
    both = _body(full, [])

    @harness("C17", name="object type %d" % number, body=Sampled(Bytes(least), lambda rng: (gen(rng) + bytes(least))[:least]))
    def type_and_class(body):
        kind = ParameterObjectType(number)
        obj = ParameterFactory.from_bytes(kind, body)
        check(type(obj) is target, "decoder of another type")
        check(type(obj).object_type == number, "class declares another type number")
        schema = ParameterSchemaFactory.by_parameter_id(kind)()
        require(finite(obj, mandatory))
        check(type(schema.load(schema.dump(obj))) is target, "schema loads into another class")

    @harness("C18", name="dump and load of %s" % target.__name__, inline=["%s of a body" % target.__name__], body=Sampled(OneOf(*sizes), lambda rng: rng.choice([lambda: (gen(rng) + bytes(least))[:least], lambda: (both(rng) + bytes(total(full)))[: total(full)]])()))
    def survives(body):
        r = outcome(target.from_bytes, body)
        require(r.ok)
        obj = r.value
        require(finite(obj, full))
        schema = ParameterSchemaFactory.by_parameter_id(target.object_type)()
        back = schema.load(schema.dump(obj))
        check(type(back) is target, "class of the loaded object")
        check_eq(back, obj, "loaded object")


for _number, _cls, _mandatory, _optional in ROWS:
    declare_type(_number, _cls, _mandatory, _optional)


def window_object():
    fields = {}
    for name, kind, size in WINDOW:
        fields[name] = {"b": Byte, "w": U16, "t": Text()}[kind[0]] if kind[0] != "&" else Bool()
    return Obj(TimeWindow, **fields, rows=Listing(of=Text()), action_during_change=Opt(Byte), text_log_0=Opt(Text()), text_log_1=Opt(Text()))


@harness("C18", name="dump and load of TimeWindow", obj=window_object())
def window_survives(obj):
    schema = ParameterSchemaFactory.by_parameter_id(TimeWindow.object_type)()
    back = schema.load(schema.dump(obj))
    check(type(back) is TimeWindow, "class of the loaded object")
    check_eq(back, obj, "loaded object")


@harness("C17", name="object type 48", body=Sampled(Bytes(WINDOW_HEAD - 1), lambda rng: rng.randbytes(WINDOW_HEAD - 1)))
def window_type(body):
    kind = ParameterObjectType(48)
    obj = ParameterFactory.from_bytes(kind, body + b"\x00")
    check(type(obj) is TimeWindow, "decoder of another type")
    check(type(obj).object_type == 48, "class declares another type number")
    schema = ParameterSchemaFactory.by_parameter_id(kind)()
    check(type(schema.load(schema.dump(obj))) is TimeWindow, "schema loads into another class")


@harness("C17", name="every enumerated object type", kind=Enum(ParameterObjectType))
def every_type(kind):
    cls = ParameterFactory.object_map[kind]
    check(cls.object_type == kind, "class declares another type number")
    check(int(kind) not in NUMBERS or NUMBERS[int(kind)] is cls, "number of another class")
    check(isinstance(ParameterSchemaFactory.by_parameter_id(kind), type), "no schema")
