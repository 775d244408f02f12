"""Device-side layouts of the configuration (SCADA) objects: how a simulated meter stores them and
what a client has to report for them.  Written field by field from the protocol's object tables;
shares no code with elgas.parameters."""
import struct

TXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.,-/%"


class B:
    """Builds one object: bytes on the wire and the fields expected at the client."""

    def __init__(self, rng, nasty):
        self.r, self.nasty, self.out, self.exp = rng, nasty, bytearray(), {}
        self.ends, self.whole = [], True      # lengths older firmware sends; nothing left out

    def put(self, name, raw, val):
        self.out += raw
        if name is not None:
            self.exp[name] = val

    def u(self, name, n):
        if self.r.random() < self.nasty:
            raw = bytes(self.r.choice(b"\x0d\x1b\x8d\x0e\x0f\x00\xff\x02\xfe") for _ in range(n))
        else:
            k = self.r.choice((1, n, n))
            raw = (self.r.randrange(256 ** k)).to_bytes(n, "little")
        self.put(name, raw, int.from_bytes(raw, "little"))
        return int.from_bytes(raw, "little")

    def text(self, name, n):
        """NUL terminated, NUL filled text of a field of n bytes."""
        k = self.r.choice((0, 1, n - 1, self.r.randrange(n)))
        s = "".join(self.r.choice(TXT) for _ in range(k))
        if k > 4 and self.r.random() < 0.2:  # a space inside, never at the ends
            s = s[:2] + " " + s[3:]
            if k > 8 and self.r.random() < 0.5 * self.nasty:
                s = s[:3] + self.r.choice(("  ", "   ", "\t", " . ", "\xa0 ")) + s[7:]
        if k > 2 and self.r.random() < self.nasty:  # letters that need escaping on the wire
            s = s[:-1] + self.r.choice("\x8d\xb0\xe9") if s[-1:] else s
        if name in ("version_metrological_part", "firmware_version"):
            s = s[:n - 1]
        raw = s.encode("latin-1")
        if len(raw) < n - 1 and self.r.random() < 0.25 * self.nasty:
            # what an earlier, longer text left behind the terminator
            raw += b"\0" + bytes(self.r.randrange(1, 256) for _ in range(n - 1 - len(raw)))
        self.put(name, raw.ljust(n, b"\0"), s)

    def f(self, name, rounded=False):
        x = struct.unpack("<f", struct.pack("<f", self._float()))[0]
        self.put(name, struct.pack("<f", x), ("~7", x) if rounded else x)

    def d(self, name):
        x = self._float()
        self.put(name, struct.pack("<d", x), x)

    def _float(self):
        return self.r.choice((0.0, 1.0, -1.0, 0.01, 1013.25, -273.15, 1e-5, 99999.5,
                              self.r.uniform(-1e4, 1e4), self.r.random()))

    def bits(self, spec, name="bit_control", keep=True):
        v = self.r.randrange(256)
        self.put(name if keep else None, bytes([v]), v)
        for bit, field in spec.items():
            self.exp[field] = bool(v & (1 << bit))

    def raw(self, name, n, conv):
        raw = bytes(self.r.randrange(256) for _ in range(n))
        self.put(name, raw, conv(raw) if conv else None)

    def maybe(self, fn, names):
        """An optional tail that older firmware does not send."""
        if self.r.random() < 0.5:
            self.ends.append(len(self.out))
            fn()
        else:
            self.whole = False
            for n in names:
                self.exp[n] = None


ip = lambda raw: ".".join(str(v) for v in raw)
hexs = lambda raw: raw.hex()
ARCH = {0: "in_data_archive", 1: "in_daily_archive", 2: "in_monthly_archive"}
METRO = {**ARCH, 4: "is_metrological_quantity"}
FACT = {**ARCH, 3: "in_factory_archive"}
FULL = {**FACT, 4: "is_metrological_quantity"}
BINB = {0: "in_binary_archive", 1: "in_data_archive"}


def head(b, bits):
    b.u("number", 2), b.u("id", 2), b.u("address_in_actual_values", 2)
    b.u("address_in_data_archive_record", 2)
    b.bits(bits)


def bhead(b, bits):
    b.u("number", 2), b.u("id", 2), b.u("bit_order_in_actual_values", 2)
    b.u("bit_order_in_data_archive_record", 2), b.u("bit_order_in_binary_archive_record", 2)
    b.bits(bits)
    b.text("name", 23)


def nu(b):
    b.text("name", 23), b.text("unit", 8)


def daymonth(b, billing=False):
    b.u("address_in_daily_archive_record", 2), b.u("address_in_monthly_archive_record", 2)
    if billing:
        b.u("address_in_billing_archive_record", 2)


def decimals(b):
    b.maybe(lambda: b.u("decimals", 1), ["decimals"])


def logs(b):
    def tail():
        b.u("action_during_change", 1), b.text("text_log_0", 13), b.text("text_log_1", 13)
    b.maybe(tail, ["action_during_change", "text_log_0", "text_log_1"])


def errbits(b):
    b.u("error_bit_order_in_actual_values", 2), b.u("error_bit_order_in_binary_archive", 2)
    b.u("error_bit_order_in_data_archive", 2)


def analog(b):
    head(b, {**METRO, 5: "in_fast_archive_1", 6: "in_fast_archvie_2"}), nu(b)
    b.f("digit", True), b.f("offset"), b.f("lower_limit_measuring_range", True)
    b.f("upper_limit_measuring_range"), b.u("serial_number_transducer", 4)
    errbits(b), daymonth(b), b.u("samples_in_fast_archive", 1), decimals(b)


def binary(b):
    bhead(b, {**BINB, 6: "active_indicator"})
    b.u("error_bit_order_in_actual_values", 2)
    b.u("error_bit_order_in_binary_archive_record", 2)
    b.u("error_bit_order_in_data_archive_record", 2)
    logs(b)


def counter(b):
    head(b, {**FULL, 6: "accept_counting_direction"}), nu(b), b.d("digit")
    b.u("serial_number_of_gas_meter", 4), errbits(b), daymonth(b, True)
    b.text("serial_number_of_gas_meter_text", 17), decimals(b)


def standard_counter(b):
    head(b, FULL), nu(b), b.u("number_of_primary_counter", 1), b.u("number_of_conversion", 1)
    daymonth(b, True), decimals(b)


def flow_rate(b):
    head(b, METRO), nu(b), errbits(b), daymonth(b), decimals(b)


def standard_flow_rate(b):
    head(b, METRO), nu(b), b.u("number_of_primary_flow_rate", 1), b.u("number_of_conversion", 1)
    daymonth(b), decimals(b)


def conversion(b):
    head(b, METRO), b.text("name", 23), b.u("number_of_analog_pressure", 1)
    b.u("number_of_analog_temperature", 1), b.u("compressibility_calculation_method", 1)
    b.f("default_value_pressure"), b.f("default_value_temperature")
    b.f("alternate_value_of_compressibility"), daymonth(b), decimals(b)


def error_counter(b):
    head(b, FULL), nu(b), b.d("digit"), b.u("number_of_primary_counter", 1), daymonth(b, True)
    decimals(b)


def error_standard_counter(b):
    head(b, FULL), nu(b), b.u("number_of_standard_counter", 1), daymonth(b, True), decimals(b)


def compressibility(b):
    head(b, METRO), b.text("name", 23), b.u("number_of_conversion_coefficient", 1), daymonth(b)
    decimals(b)


def time_window(b):
    bhead(b, BINB)
    n = b.r.choice((0, 1, 2, 5, 13))
    b.put("rows_in_window", bytes([n]), n)
    rows = [bytes(b.r.randrange(256) for _ in range(10)) for _ in range(n)]
    b.put("rows", b"".join(rows), [r.hex() for r in rows])
    logs(b)


def diagnostics(b):
    head(b, FACT), b.text("name", 23), daymonth(b)
    for n in ("status_archive", "alarm", "calling_to_dispatching"):
        b.u("mask_1_of_" + n, 4), b.u("mask_2_of_" + n, 4)
    b.u("action_during_change", 1)


def setpoint(b):
    bhead(b, {**BINB, 6: "active_indicator"}), b.f("value_of_limit")
    b.u("type_of_primary_quantity", 1), b.u("number_of_primary_quantity", 1), logs(b)


def energy(b):
    head(b, FULL), nu(b), b.u("number_of_standard_counter", 1), b.u("number_of_calorific_value", 1)
    b.u("number_of_conversion", 1), daymonth(b, True), decimals(b)


def tariff(b):
    head(b, FULL), nu(b), b.d("digit"), b.u("number_of_primary_counter", 1), b.u("tariff", 1)
    daymonth(b, True), decimals(b)


def base_tariff(b):
    head(b, FULL), nu(b), b.u("number_of_base_counter", 1), b.u("tariff", 1), daymonth(b, True)
    decimals(b)


def difference(b):
    head(b, {**ARCH, 3: "is_double", 4: "is_metrological_quantity"}), nu(b), b.d("digit")
    b.u("number_of_primary_counter", 1), daymonth(b, True), decimals(b)


def timer(b):
    head(b, METRO), b.text("name", 23), daymonth(b)


def stat(b):
    head(b, METRO), nu(b), b.f("digit", True), b.f("offset"), b.u("number_of_primary_quantity", 1)
    b.u("statistics_type", 1), daymonth(b), decimals(b)


def counter_stat(b):
    head(b, METRO), nu(b), b.d("digit"), b.u("type_of_primary_quantity", 1)
    b.u("number_of_primary_quantity", 1), b.u("statistics_type", 1), daymonth(b)


def modem(b):
    b.u("number", 1), b.u("bit_control_0", 1), b.text("title", 7), b.u("modem_type", 1)
    b.text("initialization", 32), b.text("call_to_dispatching", 32), b.text("modem_hang_up", 8)
    b.text("special_initialization", 80)
    b.raw("ip_address_for_registration_and_diagnostics", 4, ip)
    b.raw("ip_address_for_calling_to_dispatching", 4, ip)
    b.u("registration_send_period", 1), b.u("authentication_mode", 1)
    b.u("port_for_registration", 2), b.u("port_for_calling_to_dispatching", 2)
    b.text("sms_call", 32), b.text("gprs_user_name", 49), b.raw("gprs_password", 33, hexs)
    b.raw("ip_address_for_ping", 4, ip), b.u("ping_period", 2)
    b.text("transition_into_command_mode", 8), b.raw("pin", 9, hexs), b.text("owner_sim_number", 17)


GAS = ("co2 n2 combustion_heat relative_density h2 h2s he h2o o2 ar co c1h4 c2h6 c3h8 ic4h10 nc4h10 "
       "ic5h12 nc5h12 c6h14 c7h16 c8h18 c9h20 c10h22").split()


def system(b):
    b.u("device_type", 1), b.u("serial_number", 4), b.text("firmware_version", 5)
    b.u("service_version", 1), b.u("certification_variant", 1), b.text("station_id", 17)
    b.bits({0: "password_for_full_access_active", 1: "password_for_reading_is_on",
            2: "metrological_switch", 3: "user_switch"}, keep=False)
    b.exp["switch_function"] = (b.out[-1] >> 4) & 3
    b.u("parameter_crc", 2), b.u("measuring_period", 1), b.u("archive_period", 2)
    b.f("base_pressure"), b.f("base_temperature"), b.u("compressibility_formula", 1)
    outer, b.exp = b.exp, {}
    for g in GAS:
        b.f(g)
    gas, b.exp = b.exp, outer
    b.exp["gas_composition"] = gas
    for n in ("data_archive_record_length binary_archive_record_length daily_archive_record_length "
              "monthly_archive_record_length instantaneous_values_error_bit_order "
              "binary_archive_record_error_bit_order data_archive_record_error_bit_order").split():
        b.u(n, 2)
    for n in ("optical_port", "communication_port_0", "communication_port_1", "communication_port_2"):
        b.u(n + "_speed", 1), b.u(n + "_protocol", 1), b.u(n + "_bit_control", 1)
    b.u("gas_day_hour", 1), b.f("fixed_barometric_pressure"), b.f("altitude")
    b.raw(None, 17, None)
    b.u("status_archive_record_length", 2)
    for n in ("pressure_unit", "temperature_unit", "altitude_unit", "gross_calorific_value"):
        b.u(n + "_type", 1), b.text(n + "_text", 8)
    b.u("dst_region", 1), b.u("gmt_hour_shift", 1), b.u("billing_archive_record_length", 2)
    b.u("conditions_for_combustion_heat", 1), b.u("device_variant", 1)
    b.raw(None, 1, None)
    b.u("bit_control", 1), b.u("places_for_corrected_volume_counters", 1)
    b.u("device_features_bits", 1), b.raw("device_features", 16, hexs)
    b.text("version_metrological_part", 5)
    b.u("metrological_crc", 2), b.u("metrological_crc_32", 4), b.u("application_crc_32", 4)


# type number -> (class name at the client, layout)
TYPES = {
    0: ("SystemParameters", system), 30: ("AnalogQuantity", analog), 31: ("Binary", binary),
    32: ("Counter", counter), 33: ("StandardCounter", standard_counter), 34: ("FlowRate", flow_rate),
    35: ("StandardFlowRate", standard_flow_rate), 36: ("ConversionCoefficient", conversion),
    45: ("ErrorCounter", error_counter), 46: ("ErrorStandardCounter", error_standard_counter),
    47: ("Compressibility", compressibility), 48: ("TimeWindow", time_window),
    49: ("CorrectionCounter", error_counter), 53: ("DoubleCounter", counter),
    54: ("DoubleErrorCounter", error_counter), 59: ("Diagnostics", diagnostics),
    65: ("Timer", timer), 68: ("TariffCounter", tariff), 69: ("BaseTariffCounter", base_tariff),
    70: ("SetPoint", setpoint), 72: ("DifferenceCounter", difference),
    73: ("DifferenceBaseCounter", difference), 74: ("CompressibilityZ", compressibility),
    75: ("CompressibilityZBase", compressibility), 77: ("Energy", energy), 78: ("ErrorEnergy", energy),
    79: ("DoubleTariffCounter", tariff), 80: ("AnalogStatistics", stat),
    81: ("CounterStatistics", counter_stat), 82: ("StandardCounterStatistics", counter_stat),
    83: ("Statistics", stat), 84: ("AnalogTimeStatistics", stat), 85: ("TimeStatistics", stat),
    141: ("Modem", modem),
}
# Objects the client is known not to be able to read (known_findings.txt); only built on purpose.
def alarm(b):
    bhead(b, BINB)
    logs(b)


UNREADABLE = {61: ("DeviceError", alarm), 62: ("SumOfAlarms", alarm)}
TYPE_LIST = sorted(TYPES)


def build(kind, rng, nasty=0.2):
    """-> (bytes with length and type, {"type", "cls", fields})"""
    return laid_out(kind, rng, nasty)[:2]


def laid_out(kind, rng, nasty=0.2):
    """The same, and how it was made."""
    cls, layout = TYPES.get(kind) or UNREADABLE[kind]
    b = B(rng, nasty)
    layout(b)
    exp = dict(b.exp, object_type=kind)
    return (len(b.out) + 3).to_bytes(2, "little") + bytes([kind]) + bytes(b.out), {"cls": cls, "f": exp}, b


def spoil(kind, rng, how, n, junk):
    """An object that breaks the rules of the format -> (bytes, expected fields, what may be made of it:
    "error", or "known", the fields that are known), last: whether nothing may follow it"""
    raw, exp, b = laid_out(kind, rng)
    body = raw[3:]
    if how == "long" and not b.whole:
        how = "cut"
    if how in ("cut", "torn"):
        left = n % len(body)
        while left in b.ends:
            left -= 1
        # torn: what is there does not reach the end that the length tells
        size = left if how == "cut" else len(body)
        return (size + 3).to_bytes(2, "little") + raw[2:3] + body[:left], exp, "error"
    if how == "long":
        return (len(raw) + len(junk)).to_bytes(2, "little") + raw[2:] + junk, exp, "known"
    if how == "beyond":                    # complete, but the length tells of more
        return (len(raw) + 1 + n).to_bytes(2, "little") + raw[2:], exp, "error"
    if how == "type":
        return raw[:2] + bytes([n]) + body, exp, "error"
    if how == "length":
        return (n % 3).to_bytes(2, "little") + raw[2:], exp, "error"
    return raw + junk, exp, "error"        # "rest": too little for another object


def same(want, got):
    """Does the object the client returned report what the device stored? -> None or what differs"""
    if type(got).__name__ != want["cls"]:
        return "object is %s, expected %s" % (type(got).__name__, want["cls"])
    return _same(want["f"], got)


def _same(fields, got):
    for name, w in fields.items():
        if not hasattr(got, name):
            return "%s has no %s" % (type(got).__name__, name)
        g = getattr(got, name)
        if isinstance(w, dict):
            bad = _same(w, g)
            if bad:
                return bad
            continue
        if isinstance(w, tuple):  # reported rounded to 7 decimals
            ok = abs(g - w[1]) <= 1.01e-7 + abs(w[1]) * 1e-6
        elif isinstance(w, list):
            ok = list(g) == w
        else:
            ok = g == w and (w is None) == (g is None)
        if not ok:
            return "%s.%s is %r, expected %r" % (type(got).__name__, name, g,
                                                 w[1] if isinstance(w, tuple) else w)
    return None
