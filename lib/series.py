"""Concretizations of abstract times and values, and bulk replay of (time, value) cases."""
from fractions import Fraction
import math
from pg import copy_in

US = 1_000_000
PG2000 = 946684800 * US          # 2000-01-01 in microseconds since 1970
NULL = -99


class Conc:
    """abstract time t -> base + unit*t microseconds since 1970; abstract value v -> scale*v + off."""
    def __init__(self, name, base, unit, scale, off=0.0):
        self.name, self.base, self.unit, self.scale, self.off = name, base, unit, scale, off

    def t(self, t): return None if t == NULL else self.base + self.unit * t
    def ts(self, t): return None if t == NULL else us_to_ts(self.t(t))
    def v(self, v): return None if v == NULL else repr(v * self.scale + self.off)
    @property
    def sec(self): return Fraction(self.unit, US)


def us_to_ts(us):
    """text of a timestamptz, exact to the microsecond (UTC), for years 1..9999 by calendar arithmetic."""
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
    return d.strftime("%Y-%m-%d %H:%M:%S").rjust(19, "0") + (".%06d" % d.microsecond if d.microsecond else "") + "+00"


CONCS = [
    Conc("epoch/1s", PG2000, US, 1.0),
    Conc("2021/15min", 1609459200 * US, 900 * US, 0.25),
    Conc("1997/1day", 852076800 * US, 86400 * US, 1024.0),
    Conc("epoch/250ms", PG2000 + 7 * US, 250_000, 2.0),
    Conc("1969/1h", -5 * 3600 * US, 3600 * US, 0.5),
    Conc("2020/7us", 1577836800 * US + 3, 7, 1.0),
]


def pick_conc(i, seed, n=len(CONCS)):
    return CONCS[(i * 7 + seed * 13 + (i // 6)) % n]
