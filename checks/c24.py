"""Module datetime against an independent proleptic Gregorian calendar."""
import math
from kosseq import SeqCheck, THROWS, ANY, OneOf
import kosval
from kosval import VOID, lit


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return (31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def civil(days):
    """day number since 1970-01-01 -> (y, m, d) (era arithmetic, years beginning in March)"""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def days_from(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m - 3 if m > 2 else m + 9) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


DAY = 86400 * 1000000


def fields(ts):
    y, m, d = civil(ts // DAY)
    r = ts % DAY
    return [y, m, d, r // 3600000000, r // 60000000 % 60, r // 1000000 % 60, r % 1000000, leap(y), ts]


def timestamp(src):
    k = src.below(8)
    if k == 0:
        return src.pick((0, 1, 999999, 1000000, 86399999999, DAY, (1 << 63) - 1, (1 << 53), (1 << 62), 1000000000000000, 1611499810740673, 951829200000000))
    if k == 1:
        return src.int(0, 1 << 32)
    if k == 2:
        return src.int(0, 4102444800000000)
    if k == 3:
        return src.int(0, (1 << 63) - 1)
    if k < 7:
        # close to the boundary of a year or month
        y = src.pick((src.int(1970, 2110), src.int(1970, 4000), src.int(1970, 292000), src.pick((1999, 2000, 2001, 2003, 2004, 2005, 2099, 2100, 2101, 2399, 2400, 290307))))
        m, d = src.pick(((1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (src.int(1, 12), 1)))
        t = days_from(y, m, 1) + d - 1
        return t * DAY + src.pick((0, -1, 1, DAY - 1, -1000000, 3600000000, src.int(0, DAY - 1)))
    return src.int(0, 40000) * DAY


class CHECK(SeqCheck):
    id = "C24"
    rule = "a conversion with a date other than 1970-01-01; distinct by the steps"
    batch = 300
    prelude = "import datetime\n" + kosval.PRELUDE + """
fun df_(d) { return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.us, d.leap, d.timestamp] }
"""
    cases = {"quick": 40000, "thorough": 1200000}

    def build(self, q, src):
        for _ in range(1 + src.below(4)):
            k = src.below(10)
            if k < 4:
                ts = max(0, timestamp(src))
                if ts >= 1 << 63:
                    ts = (1 << 63) - 1
                if src.bool(1, 8):
                    ts = -1 - (ts >> src.below(12))
                    q.labels.add("before-1970")
                if src.bool(1, 10) and abs(ts) < 1 << 52:
                    x = ts + src.pick((0.0, 0.25, 0.5))
                    ts = math.floor(x)
                    t = lit(x)
                    q.labels.add("float-timestamp")
                else:
                    t = lit(ts)
                q.do("df_(datetime.datetime(%s))" % (src.pick(("%s", "timestamp = %s", "void, void, void, void, void, void, void, %s")) % t), fields(ts))
                q.labels.add("timestamp")
                # and back
                f = fields(ts)
                if 1970 <= f[0] <= 290307:
                    q.do("datetime.datetime(%s).timestamp" % ", ".join(str(x) for x in f[:7]), ts)
            elif k < 8:
                y = src.pick((src.int(1970, 2110), src.int(1970, 290307), src.pick((1970, 2000, 2100, 290307, 1972, 1996, 2400))))
                m = src.int(1, 12)
                d = src.pick((1, mdays(y, m), src.int(1, mdays(y, m))))
                h, mi, s, us = src.int(0, 23), src.int(0, 59), src.int(0, 59), src.int(0, 999999)
                us = src.pick((us, 0, 999999, 1))
                n = src.below(3)
                if n == 0:
                    a, s, us, wus = [y, m, d, h, mi], 0, 0, VOID
                elif n == 1:
                    a, us, wus = [y, m, d, h, mi, s], 0, VOID
                else:
                    a, wus = [y, m, d, h, mi, s, us], us
                ts = days_from(y, m, d) * DAY + ((h * 60 + mi) * 60 + s) * 1000000 + us
                fl = [x for x in a]
                if src.bool(1, 8):
                    i = src.below(len(a))
                    fl[i] = a[i] + src.pick((0.0, 0.5, 0.75))
                    q.labels.add("float-field")
                want = [y, m, d, h, mi, s, wus, leap(y), ts]
                if src.bool(1, 3):
                    names = ["year", "month", "day", "hour", "minute", "second", "us"]
                    z = list(zip(names, fl))
                    i = src.below(len(z))
                    z = z[i:] + z[:i]
                    t = ", ".join("%s = %s" % (n, lit(x)) for n, x in z)
                else:
                    t = ", ".join(lit(x) for x in fl)
                q.do("df_(datetime.datetime(%s))" % t, want)
                q.labels.add("date")
            else:
                # one field out of range
                y, m = src.int(1970, 3000), src.int(1, 12)
                a = [y, m, src.int(1, 28), src.int(0, 23), src.int(0, 59), src.int(0, 59), src.int(0, 999999)]
                i = src.below(7)
                lo = (1970, 1, 1, 0, 0, 0, 0)[i]
                hi = (290307, 12, mdays(y, m), 23, 59, 59, 999999)[i]
                a[i] = src.pick((lo - 1, hi + 1, hi + 1, lo - src.int(1, 1000), hi + src.int(1, 1000), lo - 0.5, hi + 1.0, 1 << 62, -(1 << 62)))
                q.do("datetime.datetime(%s)" % ", ".join(lit(x) for x in a), THROWS)
                q.labels.add("bad-field%d" % i)
                if src.bool(1, 3):
                    q.do("datetime.datetime(%s)" % src.pick(("2000, 1, 1", "2000, 1, 1, 1", "2000, void, 1, 1, 1", "void, 1, 1, 1, 1", "2000, 1, void, 1, 1", "year = 2000, month = 1, day = 1, hour = 1, minute = 1, timestamp = 5", "", "timestamp = 5, us = 1", "timestamp = 5, year = 2000")), THROWS)
        q.nt = True
        return True

    def fixed_cases(self):
        import kosseq
        q = kosseq.Seq()
        q.nt = True
        q.labels = {"now"}
        q.do("(fun { var a = datetime.now(); for const i in range(200) { const b = datetime.now(); if b < a { return [a, b] }; const d = df_(datetime.datetime(b)); if datetime.datetime(d[:7]...).timestamp != b { return d }; a = b }; return true })()", True)
        import time
        q.do("datetime.now() / 1_000_000 - %d < 100000" % int(time.time()), True)
        q.do("datetime.now() / 1_000_000 - %d > -5" % int(time.time()), True)
        return [q.case()]
