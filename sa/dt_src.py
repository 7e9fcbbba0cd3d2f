# datetime model, interpreted abstractly (never imported)
class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, name="UTC"):
        self._name = name

    def tzname(self, dt):
        return self._name

    def __str__(self):
        return self._name

    def _offset(self):
        if self._name == "UTC":
            return 0
        if self._name == "CET":
            return 1
        return _other()


def _days(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


class date:
    def __init__(self, year, month, day):
        self.year = year
        self.month = month
        self.day = day

    @classmethod
    def today(cls):
        n = _now()
        return date(n[0], n[1], n[2])

    def weekday(self):
        return _weekday(self.year, self.month, self.day)

    def isoweekday(self):
        return self.weekday() + 1

    def timetuple(self):
        return _other()

    def strftime(self, fmt):
        return self._fmt(fmt)

    def __format__(self, fmt):
        return self._fmt(fmt)

    def _time(self):
        return (0, 0, 0, "")

    def _fmt(self, fmt):
        h, m, s, z = self._time()
        table = {"%Y": f"{self.year:04}", "%m": f"{self.month:02}", "%d": f"{self.day:02}", "%H": f"{h:02}", "%M": f"{m:02}", "%S": f"{s:02}", "%Z": z,
                 "%a": ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")[self.weekday()], "%e": f"{self.day:2}", "%%": "%",
                 "%b": ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")[self.month - 1]}
        out = ""
        i = 0
        while i < len(fmt):
            if fmt[i] == "%":
                k = fmt[i:i + 2]
                if k not in table:
                    return _other()
                out += table[k]
                i += 2
            else:
                out += fmt[i]
                i += 1
        return out


class datetime(date):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.tzinfo = tzinfo

    @classmethod
    def now(cls, tz=None):
        n = _now()
        if tz is not None:
            n = _now_utc()
        return datetime(n[0], n[1], n[2], n[3], n[4], n[5], 0, tz)

    @classmethod
    def utcnow(cls):
        n = _now_utc()
        return datetime(n[0], n[1], n[2], n[3], n[4], n[5])

    @classmethod
    def today(cls):
        return cls.now()

    def astimezone(self, tz=None):
        if tz is None and self.tzinfo is None:
            return datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, 0, timezone("CET"))
        a = 1 if self.tzinfo is None else self.tzinfo._offset()
        b = 1 if tz is None else tz._offset()
        y, m, d, h = self.year, self.month, self.day, self.hour + b - a
        if h < 0:
            h += 24
            d -= 1
            if d < 1:
                m -= 1
                if m < 1:
                    m = 12
                    y -= 1
                d = _days(y, m)
        elif h > 23:
            h -= 24
            d += 1
            if d > _days(y, m):
                d = 1
                m += 1
                if m > 12:
                    m = 1
                    y += 1
        return datetime(y, m, d, h, self.minute, self.second, 0, tz if tz is not None else timezone("CET"))

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, tzinfo=None):
        if tzinfo is None:
            return _other()
        return datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, 0, tzinfo)

    def date(self):
        return date(self.year, self.month, self.day)

    def _time(self):
        return (self.hour, self.minute, self.second, self.tzinfo.tzname(self) if self.tzinfo else "")
