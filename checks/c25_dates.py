PID = "C25"
TECHNIQUE = "TLA+ specification of date, time and strptime grammars and of the calendar; TLC walks the calendar day by day and validates every recorded parse"
LEVEL_NOTE = ("Every recorded array of texts (well-formed, out of range, malformed, mutated and truncated; bytes and unicode; padded, strided) is "
              "judged by Dates.tla, which defines the grammars, the instants and an interpreter of strptime formats; DatesMC.tla checks the calendar for every "
              "day up to 2099 in the thorough tier. Trusts TLC and the coding of text as character codes.")
TRACE = "DatesTrace"
MODELS = [{"spec": "DatesMC", "workers": 2, "thorough_cfg": "DatesMC_thorough.cfg"}]
ASSUMPTIONS = ["the invalid instant is 0", "malformed text is either invalid or reported by a warning", "leap seconds and strptime conversions other than those in Dates.tla are not judged"]
import warnings
import numpy as np
from c16_take import layout

FMTS = ["%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%Y%m%d", "%Y%m%d%H%M%S", "%m/%d/%Y", "%m/%d/%y", "%d %b %Y", "%B %d, %Y", "%d-%b-%y %I:%M %p", "%F %T", "%D %R", "%Y-%m-%dT%H:%M:%S",
        "%a %b %d %H:%M:%S %Y", "%Y.%m.%d", "%H:%M", "%d/%m/%Y %r", "%Y %j", "%Y-%m", "%%%Y-%m-%d", "%e %h %Y %k:%M", "%A, %B %d %Y", "%l%p %F", "%y%m%d",
        "%c", "%x", "%X %Y%m%d", "%C%y-%m-%d", "%y %C %m %d", "%C %D", "%U %Y-%m-%d", "%Y-%m-%d %W %u", "%V/%g %F", "%w%n%Y%t%m%n%d", "%EY-%Om-%Od %OH:%OM:%OS", "%Ex %EX", "%EC%Oy-%m-%Oe",
        "%Ok %Y-%m-%d", "%EB %d %Y", "%E%Y", "%Y-%m-%d %OU %Ou", "%Ec", "%Y-%m-%d %", "%Y-%m-%d %OI:%M%p", "%D %C"]


def drive(rec, shard, nshards, tier):
    import datetime
    import riptide_cpp as rc
    rng, rs = rec.rng, rec.np
    quick = tier == "quick"
    FN = {"date": rc.DateStringToNanos, "time": rc.TimeStringToNanos, "datetime": rc.DateTimeStringToNanos}

    def ymd():
        y = rng.choice([1970, 1971, 1972, 1999, 2000, 2001, 2024, 2096, 2099, 2100, 1969, rng.randint(1970, 2099), rng.randint(1800, 2300)])
        m = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12), rng.randint(0, 14)])
        d = rng.choice([1, 28, 29, 30, 31, rng.randint(1, 28), rng.randint(0, 33)])
        return y, m, d

    def hms():
        if rng.random() < 0.8:
            return rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
        return rng.choice([0, 23, 24, 25, 99]), rng.choice([0, 59, 60, 99]), rng.choice([0, 59, 60, 61])

    def date():
        y, m, d = ymd()
        r = rng.random()
        return "%04d%02d%02d" % (y, m, d) if r < 0.3 else "%d-%d-%d" % (y, m, d) if r < 0.45 else "%04d-%02d-%02d" % (y, m, d)

    def time(hour):
        h, m, s = hms()
        r = rng.random()
        if hour and r < 0.1:
            return "%02d" % h
        if r < 0.3:
            return "%02d:%02d" % (h, m)
        if r < 0.4:
            return "%d:%d:%d" % (h, m, s)
        t = "%02d:%02d:%02d" % (h, m, s)
        return t + "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 9))) if r < 0.8 else t

    def text(kind):
        t = date() if kind == "date" else time(False) if kind == "time" else date() + ("" if rng.random() < 0.2 else rng.choice("TT  ") + time(True))
        if rng.random() < 0.1:
            t = rng.choice([" ", "   ", "\t"]) + t
        return t

    def mutate(t):
        r, i = rng.random(), rng.randrange(len(t) + 1)
        if r < 0.3:
            return t[:i]
        if r < 0.55:
            return t[:i] + rng.choice("0123456789:-T. xZ/") + t[i:]
        if r < 0.75:
            return t[:i] + t[i + 1:]
        return t[:i] + rng.choice("0123456789:-T. x\u00e9\u0132\U0001f600\u2030"[:19 if rng.random() < 0.5 else 17]) + t[i + 1:]

    def array(texts):
        uni = any(ord(c) > 127 for t in texts for c in t) or rng.random() < 0.5
        w = max([len(t) for t in texts] + [1]) + rng.choice([0, 0, 1, 5])
        return np.array(texts, "U%d" % w) if uni else np.array([t.encode() for t in texts], "S%d" % w)

    def split(r):
        return {"v": [[int(x) // 86400000000000, int(x) % 86400000000000 // 10 ** 9, int(x) % 10 ** 9] for x in r.tolist()]}

    def run(op, args, texts, fn):
        a = layout(rng, array(texts), rng.choice(["plain", "plain", "odd", "strided", "back"]))
        keep = a.tobytes()
        got = []

        def call():
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                r = fn(a)
            got.append(len(ws))
            return r
        args["s"] = [[ord(c) for c in t] for t in texts]
        rec.call(op, args, call, lambda r: {**split(r), "w": int(got[0] > 0), "same": int(a.tobytes() == keep)})

    def clean(t):
        return t.replace("\0", "")

    def fmt_text(f):
        y, m, d = ymd() if rng.random() < 0.5 else (rng.randint(1970, 2099), rng.randint(1, 12), rng.randint(1, 28))
        h, mi, s = hms()
        import calendar
        M, W = calendar.month_name, ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
        mm = M[m] if 1 <= m <= 12 else "Smarch"
        case = rng.choice([str, str.upper, str.lower])
        rep = {"Y": "%04d" % y, "y": "%02d" % (y % 100), "m": rng.choice(["%02d", "%d"]) % m, "d": "%02d" % d, "e": "%d" % d, "H": "%02d" % h, "k": "%d" % h, "I": "%02d" % (h % 12 or 12),
               "l": "%d" % (h % 12 or 12), "M": "%02d" % mi, "S": "%02d" % s, "b": case(mm[:3]), "h": mm[:3], "B": case(mm), "a": rng.choice(W)[:3], "A": case(rng.choice(W)),
               "p": rng.choice(["AM", "PM", "am", "Pm"]), "j": "%03d" % rng.randint(1, 366), "%": "%"}
        rep["F"] = "%s-%s-%s" % (rep["Y"], rep["m"], rep["d"])
        rep["D"] = "%s/%s/%s" % (rep["m"], rep["d"], rep["y"])
        rep["T"] = "%s:%s:%s" % (rep["H"], rep["M"], rep["S"])
        rep["R"] = "%s:%s" % (rep["H"], rep["M"])
        rep["r"] = "%s:%s:%s %s" % (rep["I"], rep["M"], rep["S"], rep["p"])
        rep.update({"x": rep["D"], "X": rep["T"], "c": rep["D"] + " " + rep["T"], "C": "%02d" % (y // 100), "U": "%d" % rng.randint(0, 53), "W": "%02d" % rng.randint(0, 53),
                    "V": "%02d" % rng.randint(1, 53), "g": "%02d" % (y % 100), "u": "%d" % rng.randint(1, 7), "w": "%d" % rng.randint(0, 6), "n": rng.choice(["", " ", "\n", " \t "]), "t": rng.choice(["", " ", "\t"])})
        out, i = "", 0
        while i < len(f):
            if f[i] == "%":
                if f[i + 1:i + 2] in ("E", "O"):
                    i += 1
                out, i = out + rep.get(f[i + 1:i + 2], "%"), i + 2
            else:
                out, i = out + (f[i] if f[i] != " " else rng.choice([" ", " ", "  "])), i + 1
        r = rng.random()
        return out + ("." + str(rng.randint(0, 10 ** 9 - 1)) if r < 0.3 else " tail" if r < 0.35 else "")

    rec.emit("begin", {}, {})
    for rep in range(150 if quick else 1500):
        kind = rng.choice(["date", "time", "datetime"])
        n = rng.choice([1, 1, 2, 5, 20])
        bad = rng.choice([0, 0, 0.2, 1])
        texts = [clean(mutate(text(kind)) if rng.random() < bad else text(kind)) for _ in range(n)]
        if rng.random() < 0.1:
            texts[rng.randrange(n)] = rng.choice(["", " ", "NaT", "null"])
        texts = [t if len(t) == len(t.rstrip("\0")) else "" for t in texts]
        run("parse", {"kind": kind}, texts, FN[kind])
    for rep in range(120 if quick else 1500):
        f = rng.choice(FMTS)
        bad = rng.choice([0, 0, 0.2, 1])
        texts = [clean(mutate(fmt_text(f)) if rng.random() < bad else fmt_text(f)) for _ in range(rng.choice([1, 2, 5, 20]))]
        run("format", {"f": [ord(c) for c in f]}, texts, lambda a: rc.StrptimeToNanos(a, f.encode()))
    # every day of some years
    for y in rng.sample(range(1970, 2100), 3 if quick else 40):
        ds = [datetime.date(y, 1, 1) + datetime.timedelta(k) for k in range(365)]
        run("parse", {"kind": "date"}, [x.isoformat() for x in ds], FN["date"])
