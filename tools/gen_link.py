"""Random inputs for the frame codec, biased to the boundaries of lengths, integers and flags."""

KINDS = ["SETUP", "LEASE", "KEEPALIVE", "REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM",
         "REQUEST_CHANNEL", "REQUEST_N", "CANCEL", "PAYLOAD", "ERROR", "METADATA_PUSH",
         "RESUME", "RESUME_OK"]
CODES = [[0, 0, 0, i] for i in range(0, 6)] + [[0, 0, 1, i] for i in range(0, 4)] + \
        [[0, 0, 2, i] for i in range(0, 6)] + [[0, 0, 3, 1], [255, 255, 255, 255],
        [255, 255, 255, 254], [128, 0, 0, 1], [1, 0, 2, 1], [0, 1, 1, 1]]
MAX24 = (1 << 24) - 1

PIECES = ["\ufeff", "\ufffe", "\ufffd", "\u0000", "\r\n", "\n", "\r", " ", "  ", "\t", "\u00a0", "\u2028", "\u200b",
          "\u0301", "e\u0301", "\u00e9", "\ud7ff", "\ue000", "\U0010ffff", "a", "Text", "\"", "\\", "\\n", "%00",
          "\x7f", "\x1b[0m", "\U0001f600", "\U0001f468\u200d\U0001f469", "\u0130", "ß"]


def norm(runs):
    out = []
    for v, n in runs:
        if n <= 0:
            continue
        if out and out[-1][0] == v:
            out[-1] = [v, out[-1][1] + n]
        else:
            out.append([v, n])
    return out


def lit(bs):
    return norm([[b, 1] for b in bs])


def cat(*ss):
    return norm([r for s in ss for r in s])


def size(s):
    return sum(n for _, n in s)


# Where somebody might cut a text off.
BORDERS = [8, 10, 12, 16, 20, 24, 30, 32, 40, 48, 50, 60, 64, 72, 79, 80, 96, 100, 120, 127, 128, 140, 150, 160, 200,
           240, 250, 255, 256, 300, 320, 400, 500, 512, 600, 800, 1000, 1023, 1024, 2000, 2047, 2048, 4000, 4095, 4096,
           8191, 8192, 10000, 16384, 32767, 32768, 65535, 65536]


def straddle(r, long=True):
    """Text with characters of several bytes across a place where it might be cut."""
    n = r.choice(BORDERS if long else BORDERS[:30])
    c = r.choice(["\u00e9", "\u20ac", "\U0001f600", "e\u0301"])
    x = "a" * max(0, n - r.randrange(0, len(c.encode()) + 1)) + c
    if r.random() < 0.3:
        # many in a row: any cut that is not at a whole one is within one
        x = x + c * r.randrange(1, 40) if r.random() < 0.5 else c * (n // 2 + 1)
    return x + r.choice(["", "", "b", "b" * n])


class Gen:
    def __init__(self, rng, big=0.004):
        self.r = rng
        self.big = big          # how often a part is of the order of MiB

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def length(self, lim=None, odds=1.0):
        r = self.r.random()
        if r < 0.25:
            n = self.r.randrange(0, 4)
        elif r < 0.6:
            n = self.r.randrange(0, 40)
        elif r < 0.8:
            n = self.pick([126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513])
        elif r < 0.9:
            n = self.r.randrange(0, 3000)
        elif r < 1 - self.big * odds:
            n = self.pick([32767, 32768, 65534, 65535, 65536, 65537, 70000])
        else:
            n = self.pick([MAX24 - 1, MAX24, 1 << 20, 8388608, 8388607, 131071, 131072, 2 << 20])
        return n if lim is None else min(n, lim) if self.r.random() < 0.3 else n % (lim + 1)

    def string(self, n):
        """n bytes: mostly a few runs, so that it stays small in writing."""
        runs, left = [], n
        while left > 0 and len(runs) < 6:
            k = left if self.r.random() < 0.35 else self.r.randrange(1, min(left, 12) + 1)
            runs.append([self.pick([0, 1, 65, 77, 127, 128, 195, 255, self.r.randrange(256)]), k])
            left -= k
        if left:
            runs.append([self.r.randrange(256), left])
        return norm(runs)

    def part(self, lim=None):
        if self.r.random() < 0.3:
            return []
        if self.r.random() < 0.06:
            t = lit(straddle(self.r, self.r.random() < 0.3).encode())
            if lim is None or size(t) <= lim:
                return [t]
        return [self.string(self.length(lim))]

    def text(self):
        if self.r.random() < 0.2:
            return self.letter()
        s = "".join(self.pick(["a", "Z", "0", "/", "é", "€", "𝄞", "\u07ff", "\uffff", "\x00"])
                    for _ in range(self.r.randrange(0, 8)))
        b = bytearray(s.encode())
        if b and self.r.random() < 0.4:
            b[self.r.randrange(len(b))] = self.pick([0x80, 0xC0, 0xED, 0xF4, 0xFF, 0xA0, 0x90])
        return lit(b)

    def letter(self):
        """Text, often odd at its ends; now and then long, or broken far from its start."""
        r = self.r
        if r.random() < 0.15:
            return lit(straddle(r, r.random() < 0.3).encode())
        t = "".join(r.choice(PIECES) for _ in range(r.randrange(1, 7)))
        b = t.encode()
        if r.random() < 0.3:
            n = self.pick([60, 250, 1020, 4090, 8190, 65530, 65536, 70000])
            end = r.choice(PIECES).encode()
            if r.random() < 0.3:
                end = r.choice([b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff",
                                b"\xc0\x80"])
            return cat(lit(b), [[r.choice([65, 32]), n]], lit(end))
        return lit(b)

    def octets(self, n, bits=None):
        k = self.r.random()
        if k < 0.25:
            v = self.r.randrange(0, 4)
        elif k < 0.5:
            v = (1 << (8 * n)) - 1 - self.r.randrange(0, 3)
        elif k < 0.7:
            v = 1 << self.r.randrange(0, 8 * n)
        else:
            v = self.r.randrange(0, 1 << (8 * n))
        if bits is not None:
            v &= (1 << bits) - 1
        return list(v.to_bytes(n, "big"))

    def sid(self):
        return self.octets(4, 31)

    def nz(self):
        o = self.octets(4, 31)
        return o if any(o) else [0, 0, 0, 1]

    def mime(self, lim=255):
        k = self.r.random()
        if k < 0.2:
            return []
        if k < 0.4:
            return [[self.pick([65, 97, 47]), self.pick([1, 127, 128, 254, 255, lim])]]
        if k < 0.5:
            n = self.r.randrange(1, 120)
            return cat(lit("é".encode()), [[66, n]])
        t = "".join(self.pick(list("abcxyz/+.-09")) for _ in range(self.r.randrange(1, 30)))
        return lit(t.encode())

    # ---- arguments of a frame

    def args(self, k=None):
        r = self.r
        k = k or self.pick(KINDS)
        b = lambda: r.random() < 0.5  # noqa
        a = {"k": k}
        if k == "SETUP":
            a.update(resume=b(), lease=b(), maj=self.pick([0, 1, 2, 255, 256, 65535]),
                     min=self.pick([0, 1, 255, 256, 513, 65535]), ka=self.octets(4, 31),
                     lt=self.octets(4, 31), tok=self.part(65535) if r.random() < 0.5 else [],
                     mm=self.mime(), dm=self.mime(), meta=self.part(MAX24), data=self.part())
        elif k == "LEASE":
            a.update(ttl=self.octets(4, 31), n=self.octets(4, 31), meta=self.part())
        elif k == "KEEPALIVE":
            a.update(pos=self.octets(8, 63), resp=b(), data=self.part())
        elif k in ("REQUEST_RESPONSE", "REQUEST_FNF"):
            a.update(sid=self.sid(), follows=b(), meta=self.part(MAX24), data=self.part())
        elif k == "REQUEST_STREAM":
            a.update(sid=self.sid(), follows=b(), n=self.nz(), meta=self.part(MAX24), data=self.part())
        elif k == "REQUEST_CHANNEL":
            a.update(sid=self.sid(), follows=b(), complete=b(), n=self.nz(), meta=self.part(MAX24),
                     data=self.part())
        elif k == "REQUEST_N":
            a.update(sid=self.sid(), n=self.nz())
        elif k == "CANCEL":
            a.update(sid=self.sid())
        elif k == "PAYLOAD":
            a.update(sid=self.sid(), fl=r.randrange(0, 32) * 32, meta=self.part(MAX24), data=self.part())
        elif k == "ERROR":
            a.update(sid=self.pick([[0, 0, 0, 0], self.sid()]),
                     code=self.pick(CODES) if r.random() < 0.7 else self.octets(4),
                     data=[self.text()] if r.random() < 0.5 else self.part())
        elif k == "METADATA_PUSH":
            a.update(meta=self.string(self.length()))
        elif k == "RESUME":
            a.update(maj=self.pick([0, 1, 256, 65535]), min=self.pick([0, 255, 65535]),
                     tok=self.string(self.length(65535)), srv=self.octets(8, 63),
                     cli=self.octets(8, 63))
        else:
            a.update(pos=self.octets(8, 63))
        return a

    def edge_args(self):
        """Arguments at or beyond a limit."""
        a = self.args()
        k = a["k"]
        r = self.r
        for x, v in list(a.items()):
            if r.random() < 0.5:
                continue
            if x in ("sid", "ka", "lt", "ttl", "n"):
                a[x] = self.octets(4)
            elif x in ("pos", "srv", "cli"):
                a[x] = self.octets(8)
            elif x == "n":
                a[x] = self.pick([[0, 0, 0, 0], self.octets(4), [128, 0, 0, 0]])
            elif x in ("mm", "dm"):
                a[x] = [[self.pick([65, 66]), self.pick([254, 255, 256, 257, 300, 511, 512, 65536])]]
            elif x == "tok":
                t = [[self.r.randrange(256), self.pick([65534, 65535, 65536, 65537, 70000, 131072])]]
                a[x] = t if k == "RESUME" else [t]
            elif x == "meta" and k not in ("METADATA_PUSH", "LEASE") and r.random() < 0.1:
                a[x] = [[[77, self.pick([MAX24 - 1, MAX24, MAX24 + 1, MAX24 + 2, 1 << 25])]]]
            elif x == "code":
                a[x] = self.octets(4)
        return a

    # ---- byte strings after the layout of a kind, written by somebody else

    def wire(self, k=None):
        r = self.r
        k = k or self.pick(KINDS)
        fl = r.randrange(0, 1024) if r.random() < 0.6 else self.pick([0, 32, 64, 128, 192, 256, 384, 448, 512])
        conn = k in ("SETUP", "LEASE", "KEEPALIVE", "METADATA_PUSH", "RESUME", "RESUME_OK")
        if conn and r.random() < 0.85:
            sid = self.pick([[0, 0, 0, 0], [128, 0, 0, 0]])
        else:
            sid = self.octets(4)
        w = 1024 * (KINDS.index(k) + 1) + fl
        out = [lit(sid), lit([w >> 8, w & 255])]
        num = lambda n: lit(self.octets(n))  # noqa

        def var(wd, lim):
            s = self.string(self.length(lim))
            return cat(lit(list(size(s).to_bytes(wd, "big"))), s)

        def tail(data=True):
            t = var(3, MAX24) if fl & 256 else []
            return cat(t, self.string(self.length()) if data and r.random() < 0.7 else [])
        if k == "SETUP":
            out += [num(2), num(2), num(4), num(4)]
            if fl & 128:
                out.append(var(2, 65535))
            out += [var(1, 255), var(1, 255), tail()]
        elif k == "LEASE":
            out += [num(4), num(4), self.string(self.length()) if r.random() < 0.7 else []]
        elif k == "KEEPALIVE":
            out += [num(8), self.string(self.length()) if r.random() < 0.7 else []]
        elif k in ("REQUEST_RESPONSE", "REQUEST_FNF", "PAYLOAD"):
            out += [tail()]
        elif k in ("REQUEST_STREAM", "REQUEST_CHANNEL"):
            out += [num(4), tail()]
        elif k == "REQUEST_N":
            out += [num(4)]
        elif k == "ERROR":
            out += [lit(self.pick(CODES) if r.random() < 0.8 else self.octets(4)),
                    self.text() if r.random() < 0.5 else self.string(self.length())]
        elif k == "METADATA_PUSH":
            out += [self.string(self.length())]
        elif k == "RESUME":
            out += [num(2), num(2), var(2, 65535), num(8), num(8)]
        elif k == "RESUME_OK":
            out += [num(8)]
        if r.random() < 0.2:        # something behind the frame
            out.append(self.string(r.randrange(1, 12)))
        return cat(*out)

    def wild(self):
        """Bytes with a fault: cut, changed, of unknown type, or noise."""
        r = self.r
        q = r.random()
        if q < 0.15:
            return self.string(r.randrange(0, 40))
        s = self.wire()
        if q < 0.3:
            w = self.pick([0, 15, 16, 62, 63, 31, 32, 47]) * 1024 + r.randrange(1024)
            return cat(lit(self.octets(4)), lit([w >> 8, w & 255]), self.string(r.randrange(0, 30)))
        return s

    def cuts(self):
        if self.r.random() < 0.1:       # a byte or two at a time
            return list(range(1, self.pick([20, 40, 130, 300, 1000, 5000]), self.pick([1, 1, 2, 3])))
        return sorted(self.r.randrange(1, self.pick([8, 30, 300])) for _ in range(self.r.randrange(1, 7)))
