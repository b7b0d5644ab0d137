"""Choice sequences: every random decision of a case goes through a Source.

A case is a pure function of the list of choices it consumed (ints and byte strings), so a
failing case is replayed, mutated and shrunk by editing that list.
"""

SPECIAL = bytes([0x0D, 0x1B, 0x8D, 0x0E, 0x0F, 0x00, 0xFF, 0x02, 0xFE, 0x01, 0x7F, 0x80])


class Discard(BaseException):
    """The case is outside the domain of the property."""


class Dictionary:
    """Constants the generators like to use: those found in the code under test."""

    def __init__(self, ints=(), strings=(), novel_ints=(), novel_strings=()):
        self.ints = sorted(set(ints))
        self.strings = sorted(set(strings))
        self.novel_ints = sorted(set(novel_ints))
        self.novel_strings = sorted(set(novel_strings))
        self._cache = {}

    def ranges(self, lo, hi):
        key = (lo, hi)
        got = self._cache.get(key)
        if got is None:
            if len(self._cache) > 4000:
                self._cache.clear()
            bounds = set()
            for b in (lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, (lo + hi) // 2):
                bounds.add(b)
            p = 1
            while p <= hi and p < 1 << 80:
                for d in (-1, 0, 1):
                    bounds.add(p + d)
                p <<= 1
            bounds = sorted(b for b in bounds if lo <= b <= hi)
            known = [i for i in self.ints if lo <= i <= hi]
            novel = [
                i + d for i in self.novel_ints for d in (0, 0, 0, 1, -1) if lo <= i + d <= hi
            ]
            got = self._cache[key] = (bounds, known, novel)
        return got


EMPTY = Dictionary()


class Source:
    """Draws choices from a prefix (replay), then from rng, then the simplest choice."""

    __slots__ = ("prefix", "pos", "out", "rng", "dic", "limit")

    def __init__(self, prefix=(), rng=None, dic=EMPTY, limit=100000):
        self.prefix = prefix
        self.pos = 0
        self.out = []
        self.rng = rng
        self.dic = dic
        self.limit = limit

    # -- primitive draws -----------------------------------------------------------
    def raw_int(self, n, gen=None):
        """A number from 0 (simplest) to n."""
        if len(self.out) >= self.limit:
            raise Discard("too many choices")
        pos = self.pos
        self.pos = pos + 1
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if isinstance(v, int):
                if v > n:
                    v = v % (n + 1)
            else:
                v = 0
        elif self.rng is not None:
            v = gen() if gen is not None else self.rng.randint(0, n)
        else:
            v = 0
        self.out.append(v)
        return v

    def int(self, lo, hi):
        """An integer, biased towards boundaries, powers of two, small and known values."""
        if hi <= lo:
            return lo
        return lo + self.raw_int(hi - lo, lambda: self._gen_int(lo, hi) - lo)

    def _gen_int(self, lo, hi):
        rng = self.rng
        p = rng.random()
        bounds, known, novel = self.dic.ranges(lo, hi)
        if novel and p < 0.2:
            return rng.choice(novel)
        p = rng.random()
        if p < 0.45:
            return rng.randint(lo, hi)
        if p < 0.65:
            return rng.choice(bounds)
        if p < 0.80:
            return lo + rng.randint(0, min(hi - lo, 16))
        if p < 0.92 or not known:
            span = hi - lo
            return lo + rng.randint(0, min(span, (1 << rng.randint(0, span.bit_length())) - 1))
        return rng.choice(known)

    def uniform(self, lo, hi):
        return lo + self.raw_int(hi - lo)

    def chance(self, p):
        """True with probability p; False is the simpler choice."""
        return self.raw_int(1, lambda: 1 if self.rng.random() < p else 0) == 1

    def bool(self):
        return self.raw_int(1) == 1

    def choice(self, seq):
        return seq[self.raw_int(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w

        def gen():
            x = self.rng.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1

        return pairs[self.raw_int(len(pairs) - 1, gen)][1]

    def bytes(self, lo, hi=None, alphabet=None):
        """A byte string of lo to hi bytes, drawn as one choice."""
        if hi is None:
            hi = lo
        if len(self.out) >= self.limit:
            raise Discard("too many choices")
        pos = self.pos
        self.pos = pos + 1
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if not isinstance(v, bytes):
                v = b""
            if len(v) > hi:
                v = v[:hi]
            if len(v) < lo:
                v = v + bytes(lo - len(v))
        elif self.rng is not None:
            v = self._gen_bytes(lo, hi)
        else:
            v = bytes(lo)
        if alphabet is not None:
            v = bytes(b if b in alphabet else alphabet[b % len(alphabet)] for b in v)
        self.out.append(v)
        return v

    def _gen_bytes(self, lo, hi):
        rng = self.rng
        n = lo if hi == lo else self._gen_int(lo, hi)
        if n == 0:
            return b""
        p = rng.random()
        dic = self.dic
        if p < 0.45:
            out = rng.randbytes(n)
        elif p < 0.60:
            out = bytes(rng.choices(SPECIAL, k=n))
        elif p < 0.70:
            out = bytes([rng.choice(SPECIAL) if rng.random() < 0.5 else rng.randint(0, 255)]) * n
        elif p < 0.80:
            out = bytes(rng.choices(range(32, 127), k=n))
        else:
            # mostly random with a few special runs
            out = bytearray(rng.randbytes(n))
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(n)
                k = rng.randint(1, 4)
                run = bytes(rng.choices(SPECIAL, k=k))
                if dic.strings and rng.random() < 0.3:
                    run = rng.choice(dic.strings)
                out[i : i + len(run)] = run
            out = bytes(out[:n])
            if len(out) < n:
                out += bytes(n - len(out))
        if dic.novel_ints or dic.novel_strings:
            if rng.random() < 0.3:
                out = bytearray(out)
                for _ in range(rng.randint(1, 2)):
                    i = rng.randrange(n)
                    if dic.novel_strings and (not dic.novel_ints or rng.random() < 0.5):
                        run = rng.choice(dic.novel_strings)
                    else:
                        v = rng.choice(dic.novel_ints)
                        if v < 0:
                            v = -v
                        w = max(1, (v.bit_length() + 7) // 8)
                        if w > 8:
                            continue
                        run = v.to_bytes(w, rng.choice(("little", "big")))
                    out[i : i + len(run)] = run
                out = bytes(out[:n]) + bytes(max(0, n - len(out)))
        return out

    # -- conveniences --------------------------------------------------------------
    def u8(self):
        return self.int(0, 0xFF)

    def u16(self):
        return self.int(0, 0xFFFF)

    def u32(self):
        return self.int(0, 0xFFFFFFFF)

    def list(self, lo, hi, fn):
        n = self.int(lo, hi)
        return [fn() for _ in range(n)]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.raw_int(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def split(self, data, max_cuts=6):
        """Cut data into consecutive non-empty pieces."""
        if len(data) < 2:
            return [data] if data else []
        mode = self.weighted([(30, "one"), (50, "cuts"), (20, "bytewise"), (5, "even")])
        if mode == "one":
            return [data]
        if mode == "bytewise" and (len(data) <= 400 or len(data) <= 3000 and self.chance(0.3)):
            return [data[i : i + 1] for i in range(len(data))]
        if mode == "even" and len(data) <= 3000:
            # as the buffers of modems and converters are full
            step = self.choice((8, 16, 2, 3, 14, 31, 64, 128, 256, 512))
            return [data[i : i + step] for i in range(0, len(data), step)]
        cuts = sorted({self.int(1, len(data) - 1) for _ in range(self.int(1, max_cuts))})
        cuts = [0] + cuts + [len(data)]
        return [data[a:b] for a, b in zip(cuts, cuts[1:])]


def encode_choices(choices):
    return [c if isinstance(c, int) else {"b": bytes(c).hex()} for c in choices]


def decode_choices(choices):
    return [c if isinstance(c, int) else bytes.fromhex(c["b"]) for c in choices]
