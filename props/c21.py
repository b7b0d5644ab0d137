import struct

from vlib import clock, ref
from vlib.device import Line
from vlib.engine import Discard, call, must
from vlib.peers import hand
from vlib.world import gen_long, gen_setup

ID = "C21"
RULE = (
    "a device with 1-12 (rarely 150, very rarely 1100 in as many parts or 1400 in a few) objects answers read_parameters in 1-n parts with any number of"
    " objects each, also cut inside an object and parts that complete none, from any starting index; one or two reads per client;"
    " non-trivial: at least two parts (distinct byte streams)"
)


class Fault(Exception):
    pass


class Pages:
    """Device side: parts of the objects from index `first` on."""

    def __init__(self, s, r, setup, objects, first, style=None):
        self.style = style
        self.s, self.r, self.setup, self.first = s, r, setup, first
        self.blocks = [o.block() for o in objects]
        self.parts = []  # (index asked for, amount, end, data)
        self.done = False
        self.next = 0
        self.fail_at = None
        self.streams = []
        self.cut = False
        self.plan()

    def plan(self):
        s = self.s
        stream = b"".join(self.blocks)
        ends = []
        at = 0
        for b in self.blocks:
            at += len(b)
            ends.append(at)
        n = len(ends)
        have, pos = 0, 0
        style = self.style or s.choice(("single objects", "some", "one part", "bytes"))
        while True:
            left = n - have
            if style == "one part":
                take = left
            elif style == "single objects":
                take = min(1, left)
            elif style == "hundreds":
                take = s.int(1, left) if left else 0
            else:
                take = s.int(1, min(left, 6)) if left else 0
            # the bytes of the object that is cut and not sent yet
            rest = len(self.blocks[have]) - (pos - (ends[have - 1] if have else 0)) if left else 0
            if rest > 1 and s.chance(0.25 if style == "bytes" else 0.03):
                # a part that completes no object, but makes progress
                k = s.int(1, rest - 1)
                self.parts.append((self.first + have, 0, False, stream[pos : pos + k]))
                pos += k
                self.cut = True
                continue
            done = have + take
            new = ends[done - 1] if done else 0
            if done < n and s.chance(0.7 if style == "bytes" else 0.2):
                # also a piece of the next object
                self.cut = True
                new += s.int(1, len(self.blocks[done]) - 1)
            last = done == n and new == len(stream)
            end = last
            if last and s.chance(0.15):
                end = False  # the end is told by an extra empty part
            self.parts.append((self.first + have, take, end, stream[pos:new]))
            have, pos = done, new
            if last:
                if not end:
                    self.parts.append((self.first + have, 0, True, b""))
                return

    def answer(self, wire):
        s, r = self.s, self.r
        fields, payload = self.setup.read_request(wire)
        r.equal(fields["service"], ref.READ_PARAMS, "service asked for", wire=wire)
        r.check(not self.done, "another request after the end", wire=wire)
        r.check(len(payload) == 14, "size of the request payload", payload=payload)
        r.equal(payload[:6], self.setup.password.encode("latin-1"), "password", payload=payload)
        clock.pause(s, r)
        index, amount, end, data = self.parts[self.next]
        asked = struct.unpack_from("<H", payload, 10)[0]
        r.equal(asked, index, f"index asked for in part {self.next}", parts=self.parts)
        if self.next == self.fail_at:
            self.fail_at = "failed"
            if s.bool():
                raise Fault("the line is gone")
            return s.split(self.setup.wire(s, ref.READ_PARAMS, bytes((1 << s.int(0, 7),))), 3)
        self.next += 1
        self.done = end
        answer = struct.pack("<HHB", index, amount, end) + data
        stream = self.setup.wire(s, ref.READ_PARAMS, answer)
        self.streams.append(stream)
        return s.split(stream, 4)


def read_all(s, r):
    setup = gen_setup(s)
    n = s.int(1, 12) if s.chance(0.97) else s.int(30, 150)
    objects = [ref.gen_small_object(s) if s.chance(0.5) else ref.gen_object(s) for _ in range(n)]
    base = s.weighted([(3, 0), (2, None)])
    if base is None:
        base = s.int(0, 65535 - n)
    line = Line(None)
    client = setup.client(line)
    must(r, "connect", client.connect)
    key = []
    by = hand(s, r)
    turns = s.weighted([(3, 1), (1, 2)])
    skip = 0
    while turns:
        turns -= 1
        first = base + skip
        pages = Pages(s, r, setup, objects[skip:], first)
        line.answer = pages.answer
        if s.chance(0.2):
            # a read that ends with an error on the way; what it read counts for nothing
            pages.fail_at = s.int(0, len(pages.parts) - 1)
            got = by(call, client.read_parameters, first)
            r.check(
                not got.ok and pages.fail_at == "failed",
                f"reading that meets an error {got!r}",
                parts=pages.parts,
            )
            r.label("failed on the way")
            key += pages.streams
            if isinstance(got.error, Fault):
                # no answer came, so the session is over
                must(r, "disconnect", client.disconnect)
                if s.bool():
                    client = setup.client(line)
                must(r, "connect", client.connect)
            turns = max(turns, 1)
            if s.chance(0.3):
                skip = s.int(0, n - 1)
            continue
        if first == 0 and s.bool():
            got = by(must, r, "read_parameters", client.read_parameters)
        elif s.bool():
            got = by(must, r, "read_parameters", client.read_parameters, first)
        else:
            got = by(must, r, "read_parameters", client.read_parameters, read_from=first)
        r.check(pages.done, "stopped before the end", parts=pages.parts, asked=pages.next)
        r.check(len(got) == n - skip, f"{len(got)} objects instead of {n - skip}", parts=pages.parts)
        for i, (o, g) in enumerate(zip(objects[skip:], got)):
            bad = o.mismatch(g)
            r.check(bad is None, f"object {i}: {bad}", parts=pages.parts)
        r.label("1 part" if len(pages.parts) == 1 else "2-4 parts" if len(pages.parts) < 5 else "5+ parts")
        if pages.cut:
            r.label("objects cut")
        if len(pages.parts) > 1:
            key += pages.streams
        skip = s.int(0, n - 1)
    r.label("encrypted" if setup.encrypted else "plain")
    r.label("many objects" if n > 12 else "objects")
    if key:
        r.nontrivial(tuple(key))
        r.sample(first=base, objects=n, streams=key)


def long(s, r):
    """Hundreds of objects in as many parts."""
    setup = gen_setup(s)
    few = [ref.gen_small_object(s) for _ in range(3)]
    n = gen_long(s)
    order = s.bytes(1, 12)
    objects = [few[order[i % len(order)] % 3] for i in range(n)]
    first = s.choice((0, 1, 1000, 65535 - n))
    line = Line(None)
    client = setup.client(line)
    must(r, "connect", client.connect)
    pages = Pages(s, r, setup, objects, first, "single objects")
    line.answer = pages.answer
    got = must(r, "read_parameters", client.read_parameters, first)
    r.check(pages.done, "stopped before the end", parts=len(pages.parts), asked=pages.next)
    r.check(len(got) == n, f"{len(got)} objects instead of {n}", first=first)
    for i, (o, g) in enumerate(zip(objects, got)):
        bad = o.mismatch(g)
        r.check(bad is None, f"object {i}: {bad}")
    r.label("hundreds of parts")
    r.nontrivial("long", n, order, first)


def large(s, r):
    """Hundreds of objects in a few parts, up to a payload as long as a frame can carry."""
    setup = gen_setup(s)
    few = [ref.gen_object(s) for _ in range(3)] + [ref.gen_small_object(s) for _ in range(3)]
    n = s.choice((256, 257, 300, 512, 900, 1400)) + s.int(0, 3)
    order = s.bytes(1, 12)
    objects = [few[order[i % len(order)] % 6] for i in range(n)]
    first = s.choice((0, 1, 1000, 65535 - n))
    line = Line(None)
    client = setup.client(line)
    must(r, "connect", client.connect)
    pages = Pages(s, r, setup, objects, first, "hundreds")
    if any(len(p[3]) > 60000 for p in pages.parts):
        raise Discard("part longer than a frame")
    line.answer = pages.answer
    got = must(r, "read_parameters", client.read_parameters, first)
    r.check(pages.done, "stopped before the end", parts=len(pages.parts), asked=pages.next)
    r.check(len(got) == n, f"{len(got)} objects instead of {n}", first=first)
    for i, (o, g) in enumerate(zip(objects, got)):
        bad = o.mismatch(g)
        r.check(bad is None, f"object {i}: {bad}")
    most = max(p[1] for p in pages.parts)
    total = sum(len(p[3]) for p in pages.parts)
    r.label("256+ objects in a part" if most > 255 else "large")
    if total > 65535:
        r.label("more than 64 kB in all")
    r.nontrivial("large", n, order, first, tuple(p[1] for p in pages.parts))


FACETS = [(1000, "read all", read_all), (1, "long", long), (2, "large", large)]
QUICK = 32000
THOROUGH = 600000
