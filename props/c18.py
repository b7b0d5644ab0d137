import struct

from elgas import parser
from vlib import ref
from vlib.engine import call, must

ID = "C18"
RULE = (
    "blocks of 1-12 (rarely 400, very rarely 6000) generated objects of all types, parsed as argument or given at"
    " construction or given to a parser used before; damaged blocks: cut at every kind of place, object length below the header or"
    " beyond the data, unknown type numbers, empty; non-trivial: two or more objects, or a damaged"
    " block (distinct bytes)"
)
UNKNOWN = tuple(x for x in range(256) if x not in ref.LAYOUTS)


def gen_block(s):
    mode = s.weighted([(6000, 0), (2500, 1), (1400, 2), (100, 3), (4, 4)])
    if mode == 0:
        n = s.int(1, 5)
    elif mode == 1:
        return [ref.gen_small_object(s) for _ in range(s.int(2, 12))]
    elif mode == 2:
        obj = ref.gen_object(s)
        return [obj] * s.int(2, 4) + [ref.gen_object(s)]
    else:
        obj = [ref.gen_small_object(s) for _ in range(3)]
        n = s.int(100, 400) if mode == 3 else s.int(1000, 6000)
        order = s.bytes(1, 50)
        return [obj[order[i % len(order)] % 3] for i in range(n)]
    return [ref.gen_object(s, finite=not s.chance(0.03)) for _ in range(n)]


def parse(s, data):
    kind = s.choice((bytes, bytearray))
    how = s.weighted([(2, 0), (2, 1), (1, 2)])
    if how == 0:
        return lambda: parser.ScadaParameterParser().parse(kind(data))
    if how == 1:
        return lambda: parser.ScadaParameterParser(kind(data)).parse()
    used = parser.ScadaParameterParser()
    for _ in range(s.int(1, 2)):
        other = ref.gen_small_object(s).block()
        call(used.parse, other[: s.int(1, len(other))] if s.bool() else other)
    return lambda: used.parse(kind(data))


def whole(s, r):
    objects = gen_block(s)
    data = b"".join(o.block() for o in objects)
    got = must(r, "parsing a block", parse(s, data))
    r.check(len(got) == len(objects), f"{len(got)} objects out of {len(objects)}", data=data)
    for i, (o, g) in enumerate(zip(objects, got)):
        bad = o.mismatch(g)
        r.check(bad is None, f"object {i} of {len(objects)}: {bad}", data=data)
    r.label(f"{len(objects)} objects" if len(objects) < 6 else "6+ objects")
    if len(objects) > 100:
        r.label("100+ objects" if len(objects) < 1000 else "1000+ objects")
    if len(objects) > 1:
        r.nontrivial(data)
        r.sample(types=[o.type for o in objects], data=data)


def boundaries(objects):
    out, at = [], 0
    for o in objects:
        at += len(o.block())
        out.append(at)
    return out


def damaged(s, r):
    if s.chance(0.01):
        one = ref.gen_small_object(s)
        objects = [one] * s.int(10, 700) + [ref.gen_small_object(s)]
        r.label("many objects, damaged")
    else:
        objects = [ref.gen_object(s) for _ in range(s.int(1, 3))]
    blocks = [bytearray(o.block()) for o in objects]
    if s.chance(0.3):
        # the intact block first
        must(r, "parsing an intact block", parse(s, b"".join(blocks)))
        r.label("intact one before")
    mode = s.choice(("cut", "short length", "long length", "unknown type", "empty", "trailing"))
    i = s.int(0, len(blocks) - 1)
    if mode == "cut":
        data = b"".join(blocks)
        ends = boundaries(objects)
        back = s.weighted([(3, 1), (2, 2), (5, 3)])
        k = len(data) - back if back < 3 else s.int(1, len(data) - 1)
        if k in ends:
            k -= 1
        data = data[:k]
    elif mode == "short length":
        blocks[i][:2] = struct.pack("<H", s.int(0, 2))
        data = b"".join(blocks)
    elif mode == "long length":
        # the last object claims more than there is
        blocks[-1][:2] = struct.pack("<H", min(0xFFFF, len(blocks[-1]) + s.int(1, 60000)))
        data = b"".join(blocks)
    elif mode == "unknown type":
        blocks[i][2] = s.choice(UNKNOWN)
        data = b"".join(blocks)
    elif mode == "trailing":
        # left-over bytes too few for an object
        data = b"".join(blocks) + s.choice((b"\x00", b"\x05", b"\x05\x00", b"\x03\x00", bytes(2), bytes(3)))
    else:
        data = b""
    got = call(parse(s, data))
    r.check(not got.ok, f"{mode}: damaged block accepted", data=data, outcome=got)
    r.label(mode)
    r.nontrivial(mode, data)
    r.sample(damage=mode, data=data, outcome=got)


def sized(s, r):
    """An object whose length states fewer or more bytes than its fields take."""
    objects = [ref.gen_small_object(s) for _ in range(s.int(1, 3))]
    i = s.int(0, len(objects) - 1)
    o = objects[i]
    need = ref.fixed_bytes(ref.LAYOUTS[o.type][1])
    if s.bool():
        # fewer bytes than the required fields
        blocks = [x.block() for x in objects]
        short = s.int(0, need - 1)
        blocks[i] = struct.pack("<HB", short + 3, o.type) + o.data[:short]
        data = b"".join(blocks)
        got = call(parse(s, data))
        r.check(not got.ok, "object built from fewer bytes than its fields", data=data, outcome=got)
        r.label("object too short")
        r.nontrivial("short", data)
    else:
        # more bytes than known: refused, or decoded with the rest left out and nothing shifted
        if ref.has_optional(o.type) and not o.optional:
            return
        extra = s.bytes(1, 20)
        blocks = [x.block() for x in objects]
        blocks[i] = struct.pack("<HB", len(o.data) + len(extra) + 3, o.type) + o.data + extra
        data = b"".join(blocks)
        got = call(parse(s, data))
        r.label("object longer than known")
        if got.ok:
            r.check(len(got.value) == len(objects), "number of objects", data=data, got=got)
            for want, g in zip(objects, got.value):
                bad = want.mismatch(g)
                r.check(bad is None, f"after a longer object: {bad}", data=data)
        r.nontrivial("long", data)


FACETS = [(5, "whole", whole), (3, "damaged", damaged), (2, "sized", sized)]
QUICK = 200000
THOROUGH = 2000000
