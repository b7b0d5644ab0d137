from elgas import parser
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory
from vlib import clock, ref
from vlib.engine import call, member, must

ID = "C17"
RULE = (
    "one object of one of the 36 declared types, every field generated (texts with inner and"
    " missing NULs, non-finite floats, all control bits), decoded through the type map, its class and"
    " the block parser and compared field by field with the documented layout; non-trivial: every"
    " distinct object of a decodable type"
)
ASSUMPTIONS = [
    "texts trimmed of ASCII blanks or of all Unicode blanks are both accepted (the statement says"
    " trimmed, Latin-1 has blanks outside ASCII)"
]
DECLARED = tuple(int(t) for t in ParameterObjectType)


def fields(s, r):
    t = s.choice(ref.TYPES)
    obj = ref.gen_object(s, t, finite=not s.chance(0.05))
    kind = s.choice((bytes, bytearray))
    number = must(r, "type number", ParameterObjectType, t)
    if s.chance(0.06):
        # others like it first: the same head or the same tail, or cut, or of another type
        other = ref.gen_object(s, t, finite=True).data
        at = s.int(0, len(obj.data))
        for data in (obj.data[:at] + other[at:], other[:at] + obj.data[at:], obj.data[:at]):
            if s.bool():
                call(ParameterFactory.from_bytes, number, data)
        if s.chance(0.2):
            call(ParameterFactory.from_bytes, member(ParameterObjectType, s.choice(ref.TYPES)), obj.data)
        if s.chance(0.1):
            clock.pause(s, r, 0.5)
        r.label("after others")
    got = must(
        r, f"decoding an object of type {t}", ParameterFactory.from_bytes, number, kind(obj.data)
    )
    bad = obj.mismatch(got)
    r.check(bad is None, bad or "", data=obj.data)
    via = must(r, "parsing a block of one", parser.ScadaParameterParser().parse, obj.block())
    r.check(len(via) == 1, "number of objects in a block of one", got=len(via))
    bad = obj.mismatch(via[0])
    r.check(bad is None, f"out of a block: {bad}", data=obj.data)
    r.label(f"type {t}" + (" with optional" if obj.optional else ""))
    r.nontrivial(t, obj.data)
    r.sample(type=t, name=obj.name, data=obj.data)


def undecodable(s, r):
    """The types of the recorded findings: must decode, known to raise."""
    t = s.choice(ref.UNDECODABLE)
    if t == 73:
        data = s.bytes(30, 90)
        expected = None
    else:
        obj = ref.gen_object(s, t)
        data, expected = obj.data, obj
    got = call(ParameterFactory.from_bytes, member(ParameterObjectType, t), data)
    if got.ok:
        if expected is not None:
            bad = expected.mismatch(got.value)
            r.check(bad is None, bad or "", data=data)
        else:
            r.check(
                type(got.value).__name__ == "DifferenceBaseCounter", "class of type 73", got=got
            )
        return
    want = AttributeError if t == 73 else TypeError
    if type(got.error) is want:
        r.known(f"type-{t}", f"decoding type {t} {got!r}", data=data)
    else:
        r.fail(f"decoding type {t} {got!r}", data=data)


def declared(s, r):
    """Every number the package declares has a class, and the reference knows it."""
    t = s.choice(DECLARED)
    r.check(t in ref.LAYOUTS, f"type {t} is declared but not documented here")
    for t in ref.LAYOUTS:
        r.check(t in DECLARED, f"type {t} is no longer declared")
    r.label("declared types")


FACETS = [(300, "fields", fields), (6, "undecodable", undecodable), (1, "declared", declared)]
QUICK = 360000
THOROUGH = 2500000
