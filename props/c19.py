import attr
import marshmallow

from elgas.parameters import device_error, sum_of_alarms
from elgas.parameters.difference_counter import DifferenceCounter
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory
from vlib import ref
from vlib.engine import call, member, must

ID = "C19"
RULE = (
    "one object of any type (decoded from generated bytes with finite numbers, or constructed for"
    " the types that cannot be decoded), dumped with the schema of its type, loaded back, then loaded"
    " with one or more fields missing; non-trivial: every distinct object"
)
DECODED = ref.TYPES + (61, 62)


def schema_of(r, t):
    cls = must(r, "schema of a type number", ParameterSchemaFactory.by_parameter_id, member(ParameterObjectType, t))
    return cls()


def make_object(s, r):
    """(type number, object)"""
    t = s.choice(DECODED)
    if t in (61, 62):
        cls = device_error.DeviceError if t == 61 else sum_of_alarms.SumOfAlarms
        optional = s.bool()
        kw = {}
        for a in attr.fields(cls):
            if a.name == "name":
                v = s.bytes(0, 23).decode("latin-1")
            elif a.name.startswith("text_log"):
                v = s.bytes(0, 13).decode("latin-1") if optional else None
            elif a.name == "action_during_change":
                v = s.u8() if optional else None
            elif a.name.startswith("in_"):
                v = s.bool()
            else:
                v = s.u16()
            kw[a.name] = v
        return t, must(r, "constructing an object", cls, **kw)
    o = ref.gen_object(s, t)
    got = must(r, "decoding an object", ParameterFactory.from_bytes, member(ParameterObjectType, t), o.data)
    bad = o.mismatch(got)
    r.check(bad is None, bad or "", data=o.data)
    return t, got


def plain(x):
    if isinstance(x, dict):
        return type(x) is dict and all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, list):
        return all(plain(v) for v in x)
    return x is None or type(x) in (str, int, float, bool)


def is_object(x):
    return attr.has(type(x))


def differs(a, b, path=""):
    """None, or where two objects differ."""
    if type(a) is not type(b):
        return f"{path or 'object'}: {type(b).__name__} instead of {type(a).__name__}"
    for f in attr.fields(type(a)):
        x, y = getattr(a, f.name), getattr(b, f.name, "<absent>")
        where = f"{path}{type(a).__name__}.{f.name}"
        if is_object(x):
            bad = differs(x, y, where + " ")
            if bad:
                return bad
        elif x != y or isinstance(x, str) != isinstance(y, str):
            return f"{where}: {y!r} instead of {x!r}"
    return None


def lacking(obj, data, path=""):
    for f in attr.fields(type(obj)):
        if f.name not in data:
            return path + f.name
        v = getattr(obj, f.name)
        if is_object(v):
            bad = lacking(v, data[f.name], path + f.name + ".")
            if bad:
                return bad
    return None


def both_ways(s, r):
    t, obj = make_object(s, r)
    schema = schema_of(r, t)
    data = must(r, f"dumping type {t}", schema.dump, obj)
    data = dict(data)
    r.check(plain(data), "dump is not plain data", data=data)
    bad = lacking(obj, data)
    r.check(bad is None, f"dump of {type(obj).__name__} lacks {bad}", data=data)
    back = must(r, f"loading type {t}", schema_of(r, t).load, data)
    bad = differs(obj, back)
    r.check(bad is None, bad or "", data=data)
    r.check(back == obj, "loaded object equals the dumped one", data=data)
    # each missing field is refused
    paths = []
    for name in data:
        paths.append((name,))
        if isinstance(data[name], dict):
            paths += [(name, k) for k in data[name]]
    for _ in range(s.int(1, 3)):
        missing = [s.choice(paths) for _ in range(s.weighted([(4, 1), (1, 2)]))]
        cut = {k: dict(v) if isinstance(v, dict) else v for k, v in data.items()}
        for p in missing:
            if len(p) == 1:
                cut.pop(p[0], None)
            elif p[0] in cut:
                cut[p[0]].pop(p[1], None)
        got = call(schema_of(r, t).load, cut)
        r.check(
            isinstance(got.error, marshmallow.ValidationError),
            f"type {t} without {missing} is not refused with a validation error",
            outcome=got,
        )
    r.label(f"type {t}")
    r.nontrivial(t, repr(data))
    r.sample(type=t, dump=data)


def base_difference(s, r):
    """Type 73: recorded finding."""
    o = ref.gen_object(s, 72)
    obj = must(r, "decoding an object", ParameterFactory.from_bytes, member(ParameterObjectType, 72), o.data)
    data = must(r, "dumping", schema_of(r, 73).dump, obj)
    got = call(schema_of(r, 73).load, data)
    if got.ok:
        r.check(type(got.value).__name__ == "DifferenceBaseCounter", "class of type 73", got=got)
    elif isinstance(got.error, TypeError):
        r.known("type-73-schema", f"loading type 73 {got!r}", data=data)
    else:
        r.fail(f"loading type 73 {got!r}", data=data)


FACETS = [(100, "both ways", both_ways), (1, "base difference", base_difference)]
QUICK = 60000
THOROUGH = 1200000
