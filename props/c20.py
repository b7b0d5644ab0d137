import json

from elgas import integration, parser
from elgas.parameters.enumerations import ParameterObjectType
from elgas.parameters.factory import ParameterSchemaFactory
from props.c19 import differs
from vlib import ref
from vlib.engine import call, member, must

ID = "C20"
RULE = (
    "blocks of 1-8 (rarely 60, very rarely 1500) objects parsed, exported with the schema of their type into the"
    " configuration envelope (built from the envelope classes or from plain data), written as JSON,"
    " read as strict JSON and loaded back; non-trivial: two or more objects (distinct JSON)"
)


WORDS = (
    "None", "null", "none", "NULL", "nan", "NaN", "inf", "Infinity", "-Infinity", "true", "false",
    "True", "0", "1", "-1", "1.0", "1e3", "00", " ", "", "[]", "{}", "undefined", "N/A", "-", "\\u0041",
)


def gen_name(s):
    if s.chance(0.4):
        return None
    how = s.weighted([(6, "letters"), (2, "bytes"), (2, "word")])
    if how == "bytes":
        return s.bytes(0, 40).decode("latin-1")
    if how == "word":
        # what somebody may mistake for something else
        return s.choice(WORDS)
    name = "".join(chr(s.choice((0x20, 0x41, 0xE9, 0x22, 0x5C, 0x20AC, 0x1F600, 9, 0)) + b % 20) for b in s.bytes(0, 12))
    return name * s.int(1, 500) if s.chance(0.02) else name


def refuse_constant(name):
    raise ValueError(f"{name} is not JSON")


def strict(r, text):
    try:
        return json.loads(text, parse_constant=refuse_constant)
    except ValueError as e:
        r.fail(f"not standard JSON: {e}", text=text)


def schema(t):
    return ParameterSchemaFactory.by_parameter_id(member(ParameterObjectType, t))()


def export(s, r):
    size = s.weighted([(965, "some"), (30, "many"), (5, "hundreds")])
    n = s.int(1, 8) if size == "some" else s.int(20, 60)
    if size == "hundreds":
        few = [ref.gen_small_object(s) for _ in range(4)]
        n = s.int(200, 1500)
        sent = [s.choice(few) for _ in range(n)]
        r.label("200+ objects")
    else:
        sent = [ref.gen_object(s) for _ in range(n)]
    objects = must(
        r, "parsing a block", parser.ScadaParameterParser().parse, b"".join(o.block() for o in sent)
    )
    r.check(len(objects) == n, "number of objects parsed", got=len(objects), want=n)
    for i, (o, g) in enumerate(zip(sent, objects)):
        bad = o.mismatch(g)
        r.check(bad is None, f"object {i}: {bad}")
    names = [gen_name(s) for _ in range(n)]
    mode = s.choice(("classes", "dumped", "plain"))
    items = []
    for obj, name in zip(objects, names):
        t = obj.object_type if s.bool() else int(obj.object_type)
        data = must(r, "dumping an object", schema(obj.object_type).dump, obj)
        item = integration.UtilitarianConfigurationObject(
            parameter_type=t, data=data, series_name=name
        )
        if mode == "dumped":
            item = integration.UtilitarianConfigurationObjectSchema().dump(item)
        elif mode == "plain":
            item = {"parameter_type": int(t), "data": data, "series_name": name}
        items.append(item)
    envelope = (
        {"objects": items} if mode == "plain" else integration.UtilitarianConfiguration(objects=items)
    )
    text = must(r, "writing JSON", integration.UtilitarianConfigurationSchema().dumps, envelope)
    r.check(isinstance(text, str), "JSON text", got=text)
    read = strict(r, text)
    r.check(
        list(read) == ["objects"] and len(read["objects"]) == n, "envelope of the JSON", text=text
    )
    loaded = must(r, "reading JSON", integration.UtilitarianConfigurationSchema().loads, text)
    back_items = loaded["objects"] if isinstance(loaded, dict) else loaded.objects
    r.check(len(back_items) == n, "number of objects loaded", got=len(back_items), want=n)
    for i, item in enumerate(back_items):
        get = item.get if isinstance(item, dict) else lambda k, item=item: getattr(item, k)
        r.equal(get("parameter_type"), int(objects[i].object_type), f"type number of object {i}")
        r.check(get("series_name") == names[i], f"series name of object {i}", text=text, want=names[i])
        back = must(
            r, "loading an object", schema(get("parameter_type")).load, dict(get("data"))
        )
        bad = differs(objects[i], back)
        r.check(bad is None, f"object {i}: {bad}", text=text)
        r.check(back == objects[i], f"object {i} equals the exported one", text=text)
    r.label(mode)
    r.label("7+ objects" if n > 6 else f"{n} objects")
    if n > 1:
        r.nontrivial(text)
        r.sample(types=[o.type for o in sent], json=text)


def single(s, r):
    o = ref.gen_object(s)
    obj = must(r, "parsing", parser.ScadaParameterParser().parse, o.block())[0]
    data = must(r, "dumping an object", schema(o.type).dump, obj)
    item = integration.ConfigurationObject(parameter_type=obj.object_type, data=data)
    text = must(r, "writing JSON", integration.ConfigurationObjectSchema().dumps, item)
    strict(r, text)
    loaded = must(r, "reading JSON", integration.ConfigurationObjectSchema().loads, text)
    get = loaded.get if isinstance(loaded, dict) else lambda k: getattr(loaded, k)
    r.equal(get("parameter_type"), o.type, "type number")
    back = must(r, "loading an object", schema(o.type).load, dict(get("data")))
    bad = differs(obj, back)
    r.check(bad is None, bad or "", text=text)
    r.label("single object")
    r.nontrivial("single", text)


FACETS = [(3, "export", export), (1, "single", single)]
QUICK = 18000
THOROUGH = 500000
