import attr

from elgas import security, utils
from vlib import clock, ref
from vlib.engine import call, member, must
from vlib.world import NEED, error_for, gen_noise, gen_request, gen_response, gen_setup, poll

ID = "C04"
RULE = (
    "1-3 requests of any type with generated arguments sent through one connection (or, as the"
    " client does, with masked password and key) of any configuration, each answered by the device"
    " in between (also one request object again, its fields replaced); the sent bytes are taken apart by the reference device; non-trivial: encrypted, or"
    " address bytes/payload that need stuffing or a high address byte"
)
ASSUMPTIONS = ["the receiving device is the reference decoder in vlib/ref.py"]


def between(s, r, setup, conn, req):
    """What the device answers before the next request."""
    what = s.weighted(
        [(6, "response"), (4, "device error"), (2, "noise first"), (2, "undecodable"), (1, "nothing")]
    )
    resp = gen_response(s, req.service)
    # (an answer that needs no encryption is taken, too)
    form = attr.evolve(setup, key=None) if s.chance(0.3) else setup
    wire = form.wire(s, req.service, resp.payload)
    r.label(f"before the next request: {what}")
    if what == "device error":
        status = s.choice((1 << s.int(0, 7), s.int(1, 255)))
        conn.receive_data(form.wire(s, req.service, bytes((status,))))
        value, errors = poll(conn)
        r.check(
            value is NEED and [type(e) for e in errors] == [error_for(status)],
            f"device error {status:#x}: {value!r} {errors!r}",
        )
        return
    if what in ("undecodable", "nothing"):
        if what == "undecodable":
            conn.receive_data(form.wire(s, req.service, s.bytes(2, 4)))
            call(conn.next_event)
        conn.reset()
        return
    if what == "noise first":
        conn.receive_data(gen_noise(s, setup, req.service, resp) or b"")
    conn.receive_data(wire)
    value, errors = poll(conn)
    bad = resp.mismatch(value)
    r.check(bad is None and not errors, f"device response: {bad or errors}", request=req)


def gen_changed(s, setup, req, event):
    """The same request object with other arguments."""
    other = gen_request(s, setup.password if s.chance(0.7) else None, service=req.service)
    fields = dict(other.kwargs)
    if req.service == ref.WRITE_TIME:
        fields["cryout"] = other.cryout
    if req.service != ref.READ_TIME:
        fields["password"] = other.password
    for name in s.shuffled(sorted(fields)):
        setattr(event, name, fields[name])
    return other


def wire(s, r):
    setup = gen_setup(s)
    if setup.key_id is not None and s.bool():
        setup.key_id = member(security.EncryptionKeyId, setup.key_id)
    masked = s.bool()
    if masked:
        plain_key, plain_password = setup.key, setup.password
        setup.key = utils.to_secret_byte(plain_key) if plain_key else plain_key
        setup.password = utils.to_secret_str(plain_password)
    conn = must(r, "creating a connection", setup.connection)
    addresses = setup.dst + setup.src
    r.label(
        "encrypted"
        if setup.encrypted
        else "key without id"
        if setup.key is not None
        else "id without key"
        if setup.key_id is not None
        else "plain"
    )
    n = s.int(1, 3)
    for i in range(n):
        if i and s.chance(0.25):
            if s.chance(0.8):
                req = gen_changed(s, setup, req, event)
            r.label("same request object again")
        else:
            req = gen_request(s, setup.password if s.chance(0.7) else None)
            event = req.make()
        sent = must(r, "sending a request", conn.send, event)
        fields, payload = setup.check_request(r, sent, req, addresses)
        if setup.encrypted and payload:
            cipher = fields["payload"][3:]
            r.check(payload not in cipher, "plaintext payload on the wire", wire=sent)
            r.check(
                req.password.encode("latin-1") not in cipher, "password on the wire", wire=sent
            )
        r.label(f"service {req.service:#x}")
        if i + 1 < n:
            if s.chance(0.3):
                # addresses configured anew count from the next request on
                setup.src, setup.dst = (s.u16(), s.u8()), (s.u16(), s.u8())
                conn.source_address_1, conn.source_address_2 = setup.src
                conn.destination_address_1, conn.destination_address_2 = setup.dst
                addresses = setup.dst + setup.src
                r.label("addresses changed")
            between(s, r, setup, conn, req)
            clock.pause(s, r)
        stuffed = len(sent) != len(payload) + 16
        if setup.encrypted or stuffed or max(setup.src[0], setup.dst[0]) > 255:
            r.nontrivial(setup.encrypted, addresses, req.service, payload, req.password)
            r.sample(config=(addresses, setup.key, setup.key_id), service=req.service, wire=sent)


FACETS = [(1, "wire", wire)]
QUICK = 120000
THOROUGH = 2500000
