from datetime import datetime

from elgas import application, constants, exceptions
from vlib import clock, ref
from vlib.engine import call, member, must
from vlib.peers import hand
from vlib.world import (
    NEED,
    error_for,
    gen_exchanges,
    gen_long,
    gen_request,
    gen_response,
    gen_setup,
)

ID = "C13"
RULE = (
    "histories of 2-14 operations on one connection (send any request, encodable or not, or"
    " something that is no request; receive an intact response of any service, known to the client"
    " or not) checked step by step against a two-state model; non-trivial: at least one refused and"
    " one accepted operation (distinct histories)"
)
UNKNOWN = tuple(x for x in ref.SERVICES if x not in ref.ANSWERED)


def bad_request(s, password):
    """A request that cannot be encoded."""
    archive = member(constants.Archive, s.int(0, 10))
    t = ref.gen_time(s)
    n = s.choice((70000, 65536, -1))
    kind = s.int(0, 6)
    if kind == 0:
        return application.ReadDeviceParametersRequest(password, n, 1024)
    if kind == 1:
        return application.ReadArchiveRequest(password, archive, n, s.u32())
    if kind == 2:
        return application.ReadArchiveRequest(password, archive, s.u16(), s.choice((1 << 32, -1)))
    if kind == 3:
        return application.ReadArchiveByTimeRequest(password, archive, n, t)
    if kind == 4:
        return application.WriteTimeRequest(password, datetime(s.choice((1999, 2100)), 1, 1))
    if kind == 5:
        return application.ReadInstantaneousValuesRequest("\u20ac" * 6)
    return application.ReadArchiveByTimeRequest(password, archive, s.u16(), None)


def no_request(s):
    return s.choice(
        (
            application.CallResponse(),
            application.WriteTimeResponse(),
            application.ReadArchiveResponse(1, 2, b""),
            application.ReadDeviceParametersResponse(b"", 0, 0, True),
            NEED,
            None,
            "request",
        )
    )


def history(s, r):
    setup = gen_setup(s)
    conn = setup.connection()
    awaiting = None
    log = []
    accepted = refused = 0
    sent = []
    received = []
    by = hand(s, r)

    def protocol_error(got, what):
        r.check(
            isinstance(got.error, exceptions.LocalElgasProtocolError),
            f"{what} is not answered with the local protocol error",
            outcome=got,
            history=log,
            awaiting=awaiting,
        )

    for _ in range(s.int(2, 14)):
        clock.pause(s, r, 0.03)
        op = s.weighted(
            [(5, "send"), (6, "match"), (2, "other"), (2, "again"), (1, "unknown"), (1, "bad"), (1, "no request")]
        )
        if op == "send":
            if sent and s.chance(0.25):
                # an object that was sent (or refused) before
                req, request = s.choice(sent)
                r.label("same object again")
            else:
                req = gen_request(s, setup.password)
                request = req.make()
                sent.append((req, request))
            log.append(f"send {req.service:#x}")
            got = by(call, conn.send, request)
            if awaiting is None:
                r.check(got.ok, "request refused although idle", outcome=got, history=log)
                setup.check_request(r, got.value, req)
                awaiting = req.service
                accepted += 1
            else:
                protocol_error(got, "request while a response is outstanding")
                refused += 1
        elif op == "bad":
            log.append("send unencodable")
            got = call(conn.send, bad_request(s, setup.password))
            r.check(not got.ok, "request that cannot be encoded is sent", outcome=got, history=log)
            refused += 1
        elif op == "no request":
            thing = no_request(s)
            log.append(f"send {thing!r}")
            protocol_error(call(conn.send, thing), "sending something that is no request")
            refused += 1
        else:
            if op == "match" and awaiting is not None:
                service = awaiting
            elif op == "unknown":
                service = s.choice(UNKNOWN)
            else:
                service = s.choice(ref.ANSWERED)
            again = op == "again" and received
            if again:
                # what came before, byte for byte
                service, resp, wire = s.choice(received)
                r.label("same response again")
            elif service in UNKNOWN:
                wire = setup.wire(s, service, s.bytes(2, 40))
            else:
                resp = gen_response(s, service)
                wire = setup.wire(s, service, resp.payload)
                received.append((service, resp, wire))
            log.append(f"receive {service:#x}" + " again" * bool(again))
            by(conn.receive_data, wire)
            got = by(call, conn.next_event)
            if service == awaiting:
                r.check(got.ok, "matching response refused", outcome=got, history=log)
                bad = resp.mismatch(got.value)
                r.check(bad is None, bad or "", history=log)
                awaiting = None
                accepted += 1
            else:
                protocol_error(got, "response that does not match")
                refused += 1
            got = call(conn.next_event)
            r.check(
                got.ok and got.value is NEED,
                "something is delivered later for one response",
                outcome=got,
                history=log,
            )
    # the model and the connection still agree
    if awaiting is not None:
        got = call(conn.send, application.ReadTimeRequest())
        protocol_error(got, "request while a response is outstanding")
        resp = gen_response(s, awaiting)
        conn.receive_data(setup.wire(s, awaiting, resp.payload))
        bad = resp.mismatch(must(r, "matching response at the end", conn.next_event))
        r.check(bad is None, bad or "", history=log)
    req = gen_request(s, setup.password)
    setup.check_request(r, must(r, "request at the end", conn.send, req.make()), req)
    r.label(f"{min(len(log), 14) // 4 * 4}+ operations")
    for entry in log:
        r.label(entry.split(" ")[0] + " " + entry.split(" ")[1][:12])
    if accepted and refused:
        r.nontrivial(tuple(log), setup.encrypted)
        r.sample(history=log)


def long(s, r):
    """Hundreds of exchanges on one connection, refused requests and answers among them."""
    setup = gen_setup(s)
    conn = setup.connection()
    exchanges = gen_exchanges(s, setup)
    other = setup.wire(s, ref.READ_TIME, gen_response(s, ref.READ_TIME).payload)
    n = gen_long(s)
    order = s.bytes(1, 12)
    again = s.bool()
    made = [x[0].make() for x in exchanges]
    for i in range(n):
        x = order[i % len(order)]
        req, resp, status, wire = exchanges[x % len(exchanges)]
        request = made[x % len(exchanges)] if again else req.make()
        got = call(conn.send, request)
        r.check(got.ok, f"request of exchange {i} refused although idle", outcome=got)
        if x & 0x40:
            got = call(conn.send, request)
            r.check(
                isinstance(got.error, exceptions.LocalElgasProtocolError),
                f"second request in exchange {i}",
                outcome=got,
            )
        if x & 0x80 and req.service != ref.READ_TIME:
            conn.receive_data(other)
            got = call(conn.next_event)
            r.check(
                isinstance(got.error, exceptions.LocalElgasProtocolError),
                f"response that does not match in exchange {i}",
                outcome=got,
            )
        conn.receive_data(wire)
        got = call(conn.next_event)
        if status:
            r.check(type(got.error) is error_for(status), f"device error in exchange {i}", outcome=got)
        else:
            r.check(got.ok, f"response of exchange {i} refused", outcome=got)
            bad = resp.mismatch(got.value)
            r.check(bad is None, f"exchange {i}: {bad}", wire=wire)
        got = call(conn.next_event)
        r.check(got.ok and got.value is NEED, f"left-overs after exchange {i}", outcome=got)
    r.label("long history")
    r.nontrivial(n, order, tuple(x[3] for x in exchanges))
    r.sample(exchanges=n, kinds=[x[0].service for x in exchanges])


FACETS = [(1500, "history", history), (1, "long", long)]
QUICK = 60000
THOROUGH = 1600000
