"""A simulated device at the other end of a client: a transport that answers requests."""



from vlib.engine import Fail, show



class Line:
    """Transport under the control of the harness (the ElgasTransport protocol).

    `answer(wire)` gets the bytes of each send and returns the byte pieces that recv() will
    return, one per call.
    """

    def __init__(self, answer, limit=1000000):
        self.answer = answer
        self.pieces = []
        self.sent = []
        self.connected = False
        self.recvs = 0
        self.limit = limit
        self.fail_on = None  # callable(operation) that may raise

    def __repr__(self):
        return "Line()"

    def connect(self):
        if self.fail_on:
            self.fail_on("connect")
        if self.connected:
            raise RuntimeError("already connected")
        self.connected = True
        self.pieces = []

    def disconnect(self):
        self.connected = False
        self.pieces = []
        if self.fail_on:
            self.fail_on("disconnect")

    def send(self, data):
        if not self.connected:
            raise RuntimeError("not connected")
        if self.fail_on:
            self.fail_on("send")
        data = bytes(data)
        self.sent.append(data)
        self.pieces.extend(self.answer(data))
        if self.fail_on:
            self.fail_on("sent")

    def recv(self):
        if not self.connected:
            raise RuntimeError("not connected")
        if self.fail_on:
            self.fail_on("recv")
        self.recvs += 1
        if self.recvs > self.limit:
            raise Fail("the client keeps receiving", {"sent": show(self.sent, 1500)})
        if not self.pieces:
            raise Fail(
                "the client waits for bytes although the device has answered everything",
                {"sent": show(self.sent, 2000)},
            )
        return self.pieces.pop(0)
