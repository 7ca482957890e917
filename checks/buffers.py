"""What C06-C09 share: a buffered endpoint or a buffered sender, defined as a user would, with a scripted other side."""
import json
from mc import appkit, vloop
from mc.core import Violation

OPS = {     # operation -> (endpoint of a handler, endpoint of a sender)
    "data": ("data", "data"),
    "pause": ("processing.pause", "send_process.pause"), "unpause": ("processing.unpause", "send_process.unpause"),
    "rpause": ("receiving.pause", None), "runpause": ("receiving.unpause", None),
    "apause": ("all.pause", None), "aunpause": ("all.unpause", None),
    "first": ("errors.get_first_10", "errors.get_first_10"),
    "reall": ("errors.reprocess.all", "errors.reprocess.all"), "clear": ("errors.clear", "errors.clear"),
    "reone": ("errors.reprocess.one", "errors.reprocess.one"), "popone": ("errors.pop_request", "errors.pop_request"),
    "inspect": ("errors.inspect_request", "errors.inspect_request"),
}


class FakeClient:
    """Stands for the remote side of a buffered sender."""
    def __init__(self, fn):
        self.fn = fn

    async def send_message(self, route_key, data, response_dto_type=None, span_key=None):
        return await self.fn(data, span_key)


def failure(kind):
    from ekosis import exceptions as x
    return {"busy": lambda: x.ServerBusyException("busy"), "max": lambda: x.CommunicationsMaxRetriesReached("max"),
            "nonretry": lambda: x.CommunicationsNonRetryable("no"), "processing": lambda: x.ProcessingException("app"),
            "unhandled": lambda: x.UnhandledException("unhandled"), "raise": lambda: RuntimeError("boom"),
            "timeout": lambda: TimeoutError("t"), "empty": lambda: x.CommunicationsEmptyResponse("empty"),
            "unknown route": lambda: x.RouteKeyUnknownException("route")}[kind]()


class Subject:
    """attempt(who, span_key, dto) is awaited on every attempt and returns True, False, 'raise' or a kind of failure."""
    def __init__(self, kind, dto, attempt, keys, route="app.item", page=2, max_retries=0, wait=0):
        self.kind, self.route, self.keys = kind, route, keys
        self.sender = kind == "sender"

        def who(span_key):
            return next((i for i, k in enumerate(keys) if k == span_key), None)

        if self.sender:
            from ekosis.sending.buffered_sender import buffered_sender
            from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper

            async def send(data, span_key):
                out = await attempt(who(span_key), span_key, data)
                if out is True:
                    return None
                raise failure("busy" if out is False else out)

            @buffered_sender(FakeClient(send), route, dto, wait_period=wait, page_size=page, max_retries=max_retries)
            async def fn(data, span_key=None):
                return dto(**data)
            self.push = fn
            self.buffer = next(b for b in BufferedSenderKeeper().get_buffered_senders() if b.get_route_key() == route)
        else:
            from ekosis.requests.buffered_endpoint import buffered_endpoint
            from ekosis.requests.request_router import RequestRouter

            @buffered_endpoint(route, request_dto_type=dto, page_size=page, max_retries=max_retries)
            async def item(span_key, dto):
                out = await attempt(who(span_key), span_key, dto)
                if out not in (True, False, None):
                    raise failure(out)
                return out
            self.buffer = next(b for b in RequestRouter().get_buffered_handlers() if b.get_route_key() == route)

    async def setup(self, directory):
        await self.buffer.setup(directory, "verif_app", "0")

    def submit(self, conn, loop, i, data, on_result):
        """Hand message i over; on_result(status) when that has been answered (0: accepted)."""
        if self.sender:
            async def go():
                await self.push(data, span_key=self.keys[i])
                on_result(0)
            return loop.create_task(go())
        conn.waiting.append(lambda r: on_result(r["status"]))
        conn.send(appkit.line(self.route, self.keys[i], data))

    def manage(self, conn, op, on_result, key=None, queue=None):
        """Send a management request; on_result(data of the response)."""
        name = OPS[op][1 if self.sender else 0]
        route = f"eco.buffered_{'sender' if self.sender else 'handler'}.{name}"
        data = {"queue_route_key": queue or self.route}
        if key is not None:
            data["span_key"] = {"trace_id": str(key.trace_id), "span_id": str(key.span_id)}
        conn.n_managed = getattr(conn, "n_managed", 0) + 1
        k = appkit.span(500 + conn.n_managed)

        def answer(r):
            if r["status"] != 0:
                raise Violation(f"management request {route} answered {r}", "management request fails")
            on_result(r["data"])
        conn.waiting.append(answer)
        conn.send(appkit.line(route, k, data))

    def flags(self, qd):
        """(receiving paused, processing/sending paused) as reported."""
        return (None, qd["send_process_paused"]) if self.sender else (qd["receiving_paused"], qd["processing_paused"])


def connect(env, kit, name="c"):
    """A connection on which every response is handed to the oldest waiting request."""
    c = appkit.Conn(kit, "tcp", name)
    c.waiting = []

    def on_response(raw):
        env.log(f"{name} <- {raw.decode()[:160]}")
        if not c.waiting:
            env.fail(f"unexpected response {raw[:200]!r}", "unexpected response")
            return
        try:
            c.waiting.pop(0)(json.loads(raw))
        except Violation as e:
            env.failures.append(Violation(e.what, e.sig, env.trace[-80:]))
    c.on_response = on_response
    return c
