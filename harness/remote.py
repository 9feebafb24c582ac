"""Harness over the remote optimizer: the server's answers and timing are symbolic choices."""
import json
from urllib.parse import urlsplit, parse_qs

from .studies import StudySpec, skeletons
from .domain import build_result, check_result
from .util import attempt, same, snapshot

SK = skeletons()


class Answer:
    """what requests hands back"""

    def __init__(self, code, body):
        self.status_code = code
        self.ok = code < 400
        self.reason = "reason"
        self._body = body
        self.headers = {}
        self.url = ""

    @property
    def text(self):
        return self._body

    @property
    def content(self):
        return self._body.encode()

    def json(self, **k):
        return json.loads(self._body)

    def raise_for_status(self):
        import requests

        if self.status_code >= 400:
            raise requests.HTTPError("%d" % self.status_code)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def stale(doc):
    """a document of the same shape with other numbers"""
    if isinstance(doc, dict):
        return {k: stale(v) for k, v in doc.items()}
    if isinstance(doc, list):
        return [stale(v) for v in doc]
    return doc if isinstance(doc, str) else 0.0


class Server:
    def __init__(self, ctx, doc, job, polls, progress):
        self.ctx, self.doc, self.job, self.polls, self.progress = ctx, doc, job, polls, progress
        self.log = []
        self.ended = None  # what the client was told last, once nothing may follow
        self.n = 0

    def request(self, session, method, url, params=None, data=None, json=None, **k):
        import json as J
        import requests

        ctx = self.ctx
        full = requests.Request(method.upper(), url, params=params).prepare().url
        body = None
        if json is not None:
            body = J.loads(J.dumps(json))
        elif data is not None:
            body = J.loads(data)
        self.log.append((method.upper(), full, body))
        if self.ended is not None:
            ctx.check(False, "nothing is asked once the server has answered for good")
            raise requests.ConnectionError("closed")
        i = self.n
        self.n += 1
        code = ctx.choice("code%d" % i, [200, 404, 403, 500, 502])
        if code != 200:
            self.ended = ("http", code)
            return Answer(code, "<html>no document</html>")
        if method.upper() == "POST":
            st = ctx.choice("post", ["QUEUED", "COMPUTING", "ERROR", "TERMINATED"])
            d = dict(job=self.job, status=st, progress=self.progress)
        else:
            opts = ["TERMINATED", "ERROR"] + (["QUEUED", "COMPUTING"] if i < self.polls else [])
            st = ctx.choice("poll%d" % i, opts)
            d = dict(job=self.job, status=st)
            if st == "QUEUED":
                d["progress"] = max(0, self.progress - i)
            # fields of another state: only the status tells the end
            extra = ctx.choice("extra%d" % i, ["", "result", "message"]) if st in ("QUEUED", "COMPUTING") and i == 1 else ""
            if extra == "result":
                d["result"] = stale(self.doc)
            if extra == "message":
                d["message"] = "a note"
        if st == "TERMINATED":
            d["result"] = self.doc
            self.ended = ("result", None)
        if st == "ERROR":
            d["message"] = "the reason %d" % i
            self.ended = ("error", d["message"])
        return Answer(200, J.dumps(d))


class Patient(Server):
    """the job waits and computes for long: how long is a symbolic choice, the states come in the server's order"""

    def __init__(self, ctx, doc, job, progress, waits):
        super().__init__(ctx, doc, job, None, progress)
        q, c = ctx.choice("queued", waits), ctx.choice("computing", waits)
        end = ctx.choice("end", ["TERMINATED", "ERROR", 500])
        self.plan = ["QUEUED"] * (1 + q) + ["COMPUTING"] * c + [end]

    def answer(self, i, method):
        st = self.plan[i]
        d = dict(job=self.job, status=st)
        if st == 500:
            self.ended = ("http", 500)
            return 500, None, d
        if st == "QUEUED":
            d["progress"] = self.progress + (i * 7) % 5  # places move both ways: other jobs come and go
        return 200, st, d

    def request(self, session, method, url, params=None, data=None, json=None, **k):
        import json as J
        import requests

        full = requests.Request(method.upper(), url, params=params).prepare().url
        self.log.append((method.upper(), full, J.loads(J.dumps(json)) if json is not None else J.loads(data) if data is not None else None))
        if self.ended is not None:
            self.ctx.check(False, "nothing is asked once the server has answered for good")
            raise requests.ConnectionError("closed")
        i = self.n
        self.n += 1
        code, st, d = self.answer(i, method)
        if code != 200:
            return Answer(code, "<html>no document</html>")
        if st == "TERMINATED":
            d["result"] = self.doc
            self.ended = ("result", None)
        if st == "ERROR":
            d["message"] = "the reason %d" % i
            self.ended = ("error", d["message"])
        return Answer(200, J.dumps(d))


def h_long(ctx, sk, url, token, job, progress, waits):
    spec = StudySpec(ctx, SK[sk])
    ref, val = build_result(ctx, spec)
    ask(ctx, Patient(ctx, ref.to_json(), job, progress, waits), spec, val, url, token, job)


def h_again(ctx, sk, sk2, url, token, how):
    """the same optimizer (or another one) solves two studies one after the other"""
    import hadar as hd

    opt = None
    for r, (k, job, u, t) in enumerate(((sk, "a1", url, token), (sk2, "b2", url, token)) if how == "same" else
                                       ((sk, "a1", url, token), (sk2, "b2", url + "2", token + "2"))):
        spec = StudySpec(ctx, SK[k], tag="s%d" % r)
        ref, val = build_result(ctx, spec, tag="r%d" % r)
        if opt is None or how != "same":
            opt = hd.RemoteOptimizer(url=u, token=t)
        ask(ctx, Twice(ctx, ref.to_json(), job, r), spec, val, u, t, job, opt)


class Twice(Patient):
    def __init__(self, ctx, doc, job, r):
        Server.__init__(self, ctx, doc, job, None, 1)
        self.plan = ["QUEUED", ctx.choice("mid%d" % r, ["QUEUED", "COMPUTING"]), ctx.choice("end%d" % r, ["TERMINATED", "ERROR", 500])]


def h_remote(ctx, sk, url, token, job, polls, progress):
    spec = StudySpec(ctx, SK[sk])
    ref, val = build_result(ctx, spec)
    ask(ctx, Server(ctx, ref.to_json(), job, polls, progress), spec, val, url, token, job)


def ask(ctx, srv, spec, val, url, token, job, opt=None):
    import hadar as hd
    import requests
    from hadar.optimizer.remote.optimizer import ServerError

    st = spec.build()
    before = snapshot(st.to_json())
    keep = requests.Session.request
    requests.Session.request = lambda self, method, url, *a, **k: srv.request(self, method, url, *a, **k)
    try:
        if opt is None:
            opt = hd.RemoteOptimizer(url=url) if token is None else hd.RemoteOptimizer(url=url, token=token)
        res, ex = attempt(lambda: opt.solve(st))
    finally:
        requests.Session.request = keep
    tok = "" if token is None else token
    # ---- what was asked
    for i, (m, u, body) in enumerate(srv.log):
        p, base = urlsplit(u), urlsplit(url)
        ctx.check((p.scheme, p.netloc) == (base.scheme, base.netloc), "requests go to the given server")
        ctx.check(parse_qs(p.query, keep_blank_values=True) == {"token": [tok]}, "every request carries the token")
        if i == 0:
            ctx.check((m, p.path) == ("POST", base.path + "/api/v1/study"), "the study is posted first, once")
            if body is None:
                ctx.check(False, "the study is sent")
            else:
                same(ctx, before, body, "study", "the document sent is the study's")
        else:
            ctx.check((m, p.path) == ("GET", base.path + "/api/v1/result/%s" % job), "the posted job is followed")
    ctx.check(len(srv.log) >= 1, "the study is posted first, once")
    # ---- what came out
    ctx.check(srv.ended is not None, "the job is followed to its end")
    if srv.ended is not None:
        kind, what = srv.ended
        if kind == "result":
            ctx.check(ex is None, "a finished job gives a result (%s)" % type(ex).__name__)
            if ex is None:
                check_result(ctx, spec, res, val, "result")
        else:
            ctx.check(ex is not None, "a failure is never answered with a result")
            if kind == "error":
                ctx.check(isinstance(ex, ServerError) and what in str(ex), "a failed job is reported with its reason")
            elif what in (403, 404):
                ctx.check(isinstance(ex, ValueError), "wrong url or token is reported")
            elif what == 500:
                ctx.check(isinstance(ex, IOError), "a server failure is reported")
    same(ctx, before, st.to_json(), "study", "the study is left unchanged")
    ctx.reach("remote:" + (srv.ended[0] if srv.ended else "none"))
