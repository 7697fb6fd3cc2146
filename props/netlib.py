"""A stand-in for the network: it records what is fetched and serves tar files, with the faults it is told."""
import contextlib
import io
import tarfile

import requests


def tarball(members):
    """A gzipped tar file of name -> content."""
    buf = io.BytesIO()
    with tarfile.open(mode="w:gz", fileobj=buf) as tar:
        for name, content in members.items():
            data = content if isinstance(content, bytes) else content.encode()
            info = tarfile.TarInfo(name)
            info.size = len(data)
            tar.addfile(info, io.BytesIO(data))
    return buf.getvalue()


class Fault(requests.exceptions.ConnectionError):
    pass


class Response:
    def __init__(self, data, status=200, length=True, nchunks=1, broken=None, empties=0):
        self.data, self.status_code, self.nchunks, self.broken, self.empties = data, status, nchunks, broken, empties
        self.headers = {"content-length": str(len(data))} if length else {}
        self.reason, self.url = "reason", "url"
        self.closed = False

    ok = property(lambda s: s.status_code < 400)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError("the server reports an error")

    def iter_content(self, chunk_size=1, decode_unicode=False):
        n = max(1, len(self.data) // max(1, self.nchunks))
        chunks = [self.data[i:i + n] for i in range(0, len(self.data), n)]
        for i, c in enumerate(chunks):
            if self.broken is not None and i == self.broken:
                raise Fault("connection broken")
            yield c
            for _ in range(self.empties):
                yield b""
        if self.broken is not None and self.broken >= len(chunks):
            raise Fault("connection broken")

    @property
    def content(self):
        return b"".join(self.iter_content())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.close()


class Net:
    """serve: url -> Response or an exception."""

    def __init__(self, serve):
        self.serve = serve
        self.calls = []
        self.responses = []

    def get(self, url, *a, **k):
        self.calls.append(str(url))
        r = self.serve(str(url))
        if isinstance(r, Exception):
            raise r
        self.responses.append(r)
        return r

    @contextlib.contextmanager
    def online(self):
        old = requests.get, requests.Session.request, requests.api.request, requests.request, requests.api.get
        requests.get = requests.api.get = self.get
        requests.api.request = requests.request = lambda method, url, *a, **k: self.get(url)
        net = self
        requests.Session.request = lambda s, method, url, *a, **k: net.get(url)
        try:
            yield self
        finally:
            requests.get, requests.Session.request, requests.api.request, requests.request, requests.api.get = old
