"""A store on the loopback interface that serves a directory over S3's protocol, and refuses requests on demand."""
import atexit
import os
import signal
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, unquote, urlsplit
from urllib.request import urlopen
from xml.sax.saxutils import escape

for k in list(os.environ):
    if k.startswith("AWS_") or k.lower().endswith("_proxy"):
        del os.environ[k]


def serve(root):
    """Returns the table's URI, the store's options, and a function that makes requests fail."""
    rules = []

    def refused(kind, key):
        for r in rules:
            if r["kind"] == kind and r["key"] == key:
                r["seen"] += 1
                if r["after"] < r["seen"] <= r["after"] + r["times"]:
                    return True
        return False

    class Handler(BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def log_message(self, *a):
            pass

        def answer(self, status, body, head=False, **headers):
            self.send_response(status)
            for k, v in headers.items():
                self.send_header(k.replace("_", "-"), v)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            if not head:
                self.wfile.write(body)

        def do_HEAD(self):
            self.do_GET(True)

        def do_GET(self, head=False):
            u = urlsplit(self.path)
            key = unquote(u.path).lstrip("/").partition("/")[2]
            q = {k: v[0] for k, v in parse_qs(u.query).items()}
            if "list-type" in q:
                return self.listing(q.get("prefix", ""))
            f = os.path.join(root, key)
            if refused("head" if head else "get", key):
                return self.answer(403, b"<Error><Code>AccessDenied</Code></Error>", head)
            if not key or not os.path.isfile(f):
                return self.answer(404, b"<Error><Code>NoSuchKey</Code></Error>", head)
            data = open(f, "rb").read()
            h = {"ETag": '"e"', "Last_Modified": "Mon, 01 Jan 2024 00:00:00 GMT"}
            r = self.headers.get("Range")
            if r:
                a, _, z = r.partition("=")[2].partition("-")
                n = len(data)
                lo, hi = (int(a), int(z) + 1 if z else n) if a else (n - int(z), n)
                hi = min(hi, n)
                h["Content_Range"] = f"bytes {lo}-{hi - 1}/{n}"
                return self.answer(206, data[lo:hi], head, **h)
            self.answer(200, data, head, **h)

        def listing(self, prefix):
            if refused("list", prefix):
                return self.answer(403, b"<Error><Code>AccessDenied</Code></Error>")
            d = os.path.join(root, prefix)
            x = ""
            for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                p = os.path.join(d, n)
                if os.path.isdir(p):
                    x += f"<CommonPrefixes><Prefix>{escape(prefix + n)}/</Prefix></CommonPrefixes>"
                else:
                    x += (f"<Contents><Key>{escape(prefix + n)}</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified>"
                          f"<ETag>e</ETag><Size>{os.path.getsize(p)}</Size></Contents>")
            x = f"<ListBucketResult><IsTruncated>false</IsTruncated>{x}</ListBucketResult>"
            self.answer(200, x.encode(), Content_Type="application/xml")

        def do_POST(self):
            kind, key, after, times = self.rfile.read(int(self.headers["Content-Length"])).decode().split("\n")
            rules.append({"kind": kind, "key": key, "after": int(after), "times": int(times), "seen": 0})
            self.answer(200, b"")

    # In a process of its own: calls of the reader keep the threads of this one from running.
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            s = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
            s.daemon_threads = True
            os.write(w, f"{s.server_port}\n".encode())
            parent = os.getppid()
            threading.Thread(target=s.serve_forever, daemon=True).start()
            while os.getppid() == parent:
                time.sleep(0.2)
        finally:
            os._exit(0)
    port = int(os.read(r, 20))
    atexit.register(os.kill, pid, signal.SIGKILL)
    options = {"aws_endpoint": f"http://127.0.0.1:{port}", "aws_allow_http": "true", "aws_region": "us-east-1",
               "aws_access_key_id": "id", "aws_secret_access_key": "secret", "aws_virtual_hosted_style_request": "false"}

    def deny(kind, key, after=0, times=1000):
        urlopen(f"http://127.0.0.1:{port}/", data=f"{kind}\n{key}\n{after}\n{times}".encode()).read()

    return "s3://bucket", options, deny
