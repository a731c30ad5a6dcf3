"""A simulated HTTP network: every request of the library, whatever way it makes it,
ends in HTTPAdapter.send, which is replaced by a model server.  No socket is opened."""
import contextlib
import io
from urllib.parse import parse_qsl, urlsplit

import requests
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict
from requests.utils import get_encoding_from_headers


class Request(object):
    def __init__(self, prepared):
        self.method = prepared.method
        self.url = prepared.url
        u = urlsplit(prepared.url)
        self.where = "%s://%s%s" % (u.scheme, u.netloc, u.path)
        self.args = sorted(parse_qsl(u.query, keep_blank_values=True))
        self.headers = CaseInsensitiveDict(prepared.headers)
        self.body = prepared.body

    @property
    def params(self):
        return dict(self.args)


@contextlib.contextmanager
def network(server):
    """server(Request) -> (status, headers, bytes); every request is in the list given"""
    log = []
    original = HTTPAdapter.send
    environment = requests.sessions.Session.merge_environment_settings

    def send(self, prepared, **kw):
        req = Request(prepared)
        log.append(req)
        answer = server(req)
        if isinstance(answer, BaseException):
            raise answer
        status, headers, body = answer
        r = requests.Response()
        r.status_code = status
        r.headers = CaseInsensitiveDict(headers)
        r.encoding = get_encoding_from_headers(r.headers)
        r.raw = io.BytesIO(body)
        r.url = prepared.url
        r.request = prepared
        r.reason = "simulated"
        return r

    def merge(self, url, proxies, stream, verify, cert):
        # nothing from the environment (proxies, certificates) plays a part
        return {"proxies": {}, "stream": stream, "verify": True, "cert": None}
    HTTPAdapter.send = send
    requests.sessions.Session.merge_environment_settings = merge
    try:
        yield log
    finally:
        HTTPAdapter.send = original
        requests.sessions.Session.merge_environment_settings = environment


def charsets():
    """(headers, body, text): every way of telling the encoding of an answer; what the header says comes first,
    then the byte order mark, then the XML declaration, then UTF-8"""
    words = "<a>é à — ἄειδε</a>"
    out = []
    for ctype in (None, "application/xml", "application/tei+xml", "text/xml", "text/plain", "text/html", "TEXT/XML", "application/ld+json"):
        for header in (None, "; charset=%s", ";charset=\"%s\"", "; version=1; Charset=%s"):
            for enc in ("utf-8", "utf-8-sig", "iso-8859-1", "iso-8859-7", "utf-16"):
                for decl in ("", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="%s"?>', "<?xml  version='1.0'\n encoding = '%s' standalone='yes' ?>"):
                    if header is None and enc.startswith("iso") and "%s" not in decl or header and ctype is None:
                        continue
                    name = enc.replace("-sig", "").upper()
                    text = decl.replace("%s", name) + words.encode(enc, "xmlcharrefreplace").decode(enc)
                    out.append(({"Content-Type": ctype + (header % name if header else "")} if ctype else {}, text.encode(enc), text))
    return out
