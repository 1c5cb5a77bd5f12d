"""C40: packing and unpacking a JWT are inverse."""
import functools
import itertools
import json

from mc.core import Scope, check, Prune
from mc import ref
from mc.jose import *

HEADERS = [
    {}, {"alg": "HS256"}, {"alg": "none", "typ": "JWT"}, {"alg": None},
    {"alg": "x", "kid": "\u00e5\u20ac\U0001f600"}, {"kid": "", "n": 0},
    {"alg": "a", "deep": {"l": [1, 2.5, None, True, {"x": "y\"\\\n\x00"}]}},
    {"alg": "a", "cty": "JWT"}, {"alg": "a", "cty": "json"}, {"alg": "a", "cty": "jwt"},
    {"alg": "a", "cty": "text/plain"}, {"alg": "a", "crit": ["b64"],
                                        "big": 1 << 70},
    {"alg": "a", "empty": None, "": "", "f": False, "l": [], "d": {}},
]
PARTS = [b"", b"\0", b"\xff\xfe\xfd", b"abcd", "", "text", "\u00e5\u20ac",
         "{}", '{"a": 1}', b'[1, 2]', "12", '"x"', "null", " true ",
         {"iss": "joe", "exp": 1300819380, "u": "\u00e5"}, {}, [], [1, "x"],
         {"n": {"m": [None]}}, {"n": None, "o": {"p": None}, "": [{"q": None}]}, 5, 0, True, None, 1.5,
         "{not json", b"\xef\xbb\xbf{}", "\ud7ff", "x" * 300, b"\x80abc"]


def octets(p):
    """what is encoded for a part"""
    return payload_octets(p)


def value(data, headers):
    """what payload() is"""
    cty = headers.get("cty")
    if cty is not None and cty.lower() != "jwt":
        try:
            return data.decode("utf-8")
        except UnicodeDecodeError:
            return data
    return payload_value(data)


def value_ok(got, data, headers):
    want = value(data, headers)
    if isinstance(got, bytes) and got == data:
        # octets that aren't UTF-8 stay octets
        try:
            data.decode("utf-8")
        except UnicodeDecodeError:
            return True
    return same(got, want)


def unpacked(j, headers, datas, b64, tok):
    check(j.headers == headers, "headers %r, not %r" % (j.headers, headers))
    check(list(j.b64part) == b64, "encoded parts %r, not %r" % (
        j.b64part, b64))
    check(list(j.part) == datas, "parts %r, not %r" % (j.part, datas))
    if len(datas) > 1:
        p = j.payload()
        check(value_ok(p, datas[1], headers), "payload %r, not %r" % (
            p, value(datas[1], headers)))
    check(j.pack() == tok, "packed again: %r, not %r" % (j.pack(), tok))


def make(kind, h):
    from jwkest import jwt, jws, jwe
    return {"JWT": jwt.JWT, "JWSig": jws.JWSig, "JWEnc": jwe.JWEnc}[kind](**h)


def roundtrip(c, nparts, parts, kinds=("JWT", "JWSig", "JWEnc")):
    h = c.choose("headers", HEADERS)
    how = c.choose("headers given", ["to the object", "to pack", "both"])
    kind = c.choose("class", kinds)
    ps = [c.choose("part %d" % i, parts) for i in range(nparts)]
    other = c.choose("unpacked by", kinds)
    text = c.choose("as", ["text", "octets"])
    eff = dict(h)
    if how != "to pack":
        eff["alg"] = h.get("alg") or None
    if how == "to pack" and not h:
        raise Prune()       # no headers were asked for
    obj = make(kind, {} if how == "to pack" else
               h if how == "to the object" else {"alg": "other"})
    given = list(ps)
    if how == "both":
        if not h:
            raise Prune()
        eff = dict(h)
    tok = obj.pack(parts=ps, headers=None if how == "to the object" else h)
    check(ps == given, "the list of parts is changed")
    check(isinstance(tok, str) and tok.count(".") == nparts, "token %r" % tok)
    datas = [ref.b64d(x) for x in tok.split(".")]
    check(json.loads(datas[0]) == eff, "header %r, not %r" % (datas[0], eff))
    for p, d in zip(ps, datas[1:]):
        check(d == octets(p) or not isinstance(p, (bytes, str)) and
              same(json.loads(d), p), "part %r is %r" % (p, d))
    check(tok == ".".join(ref.b64e(d) for d in datas), "encoding %r" % tok)
    # packing again, without parts, gives the same
    check(obj.pack() == tok, "packed again: %r" % obj.pack())
    j = make(other, {})
    r = j.unpack(tok if text == "text" else tok.encode())
    check(r is j, "unpack gives %r" % (r,))
    unpacked(j, eff, datas, [x.encode() for x in tok.split(".")], tok)
    if other == "JWSig":
        check(j.sign_input() == tok.encode().rsplit(b".", nparts - 1)[0] if
              nparts > 1 else True, "signature input %r" % j.sign_input())
        check(j.valid() == (nparts == 2), "valid() %r" % j.valid())
    if kind != "JWT":
        check(len(obj) == nparts + 1, "len %d" % len(obj))
    c.done("%d parts" % (nparts + 1))


def inside(c):
    """octets within JSON are text; what isn't JSON is refused"""
    from jwkest.jwt import JWT
    v, want = c.choose("value", [
        (b"text", "text"), (b"", ""), ("\u00e5".encode(), "\u00e5"),
        (b'"{}"', '"{}"'), (b"\0", "\0"), (b"12", "12"),
        (b"\xff", None), (b"ok\xc3", None), ({1, 2}, None), (1j, None),
        (object, None), ({(1, 2): 3}, None), ({b"k": 1}, None), (0.1, 0.1), (1e300, 1e300), (5e-324, 5e-324),
        (-0.5, -0.5), (123456789.123456789, 123456789.123456789),
        (2.0, 2.0), (1 << 200, 1 << 200), (-1, -1), (True, True)])
    place = c.choose("place", ["member", "list", "deep", "header", "header "
                               "list"])
    put = {"member": lambda x: {"a": x}, "list": lambda x: [x, 1, x],
           "deep": lambda x: {"l": [{"m": [[x]]}]}}
    h = {"alg": "a", "kid": v} if place == "header" else \
        {"alg": "a", "l": [v]} if place == "header list" else {"alg": "a"}
    part = put[place](v) if place in put else "msg"

    def go():
        tok = JWT(**h).pack(parts=[part])
        return JWT().unpack(tok)
    r = attempt(go)
    if want is None:
        check(raised(r), "%r in %s is packed" % (v, place))
        return c.done("refused")
    check(not raised(r), "%r in %s: %r" % (v, place, r))
    if place in put:
        got, exp = r.payload(), put[place](want)
    else:
        got = r.headers
        exp = dict(h, **({"kid": want} if place == "header" else
                         {"l": [want]}))
    check(same(got, exp), "%r, not %r" % (got, exp))
    c.done("the same")


# --- header texts and paddings made elsewhere ---------------------------------------

TEXTS = [b'{"alg":"HS256"}', b'{ "alg" : "HS256" }', b'{"typ":"JWT",\r\n '
         b'"alg":"HS256"}', b'{"alg":"HS256","typ":"JWT"}',
         b'{"alg":"none","alg":"HS256"}', b'{"\\u0061lg":"HS\\u0032\\u0035\\u0036"}',
         b'\t{"alg":"HS256"}\n', '{"alg":"HS256","k\u00e5":"\u20ac"}'.encode(),
         b'{"alg":"HS256","n":1e3,"m":-0.0,"b":123456789012345678901234567890}',
         b'{"alg":"HS256","a":[[[[[[]]]]]],"o":{"o":{"o":{}}}}',
         b'{"alg":"HS256","s":"\\ud83d\\ude00 \\/ \\n"}', b'{}', b'{"a":null}']
PADS = ["", "=", "==", "==="]


def foreign(c):
    text = c.choose("header", TEXTS)
    body = c.choose("payload", [b"", b"\0", b"ab", b"abc", b'{"a": 1}',
                                b"\xff\xff", b' "x" '])
    sig = c.choose("third part", [None, b"", b"s", b"sig", b"signature"])
    pads = [c.choose("padding %d" % i, PADS) for i in range(2)]
    kind = c.choose("class", ["JWT", "JWSig"])
    enc = [ref.b64e(x) for x in (text, body) + (() if sig is None else
                                                (sig,))]
    ok = True
    for i, p in enumerate(pads):
        if p and p != "=" * (-len(enc[i]) % 4):
            ok = False
        enc[i] += p
    tok = ".".join(enc)
    j = make(kind, {})
    r = attempt(j.unpack, tok)
    if not ok:
        refused(r, tok)
        c.done("refused")
        return
    check(not raised(r), "%r is refused: %r" % (tok, r))
    datas = [text, body] + ([] if sig is None else [sig])
    unpacked(j, json.loads(text), datas, [e.encode() for e in enc], tok)
    if kind == "JWSig":
        check(j.sign_input() == tok.encode() if sig is None else
              j.sign_input() == tok.encode().rsplit(b".", 1)[0],
              "signature input %r" % j.sign_input())
    c.done("unpacked")


def refused(r, tok):
    from jwkest import JWKESTException
    check(raised(r), "%r is unpacked" % (tok,))
    check(isinstance(r.e, (ValueError, JWKESTException)),
          "%r is refused with %r" % (tok, r.e))


# --- all texts up to a length -----------------------------------------------------------

ALPHA = [".", "A", "e", "_", "-", "=", "+", "/", "\n", "\0", "\u00e9", " "]


def model(tok):
    """-> parts or None"""
    if "." not in tok:
        return None
    out = []
    for p in tok.split("."):
        s = p.rstrip("=")
        pad = len(p) - len(s)
        if any(x not in ref.ALPHA for x in s) or len(s) % 4 == 1 or \
                pad and pad != -len(s) % 4:
            return None
        # the last character may have bits that don't count
        bits = "".join("{:06b}".format(ref.ALPHA.index(x)) for x in s)
        out.append(bytes(int(bits[i:i + 8], 2)
                         for i in range(0, len(bits) - 7, 8)))
    return out


def texts(c, n, fronts):
    """every text: a front, then up to n characters; the last three
    characters are enumerated within one execution"""
    front = c.choose("front", fronts)
    first = [c.choose("character %d" % i, [""] + ALPHA)
             for i in range(n - 3 if n > 3 else 0)]
    if any(not a and b for a, b in zip(first, first[1:])):
        raise Prune()
    count = 0
    for k in range(min(n, 3) + 1):
        if first and not first[-1] and k:
            break
        for rest in itertools.product(ALPHA, repeat=k):
            one(front + "".join(first) + "".join(rest))
            count += 1
    c.evals += count
    c.done("agrees")


def one(tok):
    from jwkest import jwt
    j = jwt.JWT()
    r = attempt(j.unpack, tok)
    want = model(tok)
    head = None
    if want is not None:
        try:
            head = json.loads(want[0].decode("utf-8"))
        except ValueError:
            want = None
    if want is None:
        refused(r, tok)
    elif isinstance(head, dict):
        check(not raised(r), "%r is refused: %r" % (tok, r))
        unpacked(j, head, want, [p.encode() for p in tok.split(".")], tok)
    elif raised(r):
        # not a JSON object: it may be refused
        refused(r, tok)


@functools.lru_cache(None)
def encoded(h):
    return ref.b64e(h)


def large(c):
    """many parts, long parts"""
    from jwkest import jwt
    n = c.choose("parts", [1, 5, 9, 15, 16, 17, 31, 64, 100, 255, 256, 300])
    ln = c.choose("length", [0, 1, 100] + (LARGE + [(1 << 20) + 1]
                                           if n == 1 else []))
    h = {"alg": "x", "long": "y" * c.choose("header", [0, 1000, 70000])}
    ps = [pattern(ln, i) for i in range(n)]
    tok = jwt.JWT(**h).pack(parts=ps)
    datas = [ref.b64d(x) for x in tok.split(".")]
    check(json.loads(datas[0]) == h and datas[1:] == ps,
          "%d parts of %d octets are packed wrongly" % (n, ln))
    j = make(c.choose("class", ["JWT", "JWSig", "JWEnc"]), {})
    r = attempt(j.unpack, tok)
    check(not raised(r), "%d parts of %d octets: %.300r" % (n, ln, r))
    check(j.headers == h and list(j.part) == datas and j.pack() == tok,
          "%d parts of %d octets are unpacked wrongly" % (n, ln))
    c.done("%d parts" % n)


def independent(c):
    """what one object gave away can be changed without another object, or
    the next unpacking, seeing it"""
    from jwkest import jwt
    kinds = [c.choose("class %d" % i, ["JWT", "JWSig", "JWEnc"])
             for i in range(2)]
    h = c.choose("header", [{"alg": "HS256", "kid": "a"},
                            {"alg": "none", "l": [1], "d": {"e": 1}}])
    body = c.choose("payload", [b'{"a": {"b": [1]}}', b"[1, [2]]"])
    what = c.choose("changed", ["headers", "header value", "payload",
                                "parts", "encoded parts"])
    again = c.choose("then", ["same object", "other object", "older object"])
    tok = ref.b64e(json.dumps(h).encode()) + "." + ref.b64e(body)
    a, b = make(kinds[0], {}), make(kinds[1], {})
    a.unpack(tok)
    if again == "older object":
        b.unpack(tok)
    if what == "headers":
        a.headers["alg"] = "changed"
        a.headers["new"] = 1
        del a.headers["l" if "l" in h else "kid"]
    elif what == "header value":
        if "l" not in h:
            raise Prune()
        a.headers["l"].append(2)
        a.headers["d"].clear()
    elif what == "payload":
        p = a.payload()
        if isinstance(p, dict):
            p["a"]["b"].append(2)
            p["c"] = 1
        else:
            p[1].append(3)
            p.append(4)
    else:
        l = a.part if what == "parts" else a.b64part
        if not isinstance(l, list):
            raise Prune()
        l[1] = b"eA"
    j = a if again == "same object" else b
    if again != "older object":
        j.unpack(tok)
    unpacked(j, h, [json.dumps(h).encode(), body],
             [x.encode() for x in tok.split(".")], tok)
    c.done("unaffected")


def garbage(c):
    """malformed headers and odd arguments"""
    h = c.choose("header", [b"", b"{", b"}", b"{]", b"\xff", b'{"a":\xff}',
                            b"x", b"{'a': 1}", b'{"a": 1} x', b'{"a"}',
                            b"\xef\xbb\xbf{}", b'{"a": 01}', b'{"a": "\n"}',
                            b"\xfe\xff\0{\0}", b"\0",
                            b"[" * 20000, b'{"a":' * 20000])
    n = c.choose("parts", [1, 2, 3, 4])
    text = c.choose("as", ["text", "octets"])
    where = c.choose("where", ["header", "before", "after", "inside"])
    extra = c.choose("extra", ["", "*", "\u00e9", "\ud800", "\x00", "a b"])
    if len(h) > 100 and where != "header":
        raise Prune()
    tok = ".".join([encoded(h)] + ["AAAA"] * n)
    good = ".".join([ref.b64e(b'{"alg":"x"}')] + ["AAAA"] * n)
    if where == "header":
        if extra:
            raise Prune()
    elif not extra:
        raise Prune()
    elif where == "before":
        tok = extra + good
    elif where == "after":
        tok = good + extra
    else:
        tok = good[:4] + extra + good[4:]
    if text == "octets":
        tok = tok.encode("utf-8", "surrogatepass")
    refused(attempt(make("JWT", {}).unpack, tok), tok)
    c.done("refused")


# --- one object, used again and again ------------------------------------------------------

T = {"a": ({"alg": "a"}, b"A"), "b": ({"kid": "b"}, b"\xff\xff"),
     "long": ({"alg": "a", "cty": "x"}, b'{"x": 1}')}
OPS = ["unpack a", "unpack b", "unpack long", "unpack bad", "unpack bad 2",
       "pack", "pack p", "pack q", "payload"]


def history(c, depth):
    kind = c.choose("class", ["JWT", "JWSig", "JWEnc"])
    ops = [c.choose("op %d" % i, OPS) for i in range(depth)]
    j = make(kind, {"alg": "mine"})
    cur = ".".join([ref.b64e(b'{"alg":"mine"}')])
    hdr, datas = {"alg": "mine"}, None
    for op in ops:
        what, _, arg = op.partition(" ")
        if what == "unpack" and arg in T:
            h, p = T[arg]
            cur = ref.b64e(json.dumps(h).encode()) + "." + ref.b64e(p)
            j.unpack(cur)
            hdr, datas = h, [json.dumps(h).encode(), p]
        elif what == "unpack":
            refused(attempt(j.unpack, "AA" if arg == "bad" else "!.e30"), arg)
            cur = datas = None
            hdr = None
        elif op == "pack":
            if cur is not None:
                check(j.pack() == cur, "pack gives %r, not %r" % (
                    j.pack(), cur))
        elif what == "pack":
            h = {"alg": "p"} if arg == "p" else {"alg": "q", "typ": "t"}
            cur = j.pack(parts=[arg, {"x": arg}], headers=h)
            d = [ref.b64d(x) for x in cur.split(".")]
            check(json.loads(d[0]) == h and d[1] == arg.encode() and
                  json.loads(d[2]) == {"x": arg} and len(d) == 3,
                  "packed %r" % (d,))
            datas = None
        elif what == "payload" and datas is not None:
            check(value_ok(j.payload(), datas[1], hdr), "payload %r" % (
                j.payload(),))
        if datas is not None:
            unpacked(j, hdr, datas, [x.encode() for x in cur.split(".")], cur)
    c.done("ok")


def scopes(tier):
    th = tier == "thorough"
    few = [b"\xff", "text", {"a": 1}, b""]
    return [
        Scope("one part", lambda c: roundtrip(c, 1, PARTS), 1,
              "11 headers x 3 ways x 29 parts x 3 x 3 classes x text/octets"),
        Scope("two parts", lambda c: roundtrip(
            c, 2, PARTS if th else PARTS[::2], ("JWT", "JWSig")), 2,
            "the same for pairs of parts"),
        Scope("four parts", lambda c: roundtrip(
            c, 4, few if th else few[:3], ("JWT", "JWEnc")), 2,
            "all lists of four parts of %d" % (4 if th else 3)),
        Scope("six parts", lambda c: roundtrip(
            c, 6, few[:2], ("JWT",)), 2, "all lists of six of 2 parts"),
        Scope("made elsewhere", foreign, 2,
              "13 header texts x 7 payloads x 5 third parts x paddings"),
        Scope("all texts", lambda c: texts(
            c, 6 if th else 5, ["", "e30.", "e30"]), 3,
            "3 fronts and all texts up to %d characters of 12" % (
                6 if th else 5)),
        Scope("large", large, 2, "1 to 300 parts, parts up to 1 MiB, headers "
              "up to 70 kB"),
        Scope("independent", independent, 1, "what was unpacked is changed by "
              "the caller, and the token unpacked again"),
        Scope("inside", inside, 1, "20 values at 5 places within JSON"),
        Scope("malformed", garbage, 1, "malformed headers and characters"),
        Scope("histories", lambda c: history(c, 5 if th else 4), 2,
              "all sequences of 9 operations"),
    ]
