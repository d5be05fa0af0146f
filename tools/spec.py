COMMON_ASSUMPTIONS = [
    "the bounds given for each job; nothing is claimed outside them",
    "clang 18's translation to LLVM bitcode (-O1) means what the source means; the library is compiled for x86-64 Linux with USE_SSL",
    "the engine and z3 are right (the engine is checked against native runs of sampled paths in every run)",
    "allocation succeeds within the allocation limit; streams and string formatting behave as modelled in runtime/rt.cpp; one thread (C39: two)",
]
KERNEL = "the kernel behaves as modelled in harness/kernel.h: any result its documentation allows, failures up to the bound"
TLS = "mbed TLS behaves as modelled in harness/tls.h: any result its documentation allows, failures and stalls up to the bound"
PEER = "the transport is a fr::Socket which follows the contract of send_raw and receive_raw (harness/fake_socket.h)"
ASSUME = {"C05": [PEER], "C06": [PEER], "C07": [PEER], "C12": [PEER], "C13": [PEER], "C26": [PEER], "C38": [PEER], "C14": [KERNEL], "C15": [KERNEL], "C16": [KERNEL], "C29": [KERNEL],
          "C30": [KERNEL, TLS], "C31": [KERNEL, TLS], "C32": [KERNEL, TLS], "C36": [KERNEL, TLS], "C37": [KERNEL, TLS], "C41": [TLS], "C42": [KERNEL, TLS], "C43": [KERNEL, TLS], "C39": [KERNEL, TLS, PEER], "C46": [KERNEL, TLS, PEER], "C48": [KERNEL, TLS]}
def J(harness, params=None, **kw):
    d = {"harness": harness, "params": params or {}}
    d.update(kw)
    return d
def SEG(t, h, c, e, thorough=0):
    r = (["success", "declared", "done"] if t != 5 else ["success", "done"]) + (["incomplete", "error"] if h else [])
    j = J("http_segments", {"TEMPLATE": t, "HOLES": h, "CUTS": c, "EXCESS": e}, title="http_segments t%d" % t, reach=r)
    if thorough:
        j.update(thorough_only=True, time=thorough // 4)
    return j
def HOSTILE(t):
    L = {"header": 9, "body": 3}
    def h(tpl, holes, title, reach, limits=None, thorough=None, only=False, **p):
        j = J("http_hostile", dict({"TYPE": t, "TEMPLATE": tpl, "HOLES": holes}, **p), title="http_hostile " + title, reach=reach, time=120)
        if limits: j["limits"] = limits
        if thorough: j["thorough"] = thorough
        if only: j["thorough_only"] = True
        return j
    more = lambda n, **p: {"params": {"HOLES": n}, "time": 600}
    r = [h(0, 6, "anything", ["error", "incomplete"], INSERT=1, thorough=more(8)),
         h(1, 8, "beginnings", ["header too big", "error", "incomplete"], limits=L, INSERT=1, thorough=more(9)),
         h(2, 2, "message", ["success", "error", "incomplete", "done"], CUTS=1 if t else 0, thorough=more(3)),
         h(3, 2, "huge length", ["success", "error", "incomplete"], thorough=more(3)),
         h(4, 2, "limits", ["success", "error", "incomplete", "body too big", "header too big", "endless"], limits={"header": 24 if t == 0 else 15, "body": 5}, CUTS=1, TRUNC=1),
         h(8 if t else 5, 1, "announced body", ["success", "error", "incomplete", "body too big"], limits={"header": 50, "body": 3}, CUTS=1, TRUNC=1)]
    if t:
        r += [h(5, 2, "chunks", ["success", "error", "incomplete"], CUTS=1), h(6, 5, "chunk sizes", ["success", "error", "incomplete"], INSERT=2, thorough=more(6)), h(9, 1, "many chunks", ["error", "body too big"], limits={"header": 50, "body": 20}, CUTS=1), h(7, 2, "huge chunk", ["success", "error", "incomplete"], thorough=more(3))]
    else:
        r += [h(2, 1, "message in parts", ["success", "error", "incomplete", "done"], CUTS=1, thorough=more(2))]
    return r
PROPS = {
 "C01": {"jobs": [J("url_encode", {"N": 4}), J("url_encode", {"N": 2, "LONG": 37}, title="url_encode long"), J("url_encode", {"N": 1, "LONG": 260}, title="url_encode longer")]},
 "C02": {"jobs": [J("url_decode", {"N": 6}, reach=["done", "escape"]), J("url_decode", {"N": 3, "LONG": 30}, title="url_decode long", reach=["done", "escape"])]},
 "C03": {"jobs": [J("base64", {"N": 9}, reach=["full", "one", "two"]), J("base64", {"LO": 48, "N": 20}, title="base64 long", reach=["full", "one", "two"]), J("base64", {"LO": 255, "N": 4}, title="base64 longer", reach=["full", "one", "two"])]},
 "C04": {"jobs": [J("sha1", {"MAX": 130}), J("sha1", {"LEN": 256}, title="sha1 256"), J("sha1", {"LEN": 999}, title="sha1 999")]},
 "C05": {"jobs": [J("ws_server", {"MODE": 0, "KEY": 24}, reach=["accepted", "done"], title="ws_server keys"), J("ws_server", {"MODE": 1, "CUTS": 1}, reach=["accepted", "done"], title="ws_server example"),
                  J("ws_server", {"MODE": 2}, reach=["accepted", "rejected", "other protocol", "done"], title="ws_server rejects"), J("ws_client", {}, reach=["connected", "failed", "frames", "done"])]},
 "C06": {"jobs": [J("webframe_roundtrip", {"LO": 0, "HI": 9}, reach=["masked", "unmasked", "done"]), J("webframe_roundtrip", {"LO": 9, "HI": 12, "STALLS": 0, "TXSTALLS": 0}, title="webframe_roundtrip large", steps=60000000, reach=["masked", "unmasked", "done"]), J("webframe_roundtrip", {"LO": 12, "HI": 13, "STALLS": 0, "TXSTALLS": 0}, title="webframe_roundtrip 1 MiB", steps=600000000, time=120, reach=["masked", "unmasked", "done"])]},
 "C07": {"jobs": [J("webframe_hostile", {"N": 10}, reach=["would block", "failed", "mask rule", "too big", "incomplete", "received", "done"]), J("webframe_hostile", {"N": 13}, title="webframe_hostile longer", reach=["mask rule", "too big", "received", "done"])]},
 "C08": {"jobs": [J("packet_scalar", {}, reach=["value", "done"])]},
 "C09": {"jobs": [J("packet_container", {"N": 3}, reach=["string", "vector", "map", "packetable", "long", "done"]),
                  J("packet_container", {"N": 3, "KIND": 15}, std="c++17", title="packet_container string_view", reach=["view", "done"]), J("packet_container", {"KIND": 16, "KINDS": 2}, title="packet_container many", reach=["many", "done"], steps=60000000), J("packet_container", {"KIND": 18, "KINDS": 1}, title="packet_container large", reach=["large", "done"], steps=60000000)]},
 "C10": {"jobs": [J("packet_hostile", {"N": 10}, reach=["string", "rejected", "vector", "done"]),
                  J("packet_hostile", {"N": 10, "KIND": 21}, std="c++17", title="packet_hostile string_view", reach=["view", "done"])]},
 "C11": {"jobs": [J("packet_cursor", {"N": 5, "STEPS": 3}, reach=["read", "extracted", "done"])]},
 "C12": {"jobs": [J("packet_framing", {"N": 2, "CUTS": 2, "STALLS": 2}, reach=["received", "too big", "broken off", "done"]), J("packet_framing", {"N": 1, "BIG": 1, "CUTS": 1, "STALLS": 0}, title="packet_framing large", reach=["received", "done"], steps=60000000)]},
 "C13": {"jobs": [J("receive_all", {"N": 6}, reach=["all", "would block", "failed", "done"]), J("receive_all", {"BIG": 5000, "CUTS": 2, "STALLS": 1}, title="receive_all large", reach=["all", "done"], steps=60000000), J("receive_all", {"BIG": 65536, "CUTS": 1, "STALLS": 1}, title="receive_all larger", reach=["all", "done"], steps=60000000), J("receive_all_sizes", {"READS": 2}, reach=["all", "would block", "done"], thorough={"params": {"READS": 3}})]},
 "C14": {"jobs": [J("tcp_transfer", {"N": 4}, reach=["sent", "stalled", "error", "received", "end", "done"]), J("tcp_transfer", {"BIG": 65537, "CUTS": 1, "EINTR": 0, "FAULTS": 1}, title="tcp_transfer large", reach=["sent", "received", "end", "done"], steps=60000000),
                  J("transfer_sizes", {"TLS": 0}, title="transfer_sizes TCP", reach=["sent", "stopped", "received", "done"], thorough={"params": {"MOVES": 4, "FAULTS": 2}})]},
 "C15": {"jobs": [J("tcp_connect", {"FAULTS": 2, "ADDRS": 2, "STEPS": 2}, reach=["connected", "failed", "disconnected", "done"]), J("tcp_connect", {"FAULTS": 1, "ADDRS": 1, "STEPS": 4, "BASES": 1}, title="tcp_connect history", reach=["connected", "failed", "disconnected", "done"])]},
 "C38": {"jobs": [J("ws_disconnect", {"STEPS": 3}, reach=["server", "client", "done"])]},
 "C16": {"jobs": [J("tcp_listener", {"FAULTS": 2, "ADDRS": 2, "STEPS": 3}, reach=["listening", "failed", "accepted", "accept failed", "bad cast", "done"])]},
 "C29": {"jobs": [J("selector", {"SOCKETS": 2, "STEPS": 4, "FAULTS": 1}, reach=["no selector", "add failed", "added", "wait failed", "ready", "removed", "removed disconnected", "reconnected", "done"]),
                  J("selector", {"REUSE": 1, "SOCKETS": 2, "STEPS": 3, "FAULTS": 0, "BASES": 1}, title="selector reuse", reach=["ready", "removed disconnected", "done"], thorough={"params": {"STEPS": 4}, "time": 300}), J("selector_many", {}, reach=["all", "done"], steps=60000000)]},
 "C30": {"jobs": [J("ssl_transfer", {"N": 4, "CUTS": 2, "STALLS": 2, "FAULTS": 1}, reach=["sent", "would block", "send failed", "received", "end", "receive failed", "done"]), J("ssl_transfer", {"BIG": 20000, "CUTS": 1, "STALLS": 1, "FAULTS": 1}, title="ssl_transfer large", reach=["sent", "received", "end", "done"], steps=60000000),
                  J("transfer_sizes", {"TLS": 1}, title="transfer_sizes TLS", reach=["sent", "stopped", "received", "done"], thorough={"params": {"MOVES": 4, "FAULTS": 2}})]},
 "C31": {"jobs": [J("ssl_connect", {"FAULTS": 2, "STALLS": 1, "STEPS": 2, "BASES": 1}, reach=["verified", "unverified", "refused", "failed", "disconnected", "done"])]},
 "C32": {"jobs": [J("ssl_listener", {"FAULTS": 2, "STALLS": 1, "STEPS": 3, "BASES": 2}, reach=["no listener", "listening", "failed", "accepted", "accept failed", "bad cast", "done"])]},
 "C41": {"jobs": [J("ssl_context", {"FAULTS": 1, "STEPS": 2, "N": 3}, reach=["no context", "file", "PEM", "DER", "neither", "refused", "done"])]},
 "C44": {"jobs": [J("http_fields", {"TYPE": t, "N": 2, "STEPS": 3}, title="http_fields " + n, reach=["uri", "assigned", "done"], thorough={"params": {"STEPS": 4}, "time": 600}) for t, n in ((0, "requests"), (1, "responses"))] + [J("http_fields", {"TYPE": t, "N": 1, "STEPS": 2, "PAD": 300}, title="http_fields long " + n, reach=["uri", "assigned", "done"]) for t, n in ((0, "requests"), (1, "responses"))]},
"C45": {"jobs": [J("url_fields", {"N": 2, "STEPS": 2}, reach=["parsed", "equal", "different", "done"], thorough={"params": {"STEPS": 3}, "time": 600}), J("url_fields", {"N": 1, "STEPS": 1, "PAD": 70}, title="url_fields long", reach=["parsed", "equal", "different", "done"])]},
 "C39": {"jobs": [J("threads", {"N": 2}, steps=30000000, reach=["done"])]},
 "C48": {"jobs": [J("shutdown", {"TLS": t, "STEPS": 4, "BASES": 1}, title="shutdown " + n, reach=["not sent", "received", "no wait", "shut down", "again", "accepted", "not accepted", "done"], thorough={"params": {"STEPS": 5}, "time": 900}) for t, n in ((0, "TCP"), (1, "TLS"))]},
 "C46": {"jobs": [J("startup", {"N": 2}, steps=30000000, reach=["done"])]},
"C42": {"jobs": [J("explain", {"TLS": t}, title="explain " + n, reach=["success", "lookup", "TLS error" if t else "transfer", "accept", "listen", "other", "done"]) for t, n in ((0, "TCP"), (1, "TLS"))]},
"C43": {"jobs": [J("disconnected", {"TLS": t, "STEPS": 2}, title="disconnected " + n, reach=["failed", "closed", "done"], thorough={"params": {"STEPS": 3}, "time": 600}) for t, n in ((0, "TCP"), (1, "TLS"))]},
"C36": {"jobs": [J("socket_modes", {"TLS": t, "MODES": 1, "STEPS": 4, "FAULTS": 1, "BASES": 1}, title="socket_modes " + n, reach=["blocking", "non-blocking", "disconnected", "would block", "timeout", "done"]) for t, n in ((0, "TcpSocket"), (1, "SSLSocket"))]},
 "C37": {"jobs": [J("socket_modes", {"TLS": t, "MODES": 0, "STEPS": 4, "FAULTS": 0, "BASES": 1}, title="timeouts " + n, reach=["receive timeout", "send timeout", "connected", "done"]) for t, n in ((0, "TcpSocket"), (1, "SSLSocket"))]},
 "C17": {"jobs": [SEG(0, 1, 1, 1), SEG(0, 2, 1, 0), SEG(1, 1, 1, 0), SEG(0, 0, 3, 0), SEG(1, 0, 3, 1), SEG(5, 2, 2, 1),
                  SEG(0, 1, 2, 1, 600), SEG(1, 2, 1, 1, 900), SEG(1, 1, 2, 0, 600), SEG(5, 2, 3, 1, 600)]},
 "C22": {"jobs": [SEG(2, 1, 1, 1), SEG(2, 2, 1, 0), SEG(3, 1, 1, 0), SEG(3, 0, 3, 1), SEG(4, 1, 1, 1), SEG(4, 0, 3, 0),
                  SEG(2, 1, 2, 1, 600), SEG(3, 2, 1, 1, 900), SEG(3, 1, 2, 0, 600), SEG(4, 2, 1, 0, 900), SEG(4, 1, 2, 1, 900)]},
 "C18": {"jobs": HOSTILE(0)},
 "C21": {"jobs": HOSTILE(1)},
 "C19": {"jobs": [J("http_request_parse", {"PART": p, "N": n}, title="http_request_parse " + t, reach=r, thorough={"params": {"N": n + 1}}) for p, n, t, r in
                  ((0, 3, "line and body", ["plain"]), (1, 2, "GET", ["parameter", "no other parameter"]), (2, 2, "headers", ["header"]), (3, 3, "POST", ["variable"]))]
                  + [J("http_request_parse", {"PART": 4, "M": 7}, title="http_request_parse methods", reach=["known", "unknown"])]
                  + [J("http_request_parse", {"PART": p, "N": 1, "PAD": 300}, title="http_request_parse long " + t) for p, t in ((0, "line and body"), (1, "GET"), (2, "headers"), (3, "POST"))]
                  + [J("http_request_parse", {"PART": p, "N": 1, "MANY": 100}, title="http_request_parse many " + t, steps=30000000) for p, t in ((1, "GET"), (2, "headers"), (3, "POST"))]},
 "C20": {"jobs": [J("http_request_roundtrip", {"PART": p, "N": n}, title="http_request_roundtrip " + t, reach=r + ["length", "done"], thorough={"params": {"N": n + 1}}) for p, n, t, r in
                  ((0, 3, "line and body", []), (1, 3, "GET", ["parameter"]), (2, 3, "headers", ["header"]), (3, 3, "POST", ["variable"]))]
                  + [J("http_request_roundtrip", {"PART": 4, "N": 2}, title="http_request_roundtrip variables and body", reach=["variable", "length", "done"])]
                  + [J("http_request_roundtrip", {"PART": p, "N": 1, "PAD": 300}, title="http_request_roundtrip long " + t) for p, t in ((1, "GET"), (2, "headers"), (3, "POST"))]
                  + [J("http_request_roundtrip", {"PART": p, "N": 1, "MANY": 100}, title="http_request_roundtrip many " + t, steps=30000000) for p, t in ((1, "GET"), (2, "headers"), (3, "POST"))]},
 "C23": {"jobs": [J("http_chunked", {"N": 2, "CHUNKS": 2, "CUTS": 1}, reach=["waiting", "header", "done"], thorough={"params": {"N": 3}}), J("http_chunked", {"N": 1, "CHUNKS": 2, "CUTS": 2, "ZEROS": 0, "EXT": 0}, title="http_chunked cuts", reach=["waiting", "header", "done"], thorough={"params": {"CHUNKS": 3}}),
                  J("http_chunked", {"CHUNKS": 1, "BIG": 1, "CUTS": 1}, title="http_chunked sizes", reach=["waiting", "header", "done"]), J("http_chunked", {"CHUNKS": 1, "N": 1, "CUTS": 0, "SPELLING": 1}, title="http_chunked header"),
                  J("http_chunked", {"N": 1, "CHUNKS": 1, "CUTS": 1, "EXT": 0, "ZEROS": 0, "TRAILERS": 3}, title="http_chunked trailers", reach=["waiting", "header", "done"]),
                  J("http_chunked", {"BIG": 2, "CHUNKS": 1, "CUTS": 1, "EXT": 0, "ZEROS": 0}, title="http_chunked large", reach=["waiting", "header", "done"], steps=60000000), J("http_chunked", {"N": 1, "CHUNKS": 5, "CUTS": 0, "EXT": 0, "ZEROS": 0}, title="http_chunked many", reach=["done"])]},
 "C47": {"jobs": [J("http_length", {"PART": 0, "N": 3}, title="http_length any", time=200, reach=["rejected", "waiting", "complete", "done"], thorough={"params": {"N": 4}, "time": 900}), J("http_length", {"PART": 0, "N": 2, "DIGITS": 20}, title="http_length large", reach=["rejected", "waiting", "complete", "done"]), J("http_length", {"PART": 0, "N": 1, "CUTS": 1}, title="http_length in parts", reach=["rejected", "waiting", "complete", "done"], thorough={"params": {"N": 2}}),
                  J("http_length", {"PART": 1, "N": 2}, title="http_length two", reach=["conflict", "waiting", "complete", "done"]), J("http_length", {"PART": 2, "N": 2}, title="http_length chunks", reach=["rejected", "waiting", "wrong size", "complete", "done"], thorough={"params": {"N": 3}, "time": 900}), J("http_length", {"PART": 2, "N": 1, "CUTS": 1}, title="http_length chunks in parts", reach=["rejected", "waiting", "wrong size", "complete", "done"], thorough={"params": {"N": 2}, "time": 600})]},
 "C24": {"jobs": [J("http_response_roundtrip", {"N": 2}, reach=["header", "length", "done"], thorough={"params": {"N": 3}}), J("http_response_roundtrip", {"N": 1, "STATUS": 1}, title="http_response_roundtrip statuses", reach=["length", "done"]), J("http_response_roundtrip", {"N": 1, "PAD": 300}, title="http_response_roundtrip long"), J("http_response_roundtrip", {"N": 1, "MANY": 100}, title="http_response_roundtrip many", steps=30000000)]},
 "C40": {"jobs": [J("http_response_parse", {"PART": 0, "N": 3}, title="http_response_parse status", thorough={"params": {"N": 5}}), J("http_response_parse", {"PART": 1, "N": 2}, title="http_response_parse headers", reach=["header", "done"], thorough={"params": {"N": 3}}), J("http_response_parse", {"PART": 1, "N": 1, "PAD": 300}, title="http_response_parse long"), J("http_response_parse", {"PART": 1, "N": 1, "MANY": 100}, title="http_response_parse many", steps=30000000)]},
 "C25": {"jobs": [J("http_names", {"N": 2, "STEPS": 3}, reach=["exists", "missing", "set", "done"], thorough={"params": {"N": 3, "STEPS": 3}}), J("http_names", {"N": 1, "PAD": 70, "STEPS": 2}, title="http_names long")]},
 "C26": {"jobs": [J("http_transfer", {"TYPE": t}, title="http_transfer " + n, reach=["send failed", "sent", "received", "broken off", "done"], thorough={"params": {"CUTS": 2}}) for t, n in ((0, "requests"), (1, "responses"))] + [J("http_transfer", {"TYPE": t, "N": 1, "BIG": 1, "CUTS": 1}, title="http_transfer large " + n, reach=["sent", "received", "done"], steps=60000000) for t, n in ((0, "requests"), (1, "responses"))]},
 "C27": {"jobs": [J("url_parse", {"N": 3}, reach=["port", "path", "query", "fragment", "done"], thorough={"params": {"N": 5}}), J("url_parse", {"N": 1, "PAD": 70}, title="url_parse long", reach=["port", "path", "query", "fragment", "done"]), J("url_parse", {"N": 1, "SCHEMES": 7}, title="url_parse schemes", reach=["port", "path", "query", "fragment", "done"]),
                  J("url_hostile", {"N": 6}, reach=["fixpoint", "done"], thorough={"params": {"N": 8}})]},
 "C28": {"jobs": [J("url_scheme", {"N": 7}, reach=["known", "rejected", "string", "done"])]},
 "C33": {"jobs": [J("strings", {"N": 7}, reach=["invalid status", "statuses", "type", "invalid type", "method", "encoding", "done"])]},
 "C34": {"jobs": [J("mimetype", {"N": 2}, steps=30000000, reach=["common", "odd", "extension"], thorough={"params": {"N": 4}, "time": 600}), J("mimetype", {"TABLE": 1}, title="mimetype table", steps=60000000, reach=["known"])]},
 "C35": {"jobs": [J("endian", {}, reach=["float", "double", "int", "done"])]},
}
for k, v in ASSUME.items():
    PROPS[k]["assumptions"] = v
