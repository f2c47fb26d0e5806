#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Concurrent requests never mix",
  "Every response delivered on a connection is the one determined by the request it answers, and responses on one connection come back in the order in which the requests were sent. This holds however many connections and pipelined requests are in flight, however their bytes are split, delayed or interleaved with each other and with handler suspensions, and whatever happens on other connections.",
  ["schedules", "inputs", "histories"],
  "all interleavings of worker threads, request arrivals, segmentations, handler suspensions and response drains, for any mix of registered routes and requests",
  "The only end-to-end test drives one request through one endpoint on one thread; no test has two requests in flight, a socket, a pipelined connection or a multi-threaded runtime.",
  ["src/app.rs", "src/context.rs", "src/router/handler.rs", "src/router/route_trie.rs"],
  [("per-connection router clone, per-request context and parameters", "src/app.rs App::listen, AppServer::resolve_endpoint"),
   ("parameters collected in a fresh map for every lookup", "src/router/route_trie.rs search_route")],
  state=[("Context", "request, parameters and response of one request", "src/context.rs")],
  observe=["bytes read by every simulated client", "what each handler saw"])

p("C02", "Requests reach exactly the right handler, exactly once",
  "A request runs the handler registered for its method and path and no other: path segments are matched whole, a literal segment is preferred to a pattern, ':name' matches exactly one segment and exposes that segment's text under its name, a trailing '*' matches everything below it. A request received completely runs its handler exactly once and an aborted one at most once; a request whose path, or whose method on that path, is not registered runs no handler and is answered 404. Routes registered through nested routers and scopes behave as if registered under the mount path.",
  ["inputs", "configurations", "schedules", "histories"],
  "any set and order of registrations (including nested routers), any request path and method, under any interleaving, disconnection and retry pattern of clients",
  "The trie tests look up a handful of fixed paths and assert only that something was found and how many middlewares it has; none checks which handler ran, how often, that similar prefixes do not capture each other, or anything under concurrent or aborted requests.",
  ["src/router/route_trie.rs", "src/router.rs", "src/router/resource.rs", "src/app.rs"],
  [("radix trie insertion and lookup", "src/router/route_trie.rs process_insertion, get_next_node, search_route"),
   ("method map per path", "src/router/resource.rs"),
   ("sub router mounting", "src/router/route_trie.rs insert_sub_route"),
   ("404 when nothing is registered", "src/app.rs resolve_endpoint")],
  observe=["handler invocations per request identity", "response status and body"])

p("C03", "Applicable middleware wraps each request exactly once, in order",
  "Every middleware registered at the root or at a path that is a whole-segment prefix of the matched route runs exactly once around the request, outer paths before inner ones and in registration order at the same path, and no other middleware runs. A middleware that answers or fails without calling on stops everything inside it; the outcome of the inside is returned unchanged to the middleware around it, after which its own later part runs. This holds however middleware and handlers suspend and however requests interleave.",
  ["configurations", "schedules", "histories"],
  "all registrations of middleware at roots, paths, patterns and nested routers; all interleavings of suspended chains; all combinations of short-circuit, error and panic positions",
  "Tests only count the middlewares returned by a lookup; none ever runs a chain of two, checks the order, a short circuit, an error passing outward, or two chains suspended at once.",
  ["src/app.rs", "src/middleware.rs", "src/router/route_trie.rs"],
  [("chain execution", "src/app.rs EndpointExecutor::next"),
   ("middleware accumulated along the search path", "src/router/route_trie.rs search_route, get_next_node")],
  observe=["middleware before/after events per request identity", "response headers set by the outermost middleware"])

p("C04", "A request body is decoded whole or not at all",
  "The value a handler gets from decoding a request body as a form or as JSON is the one encoded by the complete body, however the body is framed, split into segments, delayed or interleaved with other traffic. If the body cannot be received completely (disconnect, reset, broken framing), decoding reports an error and never yields a value built from part of it.",
  ["schedules", "fault_sequences", "inputs"],
  "every segmentation and timing of the body bytes, content-length and chunked framing, every truncation point and kind of abort",
  "Every test body is a single in-memory chunk, so neither the multi-chunk path nor a failing body stream is ever executed.",
  ["src/context.rs"],
  [("body aggregation before parsing", "src/context.rs Context::form, Context::json"),
   ("body taken out of the request", "src/context.rs take_body")],
  observe=["decoded value reported by the handler", "error reported by the handler after an abort"])

p("C05", "A failing request or connection never harms the others",
  "A panic in a handler or middleware, a malformed or aborted request, a connection reset at any point, or a failing accept call affects at most the connection it happens on. The server keeps running, keeps accepting connections, and every request on other connections is answered exactly as if the failure had not happened.",
  ["fault_sequences", "schedules", "crash_points"],
  "any sequence of panics, malformed input, resets, half-closes, silent peers and transient accept errors (descriptor exhaustion, aborted connections) placed anywhere in the traffic",
  "No test runs the server loop, so nothing about failures on one connection while others are active is exercised.",
  ["src/app.rs"],
  [("one service per connection", "src/app.rs App::listen make_service_fn"),
   ("request errors mapped to responses, not to connection errors", "src/app.rs resolve_endpoint")],
  observe=["responses on unaffected connections", "server task still alive and accepting at the end of the run"])

p("C06", "Every request is answered once faults stop; nobody else waits",
  "Every complete, well-formed request on a connection that stays open gets a complete response within a bounded time after faults stop, handler suspensions end and the peer reads. A stalled peer, a suspended handler or a stalled disk read delays only the requests that depend on it.",
  ["schedules", "fault_sequences"],
  "all interleavings and thread counts; any number of stalled peers, slow or never-reading clients, suspended handlers and stalled disk operations up to the pool size",
  "Liveness under stalls is a statement about schedules; the tests never have a second party that could be delayed.",
  ["src/app.rs", "src/router/response.rs", "src/context.rs", "src/middleware/logger.rs"],
  [("asynchronous file access off the runtime threads", "src/router/response.rs Response::file"),
   ("no lock held across suspension points", "src/app.rs, src/router.rs"),
   ("asynchronous body reception", "src/context.rs form, json")],
  observe=["simulated time at which each response is complete"])

p("C07", "Every handler outcome becomes one complete response",
  "An error returned by a handler or middleware is answered with status 500 and the error's text; a request handled successfully without building a response is answered 200 with an empty body; a response that cannot be converted to HTTP is answered 500. After any of these, as after 404, the connection stays usable and the next request on it is served normally.",
  ["inputs", "histories", "configurations"],
  "every outcome kind at every position of the chain, in every sequence of requests on kept-alive and pipelined connections",
  "Tests cover only the success outcome of one handler; no test observes an error, an absent response or an unconvertible header, or sends a second request on a connection.",
  ["src/app.rs", "src/error/obsidian_error.rs", "src/middleware/logger.rs"],
  [("outcome mapping", "src/app.rs resolve_endpoint, page_not_found, internal_server_error"),
   ("error text", "src/error/obsidian_error.rs Display")],
  observe=["status and body of error responses", "following responses on the same connection"])

p("C08", "A served file is byte-exact or not served as success",
  "A successful static-file or file response carries exactly the bytes of the requested regular file, of any content and size, as one consistent version when the file is replaced atomically during the request. When the file is missing or cannot be opened or read completely, the response is not a success and none of the file's partial content is presented as the file.",
  ["fault_sequences", "schedules", "inputs"],
  "every disk fault (missing, permission, descriptor exhaustion, I/O error at any read, interrupted calls, short reads, stalls) at every operation, concurrent replacement of files, any number of concurrent readers",
  "No test reads a file at all.",
  ["src/router/response.rs", "src/router.rs", "src/context.rs"],
  [("file response", "src/router/response.rs Response::file"),
   ("static handlers", "src/router.rs static_virtual_file_handler, static_dir_file_handler")],
  observe=["response status and body against the simulated disk's contents", "disk calls made"])

p("C09", "Static serving never leaves its directory",
  "A request under a static mount only ever opens files inside the directory that was mounted; no request path, however written, makes the server open, read or return the contents of a file outside it. This holds for every mount, concurrently with any other traffic and under any disk fault.",
  ["inputs", "histories", "fault_sequences"],
  "any request path (parent references, doubled separators, prefixes shared with other directories, encoded forms), any number of mounts and nesting, any interleaving",
  "No test serves a static file; escaping depends on the path as a live client sends it.",
  ["src/router.rs", "src/router/response.rs"],
  [("mapping of request path to file path", "src/router.rs static_virtual_file_handler, static_dir_file_handler")],
  observe=["every path passed to the simulated disk by the server", "contents of secret files outside the mounts"])

p("C10", "Application state reaches every request unmodified and unshared",
  "When application state is set, every middleware and handler of every request sees its own clone of the state as it was configured; data that a request adds to its context, and changes it makes to its clone, are visible to the later stages of the same request and to no other request. Sharing happens only through what the state's own clone shares.",
  ["schedules", "histories"],
  "all interleavings of requests that read and modify state and context data at suspension points, across connections, keep-alive and worker threads",
  "No test sets application state; leakage needs at least two requests with particular suspension points.",
  ["src/app.rs", "src/context.rs"],
  [("clone of state per request", "src/app.rs App::listen, resolve_endpoint"),
   ("typed per-request data", "src/context.rs add, get, get_mut")],
  observe=["state observed by handlers and middleware", "context data observed by handlers and middleware"])

p("C11", "The built-in logger is transparent and accurate",
  "Installing the built-in logger, at the root or at any path, changes no response and no outcome, including errors, absent responses and requests that run concurrently, and including when its output cannot be written or clocks jump. For every request passing through it that completes, it writes one line naming the method and target on arrival and one line with the outcome (the sent status, or the error).",
  ["fault_sequences", "schedules", "histories"],
  "every outcome under the logger, every interleaving, failing or full output, clock jumps",
  "The logger is only ever counted by tests, never run.",
  ["src/middleware/logger.rs"],
  [("logging around the rest of the chain", "src/middleware/logger.rs Logger::handle")],
  observe=["responses with and without logger", "bytes written to standard output"])

p("C12", "Everything a request holds is released when it ends",
  "When a request completes, fails, panics or is abandoned by its client, everything held for it is released: its clone of the application state, its context data, its body, its suspended handler and middleware, its open files; and when its connection ends, the connection's descriptor. After all clients have gone the server holds no more than when it was idle before.",
  ["fault_sequences", "schedules", "crash_points"],
  "disconnects, resets and panics at every point of request reception, processing and response transmission, in any interleaving",
  "Leaks show only over histories with aborted requests; no test has a client that can go away.",
  ["src/app.rs", "src/context.rs", "src/router/response.rs"],
  [("ownership of context by the request future", "src/app.rs resolve_endpoint, EndpointExecutor::next"),
   ("state clones owned by context", "src/app.rs resolve_endpoint")],
  observe=["live drop-counted values", "open descriptors of the simulated kernel"])

p("C13", "Responses arrive as built, under any backpressure",
  "The status, the headers and the body that the outermost layer hands back are what the client receives: the last value set for each header name, the exact body bytes and exactly one framing for them, for any body size and however slowly or irregularly the client reads. A client never receives a response that looks complete but is missing, repeating or reordering bytes.",
  ["schedules", "fault_sequences", "inputs"],
  "any status, header list and body size; any socket buffer size, partial write, stall and drain pattern; abort at any byte",
  "Tests inspect a response object in memory, never the bytes a slow client receives.",
  ["src/app.rs", "src/router/response.rs", "src/router/response_body.rs", "src/context.rs", "src/router/responder.rs"],
  [("conversion to the transport response", "src/app.rs resolve_endpoint"),
   ("response builders", "src/context.rs ResponseBuilder, src/router/response.rs")],
  observe=["parsed byte stream received by each client"])

p("C14", "Query and form decoding depend on nothing but the bytes sent",
  "Decoding the same query string or form body gives the same outcome on every run, thread and connection, whatever the process's random seeds and whatever is decoded concurrently: repeated names give their values in the order sent, a single-valued field takes the first of them, empty values count as absent, unknown names are ignored. A malformed value makes the decoding fail with an error and never panic, hang or yield a wrong value.",
  ["schedules", "inputs", "histories"],
  "any hash seed, any order of fields, any interleaving with other decodes, any segmentation of a form body",
  "The result passes through a randomly seeded hash map; tests run a few inputs under one unobserved seed each.",
  ["src/context.rs", "src/router/req_deserializer.rs"],
  [("grouping of repeated names", "src/context.rs parse_queries"),
   ("map deserialiser", "src/router/req_deserializer.rs")],
  observe=["decoded value or failure reported by the handler"])

p("C15", "Ambiguous or duplicate registrations are rejected at start-up",
  "Registering two handlers for the same method and path, a parameter where a different literal, parameter or wildcard already competes for the same segment, a '*' that is not a whole final segment, or a nested router over a path that already has routes, is rejected with a panic at registration. Registrations that are not ambiguous are accepted.",
  ["configurations"],
  "any sequence of registration calls",
  "Tests register four fixed conflicting pairs; the space of registration sequences is unbounded.",
  ["src/router/route_trie.rs", "src/router.rs"],
  [("insertion action and conflict detection", "src/router/route_trie.rs get_insertion_action, insert_route, insert_sub_route")])

p("C16", "Typed path parameters parse exactly or fail",
  "Asking for a path parameter as a type gives the value its text denotes for that type, an error naming the parameter when the text does not denote one, and a distinct error when no such parameter exists.",
  ["inputs"],
  "any segment text and any parseable type",
  "Tests ask for one integer and one string.",
  ["src/context.rs"],
  [("parameter access", "src/context.rs Context::param")])

p("C17", "Responder values convert to the documented status, type and body",
  "Each value that can be returned as a response converts to the documented status code, content type and body: text, bytes, unit, status codes, status-and-value pairs and optional text, with an absent optional giving 404.",
  ["inputs"],
  "any value of each supported type",
  "Tests check the status of two string values.",
  ["src/router/responder.rs", "src/router/response_body.rs", "src/router/response.rs"],
  [("conversions", "src/router/responder.rs, src/router/response_body.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
