COMMON = (' Assurance: seeded random search, not exhaustive; every run is exactly repeatable from its replay file. Trusted: the overlay that replaces the Go 1.27 scheduler, clock and'
          ' randomness and adds scheduling points between statements, the simulated sockets, and the oracle. Weak memory effects are covered only as data races (race-detector runs).'
          ' A crash, deadlock, livelock or data race in goji code during a run of this check is reported under this property.')

def anchors(files, mech, state=()):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]}

LIS = ['graceful/listener/conn.go', 'graceful/listener/shard.go', 'graceful/listener/listener.go']

GRC = ['graceful/signal.go', 'graceful/graceful.go', 'graceful/serve13.go', 'graceful/server.go', 'graceful/listener/listener.go', 'graceful/listener/conn.go', 'graceful/listener/shard.go']

PROPS = [
 dict(id='C01', title='Shutdown never closes a connection that is in use',
  statement='While a connection accepted from a wrapped listener is in use (marked so explicitly or, except in manual mode, by a completed read, and not marked idle since) neither CloseIdle nor Drain closes it, however these calls interleave with reads, marks and closes. Only its owner closing it, or DrainAll, ends it.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every interleaving of accepts, reads, marks, deadlines, closes, disowns, CloseIdle, Drain and DrainAll on any number of connections, in all three modes, with any socket timing and errors'),
  why_tests_cant='Depends on which goroutine wins between a read or mark and a closing sweep. The tests mark, then sweep, in sequence; the one concurrent test samples a few real schedules and never checks a specific interleaving.',
  anchors=anchors(LIS, [('busy flag under the connection lock, re-checked by the closing sweep', 'graceful/listener/conn.go'), ('idle set under the shard lock', 'graceful/listener/shard.go')],
     [('busy', 'connection is in use', 'graceful/listener/conn.go'), ('idle', 'connections a sweep may close', 'graceful/listener/shard.go')]),
  technique='seeded schedules and socket faults over the real listener package, checked against a per-connection in-use interval oracle',
  note='Real graceful/listener code, simulated sockets and server. The oracle only counts a connection as in use when a marking operation completed and no idling operation overlapped or followed it.'),
 dict(id='C02', title='A read that loses the race with a close hands out no data',
  statement='If a connection accepted from a wrapped listener is closed, by a sweep or by anyone else, before a concurrent Read on it finishes, that Read returns no bytes and an error. So a request is never half delivered on a connection that shutdown has already closed.',
  quantifier=dict(over=['schedules', 'fault_sequences'], text='every interleaving of Read with CloseIdle, Drain, DrainAll and Close, with any read timing, short read, timeout, or error that comes along with data'),
  why_tests_cant='The window is between bytes leaving the socket and Read returning; no test closes a connection inside it.',
  anchors=anchors(LIS, [('closed flag re-checked after the underlying read', 'graceful/listener/conn.go')]),
  technique='seeded schedules with close injected between socket read and return',
  note='The simulated socket yields and can delay between taking the bytes and returning them; a Read whose connection was closed in that window must report an error and no bytes.'),
 dict(id='C03', title='Drain waits for exactly the outstanding connections',
  statement='Drain and DrainAll return only when every connection the listener has handed out, and that has not been disowned, is closed; and they do return once that is the case, whatever else is going on. They never crash.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every history of accepts, closes, disowns (also late or repeated) and sweeps running concurrently with one or more drains'),
  why_tests_cant='Needs connections accepted, closed and disowned while one or more drains run: the tests drain with one connection and one transition.',
  anchors=anchors(LIS, [('per-shard count of tracked connections', 'graceful/listener/shard.go'), ('every path that closes or disowns gives the count back exactly once', 'graceful/listener/conn.go')]),
  technique='seeded schedules of concurrent drains; early return checked on the spot, hangs as progress within bounded simulated time once every connection is released',
  note='Liveness is: once every connection has been closed or disowned, Drain returns within an hour of simulated time.'),
 dict(id='C04', title='Idle connections are shed, and a drained listener admits nothing',
  statement='CloseIdle and Drain close every connection that stays idle throughout the call. From the moment a drain has begun, a connection that becomes idle is closed, and a connection that only then arrives is either refused by Accept with an error and closed, or closed as idle; none is left open. Without a sweep in progress or a drain begun, the listener closes and refuses nothing: CloseIdle and Close have no effect on connections that arrive or become idle later.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every interleaving of accepts and idle transitions with sweeps and drains'),
  why_tests_cant='The tests close one idle connection, with nothing concurrent; accepting or idling during a drain is never tried.',
  anchors=anchors(LIS, [('idle set and drain flag under the shard lock', 'graceful/listener/shard.go'), ('refusal in Accept', 'graceful/listener/conn.go')]),
  technique='seeded schedules; idle intervals are tracked per connection and checked at the end of each sweep and at quiescence',
  note='CloseIdle is only held to this when no other sweep overlapped it.'),
 dict(id='C05', title='A disowned connection is out of the listener\'s hands',
  statement='After Disown has returned successfully the listener never closes the connection and never waits for it, and disowning it again is an error. Disowning a connection at any time, including after it was closed, disturbs neither other connections nor a drain in progress.',
  quantifier=dict(over=['schedules', 'histories'], text='every point at which a connection may be disowned relative to sweeps, drains, closes, reads and other disowns'),
  why_tests_cant='The tests disown an idle connection once, twice, and before a sweep; not while a sweep or drain is running, nor after a close.',
  anchors=anchors(LIS, [('disowned flag under the connection lock', 'graceful/listener/conn.go')]),
  technique='seeded schedules of Disown against every other operation',
  note='Covers disown before, during and after Close, CloseIdle, Drain and DrainAll.'),
 dict(id='C06', title='Every connection is closed exactly once',
  statement='However many parties close a connection that has not been disowned (its owner, sweeps, drains, idling while draining), the underlying connection is closed exactly once, at most one Close reports success, and a Close that returns leaves it closed. A connection is not closed by the listener twice even if the underlying close fails or is slow.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every interleaving of two or more closing parties, with failing and slow closes'),
  why_tests_cant='Concurrent closers of one connection are never tried, nor are close errors.',
  anchors=anchors(LIS, [('closed flag set under the connection lock before the underlying close', 'graceful/listener/conn.go')]),
  technique='seeded schedules of racing closers with injected close errors and delays; the simulated socket counts closes',
  note='Counts are taken at the simulated socket.'),
 dict(id='C07', title='The listener does not hold on to connections it is done with',
  statement='Once a connection has been closed or disowned, and operations on it have returned, the listener keeps no reference to it: it can be collected while the listener lives on.',
  quantifier=dict(over=['schedules', 'histories'], text='every history of operations on connections, including marks, deadlines and disowns that come after the close'),
  why_tests_cant='No test observes retention, and leaks need late or racing marks.',
  anchors=anchors(LIS, [('sets of tracked and idle connections', 'graceful/listener/shard.go')]),
  technique='seeded schedules; after each run the garbage collector is run and weak pointers to finished connections must be empty',
  note='Uses the real garbage collector and weak pointers to the socket underneath each connection.'),

 dict(id='C10', title='A shutdown is sequenced: pre-hooks, close, drain, post-hooks, return',
  statement='However many calls of Shutdown and ShutdownNow and however many signals (of those added and not reset) arrive, and however they overlap, one shutdown happens: every pre-shutdown hook runs exactly once, one after another in registration order and in one goroutine, wherever and however concurrently they were registered, before any listener or connection is touched; then the listeners are closed and the connections drained; then every post-shutdown hook runs exactly once, in order. Hooks that take a signal all get the one that triggered this shutdown (nil for a call), and Shutdown, ShutdownNow and Wait return only when all of that is over; nothing of it happens untriggered.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every number, kind and overlap of triggers, hooks of any duration, servers, connections in any state, and listener or socket faults'),
  why_tests_cant='The signal tests call Shutdown once with no server attached; nothing runs two triggers, or hooks with a live server.',
  anchors=anchors(GRC, [('once and ordering of the shutdown', 'graceful/signal.go'), ('double-kick loop', 'graceful/signal.go')]),
  technique='seeded schedules of racing triggers over real servers; hook calls, closes and returns are checked as they happen against the sequence',
  note='Real package graceful, listener and net/http server; simulated sockets, clients, signals, clock.'),
 dict(id='C11', title='A request that was taken up is answered despite the shutdown',
  statement='A request that a gracefully served server has read off the wire (in whole, or its first bytes) before its connection was closed is handled exactly once and its complete, correct response reaches the client, unless the client goes away, the network or the handler itself fails, or the shutdown is forced: a graceful shutdown never cuts a request or response short.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every moment of the life of a request (first byte, split header, body, handler, streamed response, keep-alive successor, pipelined successor) at which a shutdown can strike'),
  why_tests_cant='No test shuts a server down with a request in flight at all.',
  anchors=anchors(GRC, [('connection states feed the idle marks', 'graceful/serve13.go'), ('in-use marking on read', 'graceful/listener/conn.go')]),
  technique='seeded schedules of clients against shutdowns; each client checks its response byte for byte and an unanswered request that had been taken up is a violation',
  note='Known findings: keep-alive requests cut by net/http\'s own idle sweep, which Close triggers, and requests in deadline mode (WrapListener), both on record.'),
 dict(id='C12', title='After a shutdown nothing is listening, open or running, and it always ends',
  statement='When Shutdown, ShutdownNow or Wait returns, every listener that was being served is closed and accepts nobody, every connection it had accepted (hijacked ones aside) is closed, and no request is still being handled unless the shutdown was forced. This holds for servers that start or connections that arrive while the shutdown is under way, and the shutdown completes, and every Serve call returns, once the requests in flight have finished: idle, silent or half-open clients cannot hold it up. Once the pre hooks are done, all listeners are closed without waiting for requests in flight on any of them.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every interleaving of serving, accepting, idling, slow, silent and vanishing clients with one or more triggers, including servers started after the trigger'),
  why_tests_cant='Needs the state of every listener and connection at the instant of return under concurrency; the tests have none of that.',
  anchors=anchors(GRC, [('listener registry', 'graceful/graceful.go'), ('drain', 'graceful/listener/shard.go')]),
  technique='seeded schedules; state of all sockets checked when each call returns, progress checked within bounded simulated time after faults and clients have stopped',
  note='A client that has sent part of a request counts as a request in flight until it hangs up. Progress bound: ten minutes of simulated time once everything else has stopped.'),
 dict(id='C13', title='A shutdown is forced when asked for, in time, and never otherwise',
  statement='A second signal within the double-kick window, the shutdown timeout running out after a signal, or ShutdownNow, ends the grace period: connections in use are closed too, promptly, also while an earlier graceful attempt is still draining. Without one of these causes - a single signal, signals further apart than the window, repeated Shutdown calls, a zero, or only a negative, window or timeout - no connection in use is closed. The window and timeout that count are those in force when the signal arrives.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every spacing and overlap of signals and calls relative to window, timeout, hooks and requests in flight, with stalls'),
  why_tests_cant='Depends on time and on triggers overlapping a drain in progress; the tests have neither.',
  anchors=anchors(GRC, [('double-kick and timeout', 'graceful/signal.go'), ('forced drain', 'graceful/listener/listener.go')]),
  technique='seeded schedules in simulated time; forced closes are checked against the causes so far, and open connections at each deadline',
  note='Deadlines and windows are held to with a tolerance equal to the hooks, stalls and slow closes injected in that run.'),
 dict(id='C14', title='Hijacked connections are left alone',
  statement='A connection that a handler has hijacked is the handler\'s: no shutdown, graceful or forced, closes it or waits for it, and it keeps carrying data during and after the shutdown until the handler closes it.',
  quantifier=dict(over=['schedules', 'histories'], text='every moment of hijacking relative to a graceful or forced shutdown'),
  why_tests_cant='No test hijacks a connection of a served listener.',
  anchors=anchors(GRC, [('disown on hijack', 'graceful/serve13.go')]),
  technique='seeded schedules with echo sessions on hijacked connections running across shutdowns',
  note='Sessions exchange data before, during and after the shutdown; any close other than the handler\'s is a violation.'),
 dict(id='C15', title='Serve returns nil for a shutdown and the error for anything else',
  statement='Serve keeps accepting until a shutdown or an error that is not temporary ends it. It returns nil if and only if its listener stopped because of a shutdown; if accepting fails otherwise, or the listener is closed by somebody else while no shutdown is under way, it returns that error, and temporary errors and refused or failing connections do not end it. ListenAndServe and ListenAndServeTLS do the same, return the error if they cannot listen or have no certificate, and listen exactly once, on the address they were given.',
  quantifier=dict(over=['schedules', 'fault_sequences'], text='every interleaving of temporary and permanent accept errors and external closes with shutdowns and connections arriving late'),
  why_tests_cant='Needs accept errors injected at chosen points of a shutdown.',
  anchors=anchors(GRC, [('peacefulError', 'graceful/graceful.go'), ('refused connections', 'graceful/listener/conn.go'), ('listening', 'graceful/server.go')]),
  technique='seeded accept faults; the value Serve returns is checked against what ended it',
  note='Serve, ListenAndServe, ListenAndServeTLS and the methods of Server; package net listens on simulated sockets.'),
 dict(id='C17', title='Otherwise a gracefully served server behaves like net/http\'s',
  statement='Serve never modifies the Server it is called on, honours its handler, timeouts, TLSConfig and other settings (without a TLSConfig it takes clients that know TLS 1.0 or higher), gives requests that came by TLS their TLS state, and calls its connection-state callback with exactly the sequence net/http specifies for every connection, including connections that a shutdown closes or a handler hijacks. A connection is not closed on its client before its request is read unless a shutdown was asked for, and WrapListener takes a listener that is wrapped already as it is, so that shutdowns hold for it too.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every life of a connection: new, active, idle, hijacked, closed by client, timeout or shutdown'),
  why_tests_cant='Only one test looks at the callback, for one connection without a shutdown.',
  anchors=anchors(GRC, [('chaining state callback, shadow server', 'graceful/serve13.go')]),
  technique='seeded schedules; the callback sequence of every connection is checked against the net/http state machine',
  note='State machine: New first; Active after New or Idle; Idle after Active; Hijacked after Active, final; Closed once, final.'),

 dict(id='C16', title='A goji program runs until told to stop, then finishes its work and ends',
  statement='A program whose main is goji.Serve or goji.ServeListener serves DefaultMux, with the routes and layers that the functions of package goji gave it, behind the default layers (request ID, log, recovery from panics, answers to OPTIONS; and, beside it, http.DefaultServeMux\'s handlers), until an interrupt, a registered signal or a shutdown call; it then answers every request it has taken up, runs every hook, and only then returns from Serve, with nothing left listening or open. It ends early, with a nonzero status, only if its listener fails.',
  quantifier=dict(over=['schedules', 'histories', 'fault_sequences'], text='every client, signal, hook and fault history of a whole program from start to exit'),
  why_tests_cant='No test runs Serve at all; the promise is about the whole program, with signals and clients at any moment.',
  anchors=anchors(['serve.go', 'default.go', 'goji.go'] + GRC, [('ServeListener: handle signals, serve, wait', 'serve.go'), ('default mux and middleware', 'default.go')]),
  technique='whole-program simulation: seeded clients, signals, socket faults and schedules over the unmodified main path, with C10-C15 checked end to end',
  note='Everything of goji is real, including default middleware and log output; simulated sockets, clients, signals and clock, os.Exit intercepted. Known finding: see C11.'),

 dict(id='C50', title='A program binds the socket its flags and environment name, or ends',
  statement='goji.Serve opens exactly one socket: the one named by -bind, else by $GOJI_BIND, else Einhorn\'s first, else systemd\'s first, else $PORT, else :8000, where Einhorn and systemd count only if the descriptors they announce were meant for this process (what Sniff returns agrees). If there is no such socket or it cannot be had, the program ends with an error instead of serving. Descriptors that were passed in are marked close-on-exec, and the one that is used does not stay open besides its listener.',
  quantifier=dict(over=['inputs', 'fault_sequences', 'histories'], text='every combination of flag, variables (stale, garbled and incomplete ones too) and kind of socket, with failing sockets, in programs run from start to exit'),
  why_tests_cant='Package bind has no tests; what it does depends on the process\'s parent, environment and inherited descriptors, which a unit test has no control of.',
  anchors=anchors(['bind/bind.go', 'bind/einhorn.go', 'bind/systemd.go', 'serve.go'], [('choice of the default', 'bind/bind.go'), ('Einhorn descriptors', 'bind/einhorn.go'), ('systemd descriptors', 'bind/systemd.go')]),
  technique='whole-program simulation in seeded environments with socket faults; every socket opened, descriptor used and exit is checked against an independent reading of the documentation',
  note='Package bind, goji.Serve and everything behind them are real; listening, descriptors, close-on-exec and os.Exit are simulated.'),
 dict(id='C51', title='Einhorn is told exactly once that the program is ready, when it is',
  statement='Under Einhorn, and only then, a goji program sends one well-formed acknowledgement for its own process to Einhorn\'s control socket, however often and concurrently Ready is called: after its socket has been opened and its signals (SIGUSR2 included, which it otherwise leaves alone) would stop it gracefully, and before it accepts any connection. No call of Ready returns before the acknowledgement has been sent; if it cannot be sent, the program ends with an error.',
  quantifier=dict(over=['schedules', 'fault_sequences', 'histories'], text='every interleaving of calls of Ready with the start of the program, with a control socket that refuses, breaks off or is slow, and environments in which Einhorn is not the parent'),
  why_tests_cant='Needs a supervisor on the other end and its failures; nothing tests Ready.',
  anchors=anchors(['bind/einhorn.go', 'bind/bind.go', 'graceful/einhorn.go', 'serve.go'], [('acknowledgement', 'bind/einhorn.go'), ('once', 'bind/bind.go'), ('SIGUSR2', 'graceful/einhorn.go'), ('order of the start', 'serve.go')]),
  technique='whole-program simulation with a simulated Einhorn and seeded faults and schedules; state of sockets and signals checked at the moment the acknowledgement arrives',
  note='Order relative to socket and signals is not judged in runs that call Ready by hand.'),

 dict(id='C20', title='Routing is first match in order of registration, even while routes change',
  statement='A Mux sends every request to the first route, in order of registration, whose method and pattern both match, and to the NotFound handler if there is none, with the URL parameters that route binds and no others. This holds for requests running concurrently with each other and with route registrations and Compile calls: each request is routed by the routes as they stood at some instant while it was being routed, and a route whose registration has returned is in force.',
  quantifier=dict(over=['inputs', 'schedules', 'histories'], text='every set and order of routes (string, regexp and custom patterns; all registration methods), every path and method, every interleaving of requests, registrations and compilations'),
  why_tests_cant='The compiled state machine is meant to equal a naive scan for all route sets, of which tests sample a handful; registration under load is never tried.',
  anchors=anchors(['web/router.go', 'web/bytecode_compiler.go', 'web/bytecode_runner.go', 'web/string_pattern.go', 'web/regexp_pattern.go', 'web/pattern.go', 'web/atomic.go', 'web/mux.go'], [('copy on write of the routes, sorted by prefix', 'web/router.go'), ('atomic machine', 'web/atomic.go'), ('bytecode', 'web/bytecode_compiler.go')]),
  technique='seeded route sets, paths and schedules; histories are linearised against a naive first-match router',
  note='The reference router scans the routes in order of registration with independently written string patterns and anchored regular expressions. Histories with up to 60 routes, a handful of them concurrent with requests.'),
 dict(id='C21', title='The context of a request belongs to that request alone',
  statement='Every middleware layer and the handler of one request share one context, which starts empty (or as passed to ServeHTTPC), keeps what they put in it, and is never seen or changed by any other request - concurrent, later or after a panic - including through contexts and URL parameters that a handler keeps after it has returned.',
  quantifier=dict(over=['schedules', 'histories'], text='every interleaving of requests, panicking requests, nested muxes and stack changes, with the pool of middleware stacks losing or returning any stack at any moment'),
  why_tests_cant='Middleware stacks are pooled and reused: leaks between requests need particular overlaps, panics and pool behaviour.',
  anchors=anchors(['web/middleware.go', 'web/cpool.go', 'web/mux.go', 'web/handler.go'], [('pooled middleware stacks, each with its own context', 'web/middleware.go')], [('pool', 'stacks ready for reuse', 'web/cpool.go')]),
  technique='seeded schedules, handler panics and pool misses; every context is tagged by its request and checked at each layer, in the handler and after the end',
  note='sync.Pool is simulated: a seeded coin decides whether a Get finds a returned object, so both reuse and misses are explored at every moment.'),
 dict(id='C22', title='Use, Insert and Abandon change the middleware stack as documented',
  statement='Requests go through exactly the layers that Use (appends), Insert (before the first match) and Abandon (removes the first match) have left, outermost first, once each, in and out; calls naming a middleware that is not there fail and change nothing. Changes made between requests are in force for every later request, concurrent changes take effect in some order, and duplicates are kept. A request that is in a mux keeps the stack it entered with, whatever its own layers or handler change; that mux\'s next request has the new one.',
  quantifier=dict(over=['histories', 'schedules'], text='every sequence and interleaving of changes, with repeated middleware, between batches of concurrent requests whose stacks were pooled before'),
  why_tests_cant='The tests try a few fixed sequences without earlier pooled stacks or concurrent changes.',
  anchors=anchors(['web/middleware.go', 'web/mux.go', 'web/func_equal.go'], [('stack slice', 'web/middleware.go'), ('invalidation of pooled stacks', 'web/middleware.go')]),
  technique='seeded histories and schedules of changes and requests, checked against a list model with every linearisation of concurrent changes',
  note='Changing the stack while other requests are being served is documented as illegal and is not done; a layer or handler does change stacks, of its own mux and of others, when its request is the only one. Whole trees of muxes (scenario nest) are compared with a model, event by event.'),
 dict(id='C23', title='A 404 knows the methods that would have matched; OPTIONS is answered from it',
  statement='If no route matches a request but some pattern does, the NotFound handler finds in ValidMethodsKey exactly the methods of the routes whose pattern matches, sorted and without repetition; otherwise the key is not set. AutomaticOptions answers an OPTIONS request that would be a 404 with status 200 and an Allow header listing them plus OPTIONS, and leaves every other request and answer alone. In nested muxes, the mux that finds no route has the say.',
  quantifier=dict(over=['inputs', 'schedules', 'histories'], text='every set of routes, path and method, with registrations going on'),
  why_tests_cant='Tests check a handful of route sets; the answer depends on all plausible routes and on reused contexts.',
  anchors=anchors(['web/router.go', 'web/bytecode_runner.go', 'web/middleware/options.go'], [('collecting methods while routing', 'web/bytecode_runner.go'), ('AutomaticOptions proxy', 'web/middleware/options.go')]),
  technique='seeded route sets, requests and schedules against the naive router\'s own list of methods',
  note='Same runs as C20; the list of methods is part of the answer that must be explained by a linearisation.'),
 dict(id='C24', title='Explicit routing and sub-routers show and restore what they should',
  statement='Layers inside a mux\'s Router middleware see the Match (pattern and handler) that will be used, a replaced Match is the one used, and layers outside see none on the way in. A SubRouter gives everything inside it the path left over by the wildcard and no outer Match, and restores path and Match (or that there was none) when it returns or panics.',
  quantifier=dict(over=['inputs', 'schedules', 'histories'], text='every combination of Router, SubRouter, nesting, route set, path, override and panicking handler, under concurrent requests and registrations'),
  why_tests_cant='Tests have one nested mux and one request, and never a panic or an override inside it.',
  anchors=anchors(['web/mux.go', 'web/match.go', 'web/router.go', 'web/middleware/subrouter.go'], [('Router', 'web/mux.go'), ('SubRouter', 'web/middleware/subrouter.go')]),
  technique='seeded stacks, nested muxes, requests, panics and schedules; path and Match are checked at every layer in and out',
  note='Same runs as C20, with Router and SubRouter in about half of them.'),
 dict(id='C30', title='A panicking handler costs its own request, and nothing else',
  statement='If anything inside Recoverer panics, with any value, at any point, the panic goes no further: it is logged exactly once, with the ID of the request, the client is sent status 500 if no final status had been sent and keeps the one it was sent otherwise, and every other request, concurrent or later, is served as if nothing had happened. Without a panic Recoverer logs and changes nothing.',
  quantifier=dict(over=['fault_sequences', 'schedules', 'inputs'], text='every panic value and place, every response written before it, every position of Recoverer among the other middleware, every interleaving with other requests, clients that are slow or gone'),
  why_tests_cant='Nothing in the test suite panics: Recoverer is not tested at all, let alone with half-sent responses, other middleware around it or other requests next to it.',
  anchors=anchors(['web/middleware/recoverer.go', 'web/middleware.go', 'web/cpool.go', 'web/mutil/writer_proxy_go1_8.go'], [('recover in a deferred function', 'web/middleware/recoverer.go')]),
  technique='seeded handler scripts, panics, write faults and schedules over real middleware stacks; observers between all layers and the captured log are checked per request',
  note='Sampled. Response writers are simulated with the semantics of net/http. That requests are not mixed up after a panic is also decided under C21.'),
 dict(id='C31', title='Every request gets its own ID',
  statement='RequestID gives every request of the process a different ID, however many run at once and through however many muxes, of the form host/random-number with the same host and random part throughout and a number that is higher than that of every request that had one before it arrived. The host is the name of the machine, if it has one, and the random part, drawn when the program starts, differs from one process to the next. All layers and the handler inside it see this ID, unchanged until the request is over.',
  quantifier=dict(over=['schedules', 'histories'], text='every interleaving of requests through one or more muxes whose stacks are pooled, lost and reused; every host name and sequence of random bytes that a process may start with'),
  why_tests_cant='No test looks at request IDs; duplicates need requests racing for the counter or sharing a context, or a process that starts with rare random bytes.',
  anchors=anchors(['web/middleware/request_id.go', 'web/middleware.go', 'web/cpool.go'], [('atomic counter', 'web/middleware/request_id.go')], [('reqid', 'last number given out', 'web/middleware/request_id.go')]),
  technique='seeded schedules with preemption inside the counter update; all IDs of a run compared pairwise, against the order in which requests ran; generations of real processes started with seeded host names (or none) and seeded, biased random bytes',
  note='Runs also under the race detector. The counter continues from run to run of a batch.'),
 dict(id='C32', title='Logger logs the start and end of each request, and what was really sent',
  statement='For each request Logger logs one start line, before anything inside it runs, with its ID, method, URL and remote address, and, when what is inside returns, one end line with the same ID, the status that was sent to the client (200 if the handler sent none) and the time it took. It changes nothing about the response except that a handler that sends nothing gets its implied status 200.',
  quantifier=dict(over=['inputs', 'schedules', 'fault_sequences'], text='every handler behaviour (statuses, informational ones too, writes, copies, flushes, pushes, hijacks, silence), every position among other middleware, slow or gone clients, concurrent requests, and any stall'),
  why_tests_cant='Logger is not tested. The status depends on every path by which a response can be sent, of which the end line must not miss one.',
  anchors=anchors(['web/middleware/logger.go', 'web/mutil/writer_proxy_go1_8.go', 'web/middleware/request_id.go'], [('start and end lines', 'web/middleware/logger.go'), ('status tracking', 'web/mutil/writer_proxy_go1_8.go')]),
  technique='seeded handler scripts, write faults, stalls and schedules; captured log lines against what the simulated client was sent and the simulated clock',
  note='The logged time must lie between the simulated times measured just inside and just outside. After a hijack the status is not judged; nor is the end line of a request whose panic passes through Logger.'),
 dict(id='C33', title='The small middleware do to each request what they say, by its own data alone',
  statement='Inside RealIP a request has the remote address its first X-Forwarded-For entry, or else its X-Real-IP header, names, if any; inside NoCache it is unconditional, and its response carries the four headers that forbid caching; inside EnvInit and URLQuery it has an environment, and inside URLQuery its own parsed query in it, until it is over. Neither they nor any other middleware of the package changes anything else about a request on its way in, whatever their order and whatever other requests do.',
  quantifier=dict(over=['inputs', 'schedules', 'histories'], text='every combination of headers and queries, every order of the middleware, every interleaving of requests through shared stacks'),
  why_tests_cant='The tests send one request through one layer; RealIP and EnvInit have none. Whether a layer keeps to its own request only shows with several in flight through pooled stacks.',
  anchors=anchors(['web/middleware/realip.go', 'web/middleware/nocache.go', 'web/middleware/envinit.go', 'web/middleware/urlquery.go', 'web/middleware.go'], [('remote address', 'web/middleware/realip.go'), ('headers', 'web/middleware/nocache.go'), ('environment', 'web/middleware/envinit.go')]),
  technique='seeded stacks, requests and schedules; observers between all layers compare what each layer changed with what it should have',
  note='Same runs as C32; headers and queries are different for every request, so that those of another one would show.'),
 dict(id='C40', title='A wrapped response writer tells the truth and stays out of the way',
  statement='Whatever is done through a writer from WrapWriter happens to the underlying writer, once, with the same results: headers (informational ones too, the final one at most once), bytes, flushes, hijacks and pushes. Status is the final status sent so far (0 if none), BytesWritten the number of body bytes the underlying writer accepted, a Tee receives just those bytes, Unwrap returns the original, and a writer that could be flushed still can be.',
  quantifier=dict(over=['inputs', 'fault_sequences', 'histories'], text='every sequence of WriteHeader, Write, ReadFrom, Flush, Push, Hijack and Tee, writers with each set of capabilities, nested proxies, short and failing writes, failing sources and tees'),
  why_tests_cant='Package mutil has no tests. Status and byte counts have to follow every path by which a response can be sent and every way in which sending fails.',
  anchors=anchors(['web/mutil/writer_proxy_go1_8.go'], [('status and byte accounting on every path', 'web/mutil/writer_proxy_go1_8.go')], [('wroteHeader, code, bytes', 'what was sent so far', 'web/mutil/writer_proxy_go1_8.go')]),
  technique='seeded call sequences and I/O faults; a recorder on either side of each proxy compares every call with what it became',
  note='Simulated underlying writers with the semantics of net/http. When the first byte of a ReadFrom fails to be sent the status is not judged: a proxy cannot tell whether the header went out. The variant of the file for Go before 1.8 is not built by this toolchain.'),
]
