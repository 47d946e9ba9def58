BASE = 'path-sensitive typestate analysis over SSA'
NOTE = ('The SSA form of the current source is interpreted abstractly, one trace partition per control-flow path (loops widened after one iteration, calls inlined, goroutines as separate partitions; no solver, nothing is run), and each obligation is decided from branch facts and value provenance; anything undecided is reported as a violation. '
        'Trusted: go/ssa, the models of the standard library calls listed in DESIGN.md, and that unexported state is not changed through reflection or unsafe. ')
T = {p: (t, NOTE + n) for p, t, n in [
 ('C01', BASE + ': gate dominance on the wire write', 'Membership is read as of the gate, not re-read at the socket call.'),
 ('C02', BASE + ': membership insertion preconditions', ''),
 ('C03', BASE + ': membership insertion preconditions', ''),
 ('C04', BASE + ': removal preconditions and callback order', ''),
 ('C05', BASE + ': answers counted on every path', ''),
 ('C06', BASE + ': registration lifetime and release conditions', 'Liveness is reduced to: every wait also selects on the context and on the close signal.'),
 ('C07', BASE + ': registration lifetime and release conditions', 'As C06.'),
 ('C08', BASE + ': once-only teardown and completeness of the walk', 'The callbacks themselves are opaque.'),
 ('C09', BASE + ': handshake verdict and acknowledgement ordering', 'What a custom Socket or the callbacks do is outside.'),
 ('C10', BASE + ': Eraser-style lockset per table on every access of every path, and goroutine confinement', 'Lock identity is (owner object, lock field); values taken out of a table under its lock are judged by other properties.'),
 ('C11', BASE + ': lock typestate, forbidden effects under locks, and the lock-order graph', 'The lock-order graph merges all objects of a type, which can only add edges.'),
 ('C12', 'abstract string interpretation of encoder and decoder with a field table comparison', 'Separator freedom of tokens is a precondition (they are generated).'),
 ('C13', BASE + ': ranges, nil-ness and single closing at every operation that can panic', 'Arguments, registered handlers and results of other libraries are taken as valid.'),
 ('C14', BASE + ': per-element induction over the published list, provenance of the exclusion marks', 'A room connected to after the gate was read, and what a backend does with the encoding, are outside.'),
 ('C15', BASE + ': publication protocol of the batch chain and cursor induction of the waiting goroutine', 'Go memory model: closing the ready channel orders the stores before it.'),
 ('C16', BASE + ': turns of the single owner loop, counter and callback pairing', 'Every disconnect signal is assumed to be received eventually (the loop never ends).'),
 ('C17', BASE + ': backend call protocol per membership change and forwarding of the composed backend', 'What a backend does with a call is C18.'),
 ('C18', BASE + ': address shapes of publications and subscriptions, resource typestate of every opened connection, turns of the subscriber loop', 'The client libraries below (radix, nats.go) are trusted to do what their calls say; a redis persistent subscriber retries by itself.'),
 ('C19', BASE + ': lockset of every connection use, deadline typestate, finite-domain evaluation of frame types', 'The websocket libraries below are trusted to write a message in one call and to refuse invalid headers.'),
 ('C20', BASE + ': signature facts of every registered method, bindings of the registered closures, field-set typestate of the connection\'s instance', 'The reflect package is trusted; a method found at an index of a type is the one called at that index of a value of the type.'),
 ('C21', BASE + ': table ownership and copy-flow of every entry, provenance of the timeouts per handler type', 'Handlers of other types have no timeouts.'),
 ('C23', BASE + ': single critical section per operation', ''),
 ('C24', BASE + ': refusal outcomes, header provenance and publication of the new connection', 'What an upgrader answers itself is outside.'),
 ('C25', BASE + ': dispatch provenance', 'Registered handlers are taken to be non-nil functions.'),
 ('C26', BASE + ': per-message segments of the read loop', 'The order of the elements is decided from the induction of the loop index.'),
 ('C30', BASE + ': ranking of every waiting loop from the facts of its turns, results of the given-up and finished waits', 'The clock and timers of the runtime are trusted to go forward; the wait inside the question itself belongs to its context (C05).'),
 ('C31', BASE + ': classification of every path of the error predicates, fate of every failed socket write', 'Errors are told apart by their dynamic type and identity as the path tests them; what a transport returns is its own.'),
 ('C32', BASE + ': provenance of bodies and errors', 'User supplied methods and defaults are outside.'),
 ('C22', BASE + ': latch and gate protocols', 'Go memory model: a receive from a closed channel and sync.Once order the stores before them.'),
]}
