"""Per property: specification, what's bound to it, and limits."""

DETAILS = {
    "C01": """`Prim.tla`: a value, a time stamp, ordered callbacks (one-time or
not) with reactions (register or remove during a call). Every public way to
change a primitive is the one action Set. Safety: each callback sees each real
change once, with the old and new stored values. Bound to all twelve primitive
types; rounding and clamping of requested values is the type's `struct`
conversion, applied by the driver to form the operation's value.""",
    "C02": """`Waits.tla`: waiters and samplers over a primitive, bursts of
updates without the event loop in between, time limits. Checked: a waiter ends
"success" only if its condition held, "timeout" only if it never did before the
limit; samplers see one value per change or period. Virtual time; updates at
even, limits at odd half-seconds.""",
    "C03": """`Framing.tla`: the byte stream between a framing sender and
receiver; deliveries are arbitrary cuts. Safety: what's delivered is a prefix
of what was sent, and everything sent is delivered once all bytes are.""",
    "C04": """`Messaging.tla`: two peers exchanging JSON messages over two
channels that lose and duplicate; requests, replies, log records, handlers,
polls and channel commands. Safety: a reply ends only its own request, once.""",
    "C05": """`Names.tla`: mappings, registries and enumerations as sets of
pairs; every operation either adds what it says or changes nothing. Invariant:
one-to-one, both lookups agree.""",
    "C06": """`BitFields.tla`: an integer's bits, allocation of fields, values as
bit sequences, saving and loading. Invariant: disjoint fields; an assignment
changes only the field's bits.""",
    "C07": """`Env.tla`: cells, channels, fields and enumerations, creation in
every style, raw/scaled/enumerated access, conversions from text, defaults,
snapshots. Values are in eighths, with named extreme values.""",
    "C08": """`Env.tla` again: export, save and load as functions of the state;
the loaded environment must be the same state but for what isn't exported.""",
    "C09": """`Conn.tla`: one connection; phases of processing, readers and
writers, initialization outcomes, disabling by every cause, restart attempts
and exponential back-off. Real TCP, UDP, queue and echo connection classes on
scripted transports.""",
    "C10": """`Manager.tla` (extends Conn): several connections in a manager with
a queue, the stop signal and the grace period of shutting down.""",
    "C11": """`Telemetry.tla`: writers registered for channels and fields, bytes
of events, arbitrary cuts, a receiving environment. Safety: what a client has
is what the channel had after some prefix of its changes.""",
    "C12": """`Task.tla`: tasks whose dispatches are told how to end; periods,
overruns, pauses, stop, cancellation, managers and metrics.""",
    "C13": """`Arbiter.tla`: deferred and registered connections, stages of
application methods, structs, periodic tasks, the stop signal, grace periods
and the table of results. Eleven configurations, exhaustively; random ones.""",
    "C14": """`Command.tla`: channels and fields of nine kinds with values in
halves, the meaning of words for each kind, options, hooks, the queue of
commands handed over, suggestions and the registry of environments.""",
    "C15": """`Tftp.tla`: client, server and a network as two bags of messages
with loss, duplication and reordering, retransmission timers, queued requests,
transfer identifiers (answers from another port), third parties. Safety: a
transfer that succeeded moved the file as it was at some time of the transfer,
unless a message of an earlier transfer was taken for one of its own (the
known finding).""",
    "C16": """`Http.tla`: two sides of a byte stream whose messages are cut into
units; the specification only says a message is complete with its last unit, the
driver maps units to bytes differently in each scenario (down to single bytes).
Each side may be ours (a real `HttpConnection` on a fake transport) or scripted
(messages written as others may: case, padding, omitted lengths). Invariants:
`Paired` (a response is given to the request it answers or none), `OneAtATime`,
`NoneStuck` (nothing waits on a connection that ended). What our side writes is
parsed by an independent parser.""",
    "C17": """`Server.tla`: files, search paths, redirects, applications, JSON data as
nodes, environments; `Get` says what a path (the sequence of what's between its
slashes) is answered with, `Post` what a command does. Invariant `Contained`: what
is served is below a search path. The driver creates the tree in a scratch folder
and asks through a real `RuntimepyServerConnection` on a fake transport; each
file's content is its own number, so what's served is known by its bytes.
Characters that aren't ASCII, NUL and names of 300 characters are among the
parts.""",
    "C18": """`Tabs.tla`: clients with, per tab, what was sent last (`view`), pending
changes and logs; environments of six channels and fields (values as text); who
updates the interface's state. Invariants: `Current` (what's sent last, after what's
pending, is what the environment holds), `Clean`, `Counted`, `PollerOpen`. Real
`RuntimepyWebsocketConnection`s on a fake WebSocket with real tabs; the driver is the
client: it decodes JSON as strictly as a browser, keeps the view from whatever
messages arrive (differences or all values, that's open) and compares it where the
property says it has to be current. Time is replaced, so that each change's time
tells which one it is.""",
    "C19": """`Layout.tla`: a message is a sequence of slots (primitive values as
bytes, most significant first, in a byte order; chunks with and without a length
in front), names that refer to slots (bit fields: to bits of one), fragments, name
registries; the namespace of a type system. `BytesOf` and `Read` are the encoding;
invariant `RoundTrip` says that one inverts the other, `NamesApart` and
`TypesApart` that names are. The driver builds real `Protocol`s, `PrimitiveArray`s
and `TypeSystem`s, and after each operation compares every message's bytes, size,
values, identifiers, fragments and offsets - so a part that's shared by two
messages is seen. All kinds of primitives, but only bytes that aren't part of a
NaN.""",
    "C20": """`Peer.tla`: three queues (the pipes) between a host's and a
program's state; one step is one thing somebody does and everything that follows
until nothing more can move, with pipes in `held` not delivering. Invariants:
`Faithful` (the mirror is the program's values once no pipe is held),
`Responsive` (nothing waits while both message pipes are open), `Ordered` (the
exchange), `Ends`. `Spawn.tla`: what a process does and what its starter sees of
it. The driver runs a real `RuntimepyPeer` and a real `PeerProgram` on one virtual
loop (tasks are told apart by a context variable); `loop.subprocess_exec` and the
three standard streams are faked, data is cut into pieces of a size that depends
on the scenario. For `Spawn.tla` only `subprocess_exec` and `subprocess_shell` are
faked. A telemetry piece that is dropped since nobody knows the channels yet ends
at an event's boundary (the fake sees to that: the real pipe's reader can cut an
event in two there, which was judged to be out of the statement's reach).""",
    "C21": """`Conf.tla`: entries are added to files, the files are loaded
(`Load`: merge in order, look up in packages, then section by section until one
can't be done) and the application is run. Invariants: `Unique` (nothing twice,
nothing of a class that isn't there), `Complete` (all described entries of loaded
files are there unless loading failed). The driver writes real files (one in
JSON per path, packages as YAML) to a scratch directory, loads them by relative,
absolute and roundabout paths, and observes the arbiter's registered things and
each call of a factory; classes are made to order in modules of the driver's own
(`vpmod1`, `vpmod2`, some with the same names). Port numbers are compared by the
name they belong to.""",
    "C22": """`Metrics.tla`: per direction of two connections what was counted,
what isn't part of a rate yet and the window of the latest looks; rates are exact
fractions in the specification. Invariants: `Counted`, `Accounted` (each message and
byte is in the window or waiting for a look, once), `Bounded` (the window never spans
more time than passed). The driver runs real TCP, UDP and websocket connections (over
in-memory transports, a socket that stands in) in a real connection manager in virtual
time, and reads the metrics objects, the channels in the connection's environment, a
copy, and the log lines; a measured rate is turned back into the one fraction with a
small denominator that it can be.""",
    "C23": """`Device.tla`, two machines. Telnet: `Byte` says what a byte is given the
mode (text, after 255, after a verb) and the open character; a piece is a fold, so
cutting can't matter in the specification and mustn't in the code (each piece's text,
raw bytes and signs are compared). SCPI: a queue of questions with time limits; `Turn`
(one at a time, never idle with something to ask), `Fits`. The driver runs real
`BasicTelnet` and `ScpiConnection` objects over an in-memory transport in virtual
time.""",
    "C24": """`Connect.tla`: the phase of a connection (being made, up, lost, being made
again, failed), when the next attempt is due, what each attempt asks for, and what a
server was handed. `Pass` makes the attempts that fall due while time passes.
Invariants: `Enough` (no more attempts than allowed, no delay beyond the longest),
`Counts`, `Steady` (whatever it was made with, it's made with again). The driver
replaces the event loop's `create_connection`, `create_datagram_endpoint` and
`create_server` on a virtual-time loop; everything above is the real code. Attempts'
arguments, addresses of the connection, where it sends, the two restart channels and
the server's connections are compared after each operation.""",
    "C25": """`Telem.tla`: the structure's values, time and counter, the samples not yet sent,
every datagram that was sent (so that any can be delivered, more than once), and what
the receiver's structure says. Invariants: `Once` (every sample is in one place, in
order, counters without a gap), `Small`, `True` (what the receiver says was sampled).
The driver builds the structure and a pair of `UdpStructTransceiver`s on in-memory
transports; values of all channels and fields of both structures, the sizes of all
datagrams and the updates the receiver was told of are compared after each
operation.""",
}

TAIL = """## Alarms that turned out to be wrong

Each of these was a difference between code and specification where the code
was right (or the difference unintended by nobody relying on it); the
specification or driver was corrected, nothing was loosened to be quiet:

* C02: updates at the very instant of a time limit - either outcome is right;
  times were separated.
* C09, C10: the order of two things due at the same instant; the stop signal is
  now given at odd times.
* C10: a second `manage()` while one is running ends when shutting down ended,
  not at the signal (after the fix 400c420 the specification was wrong).
* C11: the time stamp of an event is the change's, not the poll's.
* C14: fields that are added behind an environment's back
  (`env.fields.add`) have no suggestions; the driver now adds them with
  `env.add_field`.
* C15: an acknowledgement at the very end of the time it's repeated may be sent
  or not; the driver leaves it out of both.

## Behaviour that is specified as it is

Questionable, but nothing promises otherwise, or changing it isn't small:

* A field and a channel of an environment can have the same name; the channel
  shadows the field. `add_field` ignores pushed namespaces. Scaling isn't part
  of an exported environment. A default that's part of `controls` can't be
  cleared across export.
* Cancelling or stopping a periodic task leaves the dispatch in progress
  running (it's shielded); tasks notice the stop signal after their next
  dispatch.
* Connections that are still queued when a manager stops are never processed
  nor closed. An application's methods keep running when another of the stage
  raised. A pre-disabled connection whose restart raises is waited for until the
  stop signal. During a back-off, `process_then_disable` waits for the restart.
* Dynamic message handlers' replies are keyed by the pattern, not the key.
* The `-h` option prints help and the command is still run; values that begin
  with a dash and aren't plain numbers are options; integers out of range wrap.
* TFTP names aren't contained in the served folder (the command line and its
  test use absolute names); files of 2^16 blocks or more fail; `repeat_until`
  (vcorelib) keeps sending after it's cancelled.
"""

SEEDS = {}
