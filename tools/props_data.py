prop(
    "C01",
    "Change callbacks run exactly once per real change, with true values",
    """Whatever sequence of updates (by any public route) and of callback
    registrations and removals a primitive sees, every update that changes the
    stored value calls each registered callback exactly once, in registration
    order, with the value stored before and the value stored after, and an
    update that leaves the stored value unchanged (or stores a
    floating-point NaN) calls none. A one-time callback is called at most
    once, a removed callback never again, callbacks may register and remove
    callbacks while they run, and every update records the time stamp it was
    given or else the primitive's clock.""",
    ["inputs", "histories"],
    """all primitive types, all update routes and values (including ones the
    type cannot represent), all interleavings of updates with registration and
    removal, including from inside callbacks""",
    """Tests register one or two callbacks on one value; they never combine
    wrapping or rounding values, one-time callbacks and changes of the
    callback set during notification.""",
    ["runtimepy/primitives/base.py", "runtimepy/primitives/float.py",
     "runtimepy/primitives/int.py", "runtimepy/primitives/bool.py"],
    [("set_value and callback dispatch", "runtimepy/primitives/base.py"),
     ("NaN filter", "runtimepy/primitives/float.py")],
    """Exhaustive over the specification with three values and up to three
    callbacks (with reactions); every explored transition is replayed into the
    real class (a seeded sample of them in the quick tier), plus random
    histories over all twelve types. Trusts TLC, CPython and struct rounding
    for floats.""",
)
prop(
    "C02",
    "Waiting on and sampling a primitive reports exactly what happened",
    """Waiting for a value, a boolean state or closeness with a time limit
    succeeds at once if the condition already holds, succeeds as soon as any
    update during the wait makes it hold (even if a later update undoes it
    before the waiter runs), and otherwise ends exactly at the limit: as a
    failure if some change was seen, as a timeout if none was. Sampling for a
    time yields the current value (if asked to) and then every change, in
    order and with its own time stamp, until the requested count is reached or
    the limit has passed with nothing left to report, however slowly the
    samples are consumed. The same goes for waits and samples asked of an
    environment by a channel's name or number, of enumerations by their names, too. However a
    wait or a sampling ends, nothing stays registered on the primitive.""",
    ["schedules", "histories"],
    """all interleavings of updates, waiters, samplers, cancellations, slow
    consumers and time limits""",
    """The tests run one waiter against one scripted updater in real time;
    bursts of updates between two turns of the event loop, slow consumers and
    cancellations are schedules they never produce.""",
    ["runtimepy/primitives/evaluation.py", "runtimepy/primitives/int.py",
     "runtimepy/primitives/float.py", "runtimepy/primitives/bool.py",
     "runtimepy/channel/environment/base.py"],
    [("evaluate", "runtimepy/primitives/evaluation.py"),
     ("sample_for", "runtimepy/primitives/evaluation.py")],
    """Exhaustive over small schedules (up to three waiters or one sampler,
    three values, bursts, two or three time steps); scenarios from the state
    graph and random schedules run on a virtual-time event loop. Trusts
    asyncio's own primitives; updates never coincide with a time limit.""",
)
prop(
    "C03",
    "Size-prefixed messages arrive intact, once and in order, however cut",
    """However a stream of size-prefixed messages is cut into pieces on its way,
    the receiver is handed exactly the messages that were sent: each once, in
    order, byte for byte (empty ones and ones longer than a piece included),
    each as soon as its last byte has arrived. This holds for every prefix
    size and byte order, for binary, text and JSON messages, for message
    processors and for the TCP and UDP connections built on them, and also
    when a consumer stops or fails part way through the messages a piece
    contained: what it did not take is delivered later, and later messages are
    not corrupted. When a connection is lost and established again, what was
    incomplete is dropped and the messages that follow are received intact.""",
    ["inputs", "schedules", "fault_sequences"],
    """all message sequences, all ways of cutting the byte stream, all points
    at which a consumer stops or the connection is lost""",
    """The tests send a few messages, nearly always whole; the places where a
    stream can be cut (inside the prefix, between prefix and payload, several
    messages per piece) and consumers that stop are not enumerated.""",
    ["runtimepy/message/__init__.py", "runtimepy/net/stream/base.py",
     "runtimepy/net/stream/__init__.py", "runtimepy/net/stream/string.py"],
    [("MessageProcessor.process", "runtimepy/message/__init__.py"),
     ("PrefixedMessageConnection", "runtimepy/net/stream/base.py")],
    """Exhaustive over all cuts of up to three short messages with one- and
    two-byte prefixes and consumers that stop; every explored transition is
    replayed (sampled in the quick tier), plus random messages and cuts over
    all prefix sizes and connection classes. Datagram order and messages that
    fit the prefix are assumed.""",
)
prop(
    "C04",
    "JSON requests get their own reply, once; notes and logs arrive once",
    """Between two peers exchanging JSON messages, a request's caller receives
    exactly the reply the other peer gave to that request (never another
    message, even when both sides make requests at the same time and replies
    are duplicated, late or interleaved), or fails exactly when its time limit
    passes. Every message is handled once per delivery by exactly the handlers
    its keys select; a message that carries somebody else's identifier gets
    one answer with that identifier, one without identifier is answered only if
    a handler produced something or a key had no handler (such keys are
    reported sorted), and a reply is never answered. Log records
    handed to a peer ride along on its next message, in order, once, and are
    logged by the other side at their level. Text that is not a JSON object is
    ignored and harms nothing.""",
    ["schedules", "histories", "inputs"],
    """all interleavings of requests from both sides, deliveries, duplicated,
    lost and late messages, log records and time limits""",
    """Tests run one request at a time over a loss-free loopback; crossing
    requests, late or duplicate replies and logs staged between messages
    depend on schedules they do not control.""",
    ["runtimepy/message/interface.py", "runtimepy/message/handlers.py",
     "runtimepy/net/stream/json/__init__.py",
     "runtimepy/net/stream/string.py"],
    [("request and reply correlation", "runtimepy/message/interface.py"),
     ("process_json", "runtimepy/message/interface.py")],
    """Exhaustive over two peers with two requests in flight, loss,
    duplication, time limits and log records; sampled transitions and random
    conversations run on two real connections (TCP and UDP kinds) over
    in-memory transports in virtual time. Handlers that fail are out of
    scope.""",
)
prop(
    "C05",
    "Names and identifiers stay one-to-one; lookups agree both ways",
    """However names, identifiers and enumeration entries are registered, loaded
    and re-loaded from exported data, every registry keeps names and
    identifiers one-to-one: a name keeps its identifier, asking by name and by
    identifier agree, a new name without identifier gets an unused one, a
    second registration of a known name gives the identifier it has, and
    anything invalid or in conflict with an existing entry is refused and
    changes nothing, also in the middle of loading several entries.
    Enumerations translate names, numbers, booleans and their texts through
    the same pairs, an item registry never holds two items under one name or
    identifier, and exporting and re-creating a registry or enumeration gives
    the same one.""",
    ["histories", "inputs"],
    """all sequences of registrations, loads (with conflicts anywhere in them),
    exports and look-ups""",
    """Tests register a handful of distinct names; conflicts, partially applied
    loads, identifiers chosen by hand mixed with automatic ones and registries
    rebuilt from their own export are histories they do not visit.""",
    ["runtimepy/mapping.py", "runtimepy/registry/__init__.py",
     "runtimepy/registry/name.py", "runtimepy/registry/bool.py",
     "runtimepy/enum/__init__.py", "runtimepy/enum/registry.py"],
    [("TwoWayNameMapping", "runtimepy/mapping.py"),
     ("NameRegistry.register_name", "runtimepy/registry/name.py"),
     ("Registry", "runtimepy/registry/__init__.py")],
    """Exhaustive to histories of three operations (four in the thorough tier)
    over five kinds of registry, sampled transitions and long random histories
    replayed into the real classes; a fixed set of names and identifiers.""",
)
prop(
    "C06",
    "Bit fields never overlap, leak into each other, or change when reloaded",
    """However flags, fields and padding are added to an unsigned integer, by
    position or automatically, no two of them share a bit, none reaches outside
    the integer, and an addition that is refused (taken or missing bits, a name
    in use or invalid, finalized fields) changes nothing. Setting, inverting,
    clearing or reading a field by name or bit index touches exactly its own
    bits, keeps exactly the low bits of any integer including negative ones,
    reports the value it now has, and change callbacks of the integer run once
    per real change. Data exported from a set of fields (and a copy of it)
    gives fields with the same names, places, values, padding, enumerations,
    descriptions and permissions which are independent of the original.""",
    ["histories", "inputs"],
    """all sequences of allocations, loads, field and raw writes, copies and
    reloads, over 8 to 64 bit integers""",
    """Tests use a few fixed layouts; refused allocations in the middle of a
    layout, fields at the edges, values wider than their field and copies that
    keep living next to the original are not visited.""",
    ["runtimepy/primitives/field/__init__.py",
     "runtimepy/primitives/field/fields.py",
     "runtimepy/data/schemas/BitFields.yaml"],
    [("BitFields._claim_bits", "runtimepy/primitives/field/fields.py"),
     ("BitFieldBase.__call__", "runtimepy/primitives/field/__init__.py"),
     ("BitFields.init / asdict", "runtimepy/primitives/field/fields.py")],
    """Exhaustive to three operations (four in the thorough tier) on 8 bits,
    sampled transitions and long random histories at all four widths replayed
    into the real classes. Zero-width fields are out of scope.""",
)
prop(
    "C07",
    "Channel environments stay consistent however channels are made and set",
    """Every name in a channel environment belongs to one channel or bit field
    under one identifier, and every way of asking (by name, by identifier, typed
    or untyped, one value or all values, searches) agrees with every other and
    with the storage. Creating a channel that can't be created as requested
    (wrong type, unknown enumeration, name in use or invalid, unsuitable
    default, finalized environment) is refused and leaves nothing behind.
    Setting a channel from a number, boolean or text, scaled or not, or as part
    of a group of settings, stores exactly the value asked for after
    enumeration lookup, inverse scaling, rounding and clamping to the storage's
    range, and nothing else changes; a setting that can't be understood is
    refused and changes nothing. Reading gives the scaled value or enumeration
    name of what is stored. Bit fields appear exactly when the environment is
    finalized, once.""",
    ["histories", "inputs"],
    """all sequences of channel, enumeration and field creations, settings,
    queries and finalization, over all storage types, enumerations, scalings and
    shared storage""",
    """Tests create one sample environment and set a few values; refused
    creations, texts for every type, negative gains, values out of range and
    storage shared between channels and fields are not visited.""",
    ["runtimepy/channel/environment/__init__.py",
     "runtimepy/channel/environment/base.py",
     "runtimepy/channel/environment/create.py",
     "runtimepy/channel/environment/array.py",
     "runtimepy/channel/registry.py", "runtimepy/channel/__init__.py"],
    [("BaseChannelEnvironment.set / value", "runtimepy/channel/environment/base.py"),
     ("CreateChannelEnvironment.channel", "runtimepy/channel/environment/create.py"),
     ("ChannelRegistry.channel", "runtimepy/channel/registry.py")],
    """Exhaustive to short histories in two configurations (creation; access on
    a populated environment) and long random histories replayed into the real
    classes; numbers are multiples of 1/8 plus tokens for very large values.
    Names used for both a field and a channel are out of scope.""",
)
prop(
    "C08",
    "A channel environment loaded from its own export is the same one",
    """Exporting an environment at any point of its life, to data or to a
    directory of files, and loading the result gives an environment with the
    same channels, identifiers, types, values, enumerations, bit fields,
    descriptions, controls, defaults and permissions, equal to the original,
    from which life goes on as it would have before (new channels get unused
    identifiers, settings and queries behave the same), with storage
    independent of the original.""",
    ["histories", "inputs"],
    """all histories of creations, settings, defaults and reloads, through data
    and through files""",
    """Tests export and load one fixed environment and compare it once; they
    don't continue to use it, and have few combinations of values, defaults,
    fields and enumerations.""",
    ["runtimepy/channel/environment/file.py",
     "runtimepy/channel/environment/__init__.py",
     "runtimepy/channel/__init__.py", "runtimepy/channel/registry.py",
     "runtimepy/data/schemas/Channel.yaml"],
    [("FileChannelEnvironment.load_directory", "runtimepy/channel/environment/file.py"),
     ("FileChannelEnvironment.export_directory", "runtimepy/channel/environment/file.py"),
     ("Channel.init / asdict", "runtimepy/channel/__init__.py")],
    """Exhaustive to three operations (four in the thorough tier) on a populated
    environment and long random histories with several reloads. Scaling isn't
    part of the exported data, and storage shared between channels becomes
    separate: both are out of scope.""",
)

prop(
    "C09",
    "A connection is active exactly while enabled, and ends and restarts cleanly",
    """Whatever sequence of messages, sends, stop signals, timed or explicit
    disabling, failing handlers, failing sends, failing initialization, loss of
    the transport and restarts a connection goes through: it handles messages
    and sends queued ones in order, once each, only while it is enabled and
    being processed; anything that disables it ends the processing at once,
    cancels its tasks, closes it exactly once and marks it exited; a failing
    task disables it; a disabled connection that is processed again attempts
    to restart after waits that start at none and double up to the limit, gives
    up after the limit of attempts, and the attempts and restarts are counted;
    a late report from an old transport doesn't affect a restarted connection;
    `initialized` is set only by an initialization of the present life.""",
    ["histories", "schedules", "fault_sequences"],
    """all sequences of traffic, failures, disabling, restarts and passing time,
    on queue-based, TCP and UDP connections""",
    """Tests run a few connections over real sockets until a stop signal; they
    never make a send, an initialization, a close or a restart fail, and don't
    restart a connection and continue.""",
    ["runtimepy/net/connection.py", "runtimepy/net/backoff.py",
     "runtimepy/net/tcp/connection.py", "runtimepy/net/udp/connection.py",
     "runtimepy/net/tcp/protocol.py", "runtimepy/net/udp/protocol.py",
     "runtimepy/net/mixin.py"],
    [("Connection.process / disable / _handle_restart", "runtimepy/net/connection.py"),
     ("ExponentialBackoff", "runtimepy/net/backoff.py"),
     ("restart / set_transport", "runtimepy/net/tcp/connection.py")],
    """Exhaustive to five or six operations per flavour (sampled for replay in
    the quick tier) and random histories to 30 operations, on a virtual clock
    with in-memory transports; the socket layer is a stand-in.""",
)

prop(
    "C10",
    "The connection manager keeps every connection processed exactly once",
    """Every connection given to a running manager is processed, in the order
    given, by exactly one task at a time, whatever else is added, ends or
    restarts meanwhile; when one ends it is processed (and so restarted, with
    back-off) again exactly if it restarts automatically and didn't fail, and
    forgotten otherwise; listings and metrics cover exactly the connections
    being processed. Setting the stop signal ends every connection and the
    manager within its grace period, even when some of them fail to close;
    connections still queued are kept, and managing can begin again
    afterwards. A second call while managing only waits for the stop signal.""",
    ["histories", "schedules", "fault_sequences"],
    """all sequences of adding, ending, failing, restarting and stopping, with
    any number of connections and any outcome of restart attempts""",
    """Tests manage one or two connections that stay up until the stop signal;
    none ends while another is waiting to restart, fails to close, or is added
    during a shutdown.""",
    ["runtimepy/net/manager.py", "runtimepy/net/connection.py",
     "runtimepy/net/backoff.py"],
    [("ConnectionManager.manage", "runtimepy/net/manager.py"),
     ("Connection.process", "runtimepy/net/connection.py")],
    """Exhaustive to six operations with two and three connections and random
    histories to 40 operations with up to five, on a virtual clock. Nothing
    else is due when the stop signal is set.""",
)

prop(
    "C11",
    "Channel events reproduce every change, whatever pieces they arrive in",
    """A stream registered for channels and bit fields gets the current value of
    each, then exactly one event, with the stored value and its time, for every
    change of each of them, in order, unless it comes sooner after the previous
    event than the channel's minimum period; a channel is streamed to one place
    at a time and a refused registration leaves nothing behind; nothing is
    written once the registration ends, however it ends; metrics count exactly
    what was written. A client that parses the stream gets the same events no
    matter how the bytes are split or how the consumer stops and resumes, and
    applying them gives its channels and fields (scaled, enumerated or not) the
    same stored values.""",
    ["histories", "inputs", "schedules"],
    """all sequences of changes, registrations, ends of registrations and
    deliveries of any number of bytes, over all storage types""",
    """The tests write three values to a file and read it back in one piece;
    split headers, interrupted consumers, scaled channels, periods and
    overlapping registrations are not visited.""",
    ["runtimepy/channel/event/__init__.py",
     "runtimepy/channel/environment/telemetry.py",
     "runtimepy/channel/registry.py", "runtimepy/metrics/channel.py"],
    [("PrimitiveEvent.registered / _poll", "runtimepy/channel/event/__init__.py"),
     ("parse_event_stream / ingest", "runtimepy/channel/environment/telemetry.py"),
     ("ChannelRegistry.registered", "runtimepy/channel/registry.py")],
    """Exhaustive to four or five operations with two fields and two channels and
    long random histories over random environments. Time doesn't go backwards;
    unknown identifiers in a stream are out of scope.""",
)

prop(
    "C12",
    "Tasks iterate once per period exactly while enabled and not paused",
    """A periodic (or asynchronous) task begins an iteration immediately when
    started and then one per period (or at once after an overrun), never two at
    a time from one run, and none while paused. It ends, and is no longer
    enabled, as soon as an iteration fails or raises, it is disabled (also
    during an iteration, whatever that returns), stopped, cancelled or, at the
    end of an iteration, its stop signal is set or its maximum number of
    iterations is reached; an iteration in progress isn't interrupted. Stopping
    waits for the run to end and runs the extra actions exactly once; it can
    always be started again. Its metrics are those of the completed iterations.
    Starting and stopping a manager's tasks does so for each of them.""",
    ["histories", "schedules"],
    """all sequences of starting, stopping, cancelling, disabling, pausing,
    changing periods, signals, outcomes of iterations and passing time""",
    """Tests let a few tasks run for some iterations in real time; none fails
    while a stop signal is given, is disabled during an iteration, raises and is
    started again, or overruns and is paused.""",
    ["runtimepy/task/basic/periodic.py", "runtimepy/task/basic/manager.py",
     "runtimepy/task/asynchronous.py", "runtimepy/metrics/task.py"],
    [("PeriodicTask.run / stop / task", "runtimepy/task/basic/periodic.py"),
     ("AsyncTask.run", "runtimepy/task/asynchronous.py"),
     ("PeriodicTaskMetrics.measure", "runtimepy/metrics/task.py")],
    """Exhaustive to six operations for one task and four for two tasks (seven
    and five in the thorough tier) and random histories to 50 operations, on a
    virtual clock. Rates in hertz aren't modelled.""",
)

prop(
    "C13",
    "An application runs its stages in order and leaves nothing running",
    """Running an application first makes every deferred connection and waits
    for every registered connection to initialize, to end, or for the stop
    signal; nothing is run if the signal interrupted this or (unless told
    otherwise) a connection isn't enabled by then. Structs and periodic tasks
    are then set up and the tasks started, then stages of methods run strictly
    in order, the methods of a stage together, each stage only when every method
    before it passed. The result is zero exactly when every method of every
    stage ran and passed, and the table of results says of each method whether
    it passed, failed (with its code), raised or wasn't run. Whichever way it
    ends - a result, a failure, an exception while setting up, the stop signal -
    by the time it's over the stop signal is set, tasks are stopped, structs got
    their final poll, and every managed connection is disabled and has been
    closed, or was given a whole grace period to.""",
    ["histories", "configurations", "schedules", "fault_sequences"],
    """all configurations of connections, stages, structs and tasks, and all
    orders in which connections initialize, fail or drop, methods return or
    raise, the stop signal is set and time passes""",
    """Tests run a handful of applications to success; a connection that fails
    to initialize or drops while others still do, a signal during start-up,
    failing stages with several methods, and slow closing aren't visited.""",
    ["runtimepy/net/arbiter/base.py", "runtimepy/net/arbiter/info.py",
     "runtimepy/net/arbiter/result.py", "runtimepy/net/arbiter/task.py",
     "runtimepy/net/manager.py"],
    [("BaseConnectionArbiter.app / _entry / _main",
      "runtimepy/net/arbiter/base.py"),
     ("_init_connections / _run_apps", "runtimepy/net/arbiter/base.py"),
     ("AppResult / results", "runtimepy/net/arbiter/result.py"),
     ("AppInfo.search / result", "runtimepy/net/arbiter/info.py")],
    """Exhaustive to six operations over eleven configurations (seven in the
    thorough tier) and random histories over random configurations, on a
    virtual clock. A method that still runs when another of its stage raised is
    left running. Subprocesses and servers aren't part of this.""",
)

prop(
    "C14",
    "A command does what its words say to the channel it names, or nothing",
    """A line of text given to a command processor sets, toggles or reads the
    channel or bit field it names, and nothing else ever changes. A value
    counts when it means something for the kind of channel (numbers, scaled
    values, enumeration names, booleans). A channel that can't be commanded is
    only changed when forced. Whatever else the line is - not a command, an
    unknown channel, no value, a value without a meaning or out of range - the
    result says so, nothing changes, nobody is told and nothing is raised. A
    command that succeeded in changing something, or was for elsewhere (remote
    or custom), is told to every hook once and queued; what is queued is
    handled in order, one at a time and exactly once, also after a handler
    raised or issued further commands. Suggestions are the shortest name that
    begins with what was typed, one that can be commanded first. A name is
    registered for one environment only.""",
    ["histories", "inputs", "configurations"],
    """all environments of channels and fields of every kind and all sequences
    of lines, with options in any position, hooks, and draining of the
    queue""",
    """Tests issue a fixed list of commands to a sample environment; values that
    don't fit, forced and remote combinations, failing handlers with commands
    still queued, and the state after each refusal aren't visited.""",
    ["runtimepy/channel/environment/command/processor.py",
     "runtimepy/channel/environment/command/parser.py",
     "runtimepy/channel/environment/command/__init__.py",
     "runtimepy/mixins/async_command.py"],
    [("ChannelCommandProcessor.command / handle_command",
      "runtimepy/channel/environment/command/processor.py"),
     ("CommandParser.initialize",
      "runtimepy/channel/environment/command/parser.py"),
     ("AsyncCommandProcessingMixin.process_command_queue",
      "runtimepy/mixins/async_command.py")],
    """Exhaustive to three operations over four environments (four in the
    thorough tier) and random histories of random environments. Values that
    begin with a dash and aren't plain numbers are options to the parser and
    aren't given.""",
)

prop(
    "C15",
    "A TFTP transfer that succeeds moved the file, and none breaks the server",
    """Over a network that loses, duplicates, delays and reorders messages, a
    read that returns true wrote exactly the server's file, and a write that
    returns true left exactly the source's content on the server (verified
    writes also read it back) - files that are empty, shorter than, equal to
    and longer than a block alike. Each side sends its part again until it's
    answered or its time is up, then fails; every block is acknowledged,
    including the last. A request that's sent again while it's being serviced
    isn't serviced twice; transfers with an endpoint happen one after the
    other, in order. A file that can't be read or written is answered with an
    error and nothing else changes. Data that's not expected is answered with an
    error, other unexpected messages change nothing, messages from elsewhere
    don't affect a transfer, and nothing anybody sends ends the connection.""",
    ["schedules", "fault_sequences", "histories", "inputs"],
    """all interleavings of reads, writes, deliveries, losses, duplications and
    passing time, for files of every size relative to blocks, and messages from
    third parties""",
    """Tests run transfers over a perfect loopback. A lost acknowledgement, a
    request that's sent twice, transfers queued behind others and malformed
    messages never occur.""",
    ["runtimepy/net/udp/tftp/__init__.py", "runtimepy/net/udp/tftp/base.py",
     "runtimepy/net/udp/tftp/endpoint.py", "runtimepy/net/udp/tftp/io.py",
     "runtimepy/net/udp/tftp/enums.py"],
    [("TftpConnection.request_read / request_write",
      "runtimepy/net/udp/tftp/__init__.py"),
     ("TftpEndpoint.ingest_file / serve_file / handle_*",
      "runtimepy/net/udp/tftp/endpoint.py"),
     ("BaseTftpConnection.process_datagram",
      "runtimepy/net/udp/tftp/base.py")],
    """Exhaustive to six operations over three configurations (eight in the
    thorough tier) and random histories to 120 operations with up to eight
    requests, on a virtual clock. One known finding: a single-block file that's
    sent again may be taken for the next file that's requested. Files of 2^16
    blocks or more, and containment of names in the served folder, aren't part
    of this.""",
)
prop(
    "C16",
    "Every HTTP request gets its own response, however the stream is cut",
    """However the bytes of HTTP messages are cut on their way, each request is
    handled once, in order, with exactly the method, target, headers (names
    regardless of case) and body that was sent, by the handler for its method
    (501 when there's none); its response carries the status, reason, headers and
    body the handler gave, with the length of the body. A request returns the
    response to that request and no other: requests made at the same time are
    sent one after the other, and the response to one that was cancelled is
    discarded, whether it has yet to be sent, arrives later or never. Something
    that isn't an HTTP message ends the connection without being handled; when a
    connection ends, each request that waits for a response, and each made until
    it's established again, fails with ConnectionError, and nothing received
    before affects what's received after. Empty lines between messages are
    ignored. Every message sent or received is logged.""",
    ["inputs", "schedules", "fault_sequences", "histories"],
    """all ways of cutting the stream, all interleavings of requests (also from
    both sides in turn), handlers that take time, cancellations, lost
    connections and reconnects, and messages as other implementations write
    them""",
    """Tests make a few sequential requests over a loopback, where each message
    arrives whole. Messages that are cut, several in a piece, cancelled requests
    and connections that end while a request waits don't occur.""",
    ["runtimepy/net/http/__init__.py", "runtimepy/net/http/state.py",
     "runtimepy/net/http/common.py", "runtimepy/net/http/header.py",
     "runtimepy/net/http/response.py", "runtimepy/net/http/request_target.py",
     "runtimepy/net/tcp/http/__init__.py"],
    [("HttpMessageProcessor.ingest", "runtimepy/net/http/__init__.py"),
     ("HeaderProcessingState.service", "runtimepy/net/http/state.py"),
     ("HttpConnection.request / process_binary",
      "runtimepy/net/tcp/http/__init__.py")],
    """Exhaustive to seven operations and two requests (nine and three in the
    thorough tier) with both sides ours, or either of them scripted, and random
    histories to 80 operations. Chunked bodies, bodies without a length and
    requests from both sides at the same time aren't supported by the
    implementation and aren't part of this.""",
)
prop(
    "C17",
    "The HTTP server answers every path with what's registered for it",
    """For every path a client may ask for, the server answers with the first of:
    the favicon; a file below one of the connection's search paths, in their order
    (rendered, when there's a Markdown file of that name; with its exact content,
    also when empty, and its type otherwise); a redirect that was registered for
    the path; the JSON data a path with a part "json" leads to (or an error saying
    which part couldn't be found); the application registered for the path; the
    default application; a redirect to /404.html. No file outside of the search
    paths is ever served, whatever the path contains ("..", empty parts, names
    that aren't valid or too long), and none of them ends the connection. A
    command that's posted is run by the environment it names exactly once, with
    the words of the path, and the response tells whether it succeeded.""",
    ["inputs", "histories", "configurations"],
    """all paths, all trees of files, search paths, redirects and applications, and
    all orders of changing them while connections ask""",
    """Tests ask for a dozen fixed paths. Which handler answers depends on the
    path, on what's registered and on the files, and that nothing outside of the
    search paths is served on all paths there are.""",
    ["runtimepy/net/server/__init__.py", "runtimepy/net/server/html.py",
     "runtimepy/net/server/json.py", "runtimepy/util.py"],
    [("RuntimepyServerConnection.get_handler / try_file / try_redirect",
      "runtimepy/net/server/__init__.py"),
     ("RuntimepyServerConnection.handle_command",
      "runtimepy/net/server/__init__.py"),
     ("json_handler / traverse_dict", "runtimepy/net/server/json.py"),
     ("html_handler", "runtimepy/net/server/html.py")],
    """Exhaustive to three operations (four in the thorough tier) over a fixed tree
    with a sibling folder and a file above the search path, and random trees and
    histories to 60 operations over two connections. Files whose type has an
    encoding (".gz") aren't supported by the implementation; symbolic links are
    left out.""",
)
prop(
    "C18",
    "A tab that's shown in the web interface shows what its environment holds",
    """Whatever the order of clients connecting and leaving, tabs being shown and
    hidden (more than once, too), channels and bit fields changing, commands and
    frames: once a tab is shown, and after each frame while it is, what the client
    was sent last for each channel is what the environment holds (as far as JSON
    can express it; a value that it can't, e.g. NaN, never spoils a message). Each
    change while a tab is shown is sent once, in order, with its time, with the
    next frame, and none to a client that didn't show the tab. Each log message is
    sent once to each client that initialized the tab. A client that left or hid a
    tab leaves nothing behind. The number of connections is right, and exactly one
    client at a time updates the interface's own state: the first that asks for a
    frame, and another one that does once it left.""",
    ["histories", "schedules", "inputs"],
    """all orders of connecting, leaving, showing, hiding, frames, changes (by code
    and by commands of any client) and log messages for several clients and
    tabs""",
    """Tests send a fixed list of messages over one connection and don't look at
    what comes back. Whether a client misses a change depends on where between
    frames it happens, and on what was shown before.""",
    ["runtimepy/net/server/websocket/__init__.py",
     "runtimepy/net/server/websocket/state.py",
     "runtimepy/net/server/app/env/tab/message.py",
     "runtimepy/net/server/struct/__init__.py"],
    [("RuntimepyWebsocketConnection.ui_handler / _poll_ui_state / disable_extra",
      "runtimepy/net/server/websocket/__init__.py"),
     ("TabState.frame / clear_telemetry",
      "runtimepy/net/server/websocket/state.py"),
     ("ChannelEnvironmentTabMessaging.handle_shown_state / _setup_callback",
      "runtimepy/net/server/app/env/tab/message.py")],
    """Exhaustive to four operations (six in the thorough tier) after two clients
    have connected and after one shows a tab; random histories to 100 operations
    over three clients and two tabs. The JavaScript that displays what's received
    is left out.""",
)
prop(
    "C19",
    "A composed message's bytes are its parts, each in place, wherever it's copied",
    """For every way a message (protocol, array, custom type) is put together from
    primitives, enumerations, bit fields, repeated elements, chunks and other
    messages: its bytes are the encodings of these in the order added and in its
    byte order, its size is their number, and each name reads and writes just its
    own part (also values that an enumeration doesn't name). Reading what was
    written gives it back and consumes nothing more. A copy has the same parts,
    names and identifiers and shares no value with the original, however often
    it's copied; so has what's imported from an export, with the values. Indices,
    byte offsets and fragments of an array are where the elements are. A type
    system finds a type by the name it was registered as, or by a shorter one
    where that's asked for and unambiguous; a name is only registered once, and a
    failed registration changes nothing.""",
    ["programs", "inputs", "histories"],
    """all sequences of adding parts, nesting, repeating, setting, reading, copying,
    exporting and importing, registering and looking up names""",
    """Tests build a handful of messages and mostly compare sizes. Which part ends up
    where depends on the order of kinds of parts, on how often something is copied,
    and on what was nested.""",
    ["runtimepy/codec/protocol/base.py", "runtimepy/codec/protocol/json.py",
     "runtimepy/codec/system/__init__.py",
     "runtimepy/primitives/array/__init__.py",
     "runtimepy/primitives/serializable/base.py",
     "runtimepy/primitives/serializable/prefixed.py",
     "runtimepy/primitives/string.py"],
    [("ProtocolBase.add_field / add_serializable / __copy__",
      "runtimepy/codec/protocol/base.py"),
     ("PrimitiveArray.add / fragment_from_indices",
      "runtimepy/primitives/array/__init__.py"),
     ("Serializable.add_to_end / copy_without_chain",
      "runtimepy/primitives/serializable/base.py"),
     ("TypeSystem._find_name / add", "runtimepy/codec/system/__init__.py")],
    """Exhaustive to four operations (five in the thorough tier) from an empty
    message of either byte order, an array, and a type system; random histories to
    40 operations over five messages. As the code has it, a copied protocol's plain
    fields begin at zero. Exporting messages that contain chunks or other messages
    isn't supported, and left out; so are streams that end early.""",
)

prop(
    "C20",
    "A program in its own process and its host agree, however their pipes behave",
    """A host and the program it runs as a process, joined by three pipes that may
    deliver in pieces of any size and stall: nothing is told before both know each
    other's channels, and then each knows all of the other's. The host's view of the
    program's channels is what the program has, once nothing is in flight, and goes
    through the program's changes in order. Each command, request or poll for the
    other side is handled there once and answered (or fails after its time limit);
    each logged record arrives once, with its text and level; the configuration
    shared first stays. The host's end ends the program - by the end of its input,
    by force when it doesn't listen - and a program that ends, also by failing, is
    cleaned up after and leaves no task or log handler. Of any process started, all
    that was written is seen by its starter from the first byte, per stream in
    order, ended by an empty item; what's left at the end is reported for the
    stream it was on.""",
    ["schedules", "histories", "fault_sequences", "inputs"],
    """all orders of channel changes, commands, log records, configurations and polls
    on either side, pipes stalling and resuming, the program dying or failing, and
    the host leaving; all sequences of a process's output and end, and of its
    starter's actions""",
    """The tests start a real process and look at its result. The order in which three
    pipes deliver, pieces cut anywhere, a process that writes or ends at once, or
    one that dies or fails, can't be arranged that way.""",
    ["runtimepy/subprocess/__init__.py", "runtimepy/subprocess/peer.py",
     "runtimepy/subprocess/program.py", "runtimepy/subprocess/interface.py",
     "runtimepy/subprocess/protocol.py", "runtimepy/message/interface.py"],
    [("RuntimepyPeer._poll / _context / running_program",
      "runtimepy/subprocess/peer.py"),
     ("PeerProgram.running / io_task / heartbeat_task",
      "runtimepy/subprocess/program.py"),
     ("RuntimepyPeerInterface._set_peer_env / config_handler / wait_json",
      "runtimepy/subprocess/interface.py"),
     ("spawn_exec / spawn_shell", "runtimepy/subprocess/__init__.py")],
    """Exhaustive to three operations after the start (four in the thorough tier), from
    four starting points; random histories to 40. A pipe stalls for two steps at most
    during the first exchange and for five later. The process is the real program
    class on the host's own event loop, behind faked pipes, with a main that only
    waits. A command task of an ended host isn't looked at.""",
)
prop(
    "C21",
    "An application is what its configuration files say, or loading fails",
    """However connections, servers, tasks, structs, processes, ports, initializers,
    applications and values are spread over files, includes and builders, and
    however often and in which spelling a file is named: what's described is
    registered exactly once, in the order files and entries come in, from the class
    its factory names, with the arguments, configuration, period and text given;
    port names stand for their (overridden) numbers wherever they're used. A
    deferred client isn't made before the application starts. What can't be done -
    an unknown class, a name that's taken, a file or method that isn't there, an
    unknown key - makes loading fail, and nothing after it is registered. Files that
    aren't there are looked up in packages, in the order these were put in. Running
    starts what was described, in order, and ends with the first result of
    initializers and applications that isn't zero.""",
    ["configurations", "programs", "inputs"],
    """all ways of spreading and ordering entries over included, listed and packaged
    files, and of referring to ports""",
    """The tests load a dozen fixed files. Which entries meet in which order, what is
    merged, named twice or in error is open, and most mistakes would only show as
    something that silently isn't there.""",
    ["runtimepy/net/arbiter/config/__init__.py",
     "runtimepy/net/arbiter/config/codec.py", "runtimepy/net/arbiter/config/util.py",
     "runtimepy/net/arbiter/imports/__init__.py",
     "runtimepy/net/arbiter/imports/util.py",
     "runtimepy/net/arbiter/factory/connection.py",
     "runtimepy/net/arbiter/factory/task.py"],
    [("ConfigConnectionArbiter.load_configs / process_config",
      "runtimepy/net/arbiter/config/__init__.py"),
     ("ConnectionArbiterConfig.init", "runtimepy/net/arbiter/config/codec.py"),
     ("ImportConnectionArbiter.register_module_factory / factory_struct",
      "runtimepy/net/arbiter/imports/__init__.py"),
     ("FactoryConnectionArbiter.factory_client / factory_server",
      "runtimepy/net/arbiter/factory/connection.py")],
    """Exhaustive over up to three entries (four in the thorough tier) from four small
    families, in up to three files; random applications of up to 40 entries in five
    files. Factories don't take arguments of their own; names are unique across
    kinds; a file is loaded once per application (a second load is refused).""",
)
prop(
    "C22",
    "A connection's metrics say what passed through it, and how fast",
    """Of each direction of a TCP, UDP or websocket connection, the metrics say how
    many messages and how many bytes (of encoded text, too) were handed over since
    the start or the last reset, and the rates of both over the intervals between
    the latest looks at them - each message or poll is one; messages per second and
    kilobits per second. All that's counted becomes part of a rate exactly once; a
    reset clears everything, of both directions, and only of this connection. The
    connection's channels, a copy and the log line say the same
    numbers; polling and resetting through the manager reach each connection.""",
    ["histories", "schedules"],
    """all sequences of messages in both directions, polls, resets, copies and pauses""",
    """A test sends something and sees that the counters aren't zero. A rate depends
    on when messages and looks at it come, and a number that's wrong by a factor, or
    after the second reset only, looks fine.""",
    ["runtimepy/metrics/channel.py", "runtimepy/metrics/connection.py",
     "runtimepy/net/manager.py", "runtimepy/net/tcp/connection.py",
     "runtimepy/net/udp/connection.py", "runtimepy/net/websocket/connection.py",
     "runtimepy/net/connection.py"],
    [("ChannelMetrics.update / increment / poll / reset",
      "runtimepy/metrics/channel.py"),
     ("ConnectionMetrics", "runtimepy/metrics/connection.py"),
     ("ConnectionManager.poll_metrics / reset_metrics",
      "runtimepy/net/manager.py"),
     ("WebsocketConnection._send_text_message",
      "runtimepy/net/websocket/connection.py")],
    """Exhaustive over one connection and four operations (five in the thorough tier);
    random traffic of up to 250 operations, beyond the depth of rate tracking (50
    looks). Times are quarters of a second and sizes multiples of 125 bytes, so a
    32-bit rate stands for one fraction. Messages of a closing connection aren't
    looked at.""",
)
prop(
    "C23",
    "Telnet and SCPI devices are understood however and whenever pieces arrive",
    """Each byte of a telnet stream is what it is wherever the stream is cut: text
    (characters of several bytes, line feeds, carriage returns, tabs and an escaped
    255 included), a signal of the virtual terminal, a command, or an option with its
    verb and number; all of it is told once and in order, and neither an unknown
    command nor bytes that aren't text end the connection. Commands and options are
    sent as their codes. An SCPI connection sends one command at a time, in the order
    they were asked for; a query, or a command that expects a response, gets the first
    line that arrives after it was sent, or nothing exactly when its time limit
    passes. A line that's late, that nobody asked for, or that belongs to a cancelled
    command is never taken for another's answer, and harms nothing. A device that
    doesn't say who it is in time isn't used.""",
    ["inputs", "schedules", "histories"],
    """all streams of bytes cut in all ways; all interleavings of commands, responses,
    time limits and cancellations""",
    """The tests send a few whole sequences and one query with an immediate answer. What
    a cut, an unusual byte, a late or an extra line does isn't something they can
    enumerate.""",
    ["runtimepy/net/tcp/telnet/__init__.py", "runtimepy/net/tcp/telnet/codes.py",
     "runtimepy/net/tcp/scpi/__init__.py"],
    [("Telnet.process_binary", "runtimepy/net/tcp/telnet/__init__.py"),
     ("TelnetCode / TelnetNvt", "runtimepy/net/tcp/telnet/codes.py"),
     ("ScpiConnection.send_command", "runtimepy/net/tcp/scpi/__init__.py")],
    """Exhaustive over the cuts of eight short streams and over five SCPI operations
    (six in the thorough tier); random streams and conversations. A line (of SCPI) is
    never cut: the devices' pieces are whole lines. A telnet subnegotiation's
    parameters are text between two commands, as the code has it.""",
)
prop(
    "C24",
    "Connections are made as asked, retried as configured, and made so again",
    """A TCP or UDP connection is asked for with exactly the remote and local addresses
    (and only these options) it's given; a UDP socket that's not to be connected (by
    request, or its class's default) is bound to the given local address, or any, and
    still knows and sends to its remote address. While it's refused, attempts follow
    each other after nothing, the interval, twice, four times the interval and so on,
    never more than the longest delay, until one works or the given number was made,
    which is a failure. A connection that was lost and is processed again is made
    with the same addresses under the backoff of that processing (or the default),
    keeps its remote address, and counts each attempt and each success. A server
    hands each connection that comes in to its callback, once, in order, and has it
    processed until it stops, which ends all of them and the server.""",
    ["fault_sequences", "schedules", "configurations"],
    """all sequences of refusals, losses and restarts in time; all combinations of
    addresses, kinds and backoffs""",
    """The tests connect to servers that are there. What's asked for in the fifth attempt,
    or by a restart, and how long a client waits for a host that's away, takes
    minutes and a network that fails on command.""",
    ["runtimepy/net/backoff.py", "runtimepy/net/tcp/create.py",
     "runtimepy/net/udp/create.py", "runtimepy/net/tcp/connection.py",
     "runtimepy/net/udp/connection.py", "runtimepy/net/mixin.py",
     "runtimepy/net/connection.py", "runtimepy/net/util.py"],
    [("ExponentialBackoff", "runtimepy/net/backoff.py"),
     ("tcp_transport_protocol_backoff", "runtimepy/net/tcp/create.py"),
     ("udp_transport_protocol_backoff", "runtimepy/net/udp/create.py"),
     ("UdpConnection.create_connection / restart",
      "runtimepy/net/udp/connection.py"),
     ("TcpConnection.create_connection / restart / app",
      "runtimepy/net/tcp/connection.py"),
     ("Connection._handle_restart", "runtimepy/net/connection.py")],
    """Exhaustive over five operations (six in the thorough tier) with one connection at
    a time and one server; random histories of up to 60 operations with other
    backoffs. The host is the event loop's own interface, replaced by one that
    refuses or makes in-memory transports at once; errors that aren't refusals (names
    that can't be resolved, say) aren't looked at, nor is TLS.""",
)
prop(
    "C25",
    "A structure's telemetry arrives as sampled, once, in datagrams that fit",
    """Each time a structure is captured, its time and counter are renewed and the values of
    all its channels and bit fields at that moment are put after the samples before it. A
    datagram leaves when it's full, or at once when flushed, and has as many whole samples
    as the discovered size allows, never more; no sample is sent twice, left out or mixed
    with another, whatever was captured, flushed or probed before. A receiver's structure
    is given each sample of a datagram in order, with its values, counter and time (which
    becomes the time of change of all of its channels), in any byte order both agree on,
    whichever datagrams get lost, repeated or overtaken.""",
    ["inputs", "schedules", "configurations"],
    """all kinds of channels, byte orders and sizes; all orders of changes, captures and
    flushes; datagrams lost, repeated and reordered""",
    """The tests send one structure's samples over a loopback that neither loses nor
    reorders. Partly filled datagrams, wrapping counters and other byte orders are
    combinations they don't try.""",
    ["runtimepy/net/arbiter/struct/__init__.py",
     "runtimepy/primitives/serializable/framer.py",
     "runtimepy/primitives/array/__init__.py",
     "runtimepy/channel/environment/array.py"],
    [("TimestampedStruct / UdpStructTransceiver",
      "runtimepy/net/arbiter/struct/__init__.py"),
     ("SerializableFramer", "runtimepy/primitives/serializable/framer.py")],
    """Exhaustive over six operations (seven in the thorough tier) on two structures;
    random structures of up to twenty channels and histories of up to 100 operations.
    The discovered size is given by the driver, which probes as the real one does;
    datagrams that aren't whole samples are outside.""",
)
