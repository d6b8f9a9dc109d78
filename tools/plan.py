"""Which tests decide which property, and how many cases per tier."""

# test packages that need the simulated network under package net
OVERLAY_PKGS = {"nodes"}


def run(pkg, test, quick, thorough, **kw):
    """quick/thorough: number of generated cases; 0 means an exhaustive enumeration."""
    return dict(pkg=pkg, test=test, quick=quick, thorough=thorough, **kw)


PROPS = {
    "C01": dict(
        runs=[run("codec", "TestC01", 120000, 8000000)],
        rule="packet type, field values (edge-biased bytes, shaped 512-byte payloads) and header leftovers drawn by rapid; "
             "compared byte by byte with an independent reference encoder. Non-trivial: a non-zero field or a pre-filled header."),
    "C02": dict(
        runs=[run("codec", "TestC02", 80000, 6000000)],
        rule="packet type and field values drawn by rapid; encode, decode with the general and the type's decoder, compare all fields. "
             "Non-trivial: a non-zero field or a pre-filled header."),
    "C03": dict(
        runs=[run("codec", "TestC03", 100000, 8000000), run("codec", "TestC03Many", 4000, 200000), run("codec", "TestC03Par", 1600, 80000),
              run("codec", "TestC03Par", 240, 8000, race=True)],
        fuzz=("codec", "FuzzC03"),
        rule="byte strings around valid frames (truncated, extended, bit-flipped, wrong opcode/version, random) given to the general or a "
             "type's decoder, also into reused values and in parallel. Non-trivial: at least a header with the Art-Net identifier."),
    "C04": dict(
        runs=[run("codec", "TestC04", 100000, 8000000), run("codec", "TestC04Headers", 0, 0), run("codec", "TestC04Lengths", 0, 0),
              run("codec", "TestC04Fields", 0, 0)],
        fuzz=("codec", "FuzzC04"),
        exhaustive="all 65536 opcodes; all versions per implemented opcode; every prefix length of every type; all styles, ports, manufacturers",
        rule="byte strings around valid frames compared with an independent reference decoder (verdict and every field). "
             "Non-trivial: at least a header with the Art-Net identifier."),
    "C05": dict(
        runs=[run("codec", "TestC05", 60000, 4000000), run("codec", "TestC05Many", 4000, 200000), run("codec", "TestC05Par", 1600, 80000), run("codec", "TestC05Par", 240, 8000, race=True)],
        rule="histories of set/encode/decode/overwrite-returned-frame operations on one packet value, judged after each step by the "
             "reference encoder applied to the current field values. Non-trivial: more than one encode, a decode or an edit."),
    "C06": dict(
        runs=[run("codec", "TestC06", 100000, 8000000), run("codec", "TestC06Enum", 0, 0)],
        exhaustive="length fields 0..1100 with data shorter, equal and longer",
        rule="ArtDmx frames over length field and bytes present, into fresh and used packets; every case is non-trivial."),
    "C07": dict(
        runs=[run("codec", "TestC07", 60000, 4000000), run("codec", "TestC07Enum", 0, 0)],
        exhaustive="every value of all eight registers with every single flag or field operation",
        rule="histories of flag and field operations from any start value against a bit model; every case is non-trivial."),
    "C08": dict(
        runs=[run("codec", "TestC08", 0, 0), run("codec", "TestC08Rand", 20000, 1000000)],
        exhaustive="all 65536 opcode values and all 256 values of the other code types",
        rule="every value compared with an independent table. Non-trivial: a defined code or a neighbour of one, and random formatted codes."),
    "C09": dict(
        runs=[run("codec", "TestC09", 60000, 4000000), run("codec", "TestC09Pair", 24000, 1500000)],
        rule="valid node configurations drawn by rapid, announcement compared field by field and byte by byte with the reference. "
             "Non-trivial: at least one port."),
    "C10": dict(
        runs=[run("codec", "TestC10", 60000, 4000000), run("codec", "TestC10RoundTrip", 40000, 3000000)],
        rule="arbitrary announcements and announced configurations, reading compared with the reference. Non-trivial: at least one port."),
    "C11": dict(
        runs=[run("nodes", "TestC11", 48000, 3000000), run("nodes", "TestC11Enum", 0, 0), run("nodes", "TestC11Ctl", 12000, 800000)],
        exhaustive="0-6 inputs x 0-6 outputs x every index of a mismatch x all pairs of types",
        rule="configurations with 0-6 inputs and outputs of any type, sockets that cannot be opened, retries and reconfiguration; the verdict of "
             "Start, sockets opened and datagrams sent compared with the rule for announceable ports. Non-trivial: ports, or a start that must fail."),
    "C12": dict(
        runs=[run("nodes", "TestC12", 64000, 4000000)],
        rule="histories of polls (single and bursts up to 60, any flags, trailing bytes), other packets and garbage from any source; every datagram "
             "sent compared with the reference announcement, counted per poll. Non-trivial: at least one poll that must be answered."),
    "C13": dict(
        runs=[run("nodes", "TestC13", 64000, 4000000)],
        rule="histories of register/deregister/start/stop/restart and datagrams of all types, slow callbacks, bursts; multiset of invocations and "
             "contents compared with the model, contents again at the end; no reply to a poll whose built-in handling was replaced or removed. Non-trivial: a datagram with a callback, or a poll without built-in handling."),
    "C14": dict(
        runs=[run("nodes", "TestC14", 48000, 3000000), run("nodes", "TestC14Ctl", 16000, 1000000)],
        rule="garbage datagrams, read errors, timeouts and write errors in any order, then a probe (poll answered, callback fires; for a controller: "
             "announcement taken, data delivered, polls go on). Non-trivial: a fault or a malformed datagram."),
    "C15": dict(
        runs=[run("nodes", "TestC15", 48000, 3000000), run("nodes", "TestC15Ctl", 16000, 1000000)],
        rule="datagrams of all kinds from the own address, from neighbours differing in a bit or octet, own address as 4 or 16 bytes, contents naming "
             "the own address. Non-trivial: a datagram from the own address."),
    "C16": dict(
        runs=[run("nodes", "TestC16", 96000, 5000000)],
        rule="histories of start, bursts, read and write faults, stop at any moment (also from a callback), restart; afterwards socket, goroutines, "
             "later traffic and the behaviour of the restarted node are judged. Non-trivial: a stop under load or a restart."),
    "C17": dict(
        runs=[run("nodes", "TestC17", 32000, 2000000)],
        rule="announcement histories of up to four devices (shared IPs, near IPs, changing ports, styles, universes moving between devices), virtual "
             "time up to minutes; Nodes and both maps compared with a model after each step. Non-trivial: a known device updated."),
    "C18": dict(
        runs=[run("nodes", "TestC18", 32000, 2000000), run("nodes", "TestC18Rates", 4000, 200000), run("nodes", "TestC18Par", 5000, 300000)],
        rule="announcement and submission histories with port changes, moves, expiry and all rates; every ArtDmx frame judged (owner, address, data) "
             "and every submission must be delivered in time. Non-trivial: a submission for a known universe."),
    "C19": dict(
        runs=[run("nodes", "TestC19", 40000, 2400000), run("nodes", "TestC19Par", 3000, 200000)],
        rule="submission patterns (single, bursts, streams at the update interval), rates 1-1000, failing sends; gaps between frames of each universe "
             "judged in virtual time. Non-trivial: ArtDmx frames were sent."),
    "C20": dict(
        runs=[run("nodes", "TestC20", 20000, 1200000), run("nodes", "TestC20Par", 3000, 200000)],
        rule="histories of submissions, streams over more than 255 frames, port changes and expiry; sequence byte of every frame per device. "
             "Non-trivial: ArtDmx frames were sent."),
    "C21": dict(
        runs=[run("nodes", "TestC21", 40000, 2400000)],
        rule="announcement timings around 7 and 10 seconds and the 3 second tick, single and simultaneous expiry, reappearance; known devices, maps "
             "and data compared with the model. Non-trivial: a device expired."),
    "C22": dict(
        runs=[run("nodes", "TestC22", 32000, 2000000)],
        rule="long histories with DMX load, foreign polls, junk, read and write faults, options and restarts; every ArtPoll and ArtPollReply sent is "
             "judged for time, content and destination. Non-trivial: a foreign poll."),
    "C23": dict(
        runs=[run("nodes", "TestC23", 64000, 4000000)],
        rule="start, announcements, DMX load, stop at arbitrary and at tick instants with datagrams and submissions in flight, restart; socket, "
             "goroutines, later datagrams and the restarted controller are judged. Non-trivial: a restart."),
    "C24": dict(
        runs=[run("nodes", "TestC24", 8000, 500000), run("nodes", "TestC24", 2400, 120000, race=True),
              run("nodes", "TestC24Par", 5000, 300000), run("nodes", "TestC24Par", 600, 30000, race=True)],
        rule="1-5 submitting goroutines, 1-4 announcing devices with changing ports and gaps up to 8 s, polls, failing sends and Stop at any moment, "
             "also from several goroutines, and restarts under submission, "
             "run in parallel, also under the race detector; every frame must be one whole submitted block, in order per submitter. "
             "Non-trivial: a frame with submitted data."),
    "C25": dict(
        runs=[run("nodes", "TestC25", 16000, 1000000)],
        rule="1-5 nodes of the library with any valid configurations and a controller on one simulated network; starts, stops, reconfigurations and "
             "submissions in any order. Non-trivial: submitted data arrived at a node's callback."),
    "C27": dict(
        runs=[run("nodes", "TestC27Node", 32000, 2000000), run("nodes", "TestC27Ctl", 16000, 1000000), run("nodes", "TestC27Rate", 16000, 1000000)],
        rule="options in all combinations and orders, at construction and later, all rates including zero, negative and huge; sockets opened, "
             "destinations of broadcasts and verdict on rates. Non-trivial: at least one option."),
    "C26": dict(
        runs=[run("codec", "TestC26", 0, 0), run("codec", "TestC26Pairs", 20000, 1000000)],
        exhaustive="all 65536 addresses, both forms, with uniqueness over the whole set",
        rule="every address; pairs that differ in one bit, are swapped or random. Non-trivial pairs differ."),
    "C28": dict(
        runs=[run("codec", "TestC28", 60000, 4000000)],
        rule="histories of set/encode/decode operations on one packet value of any type; the opcode it reports and its protocol constants judged "
             "after each step. Non-trivial: at least one operation after construction."),
    "C29": dict(
        runs=[run("nodes", "TestC29", 32000, 2000000), run("nodes", "TestC29Ctl", 10000, 800000)],
        rule="histories of bursts of announcements, polls, data and garbage, faults and restarts, for nodes and controllers; the library's goroutines "
             "counted when idle. Non-trivial: a burst (node), an accepted announcement (controller)."),
    "C30": dict(
        runs=[run("nodes", "TestC30", 32000, 2000000), run("nodes", "TestC30Ctl", 12000, 800000)],
        rule="histories in which running nodes and controllers are started again and stopped ones (never started, failed to start, stopped) are "
             "stopped again, with traffic in between; a failure counts if the history without the superfluous calls passes. "
             "Non-trivial: a superfluous call was made."),
    "C31": dict(
        runs=[run("nodes", "TestC31", 20000, 1200000), run("nodes", "TestC31", 3000, 160000, race=True)],
        rule="2-5 goroutines and the callbacks themselves start and stop one node, register and deregister callbacks and send it datagrams, in "
             "parallel, also under the race detector; afterwards everything must be stopped and the node must work. "
             "Non-trivial: the node was started and a callback was called."),
    "C32": dict(
        runs=[run("codec", "TestC32", 40000, 2400000), run("nodes", "TestC32Node", 12000, 800000), run("nodes", "TestC32Ctl", 6000, 400000)],
        technique="property-based testing (rapid) of trees of derived loggers against a model, and of nodes and controllers on a simulated network",
        rule="trees of derived loggers, given and default, with messages of all kinds: entries compared with a model of the fields; and node and "
             "controller histories with traffic, faults and restarts whose every log entry must carry the fields of the given logger, nothing being written "
             "elsewhere. Non-trivial: a logger derived from a derived one; a history with several log entries."),
    "C33": dict(
        runs=[run("nodes", "TestC33Node", 12000, 800000), run("nodes", "TestC33Ctl", 12000, 800000)],
        rule="node and controller histories judged as in C12, C13, C17-C23 while one to three other nodes and controllers with other options, "
             "configurations, callbacks, traffic and restarts work in the same process; a failure counts if the history passes without them. "
             "Non-trivial: the others received traffic."),
    "C34": dict(
        runs=[run("nodes", "TestC34", 48000, 3000000)],
        rule="node histories with callbacks that do not return before the end of the history, bursts of datagrams for them and for others, polls, "
             "stops and restarts; what is judged is that everything else is served as if they had returned. Non-trivial: a datagram or poll was served "
             "while at least one callback had not returned."),
    "C35": dict(
        runs=[run("nodes", "TestC35", 6000, 400000)],
        rule="histories of two to four controllers and one to five nodes of this library on one network (configurations, rates, start orders, stops, "
             "restarts, submissions through every controller): knowledge and delivery judged per controller, and every datagram on the network counted. "
             "Non-trivial: two controllers ran at once and data of one was delivered."),
    "C36": dict(
        technique="property-based testing (rapid) of repeated generated rounds on a simulated network in virtual time (testing/synctest); "
                  "invariant: the measured heap does not go on growing",
        runs=[run("nodes", "TestC36Node", 400, 20000), run("nodes", "TestC36Ctl", 240, 12000)],
        rule="a generated round of steps (datagrams of all kinds, announcements of devices that then expire, submissions, read and write errors, restarts, "
             "registrations), every repetition with other senders, contents, devices and universes, is repeated 60 times, then 240 times with the heap "
             "measured before and after; growth counts if it goes on over 720 more rounds and shows again in a second run. Non-trivial: all rounds were done."),
}

TECH_CODEC = "property-based testing (rapid) against an independent reference model, plus exhaustive enumeration of small domains"
NOTE_CODEC = ("Searches generated inputs against an explicit oracle; establishes no absence outside what was generated. "
              "Trusts the reference layouts in harness/ref, written from the Art-Net field tables and the library's field comments.")

TECH_NODES = ("stateful property-based testing (rapid) of the unmodified library on a simulated network in virtual time (testing/synctest), "
              "against a reference model of the history")
NOTE_NODES = ("Searches generated histories against an explicit oracle; goroutine schedules are those the Go runtime happens to choose. "
              "Trusts the simulated UDP sockets substituted under package net by a build overlay, and testing/synctest.")
NODES = {"C%02d" % i for i in list(range(11, 26)) + [27, 29, 30, 31, 32, 33, 34, 35, 36]}
for _k in NODES:
    PROPS[_k].setdefault("technique", TECH_NODES)
    PROPS[_k].setdefault("note", NOTE_NODES)
for _k in ("C24", "C31"):
    PROPS[_k]["technique"] += ", plus the race detector"
