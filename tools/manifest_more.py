"""Techniques and notes of the checks other than the codec's."""

BOUND = (" Bounded by the constants of the model, the number of random runs and the seed; trusts TLC, the "
         "executor's reporting and the specification's reading of the documentation.")


def steps(spec, what):
    return ("TLA+ model %s (TLC) + replay of the model's histories and trace validation of the real %s "
            "against it" % (spec, what),
            "TLC checks %s.tla exhaustively over small constants and prints every history; these and random "
            "boundary-biased histories are executed by the real %s, and every step's result is validated by "
            "TLC against the specification." % (spec, what) + BOUND)


def schedules(spec, what):
    return ("TLA+ model %s (TLC) + trace validation of the real %s under every schedule loom finds and on "
            "real threads" % (spec, what),
            "TLC checks linearizability of %s.tla's concurrent operations over small constants; the model's "
            "programs and random ones run in the real %s under loom (every schedule, for three threads with "
            "bounded preemption) and on real threads, and TLC decides for every distinct history whether some "
            "sequential order explains it." % (spec, what) + BOUND)


MORE = {
    "C09": steps("Fragment", "chunk iterator"),
    "C10": steps("Fragment", "reassembly"),
    "C11": steps("Queue", "buffer list"),
    "C12": steps("StreamId", "id allocator"),
    "C13": schedules("StreamId", "id allocator"),
    "C14": steps("Permits", "permit counter"),
    "C15": schedules("Permits", "permit counter"),
    "C16": steps("SetupBuilder", "SETUP builder"),
    "C18": steps("Session", "session"),
    "C19": steps("Session", "session called by several tasks in turns the model chose and on several threads"),
    "C20": steps("Session", "session"),
    "C21": steps("Session", "session"),
    "C22": steps("Session", "session under a paused clock"),
    "C23": steps("Tables", "mime type conversions"),
    "C24": steps("Tables", "errors"),
    "C25": steps("Tables", "frame types and flags"),
    "C26": steps("Tables", "24-bit integers and versions"),
    "C27": steps("PayloadVal", "payload"),
    "C28": ("TLA+ models of the parts and of their turns (MCAmong, TLC) + trace validation of real objects used in "
            "turns and in parallel, each against its own specification",
            "TLC checks on MCAmong.tla that interleaved objects behave as on their own and prints every order of "
            "turns; real sessions, id providers, codecs, builders and so on are stepped in these orders, in random "
            "ones and on parallel threads, and the share of each is validated by TLC against its specification as "
            "if it had been alone." + BOUND),
    "C29": ("TLA+ refinement of Delivery by Session (TLC) + replay of Session's histories and trace validation of "
            "the real session with a receiver at the other end",
            "TLC checks that MCSession with a reassembling receiver refines Delivery.tla (two lanes, small "
            "constants); histories of the model and random ones run on the real session, whose frames the real "
            "codec and reassembly put together again, and TLC validates what arrives against Delivery.tla." + BOUND),
    "C30": ("TLA+ model of frames as values (Twins, TLC) + replay of its pairs and trace validation of the real "
            "comparisons",
            "TLC checks on MCTwins.tla that every argument matters and prints pairs of frames; these and random "
            "pairs that differ in a bit, a byte, a part or not at all are compared, copied and printed by the real "
            "code, and the answers are validated by TLC." + BOUND),
    "C31": ("TLA+ model of memory use (Resources, TLC) + trace validation of memory measured at the allocator",
            "TLC checks Resources.tla's bound; every kind of frame with lengths that lie, random frames, chunkings, "
            "reassemblies and repeated histories of a session run on the real code under a counting allocator, and "
            "TLC validates the most that was taken and what was kept. The proportion (4 KiB + 256 per piece + 4 per "
            "byte) is the specification's choice, well above what the code takes." + BOUND),
}
