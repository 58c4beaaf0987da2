W = "stateless model checking of the real processes under a controlled scheduler and network"
U = "explicit enumeration of all random outcomes, inputs and operation sequences of the real component code"
T = ("Trusts the virtual kernel (sockets, poll, scheduling), which replaces the system calls of the unmodified sources, and the stated bounds "
     "on deployments, batch sizes and deviations from the default schedule. ")
H = "Trusts the harness oracle and the stated bounds; the code under test is the unmodified source, its random sources replaced by enumerated choices. "
NOTES = {
    "C01": (W, T + "Small deployments (1-4 parties, 1 server), every key list over small databases; sealed boxes are replaced by a transparent stand-in, C12 checks the real ones."),
    "C02": (W, T + "2-3 servers per party, all small per-client batch sizes; sealed boxes replaced by a transparent stand-in."),
    "C03": (W, T + "Includes bounded connection buffers and all start orders of small deployments."),
    "C04": (W, T + "All segmentations of reads and partial writes up to a deviation bound on the transport classes themselves and inside whole deployments."),
    "C05": (W, T + "Histogram of rows resolved from the offline secrets at every hop, all deployments in the bounds, both noise variants."),
    "C06": (U, H + "Compared with the analytic distribution on a lattice of random values; whole deployments with both noise variants check that every row's draw is its own and is what is sent."),
    "C07": (U, H + "All outcomes for small batches, real seeds for larger ones."),
    "C08": (U, H + "Exact equality of probabilities over all outcomes of the random source for small batches; whole deployments check that every permutation of a small batch is reachable and that draws are not shared between parties."),
    "C09": (U, H + "All shares and queries for small fields, boundary values of the real field."),
    "C10": (U, H + "Exact equality of view distributions over all client random choices in small fields; whole deployments at a prime of 5 and with recorded draws check that each query gets fresh shares."),
    "C11": (U, H + "The mask maps are linear over bits: all unit vectors and ranks decide all inputs; whole deployments check that masks are fresh per query and unmasked by the client alone."),
    "C12": (U, H + "Real libsodium; all bit flips and orders for small party counts. Unforgeability itself is libsodium's. Deployments with real boxes check what is on the wire and that corrupted ciphers are refused."),
    "C13": (W, T + "Vector clocks on messages decide causality in every explored execution."),
    "C14": (W, T + "Vector clocks on messages decide causality in every explored execution."),
    "C15": (W, T + "All combinations of batch sizes in the bounds, both noise variants; the tags of real participant objects over all party and server numbers at boundary query numbers."),
    "C16": (U, H + "All truncation points, under AddressSanitizer."),
    "C17": (U, H + "All argument and answer combinations over an alphabet, the real generator run in a scratch folder."),
    "C18": (U, H + "All flag combinations over an alphabet, the real main() with network calls recorded; runs of whole deployments with the accepted extremes."),
    "C19": ("enumeration of all crash points under a controlled scheduler and network", T + "Every operation boundary of every process, in-flight data kept or lost."),
    "C20": (W, T + "AddressSanitizer build inside the virtual world, and runs with different fills of stack, heap and freed memory that must not differ on the wire."),
    "C21": ("explicit-state exploration of all request sequences of the real orchestrator code against a reference model", "Trusts stand-ins for the web framework and file system; bounded queues, workers and depth."),
    "C22": (U, H + "All small pairs and boundary values up to 2^32-1."),
    "C25": (U, H + "Explicit-state search of the reachable states of receiving buffers, all operation sequences up to a depth for the others, all (server, number of servers) pairs; single executions above 65536 elements and 4 GB."),
    "C26": (W, T + "All runs of a set of deployments under 40 (thorough: 200) different streams of system randomness; what two processes or runs draw is compared pairwise. rand() is the real generator, shared by processes with equal or no seeds."),
    "C27": ("exhaustive enumeration of all operator command sequences within bounds on the real orchestrator code, the resulting queues carried out by simulated workers against a reference model", "Trusts stand-ins for the web framework and file system; lists of one or two values per parameter, up to three (thorough: four) commands."),
    "C28": (W, T + "Clocks tell virtual time, one tick for every transfer and sealed box, from 0 ms to 2*10^9 ms; computation other than sealed boxes takes no time. The times of network events bound what may be reported."),
    "C29": ("exhaustive execution of the real plotting script on all sets of stored results within bounds", "Trusts recording stand-ins for matplotlib, tabulate and os.listdir, and the reference that computes what must be drawn; at most seven points per plot, three series, measured times from fixed lists."),
    "C23": (U, H + "All operation sequences up to a depth."),
    "C24": ("exhaustive exploration of all scripts of orchestrator replies within bounds on the real shell scripts", "Trusts stand-ins for curl, bazel, sleep, ps and kill, which run in a scratch folder as an unprivileged user; up to three jobs per run."),
}
NOT_APPLICABLE = {}
