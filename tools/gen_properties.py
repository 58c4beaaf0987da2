#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program because the lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PROTO = ["DPPIR/protocol/client/client_online.cc", "DPPIR/protocol/client/client_handlers.cc", "DPPIR/protocol/party/party_online.cc",
         "DPPIR/protocol/party/party_handlers.cc", "DPPIR/protocol/backend/backend_online.cc", "DPPIR/protocol/backend/backend_handlers.cc"]
PAR = ["DPPIR/protocol/parallel_party/parallel_party_online.cc", "DPPIR/protocol/parallel_party/parallel_party_offline.cc",
       "DPPIR/protocol/parallel_party/parallel_party_handlers.cc", "DPPIR/protocol/parallel_party/parallel_party_shuffle.cc",
       "DPPIR/protocol/parallel_party/parallel_party_util.inc"]
SOCK = ["DPPIR/sockets/common.cc", "DPPIR/sockets/common.h", "DPPIR/sockets/client_socket.cc", "DPPIR/sockets/server_socket.cc",
        "DPPIR/sockets/parallel_socket.cc", "DPPIR/types/containers.h"]
NOPROTO = "No test of the repository runs the protocol at all: the six tests cover single modules on a few fixed inputs. "

prop("C01", "A client gets exactly the rows it asked for, in order (one server per party)",
     "In a deployment with one server per party, every client run ends with exactly one answer per query, answer i being the value and signature of the database row asked for by query i. This holds for any number of parties, database size, noise level, query keys and batch sizes, in the combined offline+online run and in the online-only run.",
     ["configurations", "inputs", "schedules"],
     "For every deployment with one server per party, every list of queried rows, every relative speed and start order of the processes and every way the network cuts the byte streams.",
     NOPROTO + "Correct retrieval needs the sharing, onion, shuffling, noise and transport code of all processes to fit together for all sizes and orders.",
     PROTO + ["DPPIR/protocol/party/party_offline.cc", "DPPIR/shuffle/local_shuffle.cc"],
     [("query shares are peeled at every hop, responses masked on the way back in the inverse order", "DPPIR/protocol/party/party_online.cc"),
      ("in-order deshuffle of responses", "DPPIR/protocol/party/party_online.cc, DPPIR/shuffle/local_shuffle.cc"),
      ("client unmasks with the secret of the same position", "DPPIR/protocol/client/client_online.cc")],
     ["client process", "bytes on every link"])
prop("C02", "A client gets exactly the rows it asked for, in order (parallel servers)",
     "When every party runs several parallel servers, each with its own client, every client still ends with exactly one answer per query, answer i being the database row asked for by its query i. The clients may ask for different, even zero, numbers of queries.",
     ["configurations", "inputs", "schedules"],
     "For every deployment with several servers per party, every combination of per-client batch sizes and keys, every interleaving of the servers and every cut of the byte streams.",
     NOPROTO + "The distributed shuffle and its inverse exchange messages between sibling servers whose order depends on timing and batch sizes.",
     PAR + PROTO + ["DPPIR/shuffle/parallel_shuffle.cc"],
     [("distributed shuffle forward and backward", "DPPIR/protocol/parallel_party/parallel_party_shuffle.cc"),
      ("send-and-poll exchange between siblings", "DPPIR/protocol/parallel_party/parallel_party_util.inc"),
      ("position bookkeeping between incoming, shuffled and outgoing messages", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc")],
     ["client processes", "bytes on every link"])
prop("C03", "Every run terminates: no deadlock, no endless wait, nothing left over",
     "As long as no process fails, every client, party and backend process of a deployment runs to completion with exit status 0, whatever order they are started in and however fast each one runs, and at the end every byte sent on a connection has been read by its peer. This also holds when each connection can hold only a few application buffers of unread data.",
     ["schedules", "configurations"],
     "For every start order, relative speed and interleaving of the processes, every deployment, batch size and stage, and bounded connection buffers.",
     NOPROTO + "A blocking send or poll that waits for a process waiting in turn for it shows only for some sizes and interleavings.",
     PAR + SOCK + ["DPPIR/main.cc"],
     [("reads are polled while sending so that siblings cannot block each other", "DPPIR/protocol/parallel_party/parallel_party_util.inc"),
      ("connect retries until the peer listens", "DPPIR/sockets/common.cc"),
      ("fixed connection order: lower ids connect, higher ids accept", "DPPIR/sockets/parallel_socket.cc")],
     ["process exit status", "unread bytes per connection"])
prop("C04", "The transport delivers every message intact, in order, exactly once",
     "On every connection the receiver obtains exactly the ciphers, secrets, queries and responses that the sender handed to the transport, byte for byte, in order, once each, and no read takes bytes that belong to a later message or phase. This holds however the network splits or merges the byte stream, for partial sends, for any message count and size, and across the boundaries of the internal buffers.",
     ["schedules", "inputs"],
     "For every segmentation of the byte stream into reads and of the writes into partial sends, every number of messages and requested read count, and every mix of message kinds on one connection.",
     "The socket test pushes a few batches through loopback TCP, where practically all reads return whole messages; other segmentations are never produced.",
     SOCK,
     [("leftover bytes of a partially received message are kept for the next read", "DPPIR/types/containers.h, DPPIR/sockets/common.h"),
      ("loops until everything is sent or read", "DPPIR/sockets/common.cc"),
      ("buffers are flushed when full and at the end of a batch", "DPPIR/sockets/client_socket.cc, DPPIR/sockets/server_socket.cc, DPPIR/sockets/parallel_socket.cc")],
     ["messages returned by the reading side"])
prop("C05", "Each party pads every row with exactly its noise and loses no query",
     "Every party except the last adds, on every row of the database, exactly the number of noise queries that its noise mechanism yields, jointly over its parallel servers, and forwards each query it received exactly once; nothing else is added, dropped or duplicated, offline or online. Noise answers never reach a client, and the outgoing messages are split over the parallel servers into equal slices, the last one taking the remainder.",
     ["configurations", "schedules", "inputs"],
     "For every privacy parameter, database size, number of parties and servers, batch sizes and interleaving.",
     NOPROTO + "The differential privacy claim rests on the histogram the backend sees; no test looks at it.",
     ["DPPIR/noise/noise.cc", "DPPIR/protocol/party/party_offline.cc", "DPPIR/protocol/party/party_online.cc"] + PAR,
     [("noise histogram sampling per row range", "DPPIR/noise/noise.cc"),
      ("noise secrets made offline and turned into queries online", "DPPIR/protocol/party/party_handlers.cc, DPPIR/protocol/parallel_party/parallel_party_handlers.cc"),
      ("noise responses dropped on the way back", "DPPIR/protocol/party/party_online.cc, DPPIR/protocol/parallel_party/parallel_party_handlers.cc")],
     ["queries arriving at every party, resolved to rows"])
prop("C06", "Noise amounts follow the shifted, truncated Laplace mechanism",
     "With privacy parameters epsilon and delta both non-zero, the noise on a row is a whole number obtained by rounding down the value cutoff + Laplace(0, 2/epsilon) clamped to the interval from 0 to 2*cutoff, where cutoff = (2/epsilon) * ln(1/delta); the sampled build variant draws it afresh for each row, the default variant always uses the centre of that distribution, the cutoff rounded down. If epsilon or delta is zero there is no noise at all, and parameters for which the range is undefined or exceeds what a count can hold are refused.",
     ["inputs", "configurations"],
     "For every epsilon and delta (including zero), every value the random source can return, every row range, in both build variants.",
     "The noise test looks at a handful of parameters, and the sampled variant is not even compiled by the tests.",
     ["DPPIR/noise/noise.cc", "DPPIR/noise/noise.h"],
     [("inverse transform sampling and truncation", "DPPIR/noise/noise.cc"), ("cutoff = span * ln(1/delta)", "DPPIR/noise/noise.cc")],
     ["sampled noise amounts"])
prop("C07", "Shuffles are permutations, undone exactly, and agreed on by all servers",
     "A shuffle sends every message to exactly one place, the backward direction restores every message to its original position, and equal seeds give equal permutations. For parallel servers, the views of all servers of a party agree: what one expects to send to another is what the other expects to receive, counts, noise counts and source lookups included, and each server ends up with its share (the total divided equally, the last server taking the remainder).",
     ["inputs", "configurations", "histories"],
     "For every number of servers, per-server batch sizes (including zero), noise counts and seeds.",
     "The shuffle test tries a few fixed sizes and seeds.",
     ["DPPIR/shuffle/local_shuffle.cc", "DPPIR/shuffle/local_shuffle.h", "DPPIR/shuffle/parallel_shuffle.cc", "DPPIR/shuffle/util.h", "DPPIR/shuffle/util.cc"],
     [("forward/backward maps of the local shuffler", "DPPIR/shuffle/local_shuffle.cc"),
      ("global target map shuffled with the seed shared by the servers", "DPPIR/shuffle/parallel_shuffle.cc")],
     ["forward and backward maps, counts"])
prop("C08", "Shuffling is uniform: every order is reachable with equal probability",
     "If the random source is uniform, every ordering of the messages is produced by a shuffle with the same probability (up to the resolution of the random source), and in particular every message can end up in every position, including its own. For parallel servers, every assignment of messages to servers with the right slice sizes is equally likely.",
     ["inputs", "configurations"],
     "For every batch size and number of servers, over all outcomes of the random source.",
     "The tests check that shuffles are invertible; a biased or partial shuffle passes them, and uniformity is a statement about all outcomes of the random source.",
     ["DPPIR/shuffle/util.h", "DPPIR/shuffle/util.cc", "DPPIR/shuffle/local_shuffle.cc", "DPPIR/shuffle/parallel_shuffle.cc"],
     [("Fisher-Yates shuffle", "DPPIR/shuffle/util.h"), ("bounded draw by multiplication", "DPPIR/shuffle/util.cc")],
     ["distribution of resulting permutations"])
prop("C09", "Incremental sharing reconstructs every query for all shares",
     "For every number of parties, every list of random shares the generator can produce and every query below the field size, starting from the tally computed for that query and applying the shares one after another in party order yields the query again, every intermediate tally staying below the field size. Generated shares always have their additive part in the field and their multiplicative part in the field and non-zero.",
     ["inputs", "configurations"],
     "For every party count, every share vector and every query, with emphasis on the extreme values of the field.",
     "The test reconstructs random queries with random shares: extremes such as 0, 1 and p-1 are practically never drawn.",
     ["DPPIR/sharing/incremental.cc", "DPPIR/sharing/incremental.h"],
     [("modular inverse by extended Euclid", "DPPIR/sharing/incremental.cc"), ("64-bit modular arithmetic without wrap-around", "DPPIR/sharing/incremental.cc")],
     ["tally after each share"])
prop("C10", "Parties on the way of a query learn nothing about the row it asks for",
     "For any party m and any two rows, the joint distribution of a client's query as it travels from the client up to and including its arrival at party m (every tally and tag on those links), together with the offline secrets that the client made for all other parties, is the same for both rows. So whoever controls every link up to party m and every party except m learns nothing about the row before m has handled the query. This holds jointly for all queries of a client, and the offline material a client sends does not depend on the rows it will ask for.",
     ["inputs", "configurations"],
     "For every pair of rows, every party left out, over all values of the client's random choices.",
     "Secrecy is a statement about the distribution over all random choices; a test sees single runs, and a client that reuses, correlates or forgets to randomise shares still retrieves correctly.",
     ["DPPIR/sharing/incremental.cc", "DPPIR/protocol/client/client_handlers.cc", "DPPIR/protocol/client/client_offline.cc"],
     [("fresh uniform shares per query and party", "DPPIR/sharing/incremental.cc"), ("tally = query masked by all shares", "DPPIR/sharing/incremental.cc")],
     ["view of each coalition"])
prop("C11", "Response masks cancel completely and hide the response at every hop",
     "For every number of shares, the masks produced together combine to zero, so that applying all of them in any order to a response gives the response back, in place or not. Any strict subset of the masks is jointly uniform and freshly drawn for every query, so a response travelling on any link between two parties or to the client is hidden from the link.",
     ["inputs", "configurations"],
     "For every number of shares, every value of the random source and every response.",
     "The test checks cancellation for a few random draws and says nothing about the masks being complete, fresh and independent.",
     ["DPPIR/sharing/additive.cc", "DPPIR/sharing/additive.h", "DPPIR/protocol/client/client_handlers.cc"],
     [("n-1 random masks and their sum", "DPPIR/sharing/additive.cc"), ("word-wise XOR over the whole response", "DPPIR/sharing/additive.cc")],
     ["masks and masked responses"])
prop("C12", "Onions open layer by layer, only with the right keys, and not when altered",
     "For every number of parties and starting party, decrypting an onion with the keys of the addressed parties in order yields each party's secret and a next layer that is the onion for the following party, with the announced size at every level. Decryption never succeeds with another party's key, out of order, or after any bit of the ciphertext was changed; such an onion makes the process stop rather than use the data.",
     ["inputs", "configurations", "fault_sequences"],
     "For every party count and starting party, every wrong key and layer order, and every single-bit change.",
     "The onion test decrypts intact onions with the right keys only.",
     ["DPPIR/onion/onion.cc", "DPPIR/onion/onion.h"],
     [("sealed boxes nested from the last party outwards", "DPPIR/onion/onion.cc"), ("decryption status is checked", "DPPIR/onion/onion.cc")],
     ["plaintext of each layer, process outcome"])
prop("C13", "Batches are barriers: nothing is forwarded before the whole batch is in",
     "No party forwards a cipher or query, or releases a response, before that party as a whole (all of its parallel servers) has received the complete corresponding batch; the backend answers nothing before its batch is complete. Thus the order and timing of outgoing messages carry no information about the arrival of individual messages.",
     ["schedules", "configurations"],
     "For every interleaving of the processes, segmentation of the streams, deployment and batch size.",
     NOPROTO + "Forwarding early still yields correct answers; only an observation of causality between messages in all schedules shows it.",
     PAR + ["DPPIR/protocol/party/party_offline.cc", "DPPIR/protocol/party/party_online.cc", "DPPIR/protocol/backend/backend_online.cc"],
     [("read loops finish before the send loops start", "DPPIR/protocol/party/party_online.cc"),
      ("ready broadcast between sibling servers after each shuffle", "DPPIR/protocol/parallel_party/parallel_party_shuffle.cc")],
     ["happens-before order between sends and receives"])
prop("C14", "Stages are ordered: set up, then offline, then online, along the whole chain",
     "A party reports ready to its predecessor only after every later party knows its batch size; it declares the offline stage finished only after every later party has received all offline secrets for this batch; and a client sends its first query only after that. An online-only run uses no offline material and an offline-only run sends no query.",
     ["schedules", "configurations"],
     "For every interleaving, deployment, batch size and stage selection.",
     NOPROTO + "An early ready signal goes unnoticed unless a fast client meets a slow party.",
     ["DPPIR/protocol/client/client_offline.cc", "DPPIR/protocol/party/party_offline.cc", "DPPIR/protocol/backend/backend_offline.cc",
      "DPPIR/protocol/parallel_party/parallel_party_offline.cc", "DPPIR/protocol/party/party.h", "DPPIR/main.cc"],
     [("ready messages passed back along the chain", "DPPIR/protocol/party/party_offline.cc, DPPIR/protocol/backend/backend_offline.cc")],
     ["happens-before order between ready signals and data"])
prop("C15", "Every offline secret serves exactly one query: tags never collide",
     "In runs with an offline stage, at every party no two offline secrets of a batch carry the same tag, whichever clients and servers made them and whether they belong to real or noise queries; each online query finds its own secret and the follow-up tag of that secret names the matching secret at the next party. Every installed secret is used by exactly one query, so no share or mask is ever used twice.",
     ["configurations", "inputs", "schedules"],
     "For every number of parties and servers, every combination of client batch sizes and noise amounts, in both noise variants, and every interleaving.",
     NOPROTO + "Tags computed from counts collide only for particular combinations of batch sizes, server and party ids.",
     ["DPPIR/protocol/client/client_handlers.cc", "DPPIR/protocol/party/party_handlers.cc", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc", "DPPIR/types/state.cc"],
     [("tag layout by party, server and index", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc, DPPIR/protocol/client/client_handlers.cc, DPPIR/protocol/party/party_handlers.cc"),
      ("lookup by tag", "DPPIR/types/state.cc")],
     ["decrypted secrets and queries at each party"])
prop("C16", "Configurations survive writing and reading; damaged files are rejected",
     "Reading back a written configuration yields exactly the same parameters, keys, seeds, addresses and ports, for every number of parties and servers, and writing it again gives the same file. A file that is cut short at any point, or followed by extra bytes, makes the program stop instead of running with partly read or random parameters.",
     ["inputs", "configurations", "crash_points"],
     "For every configuration over the extreme values of each field, and every truncation point of the file.",
     "The config test writes and reads one configuration.",
     ["DPPIR/config/config.cc", "DPPIR/config/config.h"],
     [("tokenised hexadecimal serialisation", "DPPIR/config/config.cc"), ("bounds assertions while reading", "DPPIR/config/config.cc")],
     ["configuration read back, process outcome"])
prop("C17", "A generated configuration is deployable as generated",
     "For every number of parties and servers and every list of addresses, the generated configuration contains the requested parameters, each server's own address in the order given, a public key that matches the private key of each party and differs between parties, shuffle seeds that give different random sequences to different parties and servers, and listening ports that do not clash between processes on one machine (up to 1000 servers in total). Answering the questions interactively gives the same deployment as passing the values as arguments, and a request with missing values, values that are not numbers, numbers of parties, servers or rows that a configuration cannot hold, or the wrong number of addresses leaves no configuration behind.",
     ["inputs", "configurations"],
     "For every combination of arguments or interactive answers, valid and invalid, up to the stated party, server and address bounds.",
     "No test runs the generator.",
     ["DPPIR/config/gen_config.cc", "DPPIR/config/config.cc", "DPPIR/onion/onion.cc"],
     [("flag validation", "DPPIR/config/gen_config.cc"), ("port and seed assignment per party and server", "DPPIR/config/gen_config.cc")],
     ["generated file, exit status"])
prop("C18", "Wrong command lines are refused; right ones start exactly the requested role",
     "The program starts the protocol only for a complete and consistent command line (known role and stage, ids inside the configuration, a query count for clients that a batch can hold, a readable configuration with at least two parties) and then acts as precisely the requested participant and stages, connecting only to addresses that the configuration names; any other command line ends with a non-zero status before anything is sent or listened on.",
     ["inputs", "configurations"],
     "For every combination of flag values from an alphabet with missing, malformed, boundary and valid values, for several configurations.",
     "No test runs the program's entry point.",
     ["DPPIR/main.cc"],
     [("flag validation and role dispatch", "DPPIR/main.cc")],
     ["exit status, network calls made"])
prop("C19", "A process crash never yields a wrong or partial answer that looks successful",
     "If any process of the deployment stops at any point of the run, with its data in flight delivered or lost, then no client ends successfully unless it received all of its answers and every answer was right; the other processes may only wait, stop with an error, or finish what was completely received. In particular no process forwards or answers a partial batch.",
     ["crash_points", "schedules", "configurations"],
     "For every process, every point at which it can stop between two operations, with in-flight data delivered or dropped, for every small deployment.",
     NOPROTO + "There are no fault injection tests.",
     SOCK + PROTO + PAR,
     [("counts announced up front; readers wait for the complete batch", "DPPIR/sockets/server_socket.cc, DPPIR/protocol/party/party_offline.cc"),
      ("socket errors abort the process", "DPPIR/sockets/common.cc")],
     ["client outcome", "messages forwarded after the crash"])
prop("C20", "No run touches memory outside its buffers or leaves results to chance",
     "No process ever reads or writes outside its allocated buffers or uses freed memory, for any deployment, batch sizes (zero and buffer-boundary sizes included; a batch too large to count is refused), stage and network behaviour. Nothing a process sends depends on memory that was never written: equal inputs and random choices give equal messages whatever the memory held before.",
     ["configurations", "inputs", "schedules"],
     "For every small deployment, batch size around the buffer boundaries, stage and stream segmentation.",
     "The tests run without memory checkers and never execute the protocol; an overrun by one element usually goes unnoticed.",
     ["DPPIR/types/containers.h", "DPPIR/types/state.cc", "DPPIR/shuffle/parallel_shuffle.cc", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc", "DPPIR/sockets/common.h"],
     [("buffers sized from announced counts", "DPPIR/types/containers.h"), ("capacity checks before each push", "DPPIR/sockets/client_socket.cc")],
     ["memory accesses of every process"])
prop("C21", "The orchestrator hands out each role once, in order, and tracks completion",
     "For every order in which workers register, ask for work when idle, fetch configurations, report results or are stopped by the operator, each role of each experiment (client number, or party and server number) goes to exactly one worker and experiments are filled in the order they were added. An experiment counts as running once every role is assigned and as done exactly when every role has reported, each report is stored under its own role and experiment, and the configuration names the servers' addresses in role order. Stopping an experiment stops exactly the workers that are working on it at that time. Saving and loading the queue gives the same experiments.",
     ["histories", "schedules"],
     "For every sequence of worker requests and operator commands up to a depth, for several queues of experiments and numbers of workers.",
     "The orchestrator has no tests.",
     ["experiments/orchestrator/orchestrator.js", "experiments/orchestrator/experiment.js", "experiments/orchestrator/worker.js", "experiments/orchestrator/main.js", "experiments/orchestrator/cmd.js"],
     [("assignment of roles to workers", "experiments/orchestrator/experiment.js"), ("client and server job queues", "experiments/orchestrator/orchestrator.js")],
     ["replies to requests, stored results, queue contents"])
prop("C22", "The rows' noise ranges of parallel servers cover the database exactly once",
     "For every number of servers and every database with at least as many rows, the row ranges for which the servers of a party generate noise are contiguous, in server order, start at row 0, end at the last row, do not overlap and leave no gap; a server whose range is empty makes no noise. Range sizes are balanced: no server has more than the database size divided by the number of servers, rounded up.",
     ["inputs", "configurations"],
     "For every database size and every number of servers.",
     "The noise test tries a few pairs that happen to divide well.",
     ["DPPIR/noise/noise.cc", "DPPIR/noise/noise.h"],
     [("range arithmetic", "DPPIR/noise/noise.cc")],
     ["ranges per server"])
prop("C23", "Offline secret stores return what was stored, in order, for the right tag",
     "Whatever sequence of storing, loading and reading operations is performed, a client store returns tags, shares and masks in the order they were stored, separately for sending queries and for reading answers, and a party or backend store returns for a tag exactly what was stored under it, refusing a second secret for the same tag. In simulated mode every store always yields one neutral secret: tag zero, with shares and masks that change nothing.",
     ["histories", "inputs"],
     "For every sequence of operations up to a depth over a small alphabet of tags and values.",
     "No test covers the stores.",
     ["DPPIR/types/state.cc", "DPPIR/types/state.h"],
     [("write and read indices", "DPPIR/types/state.cc"), ("map by tag", "DPPIR/types/state.cc")],
     ["values returned by the stores"])

prop("C24", "A worker daemon runs exactly the jobs it is given and reports each once",
     "Whatever the orchestrator answers and in whatever order it assigns, delays or stops jobs, a worker daemon registers once with its kind and then asks for work until it is given a job. It runs that job exactly once with exactly the assigned parameters (role, party, server, stage, query count, addresses, sizes), a DP-PIR job only after the configuration for it has arrived and with that configuration. While the job runs it asks whether to stop; it uploads the job's log so far when that is wanted, and stops the job, nothing else, when told to. When the job is over it uploads that job's own log exactly once under its worker id, with nothing of other jobs in it, before asking for the next one. A job of unknown kind runs nothing.",
     ["histories", "inputs"],
     "For every sequence of answers of the orchestrator: waiting, jobs of every kind, delayed configurations, stop and log requests, several jobs after each other, for server and client daemons.",
     "The daemons have no tests.",
     ["experiments/daemon_server.sh", "experiments/daemon_client.sh", "experiments/checklist/run_server.sh", "experiments/checklist/run_client.sh", "experiments/checklist/stop.sh", "experiments/sealpir/run.sh", "experiments/sealpir/stop.sh"],
     [("job loop: ping, configuration, run, poll, report", "experiments/daemon_server.sh, experiments/daemon_client.sh")],
     ["requests to the orchestrator, programs started, processes stopped"])

prop("C25", "Containers and the database keep their elements apart, at every size",
     "For every size and sequence of operations: a buffer that bytes arrive in, cut anywhere, hands out each complete message once, in order and unchanged, and keeps the incomplete rest for later; a buffer that messages are pushed to holds exactly those. A batch returns each element as it was stored and is full exactly when as many as its capacity were pushed. A batch of ciphers that holds own and received ones never lets a processed cipher overwrite one still to be processed and lists the processed ones in order, also beyond 65536 ciphers and 4 GB. A map of servers has a separate entry for each other server, listed in their order, for up to 256 servers. All processes that construct a database of the same size agree on every row, rows differ from each other, and two responses are equal exactly if all of their bytes are.",
     ["inputs", "histories"],
     "For every sequence of operations up to a depth, every size of the next piece in every reachable state of a buffer, every number of servers, and sizes above 16 and 32 bit limits.",
     "No test covers the containers; deployments only reach a few of their states.",
     ["DPPIR/types/containers.h", "DPPIR/types/database.cc", "DPPIR/types/database.h", "DPPIR/types/types.cc"],
     [("moving boundary between processed and unprocessed ciphers", "CipherBatch in DPPIR/types/containers.h"), ("incomplete messages", "LogicalBuffer and CipherLogicalBuffer in DPPIR/types/containers.h"), ("gap at the own server", "ServersMap in DPPIR/types/containers.h")],
     ["elements read back", "fullness and sizes", "memory accesses"])

prop("C26", "Sampled noise and secrets are fresh in every run and for every process",
     "The numbers of noise queries that a server samples for its rows (when noise is sampled) and the secrets that clients and servers make (incremental shares together with masks, for every query and party) come from the random numbers of the operating system: they are not determined by the configuration, the database, the queries or the clock, and so, except by chance, no run of a deployment repeats what an earlier one drew, and no two servers, parties or clients of a deployment draw the same. This holds also if all configured seeds are equal.",
     ["inputs", "histories"],
     "For every run, deployment shape, stage and batch, also runs of the same deployment that differ in nothing but the random numbers.",
     "Tests run one process once and never compare the noise or secrets of two servers or two runs.",
     ["DPPIR/main.cc", "DPPIR/noise/noise.cc", "DPPIR/noise/noise.h", "DPPIR/protocol/party/party_initialization.cc", "DPPIR/protocol/parallel_party/parallel_party_initialization.cc", "DPPIR/protocol/party/party_handlers.cc", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc", "DPPIR/protocol/client/client_handlers.cc", "DPPIR/sharing/additive.cc", "DPPIR/sharing/incremental.cc", "DPPIR/shuffle/util.cc"],
     [("one generator for noise and for shuffles with configured seeds", "RandUniform in DPPIR/noise/noise.cc, seed in DPPIR/shuffle/util.cc"), ("seeding", "main in DPPIR/main.cc")],
     ["histogram of noise per party and row", "contents of the onions"])

prop("C27", "The queue holds exactly the experiments asked for, and stored ones load again",
     "For every answer at the orchestrator's prompt that gives lists of parameters, exactly one experiment is queued for every combination of the listed values, under its own name <name>-<table size>-<parties>-<servers>-<queries>-<epsilon>-<delta> (baselines: <name>-<table size>-<queries>), so that no two share a results folder. When workers then carry out the queue, each experiment is run with the values in its name: parties times servers server roles, one client per server, the total number of queries divided evenly (rounded down) over the clients, and that mode, table size, epsilon and delta in the jobs and in the configuration. An invalid mode or kind of baseline queues nothing, and an experiment for which there are too few workers is not queued. Storing the queue and loading it into another orchestrator, all of it or the experiments confirmed one by one, gives experiments that run in the same way, and so do the stored descriptions of the paper's experiments.",
     ["inputs", "histories"],
     "For every combination of lists of every parameter, every number of workers, and every short sequence of such commands with storing and loading; and for all stored descriptions.",
     "The orchestrator has no tests.",
     ["experiments/orchestrator/cmd.js", "experiments/orchestrator/experiment.js", "experiments/orchestrator/orchestrator.js", "experiments/orchestrator/stored/figure1.json", "experiments/orchestrator/stored/table2.json"],
     [("nested loops over lists", "newDPPIR in experiments/orchestrator/cmd.js"), ("toJSON and fromJSON of each kind", "experiments/orchestrator/experiment.js")],
     ["experiments listed", "jobs, configurations and result files when workers carry out the queue"])

prop("C28", "Every party reports the time of each stage once, and it is that of the stage",
     "A party other than the last that runs the online stage prints 'Online time: <n>ms' exactly once, and one that runs the offline stage (not simulated) prints 'Offline time: <n>ms' exactly once; otherwise it prints no such line. That holds for every deployment and duration, also of less than a millisecond or of days. The experiments' plots take their data from these lines. The online time, in milliseconds, is the time from when all servers of the party have their complete batch of queries until all have handled all their responses: the shuffles, the later parties' work and the waiting for siblings are part of it, waiting for queries and sending the responses back are not. The offline time is the time from before the party makes its own noise ciphers until the next party and its siblings are ready, plus the time from when all servers of the party have their complete batch of ciphers until the offline stage is over for them, the next party and the siblings; waiting for the ciphers is not part of it.",
     ["schedules", "histories"],
     "For every deployment, schedule and segmentation, and every duration of the steps.",
     "No test looks at the times, and with real time there is nothing to compare them with.",
     ["DPPIR/protocol/party/party_online.cc", "DPPIR/protocol/party/party_offline.cc", "DPPIR/protocol/parallel_party/parallel_party_online.cc", "DPPIR/protocol/parallel_party/parallel_party_offline.cc", "experiments/plots/plot.py"],
     [("clock stopped while ciphers are collected", "StartOffline in DPPIR/protocol/party/party_offline.cc and DPPIR/protocol/parallel_party/parallel_party_offline.cc"), ("barriers before starting and stopping the clock", "StartOnline in DPPIR/protocol/parallel_party/parallel_party_online.cc"), ("regular expressions", "experiments/plots/plot.py")],
     ["lines printed by a party", "times of messages on the network"])

prop("C29", "Plots and tables show the measured times, each at the point of its own run",
     "What experiments/plots/plot.py shows is what the results in experiments/orchestrator/outputs say. In a simple or split plot or a table, the value at a point is, in seconds, the time that the log of this experiment's run with that parameter value reports: for DP-PIR the online or offline time of the first party, for Checklist the larger of the two servers' times in whatever unit they are written (ns, \u00b5s, ms, s, minutes, hours), for SealPIR the server's time. That holds whatever epsilon and delta the run has, whatever other experiments (also with names that begin alike), protocols and files are stored, and in whatever order directories are listed. A point without a run is extrapolated only if the description lists it (DP-PIR: on the line through the two largest measured points; others over queries: in proportion to the largest); otherwise, or if a log does not report the time it should (DP-PIR and SealPIR: exactly once), nothing is plotted. Rows of a table without a run stay empty. A ratio plot shows the queries per row of the database for which the baseline takes the given factor times as long as DP-PIR, by the measured costs per query and per noise query (missing costs of Checklist Punc grow with the square root of the database). Several plots asked for at once each show their own data, and each file is written under its own name. The results of the stored experiments of the paper suffice for its plots.",
     ["inputs", "histories"],
     "For every set of stored runs, every set of points that may be extrapolated, every measured time, every order of directory entries and every combination of plots.",
     "The plotting script has no tests, and a wrong point in a figure looks like any other.",
     ["experiments/plots/plot.py", "experiments/plots/descriptions/figure1.json", "experiments/plots/descriptions/table2.json", "experiments/orchestrator/stored/figure1.json"],
     [("fields of directory names", "DPPIR_X_MAP, OTHERS_X_MAP and compatible_directory in experiments/plots/plot.py"), ("regular expressions for times", "extract_y in experiments/plots/plot.py"), ("extrapolation", "interpolate and interpolate_all in experiments/plots/plot.py")],
     ["values drawn and tabulated", "files written", "refusals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
