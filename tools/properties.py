# Executed by spec.py.

prop("C01", "Every block published is reassembled exactly once, with its exact content",
     "When every message of a block has been delivered at least once, a consumer that tracks everything releases that block exactly once, at the delivery of the last message it was missing. The released block has the number, hash, parent, weight, values and deletions the producer was given, nothing more and nothing less. The order of delivery, repeats, interleaving with other blocks, and which of several redundant producers a message came from make no difference.",
     ["inputs", "histories"],
     "every set of blocks a producer accepts (inline, prefixed, deleted and sub-batch keys, empty values, weights up to 256 bits), published by any number of redundant producers, delivered in any order with any repeats, while the block is within the reorg threshold",
     "consumer_test.go and types_test.go deliver a handful of hand-written blocks in a few orders; they have no empty values, no prefixes without a final separator, and no mix of producers, and they never compare the whole content.",
     ["delivery/consumer.go", "delivery/types.go", "delivery/producer.go", "SPEC.md"],
     [("message assembly", "delivery/consumer.go ProcessMessage"), ("per-block counters", "delivery/consumer.go PendingBatch.ApplyMessage, DecPrefixCounter, Ready"), ("encoding", "delivery/producer.go AddBlock, SendBatch")],
     ["channel subscribed for completed blocks"],
     "Random block sets (schema of 1-4 prefix families, inline/prefixed/deleted/sub-batch keys, empty values, 256-bit weights) are encoded by the producer under test or by an independent encoder written from SPEC.md, and delivered in random order with repeats; after each delivery the consumer is compared with a set-of-missing-messages model. Non-trivial: a block with prefixed keys or sub-batches, some message delivered twice, more than three deliveries; distinct by the whole case.",
     "Generated search against an independent model of SPEC.md; assumes the encoder written from SPEC.md is right (it was cross-checked against the producer).",
     q(1600, 100))

prop("C02", "No block is released while one of its messages is missing",
     "A consumer never releases a block before each message the block consists of has been delivered at least once, however often the others are repeated.",
     ["inputs", "histories"],
     "every accepted block, every choice of the message that is withheld, every number of repeats of the others from any of several producers, in any order",
     "The unit tests deliver each message once, or all of them twice; they never withhold one message of each kind while repeating the rest.",
     ["delivery/consumer.go"],
     [("duplicate suppression", "delivery/consumer.go ApplyMessage"), ("readiness", "delivery/consumer.go Ready, DecPrefixCounter")],
     ["channel subscribed for completed blocks"],
     "Random block sets; one message of each block (of any kind) is held back while all others are delivered one to five times in random order, then the held ones follow. The consumer must release each block exactly at its held message. Non-trivial: some block has prefixed keys or sub-batches.",
     "Generated search against a set-of-missing-messages model.",
     q(1600, 100))

prop("C03", "A consumer of some prefixes gets exactly those parts of every block",
     "A consumer that tracks a set of prefixes releases each block exactly once, as soon as it has the block header and every message under tracked entries, without waiting for anything else. The released block holds exactly the values and deletions under tracked entries.",
     ["inputs", "configurations", "histories"],
     "every accepted block set, every set of tracked patterns (none, exact entries, fragments, alternatives), messages outside them delivered, repeated or absent in any order",
     "One unit test tracks a single prefix. It does not vary patterns, and always delivers everything.",
     ["delivery/consumer.go", "SPEC.md"],
     [("prefix filter", "delivery/consumer.go ProcessMessage (BatchType)"), ("ignored messages", "delivery/consumer.go DecPrefixCounter")],
     ["channel subscribed for completed blocks"],
     "Random block sets with 0-4 random tracked patterns (exact header entries, entry prefixes, schema families, fragments); untracked messages are kept, dropped or partly dropped. The oracle projects the block on the header entries the patterns match. Non-trivial: some entries are tracked and some are not.",
     "Generated search against a projection model; patterns that only match a schema-unrelated fragment are decided per header entry, as SPEC.md does.",
     q(1600, 100))

prop("C04", "A producer emits exactly the message set the format defines, on the right topics",
     "For each accepted block a producer emits one header, one message per key under a schema prefix, and for each sub-batch one header and its numbered parts: keys, values, counts and topics are those SPEC.md defines. The result depends only on the block and the schema, so redundant producers emit interchangeable messages, whatever else they sent before and however late the sub-batches follow.",
     ["inputs", "configurations", "histories"],
     "every schema without overlapping prefixes, every accepted block and sub-batch set, every interleaving of block and sub-batch calls",
     "producer_test.go checks one block against one schema and counts messages; nothing decodes what is sent or compares two producers.",
     ["delivery/producer.go", "delivery/types.go", "SPEC.md"],
     [("routing and counting", "delivery/producer.go AddBlock"), ("sub-batch split", "delivery/producer.go SendBatch"), ("schema anchoring", "delivery/producer.go NewProducer"), ("header encoding", "delivery/types.go EncodeAvro, UnmarshalBatch")],
     ["return values of the producer calls"],
     "Random schemas and block sequences with delayed sub-batches are pushed through two producers; every message is decoded by an independent Avro decoder and compared with the message set an encoder written from SPEC.md gives. Non-trivial: both prefixed keys and sub-batches occur.",
     "Differential test against an encoder/decoder written from SPEC.md; every key matches at most one schema entry (with overlapping matches the topic is not determined).",
     q(1200, 100))

prop("C05", "A producer refuses what it cannot carry, and carries what it accepts",
     "A schema with overlapping or malformed prefixes, a block in which two entries would collide, a sub-batch with the zero id, and a sub-batch that was not announced or was already sent are refused with the documented error and produce no messages. Whatever is accepted can be reassembled by a consumer exactly.",
     ["inputs", "histories"],
     "every schema, block and call order from a pool in which keys, paths and prefixes collide often",
     "The tests cover one overlap and no collisions between updates, deletes, sub-batches and counted prefixes.",
     ["delivery/producer.go", "delivery/errors.go"],
     [("conflict checks", "delivery/producer.go AddBlock, NewProducer"), ("pending sub-batches", "delivery/producer.go SendBatch")],
     ["return values of the producer calls", "a consumer fed with the accepted messages"],
     "Random call histories on one producer with keys, paths and schema from small colliding pools; the oracle computes which calls must be refused and with which error, and feeds everything accepted to a consumer for an exact comparison. Non-trivial: a call was refused or at least two sub-batches were sent.",
     "Generated call histories against an explicit acceptance model.",
     q(1200, 100))

ORD = ["delivery/ordering.go", "delivery/consumer.go", "assembly_protocol.md"]
prop("C06", "Chain updates always describe a valid walk over delivered blocks",
     "The chain updates a consumer emits, applied in order, always form one chain: the removed blocks are the end of the chain emitted so far, oldest first, and each added block was delivered and is the child of the block before it. Blocks are only removed in favour of a strictly heavier head.",
     ["histories", "schedules"],
     "every block tree with positive weights, every order of delivery with repeats and gaps, as messages or whole blocks, with or without a block to resume from (and then, also with deliveries that begin anywhere and leave out any block), with windows of one block up to larger than the tree",
     "ordering_test.go replays about ten fixed trees in fixed orders.",
     ORD, [("emission", "delivery/ordering.go prepareEmit"), ("reorg construction", "delivery/ordering.go prepareReorg"), ("fork choice", "delivery/ordering.go HandlePendingBatch")],
     ["channel subscribed for chain updates"],
     "Random trees of 2-24 blocks with random weights, delivered in random, reversed or locally shuffled order with repeats and losses, with and without letting the processor settle, from any block to resume from, with reorg thresholds from 1 up; a walk automaton replays every update. Non-trivial: a reorg happened or a child came before its parent.",
     "Stateful generated histories against a chain-walk oracle, under virtual time. Without a block to resume from, parents come first (as the documentation of that mode requires). A child always weighs more than its parent.",
     q(3000, 100), pkg="order", technique="stateful property-based testing under virtual time", assumptions=["a child always weighs more than its parent (accumulated difficulty)"])

prop("C07", "The emitted head is the heaviest chain that is completely delivered",
     "Whenever a consumer has handled what it was given, the head it has emitted is at least as heavy as every chain of delivered blocks that connects to the chain it started from, within the reorg threshold. No order of delivery, repeat or gap that is filled later leaves it on a lighter chain.",
     ["histories", "schedules"],
     "every block tree with positive weights, every order of delivery with repeats, checked after every delivery; the block the consumer resumes from, if it is delivered at all, comes before its competitors",
     "The unit tests fix one order per tree and check the final head only.",
     ORD, [("fork choice", "delivery/ordering.go HandlePendingBatch"), ("waiting descendants", "delivery/ordering.go getPendingChild, finishSiblings, finishPendingChildren"), ("reorg construction", "delivery/ordering.go prepareReorg")],
     ["channel subscribed for chain updates"],
     "As C06, with the threshold above the size of the tree; after each delivery the weight of the head is compared with the heaviest delivered chain connected to the starting block. Non-trivial: a reorg happened or a child came before its parent.",
     "Stateful generated histories against a heaviest-chain oracle.",
     q(3000, 100), pkg="order", technique="stateful property-based testing under virtual time", assumptions=["a child always weighs more than its parent (accumulated difficulty)"])

prop("C08", "A consumer keeps following the chain for ever, in bounded memory",
     "Over a history of any length, reorgs up to the reorg threshold deep are followed like any other, and the blocks and partial blocks held stay bounded by a small multiple of the threshold. Late repeats of old blocks change nothing.",
     ["histories"],
     "histories many times longer than the threshold with any mix of forks no deeper than it, local reordering, late repeats, and blocks that never complete",
     "No test runs longer than the threshold, so eviction never happens in the tests.",
     ORD, [("eviction", "delivery/ordering.go evict, finished LRU"), ("eviction of incomplete blocks", "delivery/consumer.go evictOlderThan")],
     ["channel subscribed for chain updates", "weak pointers to delivered blocks and message values"],
     "Random histories of 4-25 times the threshold (2-12), every reorg going back at most 2*threshold deliveries, shuffled within a window, with repeats of any age and incomplete blocks; head weight and walk are checked after each delivery, and weak pointers count what is still held at the end. A few cases repeat one history a hundred times and bound the growth of the heap. Non-trivial: a reorg happened or a child came before its parent.",
     "Stateful generated histories; retention measured with weak pointers after garbage collection, bound 2*threshold + shuffle window + 4.",
     q(1600, 50), pkg="order", technique="stateful property-based testing under virtual time")

prop("C09", "Blocks excluded by the whitelist are never released",
     "With a whitelist of block hashes by number, no block that contradicts it and no descendant of one is ever released, in any order of delivery. Among the remaining blocks the consumer still ends on the heaviest complete chain.",
     ["histories", "configurations"],
     "every block tree, every whitelist over one to three heights (naming a block of the tree or one that does not exist), every order of delivery",
     "One unit test whitelists one block in one order.",
     ORD, [("whitelist and blacklist", "delivery/ordering.go HandlePendingBatch")],
     ["channel subscribed for chain updates"],
     "As C07 with a random whitelist the starting block complies with. Non-trivial: at least one delivered block is excluded.",
     "Stateful generated histories against a compliance predicate over the tree.",
     q(3000, 100), pkg="order", technique="stateful property-based testing under virtual time", assumptions=["the block resumed from complies with the whitelist"])

prop("C10", "A large-reorg signal moves the consumer to the common ancestor",
     "When a reorg signal for a block arrives, its subscribers are told the number and hash once, and from then on the new chain built on that block is released block by block, whatever its weight, without removals. Blocks of the new chain that came before the signal are released when they come again after it. A block that is delivered again after the signal is given again to those who take blocks as they come; unless it is the next one of the new chain, it moves nothing. Nobody is told of a reorg that was not signalled.",
     ["histories"],
     "every preceding history, every signalled block, any number of signals, any weights and repeats of the new blocks, any of which may have come before the signal",
     "The large-reorg path has no test.",
     ORD + ["delivery/producer.go"], [("reorg signal", "delivery/consumer.go ProcessMessage (ReorgType)"), ("head reset", "delivery/ordering.go HandleReorg"), ("signal encoding", "delivery/producer.go Reorg")],
     ["reorg subscription", "channel subscribed for chain updates"],
     "Random history, then one to three signals each followed by a fresh chain on the signalled block; the head must be each new block as it arrives, and blocks delivered again must reach the subscriber that takes blocks in no order. A quarter of the cases have two chains on the named block, with the second delivered again after the signal (reorg thresholds 1-12); other cases have children of a new block that came before the signal. A third of the cases send signal and blocks back to back. Non-trivial: every case has a signal.",
     "Stateful generated histories.",
     q(2000, 100), pkg="order", technique="stateful property-based testing under virtual time")

prop("C11", "A consumer that resumes from a block's token loses nothing",
     "A resumption token taken from a released block, less a rollback at least as large as the read-ahead between sources, is a position from which a new consumer releases every later block of the chain, in order, with its exact content. It never points beyond what was read.",
     ["crash_points", "histories", "schedules"],
     "every chain of blocks spread over any number of topics and partitions (one to dozens of sources) by redundant producers (each in block order, some dying early), every order in which the sources are read before and after the restart, every block the application may have applied last",
     "One unit test compares a token with a literal string; nothing restarts a consumer.",
     ["delivery/consumer.go", "transports/kafka.go"],
     [("token of a block", "delivery/consumer.go Resumption, updateResumption, resumptionCopy"), ("early messages", "delivery/consumer.go queueMessage")],
     ["resumption token of a released block", "chain updates after a restart"],
     "Random chains of 2-6 blocks written to per-partition logs by 1-3 interleaved producers, read in random order, stopped after a random applied block, and read again in another random order from token minus rollback, where the rollback is the read-ahead the history had (plus a random margin). Non-trivial: the token skips messages and later blocks remain.",
     "Generated crash/restart histories against the published chain; the transport's own use of the token is part of C15.",
     q(3000, 100), pkg="resume", technique="property-based testing of crash/restart histories", assumptions=["each producer publishes blocks in chain order, and a partition keeps the order it is written in"])

prop("C12", "Waiting for a block ends when it is applied, and not before",
     "Waiting for a hash or a number reports success at the moment the application has applied such a block (or at once, if it did so within the last minute), a timeout after exactly the given time if it has not, and not-found at once if no such block was announced or it was applied more than a minute ago. It never reports success for a block that was not applied.",
     ["histories", "schedules"],
     "every history of block announcements (headers, messages, whole blocks, repeats, siblings at one height), application delays, and waits with any timeout started at any point",
     "waiter_test.go does not compile against this module version; it had three fixed scenarios.",
     ["waiter/waiter.go", "delivery/consumer.go", "delivery/ordering.go"],
     [("registry of announced blocks", "waiter/waiter.go NewOmpWaiter"), ("announcements", "delivery/consumer.go ProcessMessage, ProcessCompleteBatch"), ("completion", "delivery/consumer.go PendingBatch.Done, delivery/ordering.go ChainUpdate.Done")],
     ["results and end times of waits"],
     "Random timelines of up to 30 events (header, remaining messages, whole block, waits by hash or number, stop) over a tree of up to 7 blocks with gaps from 0 to 61 s and application delays, run under virtual time; every wait's result and exact end time are compared with a model. Non-trivial: some wait succeeds.",
     "Generated timelines against a timed model. With several blocks at one height, what is remembered after the first one's minute is only checked for false successes.",
     q(600, 100), pkg="wait", technique="model-based property testing under virtual time")

WS = ["transports/websockets.go"]

prop("C13", "A websocket subscription goes from history to live items without a gap",
     "A subscriber that names a block receives every later block the application has, whole and in order, then one ready marker, then every block, sub-batch and reorg signal announced from there on, in order and with its exact content. Nothing announced around the switch from history to live is missing. A sub-batch is announced once, and only if its block was; subscribers that come, are slow (with fewer announcements outstanding than the 1000 there is room for), or go do not affect the others or the producer. Blocks asked for by number are whole, or reported as not found.",
     ["inputs", "histories", "schedules"],
     "every sequence of announcements, every number of subscribers starting from any known or unknown block at any time (also while the history is being replayed, and with histories that are slow or unavailable), slow readers with up to 800 announcements outstanding, cancelled subscriptions",
     "The only unit test marshals an empty message.",
     WS, [("history and subscription", "transports/websockets.go websocketStreamsService.Streams"), ("announcements", "transports/websockets.go AddBlock, SendBatch, Reorg"), ("block by number", "transports/websockets.go StreamsBlock")],
     ["JSON notifications of cardinal_subscribe streams"],
     "Random timelines of up to 40 events (announce block or sub-batch, repeat or unknown sub-batch, reorg, subscribe from a known or unknown block, cancel or drop, block by number) over trees of up to 9 blocks, served through the real RPC registry under virtual time with histories that take 0-7 ms per block. Each subscriber's JSON is compared with the announcements and the store: history is what was stored, in order; what follows ready is exactly the tail of the announcements; every block is covered. A few cases run over the loopback network in real time instead, with the HTTP and websocket server a producer starts from its URL. Non-trivial: a kept subscription with several history and live items.",
     "Generated timelines against a reference model of the stream. Assumes the application stores a block before it announces it. Keys are text, since JSON carries nothing else.",
     q(600, 50), pkg="ws", technique="model-based property testing under virtual time", assumptions=["the application's store has a block no later than the producer announces it", "keys are valid UTF-8"])

prop("C14", "A websocket consumer loses no block across disconnections",
     "However often the connection breaks, at whatever point, a websocket consumer releases every block the server announces, once its header and all of its sub-batches have been sent, with its exact content, and ends on the heaviest chain; never a block of which it has seen a part. It resumes from a block it has, such that what follows includes everything it has not. It becomes ready when the server says so, keeps trying while the server is down or refuses the subscription, ignores messages that are not part of its subscription or cannot be read, passes on reorg signals in their turn and then follows the new chain, and stops for good when it is closed, at any time.",
     ["inputs", "histories", "crash_points", "schedules"],
     "every order of blocks and sub-batches (also before their block), every point at which connections break (during the handshake, before the answer, during history, between the parts of a block, within a frame), server outages, refusals, repeated announcements, foreign and damaged messages",
     "No test runs a websocket consumer.",
     WS, [("message assembly and resumption point", "transports/websockets.go websocketConsumer.Start"), ("closing", "transports/websockets.go Close")],
     ["released blocks, chain updates and reorg signals", "subscription requests the server sees", "Ready"],
     "Random timelines of up to 40 events against a scripted server over in-memory connections under virtual time; the server replays what was announced since the block it is asked for, and what is higher. The released blocks, their order relative to what was sent, the final chain, the subscription requests, readiness and shutdown are compared with the script. Non-trivial: a cut connection with more than two blocks, or a reorg.",
     "Generated fault histories against a reference server.",
     q(600, 50), pkg="ws", technique="model-based property testing with fault injection under virtual time", assumptions=["asked for what follows a block, the server replays, whole, every block it announced after it and every higher block", "the consumer knows the block it starts from", "keys are valid UTF-8"])


KF = ["transports/kafka.go"]

prop("C15", "Blocks published over Kafka reach every consumer, across faults and restarts",
     "A consumer of a Kafka cluster releases, with their exact content and parents first, the blocks whose messages the producers have written, and ends on the heaviest chain, whichever brokers fail, leaders move, connections break and requests are lost or slow on the way. What a producer accepted without ever reporting an error is in the logs. A consumer that is stopped at any moment and resumed from the token of its last applied block, with a rollback that covers the read-ahead, releases every later block exactly once and none twice, also when older messages have been deleted. Ready is signalled once what was there at the start has been released, partitions without messages and messages that are no part of the stream notwithstanding, and Close returns at any time. A consumer that names no block follows the stream from where it is.",
     ["inputs", "histories", "crash_points", "schedules", "configurations"],
     "every tree of blocks, every division of the publishing among producers (also twice, in parallel, slowly, or the child before the parent), every layout of topics, partitions and brokers, every codec and acknowledgement mode, values of up to 9.9 MB, every timeline of outages, leader moves, cut connections, lost, delayed and refused requests (also those of a consumer that is just starting), restarts and retention",
     "No test uses Kafka at all: there is no broker in the test environment.",
     KF + ["transports/resolver.go", "delivery/consumer.go"],
     [("start offsets, warm-up and readiness", "transports/kafka.go KafkaConsumer.Start"), ("emission", "transports/kafka.go KafkaProducer.emit, AddBlock, SendBatch"), ("protocol choice", "transports/resolver.go ResolveConsumer, ResolveProducerWithResumer")],
     ["chain updates", "resumption tokens", "Ready", "Close", "errors of producer calls", "topic logs"],
     "Random timelines of up to 32 events over 1-4 brokers, 1-3 producers and up to two consumers, run under virtual time against an in-memory cluster that speaks the Kafka protocol over in-memory connections to the unmodified client library logic. Oracle: the blocks in the logs. Non-trivial: more than two blocks released and a fault that hit, a restart, a reorg or a block published twice.",
     "Generated histories against the contents of the logs of a simulated cluster; the client library is a copy in which two locks are replaced (virtual time needs that) and connections are made in memory. Restarts are on chains without forks. In the library's idempotent mode loss is only checked without faults, since it loses messages of its own accord there. Several brokers down for longer than the library retries are not generated.",
     q(150, 30), pkg="kafka", technique="model-based property testing with fault injection under virtual time",
     assumptions=["the rollback is at least the number of messages of later blocks that were read before the token, per partition", "one producer publishes blocks parents first", "a consumer without a start block reads one default partition", "the cluster does not lose what it has acknowledged"])

prop("C16", "Redundant Kafka producers do not publish what the stream already has",
     "A producer publishes a block whole, each message exactly once to its own topic, unless the block's header is among the last 100 messages of a default-topic partition when it starts, or has arrived since: then it publishes neither the block nor its sub-batches, and reports no error. When redundant producers announce a block at the same moment at least one publishes it, whole. A sub-batch goes out once, after its block; one that belongs to no announced block is refused. After PurgeReplayCache a producer publishes again what it had skipped. Messages of one key stay in one partition. A producer starts whatever the topics hold.",
     ["inputs", "histories", "schedules", "configurations"],
     "every history of announcements, sub-batches, headers of other producers, purges and starts of up to three producers, every content of the default topic (foreign messages, windows around 100 messages, retention; up to 3500 headers of other blocks between a header and the announcement, up to 900 skipped sub-batches), every start during which requests fail, announcements right after it, every topic and broker layout and codec",
     "No test uses Kafka at all.",
     KF, [("recent hashes", "transports/kafka.go NewKafkaProducer"), ("skipping", "transports/kafka.go AddBlock, SendBatch"), ("forgetting", "transports/kafka.go PurgeReplayCache")],
     ["topic logs", "errors of producer calls"],
     "Random sequences of up to 31 steps (announce, sub-batch, start, foreign header, keyless and damaged messages, purge, retention), some of which run at the same moment, against the in-memory cluster; a model of what each producer has seen gives, for each block and sub-batch, the number of copies that may be in the log, which is compared with each message of the block, its value, topic and partition. Non-trivial: a block was published, and one was skipped or announced by several producers at once.",
     "Generated histories against a reference model. What is announced at the same moment by several producers may be published by one or by several.",
     q(150, 40), pkg="kafka", technique="model-based property testing under virtual time")

prop("C17", "An application finds out from the stream where to start",
     "LatestBlockFromFeed reports the highest block number among the headers in the last 100 messages of each default-topic partition (0 if there are none), and for a producer of several streams the lowest of what the reachable streams report; an error only if none can be reached. ResumptionForTimestamp names, for every partition of every stream, the first message at or after the time. A consumer that has a block and starts from such a token, for any time up to that of the first later message, whether from one stream or several that carry the blocks in whole or in part, is ready, releases everything that follows the block, and ends on the heaviest chain.",
     ["inputs", "histories", "configurations"],
     "every content of the topics of one or two clusters (headers that do not decode, messages without keys, with keys that end early or of unknown types, heartbeats, windows around 100 messages, retention), every time, unreachable clusters, every distribution of blocks or single messages over the clusters",
     "No test uses Kafka at all.",
     KF + ["transports/resolver.go"], [("latest block", "transports/kafka.go LatestBlockFromFeed, transports/resolver.go muxProducer.LatestBlockFromFeed"), ("offsets by time", "transports/kafka.go kafkaResumptionForTimestamp, transports/resolver.go ResumptionForTimestamp"), ("several streams", "transports/resolver.go muxConsumer")],
     ["LatestBlockFromFeed", "resumption tokens", "chain updates", "Ready"],
     "Random histories of up to 24 steps (blocks whole or split over two clusters, noise, heartbeats, bad headers, retention, outages, queries) fill one or two in-memory clusters; each answer is compared with the logs, and a (mux) consumer started from the token must end on the heaviest complete chain in the union of the logs, which is then extended live. Non-trivial: a latest block above zero, or a consumer that started in the middle of a partition and released more than one block.",
     "Generated histories against the contents of the logs. Brokers answer a time with the first record at or after it, as Kafka does.",
     q(150, 40), pkg="kafka", technique="model-based property testing under virtual time",
     assumptions=["times of messages do not decrease within a partition", "clusters of one application use different topic names"])

prop("C18", "Heartbeats tell how many producers there are",
     "A producer writes one heartbeat every 30 s to the default topic of each of its streams, under one id of its own that no other producer uses, with the time in it, as long as it is healthy, and none while it is not; its blocks go out either way. Producers and consumers count, per stream, the distinct producers whose last heartbeat they read less than the given time ago; a producer does not count itself, and heartbeats older than what it looks at when it starts do not count.",
     ["histories", "configurations"],
     "every timeline of starts of producers and consumers of one or two streams, changes of health, heartbeats of others (up to hundreds), traffic, and counts over any period",
     "No test uses Kafka at all, and the period is half a minute.",
     KF + ["transports/resolver.go"], [("heartbeat ticker", "transports/kafka.go NewKafkaProducer"), ("counting", "transports/kafka.go pingTracker, ProducerCount"), ("several streams", "transports/resolver.go muxProducer, muxConsumer")],
     ["heartbeats in the topic logs", "ProducerCount"],
     "Random timelines of up to 24 steps over minutes of virtual time with up to four producers, two consumers and two in-memory clusters; producers start at distinct phases of the half minute, so that every heartbeat in the logs can be told to be due, and of whom; counts are compared with the heartbeats in the logs. Non-trivial: heartbeats were sent and counted, and some were withheld or had become too old.",
     "Generated timelines against the contents of the logs; times are exact to 1.5 s.",
     q(150, 40), pkg="kafka", technique="model-based property testing under virtual time")

prop("C19", "The options of a Kafka URL take effect, and nothing else changes",
     "A Kafka URL yields the brokers it names, in order, and a client configuration in which exactly the settings it names (TLS, fetch size, waiting time, compression, retries, acknowledgements, backoff, open requests, idempotence, user, password, mechanism) have the given values; what it does not name, or gives a value that is not one, has the documented default or the library's.",
     ["inputs", "configurations"],
     "every well-formed URL: any number of brokers, any user and password, any subset of options with valid and invalid values, in any order and escaping",
     "No test parses a Kafka URL.",
     KF, [("parsing", "transports/kafka.go ParseKafkaURL")],
     ["returned brokers and configuration"],
     "Random URLs (1-4 brokers, arbitrary text as user and password, random options with numbers, non-numbers and unknown words, percent-encoded or not) are parsed, and every field of the configuration is compared with an independent reading of the options. Non-trivial: two or more options.",
     "Generated search against an independent table of options. Malformed URLs are not generated.",
     q(300, 200), pkg="kafka", technique="property-based testing")

prop("C20", "Kafka connections authenticate, and trust only servers that know the password",
     "With the right user and password, of any characters, and a mechanism the server offers, the exchange succeeds on every connection and blocks are published. With wrong ones, or a server that answers with a wrong nonce, a wrong signature, an error or nothing, starting a producer fails and nothing is published. The messages are those of RFC 5802.",
     ["inputs", "configurations"],
     "every user, password, salt and iteration count from 4096 on, SCRAM-SHA-256, SCRAM-SHA-512 and PLAIN, every way the server lies",
     "No test authenticates.",
     ["transports/scram.go", "transports/kafka.go"], [("SCRAM client", "transports/scram.go XDGSCRAMClient"), ("choice of mechanism", "transports/kafka.go ParseKafkaURL")],
     ["exchanged messages", "topic logs", "errors of producer calls"],
     "Random credentials against an independent RFC 5802 server, both message by message and through an in-memory cluster that lets a producer in only after the exchange. Every case is a complete exchange, and counts as non-trivial.",
     "Generated search against an independent server.",
     q(150, 40), pkg="kafka", technique="property-based testing", assumptions=["users and passwords are unchanged by SASLprep"])

prop("C21", "Topics are created once, with room for every block",
     "A topic that is asked for, by name or because a producer publishes to it, exists afterwards, or the cluster's refusal is reported. It is created only if it does not exist, by the controller, with the partitions asked for (twice the number of brokers if none), a replica on each of up to three brokers, the given settings, and messages of 10 MB allowed. An existing topic is left as it is. Producers that start together do not get in each other's way, and one broker that answers is enough.",
     ["inputs", "schedules", "configurations"],
     "every sequence of requests and producer starts, some at the same moment, with any names, settings, existing topics, numbers of brokers, unreachable addresses, and refusals",
     "No test uses Kafka at all.",
     KF, [("creation", "transports/kafka.go CreateTopicIfDoesNotExist"), ("start of a producer", "transports/kafka.go NewKafkaProducer")],
     ["requests to create topics", "errors", "topics"],
     "Random sequences of up to 6 requests and producer starts, alone and at the same moment, against an in-memory cluster of 1-5 brokers that takes its time; each request to create a topic and each result is compared with what was asked. Non-trivial: a topic was missing and created.",
     "Generated histories against the requests the cluster received.",
     q(150, 40), pkg="kafka", technique="property-based testing under virtual time")

prop("C22", "What one part of an application asks does not disturb another",
     "Producers, consumers and the blocks they release may be used from several goroutines at once: while producers publish to several streams and a consumer reads them, others may count producers, change the health of a producer, ask for the latest block, purge the replay cache, ask whether the consumer is ready or why a block is not, wait for blocks, subscribe and unsubscribe, mark blocks done from several subscribers, and close the consumer. No two of these touch the same memory without synchronisation, every call returns, and the consumer still ends on the heaviest chain.",
     ["schedules", "inputs", "configurations"],
     "every combination of such calls made at the same moment as each other and as messages arrive from one or two Kafka clusters and a websocket producer",
     "The tests are not run with the race detector, and none uses a consumer from more than one goroutine.",
     KF + ["transports/resolver.go", "transports/websockets.go", "delivery/consumer.go", "delivery/ordering.go", "waiter/waiter.go"],
     [("locks of the processors", "delivery/consumer.go MessageProcessor.lock, stateLock; delivery/ordering.go OrderedMessageProcessor.lock"), ("done", "delivery/consumer.go PendingBatch.Done"), ("health, heartbeats", "transports/kafka.go pingTracker, SetHealth"), ("one waiter", "transports/resolver.go, transports/kafka.go, transports/websockets.go Waiter"), ("start of partitions", "transports/kafka.go Start")],
     ["reports of the race detector whose accesses are in the repository", "return of every call", "chain updates"],
     "Random systems of one or two in-memory clusters, perhaps a websocket producer, one or two producers and a consumer of all of them go through 1-8 steps; in each, up to six calls and publications are made at one moment of virtual time by goroutines of their own, in a binary built with the race detector. A report counts if one of its two accesses is made by a line of the repository (or by the standard library on its behalf). Non-trivial: blocks were released, and at least three kinds of calls were made.",
     "Generated schedules; the race detector finds any two accesses that nothing orders, whether or not they collided. Accesses of libraries are not judged.",
     q(400, 20, chunk=4, procs=4), pkg="kafka", technique="property-based testing of concurrent calls under the race detector and virtual time",
     race=True, gomaxprocs=2, replay_runs=30, gorace="log_path=race exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0",
     assumptions=["one goroutine at a time adds blocks and sub-batches to a producer"])

prop("C23", "A list of streams works like each of its streams",
     "A producer of several streams sends each of them exactly the messages, heartbeats apart from their number in flight, that a producer of that stream alone sends, whatever the others refuse; a call fails if and only if some stream refuses it, with the first refusal; it counts the producers of all its streams, and its latest block is the lowest that a stream which can be read reports, 0 or an error only if none reports any. A list of which one stream is not of a known kind, or cannot be published to, is refused, and so is one that cannot be consumed. A consumer of several streams starts as long as one of them can be read, releases what arrives on any of them as one chain and ends on the heaviest, tells everyone who asks before or after that it is ready, lets others wait for its blocks, counts the producers of all its streams, and closes. The kind of a stream is that of its URL, with or without cardinal:// in front.",
     ["inputs", "histories", "configurations"],
     "every list of Kafka, websocket, null, unknown, unreachable and incomplete streams, every schema and content, histories of calls with outages, every division of blocks among the streams",
     "No test makes a list of streams.",
     KF + ["transports/resolver.go", "transports/null.go", "transports/websockets.go"],
     [("producers of several streams", "transports/resolver.go muxProducer, ResolveMuxProducer"), ("consumers of several streams", "transports/resolver.go muxConsumer, ResolveMuxConsumer, resolveConsumer"), ("null streams", "transports/null.go")],
     ["messages on every topic of every cluster", "results of every call", "chain updates", "Ready and Waiter"],
     "Half of the cases drive a producer of up to three streams and, beside it, a producer of each stream alone on a cluster of its own, through the same 2-18 calls (blocks with contradictory content, sub-batches, headers and heartbeats of others, outages) and compare results and messages. The others publish a random tree of blocks to random subsets of the streams and compare what a consumer of the list releases with the heaviest published chain. Non-trivial: some but not all streams refused a call, a list was refused or only partly readable, or blocks of several streams were followed.",
     "Generated lists; differential against the single-stream producers, which C16-C18 check on their own, and a model of the consumer.",
     q(150, 50), pkg="kafka", technique="differential property-based testing under virtual time",
     assumptions=["after an outage a producer may refuse a message"])

prop("C24", "A topic consumer hands over every message once, in the order of its partition",
     "From the moment NewTopicConsumer returns, every message appended to the topic is handed over exactly once, with the key, value, time, partition and offset it has there, and those of a partition in its order; messages that were there before are not. This holds for any buffer, for an application that stops reading for a while, and while brokers go down, partitions move and connections break. Close returns at any time, read or not, and ends everything the consumer has started.",
     ["inputs", "histories", "crash_points", "schedules", "configurations"],
     "every history of messages to every partition, any number of consumers and sizes of buffers, a slow or paused reader, outages, moves, requests that fail or are answered late, closing at any point",
     "utils has no tests.",
     ["utils/kafka.go", "transports/kafka.go"],
     [("partitions", "utils/kafka.go NewTopicConsumer"), ("end", "utils/kafka.go Close")],
     ["messages handed over", "connections of the cluster", "goroutines"],
     "Random histories of up to 14 steps on one or two topics of an in-memory cluster of 1-3 brokers with up to four consumers; what each application has read is compared with the log of the partitions, and after closing the connections and goroutines with those before. Non-trivial: several messages were read, and there was an outage, a move, a fault, a pause, older messages or an early close.",
     "Generated histories against the cluster's logs.",
     q(200, 25), pkg="kafka", technique="model-based property testing with fault injection under virtual time",
     assumptions=["retention does not remove messages that have not been read yet"])

prop("C25", "What is closed, or could not be opened, leaves no connection behind",
     "A Kafka consumer that is closed, whether it is ready, still catching up, was never started or could not be started, holds no connection any more, and its Close returns. The same goes for each consumer of a list, also when the list is refused because of another. Asking for the latest block or for the position of a time, creating a topic, and opening a topic consumer leave neither connections nor goroutines behind, whether they succeed or fail, and whatever happens to the brokers meanwhile.",
     ["inputs", "crash_points", "histories", "configurations"],
     "every sequence of such requests and consumers, existing and missing topics, tokens that are none, unknown and unreachable streams, brokers that are down or go down meanwhile, requests that fail or are answered late, refusals of the cluster, closing after any time",
     "The tests never look at what is left.",
     KF + ["transports/resolver.go", "utils/kafka.go"],
     [("consumer", "transports/kafka.go KafkaConsumer.Start, Close, kafkaConsumerWithOMP"), ("list", "transports/resolver.go ResolveMuxConsumer"), ("requests", "transports/kafka.go LatestBlockFromFeed, kafkaResumptionForTimestamp, CreateTopicIfDoesNotExist"), ("topic consumer", "utils/kafka.go")],
     ["connections of the cluster", "goroutines", "return of every call"],
     "Random sequences of 1-5 requests and consumers on an in-memory cluster of 1-3 brokers with faults and outages; three minutes after each, the connections of the cluster (and the goroutines, for requests and topic consumers) are compared with those before. Non-trivial: at least one failed, or several kinds occurred.",
     "Generated sequences; the cluster counts its connections.",
     q(160, 25), pkg="kafka", technique="property-based testing with fault injection under virtual time")

prop("C26", "An operator who asks what a block waits for gets the right answer",
     "At any moment, WhyNotReady answers for a block whose header has not come, or that a consumer without order has released, \"not found\"; while headers of its sub-batches are missing, \"Pending batches\"; otherwise, while counted keys are missing, one of the prefixes of which keys are; otherwise a part of a sub-batch that is missing, by the sub-batch's id and the part's number. A consumer with order answers \"done\" for every block it has released, and \"pending parent\" for a complete block with an incomplete ancestor, if it and the blocks between them are heavier than the chain. Asking changes nothing.",
     ["inputs", "histories"],
     "every set of blocks, delivered in any order with repeats, with any tracked prefixes",
     "No test calls WhyNotReady.",
     ["delivery/consumer.go", "delivery/ordering.go"],
     [("reasons", "delivery/consumer.go whyNotReady, MessageProcessor.WhyNotReady"), ("order", "delivery/ordering.go WhyNotReady")],
     ["answers of WhyNotReady"],
     "The deliveries of C01; at every first to third step all blocks, and one that does not exist, are asked about, and the answer is compared with the set of messages that are missing. Non-trivial: at least three kinds of answers occurred.",
     "Generated deliveries against a set-of-missing-messages model. Blocks of side branches may be \"done\" or wait for their parent.",
     q(800, 50), pkg="msgs", technique="model-based property testing")

prop("C27", "A damaged message does no harm",
     "A message whose key ends early or is of no known type, whose value ends early, which is a part its sub-batch does not have, announces a sub-batch of less than no parts, or signals a reorg without naming a block and a number, never brings a consumer down and changes nothing: every block is released at the same moment and with the same content as without it, none is released because of it, and nobody is told of a reorg. The undamaged copy of the message counts as ever, whichever comes first.",
     ["inputs", "histories"],
     "every set of blocks, delivered in any order with repeats, with damaged copies of their messages anywhere among them",
     "The tests deliver what producers make.",
     ["delivery/consumer.go", "delivery/types.go"],
     [("keys", "delivery/consumer.go checkKey"), ("values", "delivery/consumer.go unmarshal, processMessage, ApplyMessage")],
     ["released blocks", "reorg signals", "panics"],
     "The deliveries of C01 with up to eight damaged messages: a random message of the delivery, its key or value cut at a random place, its part number or count replaced by one out of range, its type by an unknown one, or a reorg signal of which a part is missing. Each step is compared with the model of C01. Non-trivial: at least one damaged message was delivered. What happens to such messages in a Kafka topic or on a websocket is part of C14 to C17.",
     "Generated deliveries against the model of C01. Data after the end of a value, or a different value of the right form, is not damage in this sense.",
     q(800, 50), pkg="msgs", technique="model-based property testing")

prop("C28", "A large reorg signalled on a Kafka stream is followed on its own topic",
     "When a reorg signal that names a block of the chain appears on the default topic of a Kafka stream, a consumer tells its subscribers of it once, reads the topic of that reorg (the default topic's name, -re- and the hash) from its beginning until the end of the reorg is reached there, and releases the blocks on it one by one on top of the named block, with their exact content; then it goes on with the other topics, and ends on the heaviest chain. That holds for several reorgs after each other, however deep, whether the consumer is there at the signal or comes later, however slowly the topic is written, and across broken connections. Close returns while a reorg is incomplete. A reorg whose topic has been emptied by retention does not stop the consumer. When a reorg is complete its topic is left alone, and a consumer that is restarted at any block of the chain gets to the same head.",
     ["histories", "schedules", "crash_points"],
     "every chain, every one to three reorgs to distinct blocks of it, of any depth and with new blocks of any weight, every division of the new blocks between the reorg's topic and the others, every pace of writing, messages on the topic that are no part of the reorg, blocks of the new chain that were sent before the signal as well, connections cut at any message, reorgs that are never completed, every order of the consumer's topics, restarts at any block, every layout of topics and partitions",
     "No test uses Kafka at all, and the large-reorg path has no test.",
     KF + ["SPEC.md"],
     [("following a reorg", "transports/kafka.go KafkaConsumer.Start"), ("signal", "delivery/consumer.go ProcessMessage, processReorg; delivery/ordering.go HandleReorg"), ("format", "delivery/producer.go Reorg, ReorgDone")],
     ["channels subscribed for chain updates and reorgs", "Ready", "Close"],
     "Random chains of 1-14 blocks and one to three reorgs of 1-9 blocks each, written message by message (with gaps of 0-4 s) to an in-memory cluster of 1-3 brokers as SPEC.md says, with a consumer that is there from the start or comes when everything is written; an application that goes back to the named block when told, and applies the updates, must end on the new chain after each reorg, without ever being given a block whose parent is not its head. Non-trivial: a reorg deeper than the consumer's reorg threshold (2 to 128).",
     "Generated histories against the written blocks. The producers of this version do not write reorgs to Kafka, so the messages are written by the harness with the encoders of the delivery package. A consumer that comes later or is restarted, and blocks sent before the signal, have one partition, since between partitions a signal has no place; not claimed: a restart that reads the signal of a reorg to a block which a later reorg abandoned, and two reorgs to the same block.",
     q(3500, 5), pkg="kafka", technique="model-based property testing with fault injection under virtual time")
