#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=None)))
D="delivery/"; T="transports/"
p("C01","A block is reassembled exactly as it was produced",
  "For every block a producer accepts, a consumer tracking all keys that is given all of the producer's messages for it, in any order and with any of them repeated, emits one completed batch whose number, weight, hash, parent hash, values and deletes are exactly those handed to the producer. This holds for every value length (including empty values), every 64-bit non-negative number, every weight and every key under '/'-terminated schema prefixes (a key outside of them being either updated or deleted, not both), whether the update travels inline in the block message or as a message of its own.",
  ["inputs","histories"],"all block contents, all delivery orders and repetitions of its messages",
  "The tests reassemble one fixed block (three one-byte values, one prefix) in the order it was produced or reversed; numbers, weights, lengths, hashes, orders and repetitions are universally quantified.",
  [D+"producer.go",D+"consumer.go",D+"types.go"],
  [("message generation",D+"producer.go: AddBlock, SendBatch"),("reassembly",D+"consumer.go: ProcessMessage, ApplyMessage, DecPrefixCounter, Ready"),("encoding",D+"types.go: schemas, GetKey, AvroInt")],
  ["PendingBatch received from MessageProcessor.Subscribe"])
p("C02","A block is emitted only when complete, and then exactly once",
  "As long as at least one message needed by a tracked part of a block has not arrived, no completed batch is emitted for it, however often and in whatever order the other messages are repeated; the message that completes it makes it come out at once. After it has been emitted, repeating any of its messages emits nothing further while the block is within the recent-block window (twice the reorg threshold).",
  ["inputs","histories"],"all orders, omissions and repetitions of a block's messages",
  "Tests deliver each message once (or the whole list twice); the claim is about every missing message under every pattern of repetition, e.g. a repeated empty value or a repeated sub-batch item.",
  [D+"consumer.go"],[("completeness",D+"consumer.go: PendingBatch.Ready, counters"),("dedup",D+"consumer.go: ApplyMessage, completed cache")],
  ["PendingBatch received from MessageProcessor.Subscribe"],
  [("prefix counters","messages still owed per prefix",D+"consumer.go"),("completed","recently emitted hashes",D+"consumer.go")])
p("C03","Messages of different blocks never mix",
  "When the messages of several blocks are interleaved arbitrarily, every block comes out with exactly its own contents, as if its messages had been delivered alone. Blocks are told apart by all 32 bytes of the hash, and this holds when they use the same keys, the same prefixes and the same sub-batch identifiers, and when messages of a block precede its block message.",
  ["inputs","histories"],"all interleavings of the messages of two blocks with arbitrary distinct hashes",
  "No test interleaves messages of two blocks, let alone blocks whose hashes differ in one arbitrary byte or share identifiers.",
  [D+"consumer.go"],[("per-hash state",D+"consumer.go: pendingBatches, pendingMessages, queueMessage"),("key slicing",D+"consumer.go: ProcessMessage, ApplyMessage")],
  ["PendingBatch received from MessageProcessor.Subscribe"])
p("C04","A consumer gets everything it tracks and nothing it does not",
  "A consumer configured with tracked-prefix patterns emits each block as soon as all data it tracks has arrived, with exactly the tracked part of the contents: inline updates and deletes, per-prefix messages and sub-batches whose entry in the block message matches one of the patterns. Data that matches no pattern neither appears in the batch nor delays it, whether or not its messages are delivered.",
  ["inputs","configurations","histories"],"all choices of tracked patterns out of a family, all block contents within bounds, all subsets of the untracked messages delivered",
  "One test uses '.*' and one a single literal; which subset is tracked and which untracked messages show up when is quantified.",
  [D+"consumer.go"],[("filter",D+"consumer.go: ProcessMessage loop over trackedPrefixes"),("ignored messages",D+"consumer.go: ApplyMessage")],
  ["PendingBatch received from MessageProcessor.Subscribe"])
p("C05","Sub-batches arrive whole, in any order, including empty ones",
  "For every sub-batch announced by a block, the producer sends one header carrying the exact item count and one item message for each index from zero up to that count, on the topic the sub-batch's prefix routes to; together the items carry exactly the deletes and updates passed in. A consumer merges all of them into the batch whatever the order of header, items and block message and whatever is repeated, treats an empty sub-batch as received when its header arrives, and does not emit the block before.",
  ["inputs","histories"],"all sub-batch contents and sizes within bounds, all delivery orders and repetitions",
  "The tests have a sub-batch with one or two items delivered in order; index encodings above one byte, zero items, several sub-batches and reordering are not reached.",
  [D+"producer.go",D+"consumer.go"],[("SendBatch",D+"producer.go: SendBatch"),("header/items",D+"consumer.go: ProcessMessage SubBatchHeaderType, ApplyMessage SubBatchMsgType")],
  ["messages returned by Producer.SendBatch","PendingBatch received from MessageProcessor.Subscribe"])
p("C06","Producer messages follow the specification and topic routing",
  "For every accepted block the producer returns exactly one block message, on the default topic, whose key is the type byte followed by the hash and whose value decodes, by the published Avro schema, to the number, weight and parent given; every update or delete whose key starts with a match of a schema pattern becomes one message on that pattern's topic, keyed type byte, hash, key, and is counted under the matched prefix; every other update or delete appears inline in the block message and nowhere else. Counts equal the number of messages sent for that prefix, and no message is missing, duplicated or sent to another topic.",
  ["inputs","configurations"],"all block contents within bounds, all schemas out of a family including alternations and patterns that only match later in the key",
  "Tests check a handful of fixed maps and count messages; routing and counts for arbitrary keys, values and schemas are not checked.",
  [D+"producer.go",D+"types.go","SPEC.md"],[("routing and counting",D+"producer.go: NewProducer, AddBlock"),("encoding",D+"types.go")],
  ["messages returned by Producer.AddBlock"])
p("C07","Invalid producer calls are rejected and leave no trace",
  "Creating a producer fails when one schema prefix is a prefix of another or a pattern does not compile; adding a block fails when a sub-batch has an all-zero identifier or when a key of an inline update or delete, a sub-batch and a counted prefix collide; sending a sub-batch fails unless its identifier was announced by an earlier accepted block and has not been sent since; otherwise it goes to the block that announced it last. A failed call produces no messages and later calls behave as if it had not been made.",
  ["inputs","histories"],"all call sequences up to the bound with arbitrary identifiers and contents",
  "Tests exercise no failing AddBlock and at most one failing SendBatch; sequences of accepted and rejected calls are quantified.",
  [D+"producer.go",D+"errors.go"],[("validation",D+"producer.go: NewProducer, AddBlock, SendBatch")],["errors and messages returned by Producer methods"])
p("C08","A batch's resumption token covers every message of the batch",
  "The resumption token carried by an emitted batch has the form source=offset joined by ';' and names exactly once each source (topic and partition) that was read before the block message arrived or that delivered one of the block's messages, and no other. Reading every named source again from its offset delivers every message of the block again; for a source that delivered messages of the block the offset is not below the first of them, and for every other source it is the highest offset read when the block message arrived.",
  ["inputs","histories"],"all assignments of messages to sources with arbitrary 64-bit offsets, all delivery orders and repetitions",
  "Tests only look at tokens of messages that all come from one source with offset zero.",
  [D+"consumer.go"],[("token",D+"consumer.go: Resumption, updateResumption, resumptionCopy")],["PendingBatch.Resumption()"])
p("C09","Kafka consumption starts where the resumption token says",
  "A Kafka consumer given a resumption token starts each partition at the token's offset for it minus the non-negative rollback configured for its broker, and falls back to the recorded offset (then fails to start) if the broker refuses that position; a partition the token does not name, or whose offset is below the rollback, starts at the oldest available message when the consumer has a starting hash and at the last message when it starts empty. A token whose offset is not a number is rejected, and entries that are not of the form source=offset are ignored. A token made for a point in time names every partition of the topics and leads to the first message at or after that time; making it leaves no connection open.",
  ["inputs","configurations","fault_sequences"],"all tokens within bounds, all rollbacks and offsets, all partition layouts up to the bound, refused start positions",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("token parsing",T+"kafka.go: kafkaConsumerWithOMP"),("start offsets",T+"kafka.go: KafkaConsumer.Start"),("timestamps",T+"kafka.go: kafkaResumptionForTimestamp; resolver.go: ResumptionForTimestamp")],["offsets passed to the broker client"])
p("C10","Chain updates always describe a contiguous chain",
  "Whatever blocks arrive in whatever order at a consumer started from a known block (or from none, in which case the first block starts the chain and parents precede their children), applying the emitted chain updates one after another (drop the removed blocks, append the added ones) always keeps a single chain in which each block's parent is the block before it: the removed blocks are exactly the most recent blocks of the current chain in chain order, the first added block's parent is what remains on top, and no block is ever twice in the chain. When a chain update removes blocks, the new head is strictly heavier than the old one (no block being lighter than its parent).",
  ["inputs","histories"],"all block trees up to the bound rooted at the last emitted block, all weights, all arrival orders and repetitions",
  "Tests replay a dozen fixed scenarios with at most a few blocks in hand-picked orders.",
  [D+"ordering.go"],[("ordering",D+"ordering.go: HandlePendingBatch, prepareEmit, prepareReorg, getPendingChild")],["ChainUpdate received from OrderedMessageProcessor.Subscribe"],
  [("lastHash/lastWeight","head of the emitted chain",D+"ordering.go"),("queued/pending/finished","blocks held back, known and decided",D+"ordering.go")])
p("C11","The emitted chain ends on the heaviest available block",
  "Once every block of a tree rooted at the resumption point has arrived, the head of the emitted chain is the heaviest block of the tree when that block is unique, whatever the arrival order, weights being larger than the parent's along every branch. A block no heavier than the current head never displaces it.",
  ["inputs","histories"],"all block trees up to the bound with weights increasing from parent to child, all arrival orders",
  "Tests cover a few fixed forks and orders; convergence independent of order is a statement over all of them.",
  [D+"ordering.go"],[("fork choice",D+"ordering.go: HandlePendingBatch, getPendingChild, getPendingChainDifficulty")],["ChainUpdate received from OrderedMessageProcessor.Subscribe"])
p("C12","Eviction keeps the reorg window and forgets the rest",
  "However long the chain has grown, a heavier branch forking no deeper than the reorg threshold is still followed in full when it is the only one competing with the chain, and recently emitted blocks are not emitted again; a branch forking deeper than twice the threshold is never followed, a light block more than the threshold below the head whose parent is out of the window is dropped, and neither keeps the chain from growing. A block that misses messages is waited for while it is at most the threshold below the head. A block that fell more than twice the threshold below the head is forgotten.",
  ["inputs","histories"],"all chains longer than the window up to the bound, all fork depths and arrival orders within it",
  "Tests never run a chain longer than the eviction window.",
  [D+"ordering.go",D+"consumer.go"],[("eviction",D+"ordering.go: evict, finished cache"),("old blocks",D+"consumer.go: evictOlderThan, oldBlocks")],["ChainUpdate received from OrderedMessageProcessor.Subscribe","WhyNotReady"])
p("C13","The whitelist is enforced on the emitted chain",
  "When the configuration pins a block number to a hash, no other block with that number and no descendant of such a block that arrives after it is ever emitted, in any arrival order in which parents precede their children. Blocks of the pinned branch and numbers without a pin are emitted as if no whitelist were configured.",
  ["inputs","configurations","histories"],"all block trees and whitelists up to the bound",
  "One test pins one number in one scenario.",
  [D+"ordering.go"],[("whitelist",D+"ordering.go: HandlePendingBatch whitelist, blacklist")],["ChainUpdate received from OrderedMessageProcessor.Subscribe"])
p("C14","Announced reorgs reach the subscribers with their exact position",
  "A reorg message built by a producer for any 64-bit non-negative number and hash is reported to reorg subscribers, over every transport, exactly once with exactly that number and hash, after everything that came before it in the stream and before everything that came after; afterwards blocks are accepted on top of the announced hash as the next chain, whatever the weight of those reverted, a branch heavier than the announced block is followed, and blocks that had been emitted before the announcement are processed again when redelivered.",
  ["inputs","histories"],"all reorg numbers and hashes, all positions of the announcement in the stream",
  "One test announces one reorg with a small number.",
  [D+"producer.go",D+"consumer.go",D+"ordering.go"],[("announce",D+"producer.go: Reorg, ReorgDone"),("handle",D+"consumer.go: ProcessMessage ReorgType; ordering.go: HandleReorg")],["map received from SubscribeReorg","ChainUpdate"])
p("C15","Waiters report success exactly when a block has been applied",
  "Waiting for a block by hash, or for a number, returns success only after the application acknowledged that block (or a block with that number), returns success without further delay when it is first acknowledged during the wait or was within the preceding minute, times out not before the given duration if it is known but not acknowledged, and reports not-found at once for one never seen. (A block is known from its block message on; one whose number was acknowledged through a competing block more than a minute ago may be forgotten.) Acknowledging blocks, repeatedly, through both the batch and the chain update that adds or removes them, from concurrent goroutines, never crashes, blocks or unblocks a wait for another block; neither does announcing a block again. Stopping a waiter, at any time and any number of times, holds nothing up, lets waits for blocks it knows go on, and leaves nothing running.",
  ["schedules","histories"],"all schedules of producers, acknowledgements and waits up to the preemption bound",
  "Tests use real sleeps and one order of events; interleavings and repeated or concurrent acknowledgements are not explored.",
  ["waiter/waiter.go",D+"consumer.go",D+"ordering.go"],[("waiter","waiter/waiter.go: NewOmpWaiter, WaitForHashResult, WaitForNumberResult"),("acknowledge",D+"consumer.go: PendingBatch.Done; ordering.go: ChainUpdate.Done")],["WaitResult and the time at which it is returned"])
p("C16","Kafka producers publish a block completely or not at all",
  "When adding a block or sending a sub-batch to a Kafka producer returns without error and the block is not known from the feed, every message it requires, and no other, has been handed to the broker client exactly once, on the topic its prefix routes to; every error the broker client reports while messages are being published is returned to the caller. A block known from the feed (one whose block message is among the last 100 of a partition of the default topic when the producer is created, or follows later, the producer's own included) is skipped as a whole: neither it nor its sub-batches publish anything, until the replay cache is purged; but the sub-batches of a block that was published are, even if that block, or another with the same sub-batches, becomes known meanwhile. No other message on the feed makes a block known.",
  ["inputs","histories","fault_sequences"],"all contents within bounds, all positions of broker errors, all interleavings with blocks of other producers",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("publish",T+"kafka.go: AddBlock, SendBatch, emitBundle, emit"),("dedup",T+"kafka.go: recentHashes, skipBatches, partition scan in NewKafkaProducer, PurgeReplayCache")],["messages put into the broker client's input"])
p("C17","Kafka consumers deliver what the topics hold",
  "A started Kafka consumer hands every message of every partition of its topics, from the start offset on, to reassembly in partition order, exactly once and with its own source and offset, so each block whose messages are all on the topics is emitted, whatever the interleaving of partitions, empty messages, pings and garbage in between, and partitions that hold nothing hold nothing back. When a reorg is announced, the blocks on the reorg's own topic are delivered before what follows the announcement. Starting fails if a topic cannot be read. The consumer becomes ready, and everyone who waits for that is told, once all partitions have been read up to their high-water mark and what was read has been processed. Closing it, at any time and any number of times, returns and stops reading, and leaves no connection and nothing running behind; neither does reading a reorg's topic.",
  ["schedules","inputs","histories"],"all interleavings of partition readers within the bound, all placements of blocks, pings and other messages on up to four partitions",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("start",T+"kafka.go: KafkaConsumer.Start, Ready, Close, KafkaResumptionMessage")],["ChainUpdate received from Consumer.Subscribe","Ready channel"])
p("C18","A multiplexed producer drives every backend and reports failure",
  "Every call on a producer multiplexing several brokers reaches every one of them with the same arguments, in order, even when some of them fail, and returns an error if and only if at least one of them failed. The latest block it reports is the lowest reported by any broker that answers, and an error only when none does; the reorg completion it returns completes the reorg on every broker that accepted it; producer counts add up.",
  ["inputs","fault_sequences","configurations"],"all numbers of backends up to the bound, all combinations of failures and return values",
  "No test touches the multiplexer.",
  [T+"resolver.go"],[("mux",T+"resolver.go: muxProducer")],["calls received by the backends, returned values"])
p("C19","Broker URLs select the right transport, brokers and options",
  "A broker URL with or without the cardinal:// scheme in front resolves to the transport its protocol names (kafka, ws, wss, null for consumers; kafka, ws, wss for producers), connecting to the broker hosts in the URL, and anything else is refused with an error, as is a URL that cannot be parsed; every option given in a Kafka URL's query or user part takes effect with exactly the given value on every connection made for it, options not given, and numbers that are none or do not fit, keep their default.",
  ["inputs","configurations"],"all URLs out of a grammar of schemes, hosts and options with symbolic option values",
  "No test resolves a URL.",
  [T+"resolver.go",T+"kafka.go"],[("resolution",T+"resolver.go: ResolveProducerWithResumer, ResolveConsumer, ResumptionForTimestamp"),("options",T+"kafka.go: ParseKafkaURL")],["configuration and addresses passed to the broker client"])
p("C20","Blocks survive the websocket transport unchanged",
  "Every block published on a websocket producer while a client is subscribed is delivered by the websocket consumer, exactly once, as a chain update with the same number, weight, hash, parent, values and deletes, with the contents of all its sub-batches merged in, whatever the order in which blocks and sub-batches are interleaved. A block with outstanding sub-batches is not delivered before they arrive. When a connection ends, at any point, the consumer connects again and asks for the blocks after the last one up to which everything was delivered, so that none is lost. A block of the history that is asked for by number comes back the same; an unknown one is an error. (Keys are valid UTF-8 and weights below 2^256, as JSON and its number format require.)",
  ["inputs","histories","fault_sequences"],"all block contents within bounds, all interleavings of blocks and sub-batches, connection loss at any message",
  "The one websocket test sends one block over one healthy connection.",
  [T+"websockets.go"],[("producer",T+"websockets.go: AddBlock, SendBatch, StreamsBlock"),("consumer",T+"websockets.go: websocketConsumer.Start")],["ChainUpdate received from Consumer.Subscribe","block asked for with streamsBlock"])
p("C21","A websocket subscriber gets history, then every live block",
  "A websocket subscription streams all blocks of the history after the requested one in order, then a ready marker, then every block, sub-batch and reorg published since the history was looked up, in publication order and without loss, to every subscriber, also while blocks are being published. Ending a subscription or its connection, at any point and even if the subscriber has stopped reading, stops only that subscriber and neither blocks nor crashes the producer or the other subscribers. A consumer that connects, and connects again until the server is there and grants the subscription, receives all of that as chain updates and reorg notifications in the same order and becomes ready at the ready marker, even if items arrive before the subscription's id and whatever other messages come in between; messages that are not well-formed are ignored. It can be closed at any time, after which nothing more is delivered and no connection is made.",
  ["schedules","histories","fault_sequences"],"all schedules of history replay, publication, cancellation and closing within the bound, one or two subscribers, any stray message at any position",
  "The one websocket test has one subscriber and no cancellation.",
  [T+"websockets.go"],[("service",T+"websockets.go: websocketStreamsService.Streams"),("consumer",T+"websockets.go: websocketConsumer.Start, Close")],["messages received on the connection","ChainUpdate received from Consumer.Subscribe","Ready channel"])
p("C22","Malformed messages cannot crash a consumer or corrupt a block",
  "A message with an arbitrary key and value, delivered at any point among the messages of a valid block, never makes message processing panic or hang and never makes a batch come out whose block message is not well-formed: a message whose key or value is not of the form its type calls for is rejected with an error or ignored, without any other effect. Unless its key is one of the block's own keys or names an entry under a prefix the block counts, the valid block is still emitted with exactly its own contents.",
  ["inputs","histories"],"all keys and values up to the length bound, all positions in the delivery of a block",
  "The tests never deliver a malformed message.",
  [D+"consumer.go"],[("decoding",D+"consumer.go: ProcessMessage, ApplyMessage")],["error returned by ProcessMessage","PendingBatch received from MessageProcessor.Subscribe"])
p("C23","Producers find each other by their heartbeats",
  "A Kafka producer puts exactly one heartbeat with its own constant identity on the default topic every thirty seconds for as long as it is marked healthy, and none while it is not, blocks and other messages notwithstanding. The number of producers it reports for a period is the number of different other producers a heartbeat of which arrived within that period: however often one is heard it counts once, its own heartbeats and all other messages do not count, and one that fell silent stops counting. A consumer counts those of its broker, and a consumer of several brokers adds them up.",
  ["histories","inputs"],"all histories of health changes, heartbeats, blocks and waiting times within the bound, all periods asked for",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("heartbeats",T+"kafka.go: NewKafkaProducer, SetHealth"),("counting",T+"kafka.go: ProducerCount of KafkaProducer and KafkaConsumer; NewKafkaProducer partition readers")],["messages put into the broker client's input","ProducerCount"])
p("C24","The latest published block is found however the topic looks",
  "The latest block of a Kafka feed is the highest number of any block message among the last hundred messages of every partition of the default topic, and zero if there is none, however many partitions there are, whether they are empty, and whatever else they hold: messages that are no block messages, or cannot be decoded, neither count nor hide any block. If the brokers or a partition cannot be read, an error is returned. The call always comes back, and leaves no connection, partition reader or goroutine behind, however often it is repeated.",
  ["inputs","configurations","fault_sequences"],"all contents of up to three partitions within the bound, arbitrary block numbers, all positions at the edge of the window, all combinations of failures",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("lookup",T+"kafka.go: KafkaProducer.LatestBlockFromFeed")],["returned number and error","connections and partition readers open at the broker client"])
p("C25","Why a block has not been delivered is reported truthfully, at any time",
  "Asked why a block is not ready, a consumer of any kind, or of several brokers, says that it was not found as long as its block message has not arrived (over a websocket: the block with all its sub-batches), names one thing that is indeed missing while messages are outstanding (a sub-batch header, a prefix with messages owed, or an item of a sub-batch), says that it waits for its parent when the block is complete but cannot be connected, and that it is done once it has been delivered or decided against. The question can be asked from any goroutine at any time, also by a subscriber that has not yet taken what is being sent to it: it is always answered, never crashes the process and changes nothing about what is delivered.",
  ["inputs","histories","schedules"],"all orders of the messages of a block with all kinds of contents, all trees of complete blocks up to the bound, all schedules of questions and deliveries within the bound",
  "Tests use it only to word their failure messages.",
  [D+"consumer.go",D+"ordering.go"],[("reasons",D+"ordering.go: WhyNotReady; consumer.go: MessageProcessor.WhyNotReady, whyNotReady; transports: WhyNotReady of each consumer")],["string returned by WhyNotReady","ChainUpdate received from OrderedMessageProcessor.Subscribe"],
  [("pendingBatches","incomplete blocks",D+"consumer.go"),("pending/finished","complete and decided blocks",D+"ordering.go")])
p("C26","Consumers of several brokers form one ordered stream",
  "A consumer of several brokers emits each block whose messages are all available from one of them exactly once, with its own contents, as one chain, whichever brokers carry it and however their deliveries interleave or coincide; a broker that cannot be read, or not yet be reached, does not keep the others from being read, nor starting from returning, and starting fails only if none can be; one whose brokers cannot all be resolved is refused and leaves no connection behind. It is ready, for everyone who asks, once one of the brokers has been read; waiting for a block works for blocks of every broker, and closing it closes all of them, leaving no connection and nothing running behind.",
  ["schedules","configurations","fault_sequences"],"all distributions of the blocks over two brokers, all orders and, within the bound, schedules of their deliveries",
  "No test resolves a consumer of several brokers.",
  [T+"resolver.go",D+"consumer.go"],[("mux",T+"resolver.go: ResolveMuxConsumer, muxConsumer"),("reassembly",D+"consumer.go: ProcessMessage")],["ChainUpdate received from Consumer.Subscribe","Ready channel","WaitResult"])
p("C27","Kafka producers find their topics in place",
  "Creating a Kafka producer creates every topic it publishes to (the default topic and each topic of its schema) that the cluster does not have, exactly once and no other, with two partitions per broker, replicated three times or once per broker if there are fewer, and with room for messages of 10000024 bytes. Topics the cluster has are left as they are, and one that somebody else creates at the same time is as good. If the brokers cannot be reached, have no controller or refuse, or a topic of the schema is empty, creating the producer fails with an error. Connections made only for this are closed, and all of them, with nothing left running, when creating it fails.",
  ["configurations","fault_sequences","schedules"],"all sizes of the cluster up to the bound, all combinations of topics that exist, all failures with arbitrary error codes, all schedules of two producers within the bound",
  "No test runs the Kafka transport at all (it needs a broker).",
  [T+"kafka.go"],[("creation",T+"kafka.go: CreateTopicIfDoesNotExist, NewKafkaProducer")],["topics created at the broker client","error returned by NewKafkaProducer"])
p("C28","Topic consumers deliver every message of a topic",
  "A topic consumer (package utils) delivers every message that any partition of its topic receives after it was created, exactly once, unchanged and in the order of the partition, however many partitions there are, however they interleave and however late the messages are taken; it delivers nothing else, in particular no earlier messages. It cannot be created, and an error is returned, if the brokers cannot be reached, the topic does not exist or one of its partitions cannot be read. Closing it, at any time and any number of times, returns, whether or not its messages are taken; afterwards, or when it could not be created, no connection, partition reader or goroutine of it is left.",
  ["schedules","inputs","fault_sequences"],"all distributions of messages with arbitrary contents over the partitions, all schedules of the partition readers, the receivers and closing within the bound, all failures",
  "The package has no tests, and could not be built.",
  ["utils/kafka.go"],[("read","utils/kafka.go: NewTopicConsumer"),("close","utils/kafka.go: Close")],["messages received from Messages","error returned by NewTopicConsumer","connections and partition readers open at the broker client"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
