NA = {p: "check not built yet" for p in ["C%02d" % i for i in range(1, 29)]}
c("C01", "hd", "Bounds: single blocks of up to 8 messages in every order, 70/130 messages in fixed orders, arbitrary contents of stated lengths.")
c("C02", "hd", "Bounds: blocks of 5 messages, every missing message and order, one or two repeats.")
c("C03", "hd", "Bounds: two or three blocks, six messages, every interleaving; arbitrary different hashes.")
c("C04", "hd", "Bounds: keys up to 3 arbitrary bytes and longer mixed keys, patterns and tracked prefixes from a stated list, up to three tracked prefixes.")
c("C05", "hd", "Bounds: up to three sub-batches and ten messages, every order of up to five messages, repeats of each.")
c("C06", "hd", "Bounds: keys of up to 3 arbitrary bytes, schemas of one to three patterns from a stated list, arbitrary values of up to 300 bytes.")
c("C07", "hd", "Bounds: patterns of up to three letters, blocks of up to three entries with arbitrary keys of two bytes, up to three sub-batch calls; 300 blocks with 600 sub-batches.")
c("C08", "hd", "Bounds: blocks of three messages on up to three sources in every order with one message of another block and up to two repetitions, arbitrary offsets; 100 messages on 52 sources.")
c("C10", "hd", "Bounds: trees of four blocks (thorough: five) in every arrival order with arbitrary weights, chains of blocks without weight; started from a known block, or without one in an order in which parents come first.")
c("C11", "hd", "Bounds: trees of four blocks with arbitrary weights, of five on a block that arrives fourth, five (thorough: six) with tying weights, every arrival order.")
c("C12", "hd", "Bounds: thresholds one to three, chains of up to eleven blocks, one competing branch, incomplete blocks of any age.")
c("C13", "hd", "Bounds: trees of four blocks (thorough: five), one or two pinned numbers.")
c("C14", "hd,ht", "Bounds: any number and hash; streams of up to eight blocks and two announcements, blocks of a fork with arbitrary weights; schedules with up to one preemption.")
c("C22", "hd", "Bounds: keys of up to 67 arbitrary bytes with short values, block messages with arbitrary bytes replaced or cut off, values of up to three (thorough: five) arbitrary bytes.")
c("C15", "hw,ht", "Bounds: histories of five steps (thorough: six) over three blocks, waits with three events during them, up to three (thorough: four) deviations from the default schedule at memory accesses and synchronisation; stopped at any point, twice; 100 blocks at once.")
c("C18", "ht", "Bounds: one to four backends, any of which fail, two calls in a row (thorough: three) with arbitrary arguments of stated sizes.")
c("C16", "ht", "Bounds: blocks of five kinds with arbitrary hash, number and parent, up to two refused messages out of eight, feeds of one or two partitions with up to four symbolic messages or 104 fixed ones at startup, histories of three steps, a block that becomes known at any point while it is published, 300 known or 150 open blocks.")

c("C09", "ht", "Bounds: two partitions with up to two messages from any offset on, tokens naming none, one or both with three offsets, any rollback, any two refused positions, offsets of up to two arbitrary bytes, any timestamp; two brokers with any rollback each.")
c("C17", "ht", "Bounds: two blocks with five messages on up to four partitions in any order with one other message anywhere, start and close at any point; schedules with one deviation (thorough: two).")
c("C19", "ht", "Bounds: ten schemes and those of up to two letters, four lists of hosts, each of ten options with arbitrary texts of up to three letters or digits or out of a list, pairs of options, URLs with one arbitrary byte.")
c("C26", "ht", "Bounds: two brokers (three when one fails), two blocks on either or both in any order; schedules with one deviation.")
c("C20", "ht", "Bounds: blocks with arbitrary keys of one byte, values of up to two bytes, hashes, numbers and weights of any length, up to three blocks (thorough: four) with up to two sub-batches in any order, one lost connection at any point, 150 blocks with sub-batches to come.")
c("C21", "ht", "Bounds: up to four blocks, one to three before the client connects, two clients; 24 kinds of stray messages at any position; 1300 blocks for a stalled client; up to two refused subscriptions and one that ended, then 1100 blocks; schedules with one deviation (thorough: two).")
c("C23", "ht", "Bounds: histories of four steps out of waiting, health changes and published blocks; up to four heartbeats of three producers or other messages at arbitrary times, any period; 40 producers.")
c("C24", "ht", "Bounds: up to three partitions with up to two messages of arbitrary (five with one) numbers, lengths around the window of a hundred, brokers or a partition that cannot be read, repeated calls.")
c("C25", "hd,ht", "Bounds: a block of seven messages in every order, trees of three blocks (thorough: four) with arbitrary weights in every order; schedules with two deviations (thorough: three).")
c("C27", "ht", "Bounds: one to five brokers, five schemas with up to three topics, each of which may exist; one failure with an arbitrary error code; two producers with one deviation from the default schedule (thorough: two).")
c("C28", "ht", "Bounds: up to three partitions, three messages (thorough: four) with two arbitrary bytes; schedules with two deviations (thorough: three) from the default, of closing with one (thorough: two); 20 partitions with 20 messages each.")
