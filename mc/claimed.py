NOTYET = {}
TRUST = " Trusted: the mechanical rewriting of channels, goroutines, locks, timers, contexts and sockets into mcrt (mc/tool, mc/zzmc/mcrt), and the harness' reference model."
ENC = " Trusted: the harness' codec (mc/zzmc/ref), written from the standard and not from the code."
CLAIMED = {
 "P01": (BOTH, "All schedules with up to 2-4 preemptions/early timers (thorough: 4-6, by number of threads) of 2-3 users of TSM.ID/Put at limits 1-3, all operation histories of depth 6 (8), and the whole identifier space at 5 sizes." + TRUST),
 "P02": (SCHED, "All schedules with up to 2-3 deviations (thorough 3-5) of senders, receivers, release and reuse of one or two identifiers." + TRUST),
 "P03": (BOTH, "All schedules with up to 3 deviations of waiting and cancelled allocations, all operation histories of depth 6 (8) at limits 1 and 2." + TRUST),
 "P04": (BOTH, "All schedules with up to 1-4 (thorough: 3-6) deviations (preemptions, early timers) of 1-3 publishers and 1-4 subscribers starting, receiving and ending; all histories of 4 (5) steps; all pairs of 10 range limits." + TRUST),
 "P05": (BOTH, "Exact end times for all histories of 4 (5) steps and all schedules with up to 4 (6) preemptions; deadlock freedom for 1-3 publishers and 1-4 subscribers with up to 1-4 deviations including early timers." + TRUST),
 "P06": (SCHED, "Two or three threads with one or two requests of all four kinds; every interleaving together with every behaviour of the devices (prompt, lost, twice, error, after 1 ms, after the wait, error then answer) with up to 3 deviations (thorough 4-5), early timers in a unit of its own; all combinations of behaviours of three calls and their repetitions in one schedule; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST + " Duplicates that come more than 254 requests later are not explored (an invoke identifier is not reused before)."),
 "P07": (BOTH, "All sequences of up to three answers from an alphabet of 31 well-formed and deviant datagrams for the four services; all pairs that arrive at once in every order of their processing within the bound; 144 codes x 11 classes x 2 notations." + TRUST),
 "P08": (BOTH, "All patterns of answers around the deadlines for two consecutive requests and their repetitions, send errors; groups of 21-23 requests with and without a free slot; all interleavings of two requests with up to 2 deviations (thorough 4) including early timers; every execution ends with twenty simultaneous requests." + TRUST),
 "P09": (BOTH, "All datagrams of up to 2 bytes (3 partly), all contents of 5 (thorough 6) bytes over an alphabet of 13 telling bytes behind 4 link headers, all single-byte substitutions, cuts and insertions of 48 frames, pairs of substitutions, pairs of frames in all schedules up to 1 (2) deviations, all sizes around the limits, all kinds of senders; after each of them a request must work. Forwarded and direct messages are compared by their whole effect." + TRUST),
 "P10": (BOTH, "12 ranges x all sequences of up to 3 (4) messages from the identifiers at the limits and 11 kinds of foreign traffic x 4 spacings, all ways an announcement can travel, all timings of 7 announcements over a grid; all schedules with up to 2 (3) deviations of two searches, or a search and a read, whose answers come at once; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P11": (BOTH, "All sequences of up to 3 messages from an alphabet of 27 x 4 spacings, announcements of up to 740 networks, all timings of 7 announcements over a grid; all schedules with up to 2 (4) deviations of two searches whose answers come at once; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P12": (INP, "All combinations of object, property, index, value and priority of bounded alphabets through the four request encoders, byte for byte against an independent encoder; all inexpressible requests of a list, in every position; all pairs of sample operations, whose results must not influence each other." + ENC),
 "P13": (INP, "All combinations of destination address, port, network, station address and description x 4 requests, all sizes of multiple requests around 14 limits, all prefix lengths x 3 hosts x ports x ways to configure x 5 searches, announcements to all kinds of destinations; every datagram compared byte for byte with an independent encoder." + TRUST),
 "P14": (INP, "All values of 24-bit subranges and all boundary values of every type, all sequences of three values, all unsupported types, byte for byte against an independent codec; all pairs of sample operations, whose results must not influence each other." + ENC),
 "P15": (INP, "All combinations of optional parts of the link, network and application headers, all error classes and codes of a list in both notations, all router lists up to 6 networks; encode and decode, every cut; all pairs of sample operations, whose results must not influence each other." + ENC),
 "P16": (INP, "All answers of up to 3 objects with up to 3 properties over a value alphabet, lists up to 2 (long lists separately), every cut and every replacement of a bracket; all pairs of sample operations, whose results must not influence each other." + ENC),
 "P17": (INP, "All byte strings up to length 3, all strings up to length 5-6 over an alphabet, all single byte changes of a corpus of valid messages, all length fields; with a budget of time and memory on every decode." + ENC),
 "P18": (INP, "All pairs of 50 range limits, all combinations of announcement fields, every cut and every replacement of a tag; all pairs of sample operations, whose results must not influence each other." + ENC),
 "P19": (BOTH, "All list lengths 0-8 and around every chunk limit for all accepted message sizes, all mixtures of object types, all iteration orders of the collected objects (up to the bound), and every kind of failing, short, foreign or missing answer at every step of the scan; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P20": (BOTH, "All list lengths up to the bound and around encoding limits in both reading modes at all kinds of device places; every kind of failing, foreign or missing answer at every element, and every size at which the whole list fails; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P21": (BOTH, "All reading calls x all value types and boundary values x all object types and places; all failing answers; all null/number/other patterns of the priority array, shorter and longer ones; all writes and releases over priorities -1..18 and value types, compared with the strictly parsed request; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P22": (BOTH, "All pairs (triples in part) of device places (ports, networks, stations), all subsets of answered details with every kind of failing answer, all orders of the announcements and all identifier ranges of a list; all pairs of operations one after the other, and at once with 1 (2) deviations, with unchanged results." + TRUST),
 "P23": (BOTH, "All histories of 4 (5) valid operations over 3 names, all histories of 2 (3) from 19 operations with incomplete and wrong arguments, a lookup of everything after each; all schedules with 1 (2) deviations of two storing threads and one that looks up; up to 1100 names; lookups up to 400 days later." + TRUST),
 "P24": (BOTH, "All histories of 2 (3) operations from 102 and of 4 (5) from 20 on 13 bit strings (all capacities, inconsistent ones), every single operation argument, missing strings, all contents of up to 16 bits and patterns of up to 120 as received; everything that can be seen of the string is compared with a list of bits; all pairs of sample operations, whose results must not influence each other." + TRUST),
 "P25": (BOTH, "All collections of up to 2 (3) objects over 9 types and 4 instances through 5 ways to convert in all iteration orders, all 65536 types in blocks of 256 with 4 kinds of objects, all names of types, properties and services against the standard's numbers, a list of texts that are no collections. Only property values that JSON can carry without loss are used; all pairs of sample operations, whose results must not influence each other." + TRUST),
 "P26": (INP, "All 65536 ports, all prefix lengths, all addresses over boundary bytes in all forms, all lengths; all ways to configure a client and what it then sends and receives; all pairs of sample operations, whose results must not influence each other." + TRUST),
 "P27": (SCHED, "All pairs of 19 client operations (requests, searches, closing, incoming messages) in all schedules with 1 deviation (thorough 2), triples in one (thorough: up to 1), pairs and triples of transaction and publication manager operations with 1-3 (thorough 2-5); ThreadSanitizer judges every execution and sees only the program's own synchronisation." + TRUST + " Logging and fmt synchronise internally and can hide a race between accesses around them."),
 "P28": (SCHED, "Closing at every point of every kind of call, alone and with a second activity, with up to 3 deviations (preemptions, early timers), closing at all times of a grid, twice, before receiving; nothing may be left running and the port must be free; closing a network during each of 14 operations at 12 times and at every point with 1 (2) deviations." + TRUST),
 "P29": (BOTH, "All numbers up to 65535 and 2048 larger ones of the five enumerations against the standard's table, all constants; what a client says about 160 error codes x 29 classes and 257 units a device sends." + TRUST),
}
