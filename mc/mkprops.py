#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept here so that the statements are easy to read and diff).
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Invoke IDs of outstanding transactions are distinct and lie in 1..254",
  "At every moment the invoke identifiers held by unfinished transactions are pairwise different and lie between 1 and 254. A transaction identifier is handed out again only after the transaction that held it was released.",
  ["schedules", "histories"], "all interleavings (up to the preemption bound) and all operation sequences (up to the depth bound) of allocate and release by several callers, for every manager size",
  "The tests allocate and release a couple of identifiers in one order; uniqueness must hold for every interleaving and history.",
  ["tsm/transactions.go"], [("id allocation", "tsm/transactions.go TSM.ID"), ("id release", "tsm/transactions.go TSM.Put")],
  ["return values of TSM.ID"], [("states", "open transactions by invoke id"), ("free.id", "queue of free invoke ids")])

p("P02", "A reply reaches exactly the transaction it was sent for, and nobody else",
  "A value sent to an identifier is received only by the transaction that held that identifier when the send began, never by a later transaction that reuses it. Each value is received at most once, and sending to a transaction that is being or has been released fails cleanly: it never panics and never leaves the sender blocked after the release.",
  ["schedules", "histories"], "all interleavings up to the preemption bound of senders, receivers, timeouts, releases and re-allocations of the same identifier",
  "The one test sends and receives in lock step; the interesting cases are a send racing with a timeout, a release and an immediate reuse of the identifier.",
  ["tsm/transactions.go"], [("delivery", "tsm/transactions.go TSM.Send"), ("receive with timeout", "tsm/transactions.go TSM.Receive"), ("release", "tsm/transactions.go TSM.Put")],
  ["values returned by TSM.Receive, results of TSM.Send"])

p("P03", "Transaction slots are conserved and allocation honours its context",
  "At most the configured number of transactions are open at once, and a released slot is always usable again, so that whatever happened before (failed or cancelled allocations, double releases, timeouts) exactly the configured number can be opened once all are released. An allocation that cannot be satisfied waits and succeeds as soon as a slot is released, or fails when its context ends, without consuming a slot; releasing an unknown identifier fails and changes nothing.",
  ["schedules", "histories", "configurations"], "all interleavings and operation sequences up to the bounds, for manager sizes 1..3 and the sizes around the identifier space",
  "Tests never exhaust the slots, cancel a waiting allocation or release twice, and cannot cover the orders in which these meet.",
  ["tsm/transactions.go"], [("slot accounting", "tsm/transactions.go TSM.ID / TSM.Put"), ("constructor", "tsm/transactions.go New")],
  ["TSM.ID and TSM.Put results"], [("free.space", "tokens for free slots")])

p("P04", "Publications reach every live subscriber in range, exactly once and in order",
  "A subscriber returns exactly the values published, while it was subscribed, to identifiers inside its inclusive range: each once, in publication order, and nothing published to identifiers outside the range. This holds for every number of overlapping subscribers and publishers, and one subscriber starting or ending never makes another miss, repeat or reorder a value.",
  ["schedules", "histories"], "all interleavings up to the bound of publishers and subscribers with equal, nested, overlapping, adjacent and disjoint ranges",
  "Tests run one subscriber with generous sleeps; the loss, duplication and reordering cases need concurrent publishers and subscribers ending while values are in flight.",
  ["utsm/utsm.go", "utsm/subscriber.go"], [("fan-out", "utsm/utsm.go Manager.Publish"), ("subscriber list", "utsm/utsm.go newSubscriber / removeSubscriber"), ("collection", "utsm/subscriber.go Manager.Subscribe")],
  ["slice returned by Manager.Subscribe"], [("subs", "registered subscribers")])

p("P05", "Subscriptions always end on time and publishing never wedges",
  "A subscription returns once nothing in its range has been published for its idle time, and at the latest when its overall time is over, never before either of the two. Publishing always completes, whatever subscribers are doing, and no combination of publishers and subscribers starting, receiving and ending can deadlock.",
  ["schedules", "configurations"], "all interleavings up to the bound, with all timings of publications relative to the idle and overall deadlines from a small grid",
  "Tests use a single slow publisher; the deadlock needs a publication that meets the expiry of a subscriber in a particular order.",
  ["utsm/utsm.go", "utsm/subscriber.go"], [("deadlines", "utsm/subscriber.go getTimeout / Subscribe"), ("publish hand-over", "utsm/utsm.go Manager.Publish")],
  ["virtual time at which Subscribe and Publish return"])

p("P06", "Concurrent requests each get the answer to their own question",
  "When several requests to one or more devices are outstanding at the same time, each caller gets the answer the device gave to that caller's own request, or an error. With devices that answer under the invoke identifier of the request, reordered, duplicated, late or lost answers never turn into another request's answer and never make a call succeed that was not answered.",
  ["schedules", "fault_sequences"], "all interleavings up to the bound of concurrent reads and writes with every assignment of per-answer network behaviour (prompt, delayed past the next request, duplicated, lost) from a small menu",
  "The root package has no test that runs offline, and a live network shows only a handful of orders.",
  ["readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "device.go", "tsm/transactions.go"],
  [("request/response matching", "device.go handleMsg"), ("request loops", "readprop.go ReadProperty, writeprop.go WriteProperty, readmulti.go, writemulti.go")],
  ["results of Client read and write calls"])

p("P07", "The outcome of a confirmed request tells the truth",
  "A read or write reports success only if the addressed transaction was positively acknowledged, and then with the acknowledged values; an error answer that ends the request is reported as an error that names the error class and code the device sent. Anything else that arrives (requests from other parties, network-layer messages, rejects, aborts, segments, acknowledgements for other identifiers, malformed answers) never completes the request successfully, and messages that are no answer to the request do not keep the true answer from being used.",
  ["inputs", "schedules", "fault_sequences"], "every sequence up to the bound of answers from an alphabet of well-formed and deviant datagrams, for each of the four confirmed services and all error classes and codes",
  "Unit tests decode single captured frames; whether the client as a whole can be fooled depends on which message arrives in which state.",
  ["device.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "encoding/apdu.go"],
  [("dispatch", "device.go handleMsg"), ("error decoding", "encoding/apdu.go apduError"), ("result of requests", "readprop.go, writeprop.go, readmulti.go, writemulti.go")],
  ["results of Client read and write calls"])

p("P08", "Every request ends within its time bound and gives everything back",
  "A confirmed request sends its datagram at least once and at most twice, waits five seconds for each answer, accepts an answer that comes within that wait and ends with an error otherwise, so that no call lasts longer than the slot wait plus the waits for its attempts. When it has ended, successfully or not, its transaction slot is free again, for any number of requests one after the other or at once.",
  ["schedules", "fault_sequences", "histories"], "every pattern of answers (in time, just before and just after each deadline, never) over sequences and concurrent groups of requests, including more requests than slots",
  "Timeouts are never exercised by the tests: they would need tens of seconds of real time per case.",
  ["readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "tsm/transactions.go"],
  [("retry loops", "readprop.go, writeprop.go, readmulti.go, writemulti.go"), ("receive timeout", "tsm/transactions.go Receive")],
  ["virtual time and datagrams on the simulated wire"])

p("P09", "No datagram can crash, stall or confuse the client",
  "Whatever bytes arrive, from any source, the client neither panics nor stops receiving, and requests made afterwards work as before. Datagrams that are not BACnet/IP are ignored, and a message wrapped in a forwarded broadcast has the same effect as the same message received directly.",
  ["inputs", "histories"], "all datagrams up to a small length over a byte alphabet, all single-byte changes, truncations and extensions of valid frames, and pairs of such datagrams",
  "Tests feed no raw datagrams to the client; the space of malformed input is far larger than any sample.",
  ["device.go", "encoding/bvlc.go", "encoding/npdu.go", "encoding/apdu.go", "datalink/udp.go"],
  [("receive loop", "device.go ClientRun"), ("dispatch", "device.go handleMsg")], ["liveness of the client and results of later requests"])

p("P10", "WhoIs returns exactly the devices in range that answered, each once",
  "The result of a device search lists every device that answered within the listening time (until nothing has come for two seconds, ten seconds at most) and whose identifier lies in the requested range (the whole range when no limits are given), each exactly once, with the identifier, limits, vendor and network address it announced; nothing else is listed. Other traffic in the meantime, repeated or reordered announcements and concurrent searches do not change this.",
  ["schedules", "inputs", "histories"], "all subsets and orders of announcing devices at the range limits, with duplicates, routed devices, foreign traffic and concurrent searches, over all interleavings up to the bound",
  "Searching needs a network and seconds of listening; no test in the baseline does it.",
  ["whois.go", "device.go", "utsm/utsm.go", "encoding/iam.go", "encoding/whois.go"],
  [("search", "whois.go WhoIs"), ("announcement handling", "device.go handleMsg")], ["slice returned by Client.WhoIs"])

p("P11", "Network number and router searches report exactly what was announced",
  "The search for network numbers returns one entry for every network-number announcement that arrived while it listened, with the announced number. The search for routers returns every network named in the router announcements that arrived while it listened, whatever the number of networks per announcement, and neither invents nor loses one.",
  ["schedules", "inputs"], "all announcement lists up to a small length over boundary network numbers, with other traffic, and all interleavings up to the bound",
  "No test covers these calls, and the announcement has variable length.",
  ["whatnetwork.go", "whoisrouter.go", "encoding/npdu.go", "device.go"],
  [("network number search", "whatnetwork.go"), ("router search", "whoisrouter.go"), ("announcement decoding", "encoding/npdu.go NPDU")],
  ["results of Client.WhatIsNetworkNumber and Client.WhoIsRouterToNetwork"])

p("P12", "Requests on the wire say exactly what the caller asked",
  "Each read, write, multiple read and multiple write request is encoded as the BACnet standard prescribes: service, invoke identifier, object, property, optional array index, value and optional priority, in this order and nothing more. A request that cannot be expressed (object type, instance or property out of range, no property given, value of an unsupported type) is refused with an error instead of being sent for another object or property, or malformed.",
  ["inputs"], "all combinations of boundary object types, instances, properties, array indices, priorities, value types and list shapes",
  "The tests compare a few captured frames; field widths, optional fields and limits multiply.",
  ["encoding/readprop.go", "encoding/writeprop.go", "encoding/readmultiple.go", "encoding/writemultiple.go", "encoding/encoder.go", "encoding/validate.go"],
  [("request encoding", "encoding/readprop.go, writeprop.go, readmultiple.go, writemultiple.go"), ("limits", "encoding/validate.go")],
  ["bytes of encoded requests, datagrams on the simulated wire"])

p("P13", "Datagrams go to the right place with a correct envelope",
  "Every datagram leaves for the IP address and port of its destination with a BACnet/IP header whose length field is the datagram's length, marked as broadcast exactly when it is a broadcast. A destination behind a router carries its network number, its station address with that address's length, and a hop count; a local destination carries none of these, and a multiple read or write is never sent larger than the device accepts.",
  ["inputs", "configurations"], "all combinations of network numbers, station address lengths, ports, operations and maximum sizes from boundary sets",
  "Tests never look at a sent datagram; the envelope depends on a combination of address fields.",
  ["device.go", "encoding/npdu.go", "encoding/bvlc.go", "btypes/address.go", "datalink/udp.go"],
  [("envelope", "device.go Send"), ("network header", "encoding/npdu.go"), ("address", "btypes/address.go")], ["datagrams on the simulated wire"])

p("P14", "Application values survive encoding and decoding unchanged",
  "Every supported value (null, boolean, unsigned, signed, real, double, character string, enumerated, object identifier) is encoded in the standard's shortest form and decodes to the same value, consuming exactly its own bytes; octet strings, bit strings, dates, times and UCS-2 strings in standard form decode to the values they stand for. A value of an unsupported type is refused with an error.",
  ["inputs"], "all values around every length and sign boundary, all 8- and 16-bit values, all strings and bit strings up to a length, all date and time field values",
  "Tests try a few values per type; encodings change form at many boundaries.",
  ["encoding/appdata.go", "encoding/encoder.go", "encoding/decoder.go", "encoding/string.go", "encoding/date.go"],
  [("value encoding", "encoding/appdata.go Encoder.AppData"), ("value decoding", "encoding/appdata.go Decoder.AppDataOfTag")], ["Encoder and Decoder AppData"])

p("P15", "Protocol headers survive encoding and decoding unchanged",
  "The link, network and application headers that can be encoded are encoded as the standard prescribes and decode to the same fields, consuming exactly their own bytes, for every combination of optional parts. This covers addresses, priority, hop count, vendor identifiers of proprietary network messages, segmentation fields, size limits, and error answers in both notations.",
  ["inputs"], "all combinations of flags and of boundary values of every header field",
  "Tests try one or two headers; optional fields interact.",
  ["encoding/bvlc.go", "encoding/npdu.go", "encoding/apdu.go", "encoding/general.go"],
  [("link header", "encoding/bvlc.go"), ("network header", "encoding/npdu.go"), ("application header", "encoding/apdu.go")], ["Encoder and Decoder BVLC, NPDU, APDU"])

p("P16", "Acknowledgements decode to exactly what they contain, or to an error",
  "A well-formed answer to a read or multiple read, whose values are application-tagged, decodes to exactly the objects, properties, array indices and values that it carries, in order, for single values, lists and empty lists. An answer that is cut short anywhere, or whose brackets do not match, decodes to an error and never to partial or invented data.",
  ["inputs"], "all answers built from a small grammar of objects, properties, indices and value lists up to a size bound, and all truncations of each",
  "Tests decode a few captured answers, all complete.",
  ["encoding/readprop.go", "encoding/readmultipleack.go", "encoding/appdata.go", "encoding/context_tag.go"],
  [("single read answer", "encoding/readprop.go Decoder.ReadProperty"), ("multiple read answer", "encoding/readmultipleack.go Decoder.ReadMultiplePropertyAck")], ["decoded structures and errors"])

p("P17", "Decoding any bytes terminates without panic and within bounded memory",
  "For every byte string each decoder returns, with a result or an error, without panicking, in time and memory proportional to the input. A length field larger than the remaining input is an error, not a reason to allocate or to return made-up content.",
  ["inputs"], "all byte strings up to a small length, and all single-byte substitutions, deletions and truncations of a corpus of valid messages",
  "No test feeds malformed input.",
  ["encoding/decoder.go", "encoding/appdata.go", "encoding/string.go", "encoding/date.go", "encoding/npdu.go", "encoding/apdu.go", "encoding/readprop.go", "encoding/readmultipleack.go", "encoding/iam.go", "encoding/whois.go"],
  [("primitive decoding", "encoding/decoder.go"), ("message decoding", "encoding/readprop.go, encoding/readmultipleack.go, encoding/npdu.go, encoding/apdu.go")], ["Decoder methods"])

p("P18", "Who-Is and I-Am messages carry exactly their range and announcement",
  "A search restricted to a range of identifiers is encoded with both limits, an unrestricted one with none, and both decode to the same range. An announcement encodes and decodes to the same device, size limit, segmentation and vendor, and one whose fields are missing or of another type is an error rather than a device with made-up fields.",
  ["inputs"], "all limits and announcement fields from boundary sets, all field type substitutions and truncations",
  "Tests use one range and one announcement.",
  ["encoding/whois.go", "encoding/iam.go", "whois.go", "iam.go"],
  [("search encoding", "encoding/whois.go"), ("announcement encoding", "encoding/iam.go")], ["Encoder and Decoder WhoIs and IAm, datagrams on the simulated wire"])

p("P19", "The object scan returns exactly the device's objects with their own names",
  "The scan of a device returns exactly the objects of its object list, each with its own name and description (objects of proprietary types may come without), for every list length, every mixture of standard and proprietary object types and every message size the device accepts. If the device answers some part with an error or incompletely, the scan fails with an error instead of returning wrong data or crashing.",
  ["inputs", "configurations", "fault_sequences"], "all list lengths around the chunk limits, all accepted sizes, all iteration orders of the collected objects, and an error or short answer at every step",
  "Scanning needs a device; chunking depends on list length and size limits, and pairing of names depends on an unordered iteration.",
  ["objectlist.go", "readmulti.go", "readprop.go"], [("list length and chunks", "objectlist.go objectList / objectsRange"), ("names", "objectlist.go objectInformation / allObjectInformation")], ["device returned by Client.Objects"])

p("P20", "A device's object list is complete and ordered in both reading modes",
  "The object list of a device is returned completely and in order, whether the device can send it at once or, because it cannot, it is read element by element, and for any length including none and one. If an element cannot be read the result is an error, not a crash or a shortened list. When the device is searched for first, its record takes over the limits it announces.",
  ["inputs", "fault_sequences"], "all list lengths up to the bound in both modes, with an error, a timeout or a foreign value at every position",
  "The network package has no offline tests.",
  ["network/objects.go", "network/read.go", "helpers/data/data.go"], [("whole list", "network/objects.go DeviceObjects"), ("element by element", "network/objects.go deviceObjectsBuilder")], ["Device.DeviceObjects result"])

p("P21", "Point reads and writes mean what they say",
  "Reading a point, its priority array, name or unit returns exactly the value the device sent for that object and property, and an error, never a made-up value, if the device answered with an error or with a value of an unusable type. Writing a value or releasing a priority sends exactly that value, of the type the point requires, to that object and property at that priority, and releases of priorities outside 1 to 16 are refused. Of the details of a point, those the device does not have are left out.",
  ["inputs", "configurations"], "all point types, value types, boundary values, priorities and priority-array patterns from small sets",
  "The network package has no offline tests.",
  ["network/points.go", "network/read.go", "network/write.go", "network/strings.go", "btypes/priority/priority.go", "helpers/data/data.go"],
  [("reads", "network/points.go, network/strings.go"), ("writes", "network/write.go"), ("priority array", "btypes/priority/priority.go")], ["results of Device point calls, datagrams on the simulated wire"])

p("P22", "Discovery gives each device its own address and details",
  "Discovering devices returns one record per device that answered, each with its own identifier, address, port, network number and station address, and with the name, vendor and limits that this very device reported. A device that does not answer the detail questions keeps its announced data and does not affect the records of the others.",
  ["inputs", "configurations", "fault_sequences"], "all small sets of devices with equal and different ports, networks and station addresses, with a failing answer at every step",
  "The network package has no offline tests, and mixing up needs at least two devices.",
  ["network/discover.go", "network/whois.go", "network/device.go", "btypes/device.go"],
  [("device discovery", "network/discover.go DeviceDiscover"), ("network discovery", "network/whois.go NetworkDiscover")], ["results of DeviceDiscover and NetworkDiscover, datagrams on the simulated wire"])

p("P23", "The registry returns the last thing stored under a name, of the right kind",
  "Looking up a network or a device by its name returns the one most recently stored under that name, and an error if there is none or if the name belongs to the other kind. Creating, replacing and looking up in any order, concurrently and with incomplete arguments never crashes and never affects other names.",
  ["histories", "schedules", "inputs"], "all operation sequences up to the depth bound over a few names, and interleavings of concurrent operations",
  "The network package has no offline tests.",
  ["network/store.go", "network/base.go", "network/device.go", "helpers/store/init.go"],
  [("registry", "network/store.go, helpers/store/init.go"), ("constructors", "network/base.go New, network/device.go NewDevice")], ["results of the store calls"])

p("P24", "Bit strings behave like a list of up to 120 bits",
  "A bit string behaves like a growable list of bits: setting a bit changes that bit only, reading returns the last value set, the used length covers the highest bit set, and operations beyond the capacity or on missing strings change nothing and never crash. A bit string received from a device has the transmitted bits in the transmitted order and the transmitted length.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over boundary positions and capacities, and all encoded bit strings up to a length",
  "Tests set a few bits in one order.",
  ["btypes/bitstring.go", "encoding/decoder.go"], [("bit operations", "btypes/bitstring.go"), ("decoding", "encoding/decoder.go bitString")], ["BitString methods"])

p("P25", "Object collections and type names survive conversion to text and back",
  "A collection of objects converted to JSON and back contains exactly the same objects under the same types and instances, for standard and proprietary object types alike, and listed it has each of them once. Names of object types, and of the properties and services the library knows, are unique, belong to the number the standard gives them and convert back to it; unknown property and service names and texts that are no collection are refused.",
  ["inputs"], "all object types and properties, all collections up to a small size over boundary types and instances, in all iteration orders",
  "Tests convert one collection of known types.",
  ["btypes/object_map.go", "btypes/object.go", "btypes/property.go"], [("JSON", "btypes/object_map.go"), ("names", "btypes/object.go, btypes/property.go")], ["ObjectMap JSON methods, GetType and String"])

p("P26", "Addresses and client configurations are converted exactly",
  "Conversions between IP address and port and the six-byte station address are exact and reversible, for every address and port, and the local broadcast address follows from address and prefix length. A client can be configured by interface or address, prefix length and port, or with a ready-made data link, and then uses exactly these; invalid ports, addresses and prefixes are recognised.",
  ["inputs", "configurations"], "all ports, all prefix lengths, boundary addresses, all ways of configuration",
  "Tests use one address each.",
  ["datalink/udp.go", "btypes/address.go", "btypes/device.go", "helpers/ipbytes/ip.go", "helpers/validation/vaildation.go", "device.go"],
  [("address conversion", "datalink/udp.go, btypes/address.go, helpers/ipbytes/ip.go"), ("client configuration", "device.go NewClient")], ["addresses, datagrams on the simulated wire"])

p("P27", "Concurrent use of one client is free of data races",
  "Requests, searches, incoming messages, timeouts and closing may happen at the same time on one client, transaction manager or publication manager without unsynchronised access to shared memory.",
  ["schedules"], "all interleavings up to the bound of pairs and triples of operations, each checked by a happens-before race detector that sees only the program's own synchronisation",
  "The tests are not run with a race detector and have hardly any concurrency.",
  ["tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go", "device.go", "whois.go", "whatnetwork.go", "whoisrouter.go", "readprop.go", "network/store.go"],
  [("shared state", "tsm/transactions.go, utsm/utsm.go"), ("background senders", "whois.go, whatnetwork.go, whoisrouter.go")], ["race reports"])

p("P28", "Closing a client ends its work and leaves nothing behind",
  "After a client is closed its receive loop ends, its port can be used again, and calls in progress or made later end with an error or an ordinary result within their usual time bounds. Nothing is left running afterwards, whatever was in progress when it was closed, and closing twice does no harm.",
  ["schedules", "histories"], "all interleavings up to the bound of closing with each kind of call, incoming messages and a second close",
  "Leaks and hangs at shutdown depend on what is in flight; no test closes a client in use.",
  ["device.go", "datalink/udp.go", "network/base.go"], [("closing", "device.go Close / ClientClose, datalink/udp.go Close"), ("receive loop", "device.go ClientRun")], ["goroutines left, results of calls"])

p("P29", "Numbers of the standard are known by their own names",
  "Error classes and codes, engineering units, kinds of segmentation and types of network messages carry the numbers the standard gives them and are shown under their names, and so do the properties, object types, services and message types the library defines. Every number of the former has a text of its own: a number without a name is shown as that number, never under the name of another. Errors and point details name exactly the class, code or unit the device sent.",
  ["inputs"], "all numbers up to 65535 and boundary numbers beyond, for each of the five kinds, and what devices tell with them",
  "Tests look at two or three names; a table that is off by one in one place shows a wrong name for some numbers only.",
  ["btypes/bacerr/bacerr.go", "btypes/bacerr/errorcode_string.go", "btypes/bacerr/errorclass_string.go", "btypes/units/units.go", "btypes/units/unit_string.go", "btypes/segmentation/segmentedtype_string.go", "btypes/ndpu/networkmessagetype_string.go"],
  [("tables", "btypes/*/..._string.go"), ("errors of requests", "device.go handleMsg"), ("unit of a point", "network/points.go PointDetails")], ["String methods, texts of errors, PointDetails"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
