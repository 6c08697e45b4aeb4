#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TECH = {
 "C01": ("property-based testing: generated messages, round trip through each serializer", "Every message type with generated fields; trusts the harness's field accessors and the comparison up to number types."),
 "C02": ("property-based testing: differential against an independent encoder/decoder and a field table written from the WAMP specification", "Trusts the harness's own small JSON/CBOR/MessagePack codec and its table of message layouts."),
 "C03": ("structured mutation fuzzing of bytes and arrays against a validity predicate, under memory and time limits", "Crash, hang and memory limits are observed per case; acceptance is judged by the layouts of the specification. Absence is not established."),
 "C04": ("property-based testing with exact big-number arithmetic as the oracle, over all wire integer widths", "Trusts math/big and the harness's encoder."),
 "C05": ("property-based testing: round trip and independent decoding of payloads", "Values expressible in the chosen format only."),
 "C06": ("exhaustive enumeration and generated inputs, round trip and octet-level oracle", "All sizes to 2^25, all header lengths and all handshake octets are enumerated; sizes beyond that are sampled."),
 "C07": ("property-based testing: generated handshakes over both state machines", "Users, methods, serializers and authenticators are generated; both sides' details are compared."),
 "C08": ("property-based testing with an attacker generating AUTHENTICATE messages; independent proof computation as oracle", "Trusts crypto/ed25519 and the harness's HMAC/PBKDF2. Cryptographic strength is assumed."),
 "C09": ("model-based testing of generated message histories on acceptor and joiner", "A handwritten state model decides each step."),
 "C10": ("exhaustive and generated method lists against a reference choice", "Includes unknown, empty and duplicate names."),
 "C11": ("property-based testing: differential against independent HMAC, PBKDF2 and Ed25519, and metamorphic changes", "Trusts the harness's own implementations, which test each other against published vectors."),
 "C12": ("model-based stateful testing of a client session", "A model of pending requests and held registrations judges every message."),
 "C13": ("model-based stateful testing of broker histories", "One listed finding: publications that match several subscriptions."),
 "C14": ("model-based stateful testing of broker histories", "Compares every event's content with what was published."),
 "C15": ("model-based stateful testing of broker histories with probes of the whole state", "The state is observed through publications, HasSubscription and replies."),
 "C16": ("model-based stateful testing of dealer histories; reference pattern matcher", "Wildcards as path.Match globs, the repository's own notion."),
 "C17": ("model-based stateful testing of dealer histories; distribution test for the random policy", "The random policy is judged by membership and by a bound with negligible false-alarm probability."),
 "C18": ("model-based stateful testing of dealer histories", "Every message's recipient and content is judged by a model of pending calls."),
 "C19": ("model-based stateful testing of progressive calls", "A model of calls, parts and progressive results judges every message."),
 "C20": ("model-based stateful testing of dealer histories with probes of the whole state", "The state is observed through calls, HasProcedure and replies."),
 "C21": ("property-based testing of generated call histories with opaque payloads", "One listed finding: messages built with the New...Binary constructors sent to a session without static serializer."),
 "C22": ("model-based stateful testing with disclosure switched during the history, and metamorphic replay of the history with disclosure off", "Details are compared with the sessions' own; recipients must be the same with and without disclosure."),
 "C23": ("property-based testing: sequences, wrap-around, concurrent draws, and statistics over separate processes", "Randomness is judged by bounds with negligible false-alarm probability; the wrap-around is reached by writing the counter of a generator made by the harness."),
 "C24": ("generated concurrent histories under the race detector, checked for linearizability against a second instance", "Schedules are sampled, not enumerated: messages that pause while being handled widen the windows."),
 "C25": ("model-based stateful testing of a whole system over byte streams delivered in generated pieces and orders", "The harness plays the application parts of clients and router; legal conversations only."),
 "C26": ("metamorphic testing: histories with and without hostile messages have the same results", "Compares runs of the code with each other up to a renaming."),
 "C27": ("property-based testing: ISO 8601 text of generated instants and zones read back by an independent parser", "Trusts package time and the zone database."),
 "C28": ("property-based testing: generated handshakes, both sides' reports compared with what the other announced; every announced feature exercised", "One listed finding: call_canceling is announced and not implemented."),
 "C29": ("property-based testing: generated cycles repeated, with the live heap as the oracle", "Growth of a few bytes per cycle and more is seen; a bounded leftover is not a violation."),
 "C30": ("property-based testing: every value handed in or out is compared, with its exact types, before and after", "Values are watched for the length of the case."),
 "C31": ("generated concurrent workloads under the race detector, every result compared with the one that is had alone", "Schedules are sampled, not enumerated; the race detector judges by happens-before, so a race shows without its bad interleaving."),
 "C32": ("property-based testing: generated values and arrays, every accessor compared with what went in; message objects parsed again in sequences", "Exact comparison; the layout table of the arrays is the harness's own."),
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert sorted(TECH) == sorted(ids), set(ids) ^ set(TECH)
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: the harness in harness/ is a module of its own that imports the packages of /repo. known-findings.txt lists the findings and repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
