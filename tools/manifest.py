#!/usr/bin/env python3
"""Writes MANIFEST.json: every property listed in CHECKS has a check, the others are not claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X, F = "exploration", "fault_enumeration"
CHECKS = {
    "C01": (X, "runtime monitor: random cost sums and compositions against exact arithmetic", "Random costs, also around the 32-bit edge, against 128-bit arithmetic; sums that cannot be represented are left out."),
    "C02": (X, "runtime monitor: reported work of append-only trees against the work their definition needs, on long-lived and reopened handles", "Random histories on dense trees up to height 6, mountain ranges up to 40 leaves and bulk trees up to height 4; every insertion, root, read and proof."),
    "H01": (X, "runtime monitor: paths built in every way compared with the segment list they spell", "Pairs of equal and nearly equal segment lists built through slices, vectors, builders, derived parents and children; prefixes recomputed with an independent blake3 preimage."),
    "E01": (X, "runtime monitor: element round trips and hostile bytes, with an allocation monitor", "Random elements of all kinds, nesting wrappers and references, and mutated encodings; equality of elements is the derived one."),
    "E02": (X, "runtime monitor: reference resolution against the definition of each reference kind", "Random positions and references of every kind against an independent resolver written from the documentation of each kind."),
    "F01": (X, "runtime monitor: storage flag histories against a byte ledger", "Random update and removal histories with all flag kinds against a ledger of bytes per epoch and owner; byte totals stay below 2^31."),
    "Q01": (X, "runtime monitor: key-range algebra against explicit key sets", "All item kinds over small and random alphabets compared with membership of every key near the bounds; set identities of intersection, merge and insertion."),
    "Q02": (X, "runtime monitor: merged queries against the subtree paths their inputs lead to", "Random queries over a seven key alphabet, all item kinds, nested default and conditional branches; every path any input leads to must still be asked for."),
    "Q03": (X, "runtime monitor: query round trips through all codecs, hostile bytes", "Random queries, nesting and widths around the documented limits, truncated and mutated encodings."),
    "Q04": (X, "runtime monitor: derived views of a path query against an independent reading of the query", "Random path queries; every path they lead to over a six key alphabet; terminal keys only for keys and one-byte ranges, as documented."),
    "M01": (F, "runtime monitor with injected store faults: mountain range histories against an independent commitment", "Random append, commit, reopen and fault histories; root, peaks, values recomputed independently with blake3 (collision resistance assumed)."),
    "M02": (X, "runtime monitor with a forging prover: accepted mountain range proofs against the true leaves", "Honest proofs for random index sets, and forged, permuted, truncated and byte-mutated proofs against the true root."),
    "D01": (F, "runtime monitor with injected store faults: dense tree histories against an independent commitment", "Random insert, reopen and fault histories for all heights up to 16; root recomputed independently."),
    "D02": (X, "runtime monitor with a forging prover: accepted dense proofs against the true values", "Honest proofs for random position sets and queries, and forged, thinned and byte-mutated proofs against the true root."),
    "B01": (F, "runtime monitor with injected store faults: bulk append histories against an independent two-level tree", "Random append, compaction, flush, reopen and fault histories, heights 1 to 4, immediate and deferred storage."),
    "B02": (X, "runtime monitor with a forging prover: accepted bulk proofs against the true values in range", "Honest proofs for random ranges and queries, and forged, re-laid and byte-mutated proofs against the true state root."),
    "P01": (X, "runtime monitor with a forging prover: accepted database proofs against a reference model", "Random small databases of all element kinds, random nested queries; proofs made by an independent prover, then lied about, re-laid, thinned and byte-mutated; version 1 proofs (version 0 is lenient by design and only compared where it binds); blake3 taken as collision free."),
    "P03": (X, "runtime monitor: all verification entry points on one proof against each other and the reference model", "As P01, with every entry point called on each proof; absence and chained verification against the model's answer."),
    "P04": (X, "runtime monitor: hostile bytes through every decoder and verifier under an allocation monitor, overflow and bounds checks on", "Mutated genuine proofs, operation streams, extreme append-only claims, deep and wide nesting; bounds are the documented decoder limits; no hang means under 150 CPU seconds per case; the commitment tree crate is not buildable here."),
    "P05": (X, "runtime monitor with a forging prover: accepted trunk and branch chunks against the true tree", "Random trees of all kinds, depths and limits; genuine chunks and forged, re-laid, byte-mutated ones; references among the shown nodes are left out of the acceptance part."),
    "P07": (X, "runtime monitor: maps extracted from partial proofs against the shown and hidden parts of a known tree", "Random key orders with random hidden gaps; every key around the shown ones and random ranges of all bound kinds; empty ranges are open outcomes."),
    "E03": (X, "runtime monitor: every element kind in every tree kind against tables written from the documentation", "Random parts at the integer limits for every kind, wrappers included; tables written independently of the code's match arms."),
    "Q05": (X, "runtime monitor: regrouped answers against the plain list of rows", "Random row lists with colliding and prefix-sharing paths through every regrouping and conversion."),
    "Q06": (X, "runtime monitor: built queries against the key sets and branches the calls describe", "Random sequences of insertions of all item kinds, all constructors; equality by membership of every key near the bounds."),
    "P06": (X, "runtime monitor: proof operation streams through encoder and decoder, hostile bytes", "Random operation streams of all node kinds and value sizes around the encoding's size classes; padded and mutated encodings; equality of operations is the derived one."),
    "V01": (X, "runtime monitor: differential execution of every versioned operation under perturbed version tables, refusals parsed and compared", "One fixed database; every slot times eleven numbers times every operation; the check macros over all 65536 numbers."),
    "P02": (X, "runtime monitor: proofs of random queries on random databases, verified and compared with an independent query model", "Databases made by random histories of up to 40 operations on a store stand-in; queries with ranges, limits, subqueries and paths; trunk and branch chunks; proofs in the earlier format."),
    "G01": (X, "runtime monitor: every read after every operation of random histories against a model of nested ordered maps", "Histories of up to 60 operations on the real database over a store stand-in; the model predicts refusals too; derived query forms compared with the plain one."),
    "G02": (X, "runtime monitor: the root hash recomputed from stored rows after each operation, verification and reopening at any time", "Histories of up to 70 operations; all earlier contents and hashes of a history are compared pairwise."),
    "G03": (X, "runtime monitor with twin executions: batches against the model's operations one by one, and against other listings of the same batch", "Random batches of up to a dozen operations over existing and new subtrees; known limits in DESIGN.md."),
    "G04": (F, "runtime monitor with injected storage faults: stored rows compared before and after the failed operation", "A random read, write or transaction operation of each faulted operation fails, then the operation is issued again."),
    "G05": (X, "trace monitor over interleaved histories of a transaction and operations beside it", "Interleavings of one open transaction with direct operations (transactions of their own), one thread."),
    "G06": (F, "runtime monitor with injected crashes: rows after reopening against the states before and after", "Crash before, after or within a storage write of random operations; torn writes are those the store would replay in whole."),
    "G07": (X, "runtime monitor: every stored aggregate recomputed from the contents after each operation", "Nested aggregate trees with values up to the integer limits, histories of up to 70 operations."),
    "G08": (X, "runtime monitor: reads through references against a model that follows them, recorded hashes against their targets", "All reference kinds, chains, cycles and dangling targets in histories of up to 70 operations."),
    "G09": (X, "runtime monitor: reported bytes summed over random histories against the cost of building the present contents from nothing", "Histories of up to 60 operations over all tree kinds; the present contents rebuilt in random order and grouping; accounts start afresh after whole subtrees are removed at once; worst-case estimates of fresh insertions below plain trees; owners and epochs in flags (per owner exact, per epoch approximate by design)."),
    "G10": (X, "runtime monitor with a dishonest peer: received rows compared with the source's, changed chunks must be refused", "Chunks in random order and groupings; byte and operation changes of one chunk in each spoilt sync; no append-only trees. One known finding."),
    "G11": (X, "runtime monitor: checkpoints reopened at any later time against the contents when taken", "Checkpoints of a store stand-in whose checkpoint is a copy; writes to either side."),
    "G12": (X, "runtime monitor: audit of every stored row after deletions and clears", "Nested trees of every kind, every delete and clear variant, alone, batched and in histories."),
    "S01": (X, "runtime monitor: random work on storage contexts against a plain map of rows, with the cost of every step", "Up to a dozen subtrees with neighbouring prefixes, sessions of up to three transactions of up to five batches; on a stand-in for RocksDB."),
    "G14": (F, "runtime monitor with injected storage faults: append-only trees in the database against independent models", "Appends alone, in batches and transactions, with storage faults; rows, counts, roots and parents audited."),
    "G15": (X, "undefined-behaviour interpreter (Miri) and AddressSanitizer over histories of state sync sessions", "The only unsafe code the public interface reaches is that of state sync sessions; random sources, subtree batch sizes, chunk orders, changed and repeated chunks, sessions dropped, moved, committed early or late; tens of histories under Miri, thousands under AddressSanitizer; the storage engine is a stand-in in safe Rust."),
}
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
ids = [p["id"] for p in props]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
NOT = {
    "G13": "The monitor would have to watch several threads on the real storage engine, and RocksDB cannot be built here (its C++ sources are not available offline); the stand-in that replaces it has its own locking, so races observed or not observed there say nothing about dashpay/grovedb. The database hands its concurrency control to RocksDB transactions, which take no snapshot, and has no locks of its own. What one thread can decide - isolation of an open transaction from operations beside it - is decided by G05.",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
         "technique": CHECKS[i][1], "level": CHECKS[i][0], "level_note": CHECKS[i][2]}
        for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT.get(i, "The technique applies, its monitor is not built yet.")} for i in ids if i not in CHECKS],
    "notes": "Each check builds its harness crate from /repo's working tree (harness/*, offline, shims/ stand in for the two git dependencies that are not available) and runs it. Replay files are text descriptions of the failing case; the case is reproduced by running the check again with the same VERIF_SEED.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
