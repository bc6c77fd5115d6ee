#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("random and structured trees materialised and scanned, compared with a reference model of the signature", "exploration"),
 "C02": ("generated trees scanned, output against a reference writer, an independent strict grammar reader and the hash.sh script", "exploration"),
 "C03": ("generated trees and output sinks, footer against an independent digest of the bytes", "exploration"),
 "C04": ("generated contents around block boundaries with shortened reads, hashes against independent block digests", "exploration"),
 "C05": ("metamorphic: two materialisations of one generated tree must have identical signatures", "exploration"),
 "C06": ("differential: threaded scans under generated schedules against the single-threaded scan", "exploration"),
 "C07": ("metamorphic: generated mutation of a generated tree must change body and footer", "exploration"),
 "C08": ("fault injection at every write, flush and byte of the output sink over generated trees", "fault_enumeration"),
 "C09": ("fault injection at every system call on the source tree, and generated races with the scan", "fault_enumeration"),
 "C10": ("generated trees with symlinks out of the tree, opened paths and tree snapshots monitored", "exploration"),
 "C11": ("generated signatures parsed through generated readers, compared with a reference model", "exploration"),
 "C12": ("generated single-fault mutations and truncations of signatures, judged by a reference reader", "exploration"),
 "C13": ("structured and byte-level fuzzing of all readers with panic, progress and allocation oracles", "exploration"),
 "C14": ("model-based testing: generated sequences of next and advance against a sorted cursor", "exploration"),
 "C15": ("generated and small exhaustive path sets, order laws and agreement with scans", "exploration"),
 "C16": ("model-based testing: generated signature sets and call sequences against a k-way merge model", "exploration"),
 "C17": ("generated header combinations and files, compared with the specified acceptance rule", "exploration"),
 "C18": ("generated and damaged signatures read through generated readers, compared with their footer", "exploration"),
 "C19": ("generated contents, block sizes and readers, hashing and checking against independent block digests", "exploration"),
 "C20": ("round trip and reference writer over generated emitter histories, with fault injection in the sink", "exploration"),
 "C21": ("generated trees of growing size under a counting allocator and descriptor monitor, with blocked workers", "exploration"),
 "C22": ("metamorphic: a generated tree split over several roots must give the signature of the union", "exploration"),
 "C23": ("generated command lines and trees run through the built binary, compared with the library", "exploration"),
 "C25": ("generated trees, configurations and faults, reports on standard error judged against the tree and the signature", "exploration"),
 "C26": ("model-based: a synchroniser over two generated trees must rebuild one from the other with minimal transfer", "exploration"),
 "C27": ("metamorphic: generated operations in generated orders, turns and at the same time must give the results they give alone", "exploration"),
 "C28": ("model-based: generated sequences of setters and scans against the last value of each option, generated names", "exploration"),
 "C29": ("metamorphic: scans of generated trees, their subdirectories and their changed versions compared part by part", "exploration"),
 "C30": ("model-based: the log of scans of generated trees against the special files that were put there", "exploration"),
 "C31": ("generated operations, successful, failing and abandoned, repeated under a counting allocator, descriptor and thread monitor", "exploration"),
 "C32": ("generated entries and near copies of them, parsed and compared in both directions with the fields they were made of", "exploration"),
 "C24": ("metamorphic: generated modifications must be exactly what an audit through the public interface reports", "exploration"),
}
NOTE = {
 "C06": "Schedules are forced by holding worker opens until a generated priority order lets them go; interleavings inside the thread pool crate are only sampled. Blake3 differs by a listed finding.",
 "C08": "Every write call, flush and byte limit of the generated cases is enumerated up to a bound; the sink is the harness's own.",
 "C09": "Every system call of each kind on the scanned tree is failed once per generated case up to a bound; real races are sampled.",
 "C21": "Bounds are checked with generous constants; growth is measured by comparing peaks at several sizes.",
 "C27": "Interleavings of real threads are sampled, not enumerated.",
 "C23": "The binary is built from /repo/src/bin/index.rs by a wrapper crate with and without the threads feature.",
}
checks = []
for i, (t, l) in sorted(T.items()):
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t, "level": l,
        "level_note": "Sampled search with shrinking, no proof. " + NOTE.get(i, "Trusts the reference model written from FORMAT.v1.rst and the digest crates.")})
m = {"version": 1, "setup_cmd": "./build.sh harness cli",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: faults and schedules are injected by interposed libc symbols in the harness binary. Findings: known-findings.txt."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
