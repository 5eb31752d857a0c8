#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
CLAIMED = ["C%02d" % i for i in range(1, 32)]
T = {
 "C01": ("round-trip oracle over generated values", "value equality and byte equality after write/read/write of Arbitrary-generated, reference-generated and large values of all 12 formats"),
 "C02": ("independent reference encoder plus monitored output stream", "every byte and every field compared with an encoder driven by a frozen table of the format; write-placement monitor on the output stream"),
 "C03": ("hostile-input monitoring (panic, abort, progress, status)", "mutated, truncated, field-attacked and random inputs to all readers; overflow checks and debug assertions on"),
 "C04": ("hostile-input monitoring (panic, abort, progress)", "field-level corrupted low-level values and mutated files through every high-level reader and back"),
 "C05": ("allocation and stream-operation monitor", "peak memory and stream operations compared with bytes delivered, for every count and length field inflated"),
 "C06": ("normalisation oracle over readable hostile files", "write/reread/rewrite comparison on mutated and loosely laid out files"),
 "C07": ("dispatch and API-path agreement monitor", "all type magics, version grid and all reading and writing paths compared"),
 "C08": ("JSON round-trip oracle, in process and through the real tool", "files of an independent encoder converted to JSON and back by the library and by the built ssbh_lib_json; JSON compared with the encoder's content; edited and foreign JSON must be rejected or mean what it says; floats swept (all 2^32 in the thorough tier)"),
 "C09": ("JSON round-trip oracle, in process and through the real tool", "generated values and file contents through serde and the built ssbh_data_json; JSON compared with the Debug tree of the value and with an independent model"),
 "C10": ("round-trip oracle with an independent track decoder", "generated animations of both writable versions, compared field by field and frame by frame; buffers decoded a second time by an independent decoder"),
 "C11": ("error-bound monitor over lossy compression", "every decoded component compared with the original within the quantisation step derived from the range and bit count actually stored"),
 "C12": ("differential decoding against an independent decoder", "generated track buffers with all flags, bit widths 0-64, ranges and defaults, decoded by the library and by a decoder written from the format documentation"),
 "C13": ("round-trip oracle at stored precision", "generated meshes of all three versions compared attribute by attribute with the declared storage type's rounding, plus indices, weights and flags"),
 "C14": ("invariant checker over written meshes", "independent decoder of the written container: strides, ranges, overlap, alignment, index ranges, counts, rigging flags"),
 "C15": ("geometric containment monitor", "spheres, boxes and oriented boxes recomputed from the written positions, for every object, the whole mesh and mesh object groups"),
 "C16": ("round-trip oracle plus independent decoder of the written file", "generated materials of every parameter kind; raw codes decoded from the bytes; version 1.5/1.6 files in any order compared with an independent model"),
 "C17": ("round-trip oracle plus double-precision matrix reference", "bone forests in any order; world matrices and inverses within componentwise rounding bounds; cycle, limit and dangling-parent inputs"),
 "C18": ("round-trip oracle plus independent model", "generated model and helper-bone values and files; derived constraint tables checked"),
 "C19": ("reference recomputation plus round-trip oracle", "adjacency recomputed from faces and positions; group grouping, name stripping and spheres recomputed"),
 "C20": ("rejection monitor", "values outside every representable limit, one at a time and combined, must give an error or an exact round trip; never a different file"),
 "C21": ("fault injection on every stream operation", "permanent and single faults, short transfers, interruptions, full devices and unwritable paths at every operation index of reads and writes"),
 "C22": ("differential execution monitor", "complete result traces repeated in one process, on threads and in processes with differing environments"),
 "C23": ("runtime layout monitor", "260 generated structures using the derive, random values, written through a recording writer and compared byte for byte (and for write-once, position, data pointer) with an independent layout interpreter"),
 "C24": ("compiler sanitizers, undefined-behaviour interpreter and allocator balance", "every entry point of the library under AddressSanitizer, MemorySanitizer, ThreadSanitizer (shared values on racing threads) and Miri; repeated runs of each subject must return the allocator to balance; overflow checks on"),
 "C25": ("process-level monitor of the built tools", "exit status, messages and the complete file tree before and after each invocation compared with a model of the command line contract, over generated content, names, output forms and folders"),
 "C26": ("differential decoding against an independent encoder and decoder", "generated shader binaries compared entry by entry; damaged ones judged by a strict independent decoder"),
 "C28": ("exhaustive and generated differential monitor of the shared types", "all codes of all enumerations, generated strings, pointer graphs, arrays with arguments, vectors and state values compared with plain re-implementations"),
 "C29": ("differential execution monitor across build configurations", "one driver built with eight feature sets and profiles; digests of every result on generated, library-written and damaged files must agree"),
 "C30": ("history monitor over chains of operations", "content and bytes compared after every step of random chains of saves, loads, conversions, version changes, edits and compositions of generated and foreign files"),
 "C31": ("differential decoding against an independent decoder", "mesh, adjacency and version 1.2 animation files of random arrangement, hostile offsets included, compared with values taken from the stored bytes by the table"),
 "C27": ("reference recomputation in double precision", "transforms, normals, tangents and conversions compared with a double-precision reference; error inputs for every precondition"),
}
checks = []
for i in CLAIMED:
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors use only public interfaces, so /repo is built as it is", "source_commits": []},
     "checks": checks, "not_applicable": []}
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
for i in props:
    if i not in CLAIMED:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
