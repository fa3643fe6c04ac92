#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
GEN = ("Exhaustive enumeration of the bounded space of schemas and, per schema, of inputs/values/operation sequences given in DESIGN.md; "
       "every explored state is executed on the code the real compiler generates from /repo linked to the real runtime and compared with an independent reference model. ")
TRUST = "Trusts the reference model (harness/spec), rustc, and that behaviour beyond the bounds is uniform; not a proof."
T = "explicit-state enumeration on the generated code against a reference model"
C = {
 "C01": (T, "BFS over field writes from several images, every (bit offset, width, endianness) pair, every one- and two-field structure over a width alphabet."),
 "C02": (T, "Walking-bit images and sizes of the same structures, arrays, far offsets, and all scalar carriers in messages, in default, little and big endianness."),
 "C03": (T, "Every raw value of fields up to a width bound and boundary values above, through every view."),
 "C04": (T, "Enum value sets x field widths; every raw value up to a width bound, boundary values above; enums that do not fit must be rejected."),
 "C05": (T, "Widths x ranges/multipliers; all raws up to a width bound, boundary raws above; value grid with one-step tolerance."),
 "C06": (T, "Item types x lengths x positions; all operation sequences up to a depth, against a vector model."),
 "C07": (T, "Nesting up to depth 3 with neighbours: all windows and leaves, reads and writes, against a flattened layout."),
 "C08": (T, "All messages of one and two fields over the whole field-kind alphabet (and embeddings); product of small value domains; write then read."),
 "C09": (T, "Same messages: produced bytes against the reference encoder."),
 "C10": (T, "All byte strings over a byte alphabet up to a length bound, all one-byte mutations and prefixes of valid encodings; panics, hangs, sizes and iteration lengths."),
 "C11": (T, "Every prefix and several suffixes of every valid encoding."),
 "C12": (T, "Every byte string of the C10 space which decodes is re-encoded and compared."),
 "C13": (T, "Every byte string of the C10 space decoded with offsets against the reference positions."),
 "C14": (T, "Size computation against written bytes for every value, including values which must be refused."),
 "C15": ("exhaustive fault injection at the output sink, all plans with a bounded number of deviations", "Every sink answer plan with at most the bounded number of deviations (short write, interruption, error, zero) for every value."),
 "C16": (T, "All (case, stored discriminant) pairs over union shapes, including every raw discriminant of small fields."),
 "C17": (T, "All histories up to a depth over {add, failing add, add many, edit} on the real collections, against a vector model."),
 "C18": (T, "Lengths around each prefix boundary and all NUL placements: refused, or read back equal."),
 "C19": ("exhaustive enumeration of mutated schemas against a validity predictor, on the real compiler", "All single and selected pairs of mutations of base schemas, and every schema of the other spaces."),
 "C20": ("exhaustive enumeration of accepted schemas, each compiled by rustc together with probes of the promised interface", "All schema spaces of the other checks: every accepted schema must generate code that builds with probes of every promised item."),
 "C21": ("exhaustive enumeration of generation histories, orders and hash seeds (processes) compared byte by byte", "All pairs/orders of generations of a schema alphabet within a process and across processes."),
 "C22": (T, "Import topologies (three protocols, re-imports, same names, mixed endianness), with the codec checks run on the importing protocols, plus erroneous imports."),
 "C23": ("exhaustive enumeration of option sets, schema shapes and earlier runs against a file-set model", "All 2^6 option sets x which sections the schema has x earlier runs; the build-script entry point in its own process."),
 "C24": ("exhaustive enumeration of templates and scope operation sequences against a reference interpreter", "All templates over a token alphabet up to a length bound, all scope operation sequences up to a depth."),
 "C25": ("explicit-state enumeration of codec calls against a bit model", "Every (carrier type, offset, size, buffer length, endianness) with image and value alphabets; byte and value codecs."),
 "C26": (T, "Embedding contexts x embedded messages x definition order: value, consumption and following bytes."),
}
have = os.environ.get("HAVE", " ".join(C)).split()
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} --tier quick", "thorough_cmd": f"./check.sh {p} --tier thorough",
   "technique": "model checking: " + t, "level": "fault_enumeration" if p == "C15" else "model_checking", "level_note": GEN + n + " " + TRUST}
   for p, (t, n) in C.items() if p in have],
 "not_applicable": [{"property": "C27", "reason": "no Swift toolchain in the sandbox: the Swift runtime cannot be executed, and the compiler's Swift generator is unreachable from its public interface"}]
   + [{"property": p, "reason": "its check is still being built"} for p in C if p not in have],
 "notes": "No hooks: everything is reached through the public interfaces. Repairs are the fix: commits in /repo, listed with recorded findings in known-findings.txt.",
}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
