#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed checks are listed here; every other property goes to not_applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "stateless model checking of the implementation"
CL = {
 "C01": ("model_checking", M + ": exhaustive enumeration of input-delivery schedules (splits, chunk sizes, short reads, skips, size estimates), one-shot decode as oracle"),
 "C03": ("model_checking", M + ": exhaustive enumeration of seek sequences, sequential decode as oracle"),
 "C04": ("model_checking", M + ": exhaustive enumeration of skip/decode/scan choice sequences, full decode as oracle"),
 "C05": ("model_checking", M + ": systematic exploration of all schedules of the parallel sections at every synchronisation operation up to a preemption bound, and of item orders, sequential decode as oracle"),
 "C06": ("model_checking", M + ": exhaustive injection of a failure at every work item and runner call, alone and under bounded schedules, with sequential verdict as oracle"),
 "C07": ("model_checking", M + ": exhaustive enumeration of flush points over delivery schedules, unflushed decode as oracle"),
 "C08": ("model_checking", M + ": exhaustive truncation-point (crash-point) enumeration with resumption"),
 "C09": ("fault_enumeration", M + ": exhaustive single-fault enumeration over stored bytes with invariant monitors"),
 "C10": ("model_checking", M + ": exhaustive enumeration of output configurations (formats, byte orders, strides, channel selections, widths) and of all sample values, conversion reference model over the float output as oracle"),
 "C11": ("model_checking", M + ": exhaustive enumeration of orientations x sizes x frame kinds x formats x delivery and parallel schedules, coordinate-map model over the unoriented decode as oracle"),
 "C12": ("model_checking", M + ": exhaustive enumeration of operations x value tuples x lanes x offsets x instruction-set levels, scalar definitions as oracle"),
 "C13": ("model_checking", M + ": exhaustive enumeration of bounded entropy-code configurations (code shapes, alphabets, integer configurations, LZ77, context maps) x symbol sequences, encoder-side model as oracle; all single mutations of code descriptions against a reference validity predicate"),
 "C14": ("model_checking", M + ": exhaustive enumeration of bit-reader operation sequences up to a depth at every position and length, and of every field encoding, bit-list model as oracle"),
 "C18": ("model_checking", M + ": exhaustive enumeration of bounded command sequences of compressed profiles (commands, predictors, tags, sizes) and of delivery splits, plain interpreter as oracle"),
 "C19": ("model_checking", M + ": exhaustive enumeration of colour descriptions and of sample values through every transfer function, independent profile reader and formulas as oracle"),
 "C20": ("model_checking", M + ": exhaustive enumeration of basis vectors (linearity) of every block transform x instruction set, mathematical transform in double precision as oracle"),
 "C16": ("model_checking", M + ": exhaustive enumeration of bounded modular bitstreams (trees, predictors, transforms, sizes, groups), reference sample model as oracle"),
 "C17": ("model_checking", M + ": exhaustive enumeration of bounded frame sequences (slots, blends, crops), composition state model as oracle"),
 "C24": ("model_checking", M + ": exhaustive interleavings of two decoders at call granularity, isolated decode as oracle"),
 "C26": ("model_checking", M + ": exhaustive enumeration of option combinations over all files, default decode plus per-option reference model as oracle"),
 "C25": ("model_checking", M + ": exhaustive enumeration of signature prefixes and one-byte changes, definition as oracle"),
 "C02": ("model_checking", M + ": exhaustive enumeration of box sequences (kinds, sizes, part numbers, cuts) x deliveries, container state model and the bare codestream as oracle"),
 "C15": ("model_checking", M + ": exhaustive enumeration of header field encodings one and two at a time and of section permutations, own header model as oracle"),
 "C21": ("model_checking", M + ": exhaustive enumeration of features x sizes x group sizes x section orders, plain whole-picture rendering model as oracle"),
 "C22": ("model_checking", M + ": exhaustive enumeration of limits around every stated size and of inflated claims at all magnitudes x deliveries, limit model and allocation bound as oracle"),
 "C27": ("model_checking", M + ": exhaustive enumeration of bounded VarDCT frames (transforms, coding choices alone and mixed, section orders, forbidden values) written by an own encoder, the defining sums in double precision as oracle"),
 "C28": ("model_checking", M + ": exhaustive enumeration of arrival states of progressive frames with a flush at every one, partial-picture model as oracle"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NOTE = {}
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [], "not_applicable": []}
for p in props:
    if p in CL:
        lv, t = CL[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
            "technique": t, "level": lv,
            "level_note": NOTE.get(p, "Every execution within the bounds recorded in the evidence file is run on the real code; bounds per property are in DESIGN.md.")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Not claimed yet: the check for this property is still being built.")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
