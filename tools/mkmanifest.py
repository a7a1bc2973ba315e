"""writes MANIFEST.json from the claims below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the Python source (pyvc VC generator, z3/cvc5)"
BASE = ("All obligations are generated from /repo's current source on every run and discharged for all inputs and all loop "
        "iterations; partial correctness (no termination proof). ")
# property -> level note
CLAIMS = {
    "C01": "calc_checksum / generate_checksum against the XOR fold.",
    "C02": "NMEAReader.parse against the acceptance rule; the constructor is used by contract (a function of its arguments that "
           "raises only its two errors: C13).",
    "C03": "get_parts against an independent specification of splitting. UTF-8 decoding of arbitrary bytes is a trusted model.",
    "C04": "constructor with a payload and serialize() against an independent specification, for any header, flags, definitions and fields; "
           "parse() hands exactly the fields and checksum to it by C02/C03. _get_dict (C14, C15) and _set_attribute (C06, C07) are used by contract.",
    "C05": "constructor with a payload or keywords, generate_checksum and serialize() against the specification, for any definition; "
           "_get_dict (C14, C15) and _set_attribute (C27) by contract.",
    "C06": "_set_attribute for one attribute of an arbitrary definition from an arbitrary state (recursive calls by contract, so by "
           "induction on the definition), and the constructor's loop over the definition. str2val is used by contract (C09).",
    "C07": "_set_attribute for a fixed, named or open group of an arbitrary definition from an arbitrary state; the body of the group is used by contract "
           "(induction on depth). Named counts are assumed not to be bool, open groups not empty; int(a/b) is exact below 2^53.",
    "C08": "_set_attribute for one attribute, both directions, from an arbitrary state; str2val and val2str by contract (C09, C10).",
    "C12": "__repr__ against the specified constructor call, and that the text names every argument the constructor needs; that eval of repr text "
           "gives back the value (Python's own repr of str, int, list) is trusted in the proof and run natively.",
    "C13": "constructor and _set_attribute: exactly the documented errors, for any arguments of the documented types; parse() uses the constructor by this "
           "contract, _get_dict by its contract (C14).",
    "C14": "_get_dict against the specification of selection, for every mode, talker, msgID, payload and keywords, with definition tables of arbitrary contents; "
           "message identity properties from the constructor.",
    "C15": "every variant function and _get_dict against the specification of variants, for every payload and keywords; tables of arbitrary contents.",
    "C16": "__setattr__ after construction, the end of __init__, and every public method and property leave the message's state as it is.",
    "C27": "_set_attribute for one attribute or group of an arbitrary definition from keywords, the constructor's loop, and nomval; val2str by contract (C10).",
    "C28": "frame conditions: module-level containers, default arguments, class attributes and arguments are not written on any path of the functions under contract "
           "(`global`, and writes to shared containers, are obligations that fail).",
    "C09": "str2val/date2utc/time2utc/dmm2ddd against an independent reading of the field formats, all texts, all attribute types.",
    "C10": "str2val(val2str(v)) for every attribute type; float text is modelled as correctly rounded decimal.",
    "C11": "ddd2dmm / dmm2ddd: digits, carry, rounding, for all reals in range; float arithmetic is treated as real arithmetic "
           "(reported as an assumption; the native runs use real floats).",
    "C17": "NMEAReader.read / __next__ against a specification of reading (a tail recursive function of the rest of the stream), for "
           "every stream, any number of reads, all configurations; parse() is used by contract (C02). Loop invariants are found by "
           "the checker and proved inductive.",
    "C18": "the same contract as C17: errors, handler calls, log records and what is left of the stream.",
    "C19": "SocketWrapper.read / readline / write for any history of calls over a socket that delivers any pieces, times out, fails "
           "or closes (encoding 0; with chunked encoding: C20).",
    "C20": "dechunk against a specification of chunked decoding for any segment of a well formed stream; then any history of reads "
           "over any segmentation, with dechunk used by that contract. zlib and int(.., 16) are uninterpreted partial functions.",
    "C21": "leapsecond against the IERS table for all times and systems (aware UTC and naive; other zones natively). datetime is "
           "modelled as integer microseconds.",
    "C22": "utc2wnotow / wnotow2utc for all times from the epochs; autoroll of week numbers and the default "
           "time (an arbitrary clock reading) included; leapsecond is used by its contract (C21).",
    "C23": "ground obligations over every definition of every table: well-formedness and the documented layouts (contracts/layouts.json).",
    "C24": "haversine, bearing, planar, area, llh2ecef against their formulas over the reals (sin, cos, sqrt, acos, atan2 axiomatised); "
           "independent vector oracles and ecef2llh accuracy are bounded native checks.",
    "C25": "deg2dmm, deg2dms, latlon2*, llh2iso6709 over the reals; dms2deg (regular expressions) is a bounded native check, not proved.",
    "C26": "groupsize, hex2str, knots2spd, msgdesc for all arguments; digit-level meaning of hexadecimal formatting is natively checked.",
}
LEVELS = {}
NA = {}


def main():
    import sys
    sys.path.insert(0, HERE)
    checks = []
    for pid in sorted(CLAIMS):
        checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {pid}",
                       "evidence_file": f"evidence/{pid}.json", "technique": TECH,
                       "level": LEVELS.get(pid, "proof"), "level_note": BASE + CLAIMS[pid]})
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    na = [{"property": i, "reason": NA.get(i, "contracts for it are not finished yet")} for i in ids if i not in CLAIMS]
    m = {"version": 1, "setup_cmd": "python3-vt check.py --list",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. pyvc (in /verif/pyvc) extracts every function from /repo/src on each run."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
