"""The message definition tables: ground obligations, one instance per definition (every definition of every table).

layouts.json holds the documented layouts (of the pinned commit): names, types and positions have to stay; definitions and
trailing attributes may be added."""

import json
import os
import re

import pynmeagps.nmeatypes_core as core
from pynmeagps import NMEAMessage
from pynmeagps.nmeatypes_get import NMEA_PAYLOADS_GET
from pynmeagps.nmeatypes_get_prop import NMEA_PAYLOADS_GET_PROP
from pynmeagps.nmeatypes_poll import NMEA_PAYLOADS_POLL
from pynmeagps.nmeatypes_poll_prop import NMEA_PAYLOADS_POLL_PROP
from pynmeagps.nmeatypes_set import NMEA_PAYLOADS_SET
from pynmeagps.nmeatypes_set_prop import NMEA_PAYLOADS_SET_PROP
from pyvc.harness import Const, contract, ensure

TABLES = {"GET": NMEA_PAYLOADS_GET, "GET_PROP": NMEA_PAYLOADS_GET_PROP, "SET": NMEA_PAYLOADS_SET,
          "SET_PROP": NMEA_PAYLOADS_SET_PROP, "POLL": NMEA_PAYLOADS_POLL, "POLL_PROP": NMEA_PAYLOADS_POLL_PROP}
TYPES = ["CH", "DE", "DT", "DTL", "DM", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM"]
MEMBERS = [n for n in dir(NMEAMessage)]
IDS = list(core.NMEA_MSGIDS) + list(core.NMEA_MSGIDS_PROP) + list(core.NMEA_PREFIX_PROP) + ["QTMACK", "QTMNAK"]     # replies of every PQTM command
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "layouts.json"), encoding="utf-8") as _f:
    LAYOUTS = json.load(_f)
DEFS = [(t, k) for t in TABLES for k in TABLES[t] if k != "FOO"]     # FOO: deliberately wrong, for the tests
DOCUMENTED = [(t, k) for t in LAYOUTS["tables"] for k in LAYOUTS["tables"][t]]


def each(items):
    return lambda rng: iter([{"which": i} for i in items])


def well_formed(d, depth, seen, counts):
    """None, or what is wrong with the definition"""
    for name, spec in d.items():
        if not isinstance(name, str) or not name.isidentifier():
            return "name"
        if isinstance(spec, str):
            if spec not in TYPES:
                return "type"
            if name in MEMBERS or name[0] == "_":
                return "name shadows a member of the message"
            if (depth, name) in seen:
                return "name used twice"
            if name[-1].isdigit() and re.search(r"_\d\d+$", name) is not None:
                return "name looks like a group member"
            seen.append((depth, name))
            counts.append(name)
            continue
        if not isinstance(spec, tuple) or len(spec) != 2:
            return "neither type nor group"
        num, group = spec
        if not isinstance(group, dict) or len(group) == 0:
            return "empty group"
        if isinstance(num, str):
            if num != "None" and num not in counts:
                return "count is no earlier attribute"
        elif not isinstance(num, int) or num < 1:
            return "count"
        wrong = well_formed(group, depth + 1, seen, counts)
        if wrong is not None:
            return wrong
    return None


@contract("C23", inputs={"which": Const(*DEFS)}, gen=each(DEFS))
def definition_well_formed(which):
    table, key = which
    wrong = well_formed(TABLES[table][key], 0, [], [])
    ensure("known types, countable groups, unique names", wrong is None, wrong)
    ensure("key belongs to a known message id", any(key.startswith(i) for i in IDS))


def extends(d, layout):
    """every attribute of the layout is there, with its type, in its position"""
    items = list(d.items())
    if len(items) < len(layout):
        return False
    for k in range(len(layout)):
        name, want = layout[k]
        got_name, got = items[k]
        if got_name != name:
            return False
        if isinstance(want, str):
            if got != want:
                return False
        else:
            if not isinstance(got, tuple) or got[0] != want[0] or len(got[1]) != len(want[1]) or not extends(got[1], want[1]):
                return False
    return True


@contract("C23", inputs={"which": Const(*DOCUMENTED)}, gen=each(DOCUMENTED))
def documented_layout(which):
    table, key = which
    ensure("documented messages are defined", key in TABLES[table])
    ensure("attributes keep name, type and position", extends(TABLES[table][key], LAYOUTS["tables"][table][key]))


@contract("C23", inputs={}, gen=lambda rng: iter([{}]))
def documented_ids():
    ensure("standard ids", all(i in core.NMEA_MSGIDS for i in LAYOUTS["ids"]))
    ensure("proprietary ids", all(i in core.NMEA_MSGIDS_PROP for i in LAYOUTS["ids_prop"]))
    ensure("proprietary prefixes", all(i in core.NMEA_PREFIX_PROP for i in LAYOUTS["prefixes"]))
    ensure("talkers", all(i in core.NMEA_TALKERS for i in LAYOUTS["talkers"]))
    ensure("no id is both standard and proprietary", not any(i in core.NMEA_MSGIDS for i in core.NMEA_MSGIDS_PROP))
    ensure("standard definitions are of standard ids", all(
        any(k.startswith(i) for i in core.NMEA_MSGIDS) for t in ("GET", "SET") for k in TABLES[t]))
    ensure("types", all(t in core.VALID_TYPES for t in TYPES))
