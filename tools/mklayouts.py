"""writes contracts/layouts.json: the message layouts of the pinned commit (run once; the result is committed)"""
import json
import os
import sys

sys.path.insert(0, "/repo/src")
import pynmeagps.nmeatypes_core as core
from pynmeagps.nmeatypes_get import NMEA_PAYLOADS_GET
from pynmeagps.nmeatypes_get_prop import NMEA_PAYLOADS_GET_PROP
from pynmeagps.nmeatypes_poll import NMEA_PAYLOADS_POLL
from pynmeagps.nmeatypes_poll_prop import NMEA_PAYLOADS_POLL_PROP
from pynmeagps.nmeatypes_set import NMEA_PAYLOADS_SET
from pynmeagps.nmeatypes_set_prop import NMEA_PAYLOADS_SET_PROP


def flat(d):
    return [[k, v if isinstance(v, str) else [v[0], flat(v[1])]] for k, v in d.items()]


T = {"GET": NMEA_PAYLOADS_GET, "GET_PROP": NMEA_PAYLOADS_GET_PROP, "SET": NMEA_PAYLOADS_SET, "SET_PROP": NMEA_PAYLOADS_SET_PROP,
     "POLL": NMEA_PAYLOADS_POLL, "POLL_PROP": NMEA_PAYLOADS_POLL_PROP}
out = {"tables": {n: {k: flat(d) for k, d in t.items()} for n, t in T.items()},
       "ids": list(core.NMEA_MSGIDS), "ids_prop": list(core.NMEA_MSGIDS_PROP), "prefixes": list(core.NMEA_PREFIX_PROP),
       "talkers": list(core.NMEA_TALKERS)}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "layouts.json")
with open(p, "w", encoding="utf-8") as f:
    json.dump(out, f, indent=0, sort_keys=False)
