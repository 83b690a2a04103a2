"""One-off: freeze the published field dictionary of the pinned release (after the
fix: commits listed in known_findings.jsonl) as golden/tables.json.  Not run by checks."""
import json, sys
sys.path.insert(0, "/repo/src")
from pynmeagps import nmeatypes_core as c, nmeatypes_get as g, nmeatypes_get_prop as gp
from pynmeagps import nmeatypes_set as s, nmeatypes_set_prop as sp, nmeatypes_poll as p, nmeatypes_poll_prop as pp
from pynmeagps import nmeatypes_decodes as d
def conv(dic):
    return [[k, [v[0], conv(v[1])]] if isinstance(v, tuple) else [k, v] for k, v in dic.items()]
def tab(t): return {k: conv(v) for k, v in t.items()}
out = {
 "GET": tab(g.NMEA_PAYLOADS_GET), "GETP": tab(gp.NMEA_PAYLOADS_GET_PROP),
 "SET": tab(s.NMEA_PAYLOADS_SET), "SETP": tab(sp.NMEA_PAYLOADS_SET_PROP),
 "POLL": tab(p.NMEA_PAYLOADS_POLL), "POLLP": tab(pp.NMEA_PAYLOADS_POLL_PROP),
 "TALKERS": dict(c.NMEA_TALKERS), "MSGIDS": dict(c.NMEA_MSGIDS), "MSGIDS_PROP": dict(c.NMEA_MSGIDS_PROP),
 "PREFIX": list(c.NMEA_PREFIX_PROP),
 "DECODES": {n: repr(sorted(getattr(d, n).items(), key=repr)) for n in dir(d) if n.isupper()},
 "CONST": {n: getattr(c, n) for n in dir(c) if n.isupper() and isinstance(getattr(c, n), (int, str, float))},
}
json.dump(out, open("/verif/golden/tables.json", "w"), indent=0, sort_keys=False)
