"""Counters and reporting for the Python harnesses (same protocol as harness/vh.hpp)."""
import json, sys, os, faulthandler
faulthandler.enable()
states = transitions = traces = 0
extra, samples, _seen, _nviol = {}, [], set(), 0
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
def viol(key, desc):
    global _nviol
    if key not in _seen:
        _seen.add(key); _nviol += 1
        print("VIOL\t%s\t%s" % (key, " ".join(str(desc).split())[:900])); sys.stdout.flush()
def sample(s):
    if len(samples) < 6: samples.append(str(s)[:400])
def ex(k, n=1): extra[k] = extra.get(k, 0) + n
def finish():
    print("STATS " + json.dumps(dict(states=states, transitions=transitions, traces=traces, extra=extra, samples=samples)))
    sys.stdout.flush()
    os._exit(1 if _nviol else 0)
