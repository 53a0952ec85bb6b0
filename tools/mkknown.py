#!/usr/bin/env python3
"""rewrites the fixed: entries of known_findings.json from the map below and /repo's log (run by hand)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """2bc1449 C02; bd5455c C02; ae80c5b C02/C07; 15a62b5 C24; a62e9ae C24/C23; a3d3ff1 C04; 6515eed C03; c669913 C03; 04b37bb C10; 4e5b2eb C10; 5a76818 C12; 50c5704 C12; a1a8272 C12; 2eb4ea0 C12/C22; 11835e1 C23/C10; 1a7e6b8 C10/C23; dc0ecdd C10/C23; 4ea6711 C05; ec59d9d C18/C06; ea26f2d C09/C06; a57518b C09; 7ec571b C08; 63575fa C05/C23; 33f457e C23/C21; a26057c C08; 9c15895 C15; 3dd9f44 C23/C15; 865b4af C15; 33be821 C22; 9612a3c C22/C23; 0292eca C16; 5664c78 C17; 587fe8f C09/C06; cf28742 C22; 5804b9c C20; 8520434 C20; af929b7 C20; 18161eb C20; a2cbd38 C20; 914ea7f C20; fa31652 C06; 1797a81 C06; 032cff7 C14; 3769118 C14/C23; 9611f93 C23/C14; 61135ce C14; 6c74c06 C23; e3f38f3 C14/C05; 52e28f0 C23/C24/C12; 515373e C13; 0f853b3 C13; ad9873b C13; 6dd30b9 C13; 66efa3a C13; d3e270f C13; a9a617b C13; 1732e38 C23; a58bb9a C23; f28656a C23; a67a9ab C23;3940a70 C20;82fb9d1 C10/C23"""
# hash -> what failed, where the subject of the commit does not say it
from knownwhat import WHAT
def main():
    m = {a.split()[0]: a.split()[1].split('/') for a in MAP.split(';')}
    log = [l.split(' ', 2) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()]
    p = os.path.join(HERE, 'known_findings.json')
    d = json.load(open(p))
    keep = [f for f in d['findings'] if not f.get('fixed')]
    out = []
    for l in log:
        if l[1] != 'fix:': continue
        for pid in m.get(l[0], []):
            out.append(dict(property=pid, fixed=f"fixed: property={pid} {l[0]} {WHAT.get(l[0], l[2])}"))
    missing = [l[0] for l in log if l[1] == 'fix:' and l[0] not in m]
    json.dump(dict(findings=keep + out), open(p, 'w'), indent=1)
    print(len(out), 'fixed entries; not mapped:', missing)
main()
