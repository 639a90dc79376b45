"""Write DESIGN.md from tools/design.md.in and the harness modules: /opt/venv/bin/python tools/design.py (needs z3: python3-vt)."""
import glob
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import vx.run as run  # noqa: E402

run.setup_symbolic()


def section(pid):
    mod = importlib.import_module('harness.' + pid.lower())
    titles = {p['id']: p['title'] for p in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl')))}
    out = ['### %s — %s' % (pid, titles[pid]), '', ' '.join(mod.__doc__.split()), '', '| harness | symbolic inputs and bounds |', '|---|---|']
    for h in mod.HARNESSES:
        out.append('| `%s` | %s |' % (h.name, str(h.bounds).replace('|', '\\|')))
    out += ['', '*Stand-ins:* %s.' % mod.STUBS, '', '*Outside:* %s.' % mod.OUTSIDE, '']
    caught = [os.path.basename(os.path.dirname(p)) for p in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json')))
              if json.load(open(p))['property'] == pid]
    known = [l for l in open(os.path.join(VERIF, 'known_findings.txt')) if 'property=%s ' % pid in l]
    out += ['*Planted bugs caught by this check:* %s.' % (', '.join(caught) or 'none yet'), '']
    if known:
        out += ['*Defects of the code that the check found:*', '']
        out += ['- ' + re.sub(r'property=%s ' % pid, '', l.strip()) for l in known] + ['']
    return '\n'.join(out)


def main():
    text = open(os.path.join(VERIF, 'tools', 'design.md.in')).read()
    pids = ['C%02d' % i for i in range(1, 21)]
    text = text.replace('@PROPERTIES@', '\n'.join(section(p) for p in pids))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(text)


main()
