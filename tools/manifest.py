"""Write MANIFEST.json: python3 tools/manifest.py."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMAND = 'PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 python3-vt vx/run.py %s --tier %s'
TECHNIQUE = 'symbolic execution of the real source with z3: %s; every counterexample is replayed against the real code'
NOTES = {
    'C01': ('programs x tracepoints x faults at any call out of the agent', ''),
    'C02': ('symbolic frames, lines, names and values in real and stand-in frames', ''),
    'C03': ('symbolic events, lines and file names', ''),
    'C04': ('symbolic clock, limits and thread interleavings', ''),
    'C05': ('symbolic limits and shapes of data', ''),
    'C06': ('symbolic choice of values, faults and tracepoints', ''),
    'C07': ('symbolic edges of an object graph', ''),
    'C08': ('symbolic fields of the snapshot', ''),
    'C09': ('symbolic interleavings of tasks, flush and failures', ''),
    'C10': ('symbolic conditions, names and values in a frame', ''),
    'C11': ('symbolic tracepoint arguments and responses', ''),
    'C12': ('symbolic histories of polls and symbolic interleavings', ''),
    'C13': ('symbolic histories of registrations and symbolic interleavings', ''),
    'C14': ('symbolic histories of start and shutdown with faults at each step', ''),
    'C15': ('symbolic programs, tracepoints and interleavings', ''),
    'C16': ('symbolic characters of the template', ''),
    'C17': ('symbolic metric definitions and values', ''),
    'C18': ('symbolic operations on attributes and resources', ''),
    'C19': ('symbolic settings, environment and paths', ''),
    'C20': ('symbolic plugins with faults at each callback', ''),
}
TRUST = ('Holds for every value within the bounds that the evidence file states (harness by harness), if the evidence says that the '
         'paths are exhausted. Trusts z3, the interpreter, the symbolic values in vx (sampled paths are validated by concrete replay) '
         'and the stand-ins that the evidence lists.')


def main():
    claimed = [p for p in sorted(NOTES) if os.path.exists(os.path.join(VERIF, 'harness', p.lower() + '.py'))]
    checks = [{'property': p, 'quick_cmd': COMMAND % (p, 'quick'), 'thorough_cmd': COMMAND % (p, 'thorough'),
               'technique': TECHNIQUE % NOTES[p][0], 'level': 'model_checking', 'level_note': (NOTES[p][1] + ' ' + TRUST).strip()}
              for p in claimed]
    out = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': 'the check is not finished'} for p in sorted(NOTES) if p not in claimed],
           'notes': 'see DESIGN.md; known findings and fixed defects are in known_findings.txt'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
