"""Writes the TLC configuration files of all checks (Gen: invariants; Trace: common form)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(os.path.join(H, 'checks.json')))
for c, m in C.items():
    open(f'{H}/spec/{c}Gen.cfg', 'w').write(
        'SPECIFICATION Spec\nINVARIANTS ' + ' '.join(['Emitted'] + m['invariants']) + '\nCHECK_DEADLOCK FALSE\n')
    open(f'{H}/spec/{c}Trace.cfg', 'w').write(
        'SPECIFICATION TraceSpec\nCONSTANTS\n  Judge <- JStep\n  Start <- S0\nINVARIANT Conforms\nALIAS Brief\nCHECK_DEADLOCK FALSE\n')
