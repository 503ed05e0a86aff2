"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOTES = {
    'C23': ('runtime monitoring: AddressSanitizer, UBSan and gfortran run-time bounds checks on the compiled kernels, driven by hostile workloads',
            'No out-of-bounds access or undefined behaviour on the executions observed. Trusts the sanitizers; f2py wrapper code is built without bounds checks.'),
}
DEFAULT = ('runtime monitoring: oracle monitors observing the real code on generated hostile workloads',
           'The property held on every execution observed, judged by an independent reference evaluation of its definition in double precision. '
           'Assurance is that of the sampled workloads (see the evidence file for counts); trusts numpy and atooms trajectories.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')):
        tech, note = NOTES.get(pid, DEFAULT)
        cmd = '%s check.py %s' % (PY, pid)
        checks.append(dict(property=pid, quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                           evidence_file='evidence/%s.json' % pid, technique=tech, level='exploration', level_note=note))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd=PY + ' -m mon.native',
               checks=checks, not_applicable=na,
               notes='No hooks in /repo: the monitors observe public results and files, and wrap objects from outside. '
                     'Extension modules are rebuilt from /repo sources outside /repo (plain and sanitized).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
