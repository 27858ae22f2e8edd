"""Writes MANIFEST.json for the check modules that exist."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'conservation monitor over output files of randomised runs',
 'C02': 'reference hyetograph monitor over output files of randomised runs',
 'C03': 'energy-conservation and sun-geometry monitor over output files',
 'C04': 'astronomical oracle over daily output files of randomised runs',
 'C05': 'reference curve, bounds and monotonicity monitor over output files',
 'C06': 'consistency monitor over humidity and pressure in output files',
 'C07': 'formula monitor over longwave in output files',
 'C08': 'constancy and shift monitor over output files',
 'C09': 'reference-model monitor of daily output files, termination watchdog',
 'C10': 'metamorphic and reference monitor over passthrough runs',
 'C11': 'metamorphic monitor over local/UTC run pairs',
 'C12': 'trace checker over the time axes and values of split output files',
 'C13': 'metadata and conversion monitor over output files',
 'C14': 'metamorphic isolation monitor over masks, layouts and neighbours',
 'C15': 'schedule stress with injected delays, critical-section monitor, differential output check',
 'C16': 'history monitor: random call histories against fresh-process runs',
 'C17': 'differential monitor over forcing formats',
 'C18': 'differential monitor over configuration front ends',
 'C19': 'rejection monitor over injected invalid inputs and settings',
 'C20': 'metamorphic monitor over restarted runs',
 'C21': 'metamorphic influence monitor over perturbed runs',
 'C22': 'fault and kill injection with recovery monitor',
 'C23': 'deep-snapshot mutation monitor',
 'C24': 'trace checker over calendars and leap days',
}
LEVEL = {'C22': 'fault_enumeration'}
NOTE = ('Held on the executions of this run only: the real code, driven through '
        'its public interface on generated inputs, judged by an oracle in /verif '
        'that shares no code with it. ')
EXTRA = {
 'C06': 'Assumes the dewpoint iteration reached its configured tolerance. Known finding vp-kpa is reported, not alarmed.',
 'C15': 'Schedules are sampled under injected delays, not enumerated.',
 'C22': 'Failure at every counted file operation of small runs is enumerated in the thorough tier and sampled in the quick one.',
}
checks = []
for k in sorted(T):
    if not os.path.exists(os.path.join(here, 'mon', 'checks', k.lower() + '.py')):
        continue
    checks.append(dict(property=k, quick_cmd='./check %s --tier quick' % k,
                       thorough_cmd='./check %s --tier thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=T[k],
                       level=LEVEL.get(k, 'exploration'),
                       level_note=NOTE + EXTRA.get(k, '')))
NA = []
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
