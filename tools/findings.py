#!/usr/bin/env python3
"""writes /verif/known_findings.txt: the fixed entries come from the fix: commits of /repo, the known ones from KNOWN"""
import subprocess, os
P = '''C02 C02 C03 C03 C08 C14 C02 C14 C04 C14 C09 C10 C10 C09 C14 C14 C26 C20 C25 C14 C17 C20 C18 C19 C20 C20 C21 C21 C21 C32 C14 C28 C28 C28 C33 C14 C30 C14 C31 C31 C15 C31 C11 C14 C20 C31 C25 C24 C24 C32 C22 C29 C28 C14 C15 C34 C42 C43 C42 C44 C45'''.split()
KNOWN = ['known: property=C14 nbc.node.raw_.RawNode has %s :: the abandoned raw_.RawNode makes connections, which use its %s and die with AttributeError: it has none' % (a, a)
         for a in 'LOG_LEVEL_DEBUG LOG_LEVEL_ERROR LOG_LEVEL_INFO LOG_LEVEL_PROTOCOL blockchain_height disconnected external_ip invalid_command log_level user_agent'.split()]
def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '26cc009..HEAD'], capture_output=True, text=True).stdout.splitlines()
    assert len(log) == len(P), (len(log), len(P))
    out = ['# "known:" entries are reported as KNOWN-FINDING and do not fail the check; "fixed:" entries suppress nothing.']
    out += KNOWN
    for l, p in zip(log, P):
        h, _, m = l.partition(' fix: ')
        out.append('fixed: property=%s %s %s' % (p, h, m))
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
main()
