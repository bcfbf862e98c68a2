#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = 'abstract interpretation into gated value graphs, compared with a reference definition by global value numbering (random interpretation where normal forms differ)'
NOTE = ('Every path of the analysed functions is covered, as one value graph per observable; nothing of /repo is executed. PROVED obligations are equalities of normal forms; '
        'AGREED ones are equalities of value graphs tested by random interpretation (a probabilistic argument, not a proof); what the analysis can not follow is UNDECIDED, '
        'reported in the evidence and never an alarm. Trusted: the abstract semantics of Python and the models of the library in nbcsa/models.py and nbcsa/stubs, and the reference definitions in nbcsa/spec. ')
LEVEL = {
 'C01': (GVN, 'Lists in messages are compared element by element as functions of the index; the number of elements is not bounded except by the limits of the field.'),
 'C02': (GVN, 'All values of every field, by kind of field.'),
 'C03': (GVN, 'All truncations, by a symbolic length; list limits are compared at and around the limit.'),
 'C04': (GVN, 'SHA-256 is an uninterpreted function.'),
 'C05': (GVN, 'Three successive reads of arbitrary chunks, three writes with arbitrary acceptance; the loop that cuts frames is compared by loop congruence, so the number of frames is not bounded.'),
 'C06': (GVN, 'The socket, the parser and the handlers may fail in every way at every call (uninterpreted choices).'),
 'C07': (GVN, 'One frame of each registered command, arbitrary payload up to 8000 bytes.'),
 'C08': ('query over the class graph and the registry built by abstract interpretation of the module bodies', 'The registry is the one the metaclass builds when the modules are interpreted in the abstract.'),
 'C33': (GVN, 'Merkle roots of up to 43 transactions (69 in the thorough run).'),
}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'levels.py')) else None
NA = {
 'C37': 'holds only with a probability (a wrong passphrase may decrypt to a well-formed prefix); the refusal of malformed plaintext is decided in C16',
 'C39': 'a property of thread interleavings of asyncore and the callers; the code takes no locks there, so there is no discipline to check, and absence of corruption rests on the interpreter lock',
}
def main():
    checks = []; na = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        have = os.path.exists(os.path.join(HERE, 'nbcsa', 'checks', p + '.py'))
        if p in LEVEL and have:
            tech, note = LEVEL[p]
            checks.append({'property': p, 'quick_cmd': 'python3 -m nbcsa %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 -m nbcsa %s' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'other', 'level_note': (NOTE if tech == GVN else '') + note})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no check yet: the machinery for this property is not built')})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks are static: nbcsa reads the source of /repo (NBCSA_REPO overrides the path) and never imports or runs it.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed,', len(na), 'not applicable')
main()
