#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'TLA+ specification (%s) model-checked with TLC; recorded histories of the real code validated against it by TLC'
BACK = ['C19', 'C20', 'C21', 'C22', 'C23', 'C26']
SPECS = dict({'C16': 'Arena.tla, TraceArena.tla', 'C18': 'Meaning.tla, Judge.tla, Server.tla, JudgeServer.tla'}, **{p: 'Meaning.tla, Server.tla, Host.tla, JudgeServer.tla' for p in BACK})
CLAIMED = {p['id'] for p in props}
NOTE = {
    'C16': 'Model checking of the arena for all short histories; histories generated from the model and random ones, run on the real arena and validated step by step. Assumes malloc does not fail.',
}
for p in BACK:
    NOTE[p] = ('Every load of every generated history is validated by TLC as one step from the server state before to the one dumped after it. '
               'The open62541 library is not available offline: the real backend sources run against a mock server (harness/h_back.c, shim) that keeps nodes, references, '
               'namespaces and data types and rejects what a server rejects; its standard address space is that of namespace 0. Documents are sampled (seeded).')
DEFAULT = ('Every call of every generated history is validated by TLC against what the documents mean according to the specification; '
           'documents are sampled (seeded), the specification and the mapping of spellings to ids are trusted. Built with AddressSanitizer, a small stand-in for the open62541 id functions.')
WHY_NOT = {}
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': TECH % SPECS.get(i, 'Meaning.tla, Judge.tla'), 'level': 'model_checking', 'level_note': NOTE.get(i, DEFAULT)})
    else:
        m['not_applicable'].append({'property': i, 'reason': WHY_NOT.get(i, 'not covered')})
m['notes'] = 'No hooks in /repo: the public interface shows the state. See DESIGN.md.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
