#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harness table of check.py"""
import json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('check', os.path.join(V, 'check.py')); c = importlib.util.module_from_spec(spec); spec.loader.exec_module(c)
TECH = {
 'props_frame.cc': 'property-based testing: generated and mutated telegrams against an independent telegram grammar',
 'props_decode.cc': 'property-based fuzzing of the decoding pipeline under sanitizers, with allocation accounting and fault injection',
 'props_record.cc': 'property-based testing: generated record data against an independent reference decoder and tables',
 'props_xml.cc': 'property-based testing: generated telegrams, output read back with a strict XML reader and compared with a reference',
 'props_bus.cc': 'stateful model-based testing against a simulated bus with injected faults',
 'props_io.cc': 'stateful property-based testing over simulated sockets and terminals with generated schedules and faults',
 'props_show.cc': 'property-based testing: generated inputs, printed text and returned values compared with reference tables and an independent formatter',
 'props_ctx.cc': 'stateful differential testing: generated operation sequences on several contexts and over real sockets and terminals, compared with the same sequences on a simulated bus alone',
 'props_tools.cc': 'stateful model-based testing of the programs against a simulated bus',
}
NOTE = {}
m = {'version': 1, 'setup_cmd': 'python3 ./check.py --build-all', 'checks': [], 'not_applicable': []}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] in c.HARNESS:
        src = c.HARNESS[p['id']][0]
        t = TECH[src]
        if c.HARNESS[p['id']][1].get('fuzz_thorough'): t += '; coverage-guided fuzzing (libFuzzer) of the same property'
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3 ./check.py {p['id']}", 'thorough_cmd': f"python3 ./check.py {p['id']} --tier thorough", 'technique': t,
            'level': 'exploration', 'level_note': 'randomised search over generated inputs against an explicit oracle; quantifier: ' + p['quantifier']['text'] + '. Not exhaustive; case counts and classes are in the evidence file.'})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
