"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
NOTE = ('Static: no code of the package is run. The listed functions, with everything they call, are '
        'analysed for all inputs and compared by canonical form with a reference model written '
        'independently of the code. Assumes the library models in sa/libmodel.py; a construct the '
        'analysis cannot follow is printed as UNDECIDED and raises no alarm. Not machine-checked proof.')
TNOTE = ('Static: class attributes, class relations, registrations and constants are evaluated '
         'abstractly from the source and compared with reference tables. Trusts the tables.')
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        n = len([x for x in re.split(r'(?<=[.;])\s+(?=[A-Z])', p['statement'].strip()) if x])
        assert n <= 3, (p['id'], n)
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for p in props.P:
    t = []
    if p['groups']:
        t.append('gated value-graph dataflow analysis compared with a reference model')
    if p['tables']:
        t.append('abstract evaluation of class and constant tables')
    checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py --property ' + p['id'],
                   'thorough_cmd': 'python3 /verif/check.py --property %s --tier thorough' % p['id'],
                   'technique': 'static analysis: ' + '; '.join(t), 'level': 'other',
                   'level_note': (NOTE if p['groups'] else TNOTE) + (' ' + p['note'] if p['note'] else '')})
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': 'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 10)"',
               'checks': checks, 'not_applicable': props.NOT_APPLICABLE}, f, indent=1)
    f.write('\n')
