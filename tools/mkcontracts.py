"""writes CONTRACTS.md (functions under contract, what the contract says, proved or bounded) from the contract classes and the last evidence files"""
import glob, importlib, json, os, sys
here = os.path.abspath(os.path.join(os.path.dirname(__file__), '..')); sys.path.insert(0, here)
out = ['# Functions under contract', '', 'Generated by tools/mkcontracts.py.  *proved*: every obligation generated from the source was discharged; *bounded*: the contract is executed on generated cases only.', '']
tot = [0, 0, set(), set()]
for f in sorted(glob.glob(here + '/evidence/P*.json')):
    d = json.load(open(f)); p = d['property']
    mod = importlib.import_module('vf.props.' + p.lower())
    docs = {}
    for c in mod.CONTRACTS: docs.setdefault(c.name, (c.__doc__ or '').strip())
    out += ['## ' + p, '', '| contract | says | functions | decided |', '|---|---|---|---|']
    for c in d['coverage']['contracts']:
        fs = [x.split(':')[-1] for x in c['functions']]
        out.append('| %s | %s | %s | %s |' % (c['contract'], docs.get(c['contract'], '').replace('|', '/').replace('\n', ' '), ', '.join('`%s`' % x for x in fs), 'proved, %d obligations' % c['obligations'] if c['proved'] else 'bounded'))
        tot[0 if c['proved'] else 1] += 1; tot[2 if c['proved'] else 3].update(c['functions'])
    out.append('')
out += ['%d contracts proved, %d bounded; %d distinct functions in proved contracts, %d more only in bounded ones.' % (tot[0], tot[1], len(tot[2]), len(tot[3] - tot[2]))]
open(here + '/CONTRACTS.md', 'w').write('\n'.join(out) + '\n'); print(out[-1])
