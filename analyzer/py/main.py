"""Reads cases, writes what the runtime decides of each."""
import ast
import json
import sys

import pyint
from pyint import E, Host, Rules, Schema, Undecided, message


def keyed(fs):
    out = {}
    for op, args, v in fs:
        out[tuple([op] + [('s', a['s']) if 's' in a else ('t', bytes.fromhex(a['t'])) for a in args])] = v
    return out


def outcome(h, f, *a):
    h.steps = 0
    h.depth = 0
    try:
        f(*a)
        return {'ok': True}
    except Undecided as u:
        return {'undec': str(u)}
    except Exception as e:
        return {'raised': type(e).__name__, 'text': str(e)[:300], 'failed': isinstance(e, h.g.get('ValidationFailed', ()))}


def main():
    setup = json.loads(sys.stdin.readline())
    try:
        tree = ast.parse(setup['source'], 'validator.py')
        rules = Rules(setup['rules'])
        Host(tree)
    except Undecided as u:
        print(json.dumps({'fail': 'the module is not determined: %s' % u}), flush=True)
        return
    except Exception as e:
        print(json.dumps({'fail': 'the module does not load: %s: %s' % (type(e).__name__, e)}), flush=True)
        return
    print(json.dumps({'functions': [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]}), flush=True)
    for line in sys.stdin:
        c = json.loads(line)
        pyint.holes.clear()
        E.rank, E.fact = {}, {}
        E.classes = {bytes.fromhex(k): v for k, v in c['classes'].items()}
        E.rank = c['base']
        schema = Schema(c['schema'], rules)
        h = Host(tree)
        entry = h.g.get(c.get('entry', 'validate'))
        res = []
        for v in c['vals']:
            E.rank, E.fact = v['rank'], keyed(v['fact'])
            r = {}
            if v.get('fresh'):
                h = Host(tree)
                entry = h.g.get(c.get('entry', 'validate'))
            for m in v['msgs']:
                r = outcome(h, entry, message(schema.msgs[m['type']], m['val']))
            res.append(r)
        print(json.dumps({'results': res, 'seen': sorted(h.seen), 'text': h.g.get('printer') if c.get('dump') else None}), flush=True)


main()
