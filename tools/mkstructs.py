# Writes harness/src/structs.rs and spec/Schemas.tla: the structs whose derived conversion from a
# Clarity tuple is checked (C20), and the same structs as schemas of the specification.
# Run after editing; both outputs are committed.
import os, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUST = dict(i128='i128', u128='u128', bool='bool', bytes='Vec<u8>', str='String', strs='Vec<String>',
            oi='Option<i128>', ou='Option<u128>', os='Option<String>', ri='i128', ru='u128')
TYPES = list(RUST)
KEYS = ['a', 'b', 'some-key', 'k?', 'A', 'aa', 'owner-id!', 'x1', 'total_supply', 'last-updated-at', 'err', 'ok',
        'tuple', 'response', 'none', 'k' * 128, 'é', 'a.b', 'name', 'n']
rnd = random.Random(52)
structs = []   # (name, [(field, key, ty, sub)])
for t in TYPES:
    structs.append(('S%d' % len(structs), [('f0', 'value', t, None)]))
structs.append(('S%d' % len(structs), [('f%d' % i, 'key-%s' % t, t, None) for i, t in enumerate(TYPES)]))
for t in ('i128', 'bool', 'str', 'oi', 'ru', 'bytes'):        # two fields of one type, swapped keys
    structs.append(('S%d' % len(structs), [('a', 'b', t, None), ('b', 'a', t, None)]))
def rand_fields(n, subs):
    ks = rnd.sample(KEYS, n)
    out = []
    for i in range(n):
        if subs and rnd.random() < 0.35:
            out.append(('f%d' % i, ks[i], 'sub', rnd.choice(subs)))
        else:
            out.append(('f%d' % i, ks[i], rnd.choice(TYPES), None))
    return out
for _ in range(4):
    structs.append(('S%d' % len(structs), rand_fields(rnd.randint(2, 5), None)))
base = [s[0] for s in structs]
structs.append(('S%d' % len(structs), [('inner', 'inner', 'sub', 'S0')]))
structs.append(('S%d' % len(structs), [('l', 'l', 'sub', 'S1'), ('r', 'r', 'sub', 'S1')]))
structs.append(('S%d' % len(structs), [('deep', 'deep', 'sub', structs[-2][0]), ('v', 'v', 'bool', None)]))
for _ in range(4):
    structs.append(('S%d' % len(structs), rand_fields(rnd.randint(2, 4), base)))

rs = ['// Generated by tools/mkstructs.py.', '#![allow(non_snake_case)]',
      'use serde_json::{json, Value};', '#[allow(unused_imports)]', 'use stacks_rs::clarity::Any;',
      'use stacks_rs::clarity::Tuple;', 'use stacks_rs::derive::FromTuple;',
      'use crate::value::{b, text, Out};', '']
for name, fs in structs:
    rs.append('#[derive(FromTuple)]'); rs.append('struct %s {' % name)
    for f, k, t, sub in fs:
        resp = ', response' if t in ('ri', 'ru') else ''
        rs.append('    #[stacks(key = "%s"%s)]' % (k, resp)); rs.append('    %s: %s,' % (f, sub or RUST[t]))
    rs.append('}'); rs.append('impl %s {' % name); rs.append('    fn show(&self) -> Value {')
    items = []
    for f, k, t, sub in fs:
        e = 'self.%s' % f
        items.append({'i128': 'b(%s.to_be_bytes())', 'ri': 'b(%s.to_be_bytes())', 'u128': 'b(%s.to_be_bytes())',
          'ru': 'b(%s.to_be_bytes())', 'bool': 'json!(%s)', 'bytes': 'b(&%s)', 'str': 'text(&%s)',
          'strs': 'Value::Array(%s.iter().map(|s| text(s)).collect())',
          'oi': 'Value::Array(%s.iter().map(|x| b(x.to_be_bytes())).collect())',
          'ou': 'Value::Array(%s.iter().map(|x| b(x.to_be_bytes())).collect())',
          'os': 'Value::Array(%s.iter().map(|x| text(x)).collect())', 'sub': '%s.show()'}[t] % e)
    rs.append('        Value::Array(vec![%s])' % ', '.join(items)); rs += ['    }', '}', '']
rs.append('pub fn convert(ty: &str, t: Tuple) -> Out {'); rs.append('    match ty {')
for name, _ in structs:
    rs.append('        "%s" => %s::try_from(t).map(|s| s.show()).map_err(|e| e.to_string()),' % (name, name))
rs += ['        _ => unreachable!(),', '    }', '}', '']
import json
json.dump([[n, [[k, t, sub or ''] for f, k, t, sub in fs]] for n, fs in structs], open(HERE + '/vlib/schemas.json', 'w'), indent=0)
open(HERE + '/harness/src/structs.rs', 'w').write('\n'.join(rs) + '\n')

def seq(s): return '<< ' + ','.join(str(c) for c in s.encode()) + ' >>'
tl = ['------------------------------ MODULE Schemas -------------------------------',
      '(* The structs of harness/src/structs.rs. Generated by tools/mkstructs.py. *)', '']
for name, fs in structs:
    tl.append('%s == <<' % name)
    tl.append(',\n'.join('    [key |-> %s, ty |-> "%s", sub |-> %s]' % (seq(k), t, sub or '<<>>') for f, k, t, sub in fs))
    tl.append('>>')
tl.append('Schema(n) ==')
tl.append('    CASE ' + '\n      [] '.join('n = "%s" -> %s' % (n, n) for n, _ in structs))
tl.append('SchemaNames == << ' + ', '.join('"%s"' % n for n, _ in structs) + ' >>')
tl.append('=============================================================================')
open(HERE + '/spec/Schemas.tla', 'w').write('\n'.join(tl) + '\n')
