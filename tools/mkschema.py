#!/usr/bin/env python3
"""Extracts the golden wire schema from a reviewed messages.gen.go.

Run once against the tree the schema was reviewed on; the output
(harness/schema.json) is committed and is what the checks compare with. It is
NOT regenerated by any check.  usage: mkschema.py REPO > harness/schema.json
"""
import re, json, sys
root = sys.argv[1]
src = open(root + '/message/messages.gen.go').read()
brk = open(root + '/gen.broker.go').read()
keys = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'Key(\w+)\s*=\s*(\d+)', open(root + '/message/keys.go').read()))
PUT = {'PutString': 'string', 'PutInt8': 'int8', 'PutInt16': 'int16', 'PutInt32': 'int32', 'PutInt64': 'int64', 'PutBool': 'bool',
       'PutBytes': 'bytes', 'PutInt32Array': 'int32array', 'PutInt64Array': 'int64array', 'PutStringArray': 'stringarray'}
structs, types = {}, {}
for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}', src, re.S | re.M):
    for l in m.group(2).split('\n'):
        p = l.split('//')[0].split()
        if len(p) >= 2:
            types[(m.group(1), p[0])] = p[1]
    structs[m.group(1)] = None
def gate(g):
    if g is None: return [0, 32767]
    m = re.match(r'version >= (\d+)(?: && version <= (\d+))?$', g)
    return [int(m.group(1)), int(m.group(2) or 32767)]
def body(name, fn):
    return re.search(r'^func \(t \*?%s\) %s\(.*?\) ?(?:error |int32 )?\{\n(.*?)^\}' % (name, fn), src, re.S | re.M).group(1)
def walk(name, kind):
    res, g = [], None
    for l in body(name, kind).split('\n'):
        if l.startswith('\tif version'): g = re.match(r'\tif (version.*) \{', l).group(1)
        elif l == '\t}': g = None
        if kind == 'Encode':
            m = re.search(r'e\.(Put\w+)\(t\.(\w+)\)', l)
            if m: res.append([m.group(2), PUT[m.group(1)], gate(g)])
            m = re.search(r'len\(t\.(\w+)\)', l)
            if m: res.append([m.group(1), 'array', gate(g)])
        elif kind == 'Decode':
            m = re.search(r't\.(\w+), err = d\.(\w+)\(\)', l)
            if m: res.append([m.group(1), m.group(2).lower(), gate(g)])
            m = re.search(r't\.(\w+) = make\(\[\](\w+), n\)', l)
            if m: res.append([m.group(1), 'array', gate(g)])
        else:
            m = re.search(r'sizeof\.(\w+)(?:\(t\.(\w+)\))? *// (\w+)', l)
            if m: res.append([m.group(3), m.group(1).lower().replace('arraylength', 'array'), gate(g)])
    return res
for name in structs:
    e = walk(name, 'Encode')
    assert e == walk(name, 'Decode') == walk(name, 'Size'), name
    out = []
    for f, t, g in e:
        d = {'name': f, 'type': t, 'min': g[0], 'max': g[1]}
        if t == 'array': d['elem'] = types[(name, f)][2:]
        out.append(d)
    structs[name] = out
maxv = dict((m.group(1), (int(m.group(2)), int(m.group(3)))) for m in re.finditer(r'av\.(\w+), err = matchVersion\(apiKey, (\d+), (\d+)\)', brk))
apis = []
for n, k in sorted(keys.items(), key=lambda x: x[1]):
    lo, hi = maxv[n]
    m = re.search(r'func \(b \*Broker\) %s\(req message\.(\w+)\) \(message\.(\w+), error\)' % n, brk)
    apis.append({'name': n, 'key': k, 'min': lo, 'max': hi, 'request': m.group(1), 'response': m.group(2)})
# smallest wire size of array elements
def minsize(s, v):
    sz = {'string': 2, 'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'bool': 1, 'bytes': 4, 'int32array': 4, 'int64array': 4, 'stringarray': 4, 'array': 4}
    return sum(sz[f['type']] for f in structs[s] if f['min'] <= v <= f['max'])
def elems(s, v, acc):
    for f in structs[s]:
        if f['min'] <= v <= f['max'] and f['type'] == 'array':
            acc.append(f['elem']); elems(f['elem'], v, acc)
    return acc
for a in apis:
    for v in range(a['min'], a['max'] + 1):
        for t in (a['request'], a['response']):
            for el in elems(t, v, []):
                assert minsize(el, v) > 0, (a['name'], v, el)
json.dump({'apis': apis, 'structs': structs, 'header_version': {'request': 2, 'response': 1}}, sys.stdout, indent=1, sort_keys=True)
