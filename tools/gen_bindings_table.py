#!/usr/bin/env python3
"""gen_bindings_table.py REPO: writes harness/cmd/c41/{table.go,interfaces.txt}: the contracts of
common/eth and common/bsc with their constructors, and their recorded interfaces."""
import sys, re, json, os, hashlib
repo = sys.argv[1]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'cmd', 'c41')
go = ['// Code generated by tools/gen_bindings_table.py. DO NOT EDIT.', 'package main', '', 'import (',
      '\t"github.com/brevis-network/zk-utils/common/bsc"', '\t"github.com/brevis-network/zk-utils/common/eth"',
      '\t"github.com/ethereum/go-ethereum/accounts/abi/bind"', ')', '', 'var table = []entry{']
spec = []

def sig(i):
    t = i['type']
    if t.startswith('tuple'):
        t = '(' + ','.join(sig(c) for c in i['components']) + ')' + t[5:]
    return t

for pkg in ('eth', 'bsc'):
    src = open(f'{repo}/common/{pkg}/bindings.go').read()
    for m in re.finditer(r'^var (\w+)MetaData = &bind\.MetaData\{\n(.*?)^\}', src, re.M | re.S):
        n, body = m.group(1), m.group(2)
        abi = json.loads(json.loads(re.search(r'\tABI: (".*"),\n', body).group(1)))
        b = re.search(r'\tBin: (".*"),\n', body)
        dep = f'{pkg}.Deploy{n}' if re.search(rf'^func Deploy{n}\(', src, re.M) else 'nil'
        go.append(f'''\t{{"{pkg}.{n}", {pkg}.{n}MetaData, &{pkg}.{n}ABI, {pkg}.New{n}, {pkg}.New{n}Caller, {pkg}.New{n}Transactor, {pkg}.New{n}Filterer, {dep},
\t\tfunc(x any, c bind.CallOpts, t bind.TransactOpts) []any {{
\t\t\tv := x.(*{pkg}.{n})
\t\t\treturn []any{{&{pkg}.{n}Session{{v, c, t}}, &{pkg}.{n}CallerSession{{&v.{n}Caller, c}}, &{pkg}.{n}TransactorSession{{&v.{n}Transactor, t}}}}
\t\t}},
\t\tfunc(x any) []any {{
\t\t\tv := x.(*{pkg}.{n})
\t\t\treturn []any{{&{pkg}.{n}Raw{{v}}, &{pkg}.{n}CallerRaw{{&v.{n}Caller}}, &{pkg}.{n}TransactorRaw{{&v.{n}Transactor}}}}
\t\t}}}},''')
        ls = []
        for e in abi:
            l = e['type'] + ' ' + e.get('name', '') + '(' + ','.join(
                sig(i) + (' indexed' if i.get('indexed') else '') for i in e.get('inputs', [])) + ')'
            if e['type'] == 'function':
                l += ' returns (' + ','.join(sig(o) for o in e['outputs']) + ')'
            if e['type'] in ('function', 'constructor', 'fallback', 'receive'):
                l += ' ' + e['stateMutability']
            if e.get('anonymous'):
                l += ' anonymous'
            ls.append(l)
        if b:
            ls.append('code ' + hashlib.sha256(json.loads(b.group(1)).encode()).hexdigest())
        spec.append(f'{pkg}.{n}\n' + ''.join(f'\t{l}\n' for l in sorted(ls)))
go.append('}')
open(out + '/table.go', 'w').write('\n'.join(go) + '\n')
open(out + '/interfaces.txt', 'w').write(''.join(spec))
