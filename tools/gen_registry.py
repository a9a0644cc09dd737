#!/usr/bin/env python3
"""Development-time generator of harness/src/registry.rs and python/pyregistry.json.

It reads the *public* API of /repo (free functions, object methods, C symbols, Python
classes) once and writes a table of call thunks.  The output is committed; the checks do
not run this script, so that a change of the sources cannot silently shrink the table.
"""
import re, os, json, sys
ROOT = '/repo/src'
SC = os.path.join(ROOT, 'physics/single_chain')

def params(a):
    out = []
    for x in a.split(','):
        x = x.strip()
        if not x or x == '&self': continue
        n, t = [y.strip() for y in x.split(':')]
        out.append((n, t))
    return out

TOP = {'ideal': 'ideal::Ideal', 'fjc': 'fjc::FJC', 'efjc': 'efjc::EFJC', 'swfjc': 'swfjc::SWFJC', 'wlc': 'wlc::WLC',
       'ufjc/lennard_jones': 'ufjc::lennard_jones::LENNARDJONESFJC', 'ufjc/log_squared': 'ufjc::log_squared::LOGSQUAREDFJC',
       'ufjc/morse': 'ufjc::morse::MORSEFJC'}

def structname(path):
    s = open(path).read()
    return re.search(r'^pub struct (\w+)', s, re.M).group(1)

def initparams(path):
    s = open(path).read()
    m = re.search(r'^\s+pub fn init\(([^)]*)\)', s, re.M)
    return params(m.group(1))

entries = []
nodes = []   # (model, nested path) for the parameter propagation check
for d, _, fs in sorted(os.walk(SC)):
    if 'mod.rs' not in fs: continue
    rel = os.path.relpath(d, SC)
    if 'monte_carlo' in rel or rel == '.': continue
    model = next((m for m in TOP if rel == m or rel.startswith(m + '/')), None)
    if model is None: continue
    mp = os.path.join(d, 'mod.rs')
    s = open(mp).read()
    st = re.search(r'^pub struct (\w+)', s, re.M).group(1)
    nested = rel[len(model):].strip('/').split('/') if rel != model else []
    fields = re.findall(r'^\s+pub (\w+): (u8|f64)', s[s.index('pub struct'):s.index('impl ')], re.M)
    nodes.append((model, nested, st, rel, [f for f, _ in fields], initparams(mp)))
    free = {}
    for m in re.finditer(r'^pub fn (\w+)\(([^)]*)\)\s*->\s*f64', s, re.M):
        free[m.group(1)] = params(m.group(2))
    meth = {}
    for m in re.finditer(r'^\s+pub fn (\w+)\(&self, ([^)]*)\)\s*->\s*f64', s, re.M):
        meth[m.group(1)] = params(m.group(2))
    ext = {}
    if os.path.exists(os.path.join(d, 'ex.rs')):
        e = open(os.path.join(d, 'ex.rs')).read()
        for m in re.finditer(r'pub extern fn (\w+)\(([^)]*)\)\s*->\s*f64', e):
            pre = 'physics_single_chain_' + rel.replace('/', '_') + '_'
            assert m.group(1).startswith(pre), (m.group(1), pre)
            ext[m.group(1)[len(pre):]] = (m.group(1), params(m.group(2)))
    for f in free:
        if f not in meth: print('no method', rel, f, file=sys.stderr)
        if f not in ext: print('no ext', rel, f, file=sys.stderr)
    for f in meth:
        if f not in free: print('no free', rel, f, file=sys.stderr)
    for f in ext:
        if f not in free: print('no free for ext', rel, f, file=sys.stderr)
    for f, ps in free.items():
        entries.append((rel, model, nested, st, f, ps, meth.get(f), ext.get(f)))

names = sorted({n for e in entries for n, _ in e[5]} | {n for e in entries if e[6] for n, _ in e[6]} | {n for nd in nodes for n, _ in nd[5]})
print('parameters', names, file=sys.stderr)
ALIAS = {'normalization_nondimensional_equilibrium_distribution': 'normalization'}
def fld(n): return ALIAS.get(n, n)

o = []
o.append('// Generated by tools/gen_registry.py from the public API; committed, not regenerated by the checks.')
o.append('#![allow(clippy::all)]')
o.append('use super::params::P;')
o.append('use polymers::physics::single_chain as sc;')
o.append('use std::ffi::c_void;')
o.append('pub struct Entry { pub id: usize, pub module: &\'static str, pub model: &\'static str, pub func: &\'static str, pub params: &\'static [&\'static str], pub margs: &\'static [&\'static str], pub free: fn(&P) -> f64, pub nested: fn(&Models, &P) -> f64, pub own: fn(&P) -> f64, pub symbol: Option<&\'static str>, pub ccall: fn(*const c_void, &P) -> f64 }')
o.append('pub struct Models {')
for m in TOP:
    o.append('    pub %s: sc::%s,' % (m.split('/')[-1], TOP[m]))
o.append('}')
def initexpr(cls, ips):
    return '%s::init(%s)' % (cls, ', '.join('p.%s' % fld(n) for n, _ in ips))
o.append('impl Models { pub fn init(p: &P) -> Models { Models {')
for m in TOP:
    ips = initparams(os.path.join(SC, m, 'mod.rs'))
    o.append('    %s: %s,' % (m.split('/')[-1], initexpr('sc::' + TOP[m], ips)))
o.append('} } }')
o.append('fn no_symbol(_: *const c_void, _: &P) -> f64 { f64::NAN }')
def arg(n, t):
    assert t in ('&f64', '&u8'), (n, t)
    return '&p.%s' % fld(n)
tbl = []
for i, (rel, model, nested, st, f, ps, ms, ex) in enumerate(entries):
    mpath = 'sc::' + rel.replace('/', '::')
    o.append('fn f%d(p: &P) -> f64 { %s::%s(%s) }' % (i, mpath, f, ', '.join(arg(n, t) for n, t in ps)))
    ips = next(nd for nd in nodes if nd[3] == rel)[5]
    margs = ', '.join(arg(n, t) for n, t in ms)
    o.append('fn m%d(m: &Models, p: &P) -> f64 { m.%s.%s(%s) }' % (i, '.'.join([model.split('/')[-1]] + nested), f, margs))
    o.append('fn o%d(p: &P) -> f64 { %s.%s(%s) }' % (i, initexpr(mpath + '::' + st, ips), f, margs))
    if ex:
        sig = ', '.join('u8' if t == 'u8' else 'f64' for _, t in ex[1])
        o.append('fn c%d(s: *const c_void, p: &P) -> f64 { let f: extern "C" fn(%s) -> f64 = unsafe { std::mem::transmute(s) }; f(%s) }' % (i, sig, ', '.join('p.' + fld(n) for n, _ in ex[1])))
    tbl.append('    Entry { id: %d, module: "%s", model: "%s", func: "%s", params: &[%s], margs: &[%s], free: f%d, nested: m%d, own: o%d, symbol: %s, ccall: %s },' % (
        i, rel, model, f, ', '.join('"%s"' % n for n, _ in ps), ', '.join('"%s"' % n for n, _ in ms), i, i, i,
        'Some("%s")' % ex[0] if ex else 'None', 'c%d' % i if ex else 'no_symbol'))
o.append('pub static ENTRIES: &[Entry] = &[')
o += tbl
o.append('];')
# parameter propagation
o.append('pub struct Node { pub module: &\'static str, pub get: fn(&Models) -> Vec<(&\'static str, f64)>, pub fields: &\'static [&\'static str] }')
o.append('pub static NODES: &[Node] = &[')
for model, nested, st, rel, fields, ips in nodes:
    base = '.'.join(['m', model.split('/')[-1]] + nested)
    o.append('    Node { module: "%s", fields: &[%s], get: |m| vec![%s] },' % (rel, ', '.join('"%s"' % f for f in fields), ', '.join('("%s", %s.%s as f64)' % (f, base, f) for f in fields)))
o.append('];')
open('/verif/harness/src/registry.rs', 'w').write('\n'.join(o) + '\n')
print(len(entries), 'entries', len(nodes), 'nodes', sum(1 for e in entries if e[7]), 'c symbols', file=sys.stderr)
