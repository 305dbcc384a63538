#!/usr/bin/env python3
"""Writes harness/src/tables.rs: pair tables for casts, From, FromBits and select.
Run once by hand; the result is committed (checks never parse /repo's sources)."""
import re, glob
R='/repo/src/'
def info(t):
    m=re.match(r'([iufm])(\d+|size)x(\d+)$',t)
    k=m.group(1).upper(); w=64 if m.group(2)=='size' else int(m.group(2)); n=int(m.group(3))
    return k,w,n
def usz(t):
    # usizex2 begins with 'u', isizex2 with 'i', msizex2 with 'm'
    return info(t)
def pairs(files,macs):
    out=[]
    for f in files:
        s=re.sub(r'//.*','',open(f).read())
        for m in re.finditer(r'(\w+)!\(\s*(\w+)\[\w+\]:\s*([\w\s,]+?)\)',s):
            if m.group(1) in macs:
                for x in m.group(3).split(','):
                    if x.strip(): out.append((x.strip(),m.group(2),m.group(1)))
    return out
casts=pairs(sorted(glob.glob(R+'api/cast/v*.rs')),{'impl_from_cast','impl_from_cast_mask'})
for a,b,m in casts:
    if (m=='impl_from_cast_mask')!=(b[0]=='m'): print('MISMATCH',a,b,m)
bits=pairs(sorted(glob.glob(R+'api/into_bits/v*.rs')),{'impl_from_bits'})
froms=[]
for f in sorted(glob.glob(R+'v*.rs')):
    s=re.sub(r'//.*','',open(f).read())
    for m in re.finditer(r'impl_[iufm]!\(\[\w+; \d+\]: (\w+)[^;]*?From:\s*([\w\s,]*?)\|',s):
        for x in m.group(2).split(','):
            if x.strip(): froms.append((x.strip(),m.group(1)))
types=[]
L={8:[2,4,8,16,32,64],16:[2,4,8,16,32],32:[2,4,8,16],64:[2,4,8],128:[1,2,4]}
for k in 'iufm':
    for w,ns in L.items():
        if k=='f' and w not in(32,64): continue
        for n in ns: types.append(f'{k}{w}x{n}')
    if k!='f':
        for n in (2,4,8): types.append(f'{k}sizex{n}')
def tok(t):
    k,w,n=info(t); return f'{t} {k} {w} {n}'
o=['//! Pair tables (generated by tools/mktables.py, committed).']
def mac(name,doc,rows):
    # rows are spread over modules, one codegen unit each
    o.append(f'/// {doc}\n#[macro_export]\nmacro_rules! {name} {{\n    ($m:ident $x:ident) => {{')
    k=max(1,-(-len(rows)//16))
    for i in range(0,len(rows),k):
        o.append('        { mod x { use crate::*; pub fn r($x: &mut Groups) {')
        o.extend(f'        $m!($x {r});' for r in rows[i:i+k])
        o.append('        }} x::r($x) }')
    o.append('    };\n}')
mac('cast_pairs','`m!(args.. src K W N  dst K W N);` for every lane-wise cast.',[tok(a)+' '+tok(b) for a,b,_ in casts])
mac('from_pairs','same for From',[tok(a)+' '+tok(b) for a,b in froms])
mac('bits_pairs','same for FromBits',[tok(a)+' '+tok(b) for a,b,_ in bits])
def size(t):
    k,w,n=info(t); return w*n
mb=set((a,b) for a,b,_ in bits)
# every mask of the same total size, whether or not an implementation exists
mac('mask_bits_candidates','every (source, mask target) of equal width, implemented or not',
    [tok(a)+' '+tok(b) for b in types if b[0]=='m' for a in types if a!=b and size(a)==size(b)])
mac('select_pairs','`m!(args.. mask W N  vec K W N);`',
    [f'{m} {info(m)[1]} {info(m)[2]} {tok(t)}' for m in types if m[0]=='m' for t in types if info(t)[2]==info(m)[2]])
arch=[]
for w,reg in ((128,['__m128','__m128i','__m128d']),(256,['__m256','__m256i','__m256d'])):
    for t in types:
        if size(t)==w and 'size' not in t:
            for r in reg: arch.append(f'{tok(t)} {r} {"from_only" if t[0]=="m" else "both"}')
mac('arch_pairs','`m!(args.. vec K W N arch-type from_only|both);`',arch)
open('/verif/harness/src/tables.rs','w').write('\n'.join(o)+'\n')
print(len(casts),len(froms),len(bits),len(arch))
bad=[(a,b) for a,b,_ in bits if b[0]=='m' and not(a[0]=='m' and info(a)[1]>=info(b)[1])]
print('unsound mask bits',bad)
print('lossy from?',[ (a,b) for a,b in froms if info(a)[2]!=info(b)[2] or (info(a)[1]>=info(b)[1] and b[0]!='m')])
print('int->float from',[ (a,b) for a,b in froms if b[0]=='f'])
