import json,glob,collections,re
d=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d[json.load(open(f))['property']].append(f.split('/')[3])
pl='\n\n| Check | Planted bugs it catches |\n|---|---|\n'+'\n'.join(f"| {k} | {', '.join(d[k])} |" for k in sorted(d))+'\n'
s=open('/verif/DESIGN.md').read()
if '@PLANTS@' in s:
    s=s.replace('\n@PLANTS@','<!--plants-->'+pl+'<!--/plants-->')
else:
    s=re.sub(r'<!--plants-->.*?<!--/plants-->',lambda m:'<!--plants-->'+pl+'<!--/plants-->',s,flags=re.S)
n=len(re.findall(r'^probe\(',open('/verif/tools/probes/defs.py').read(),re.M))
s=s.replace('@NPROBES@',str(n))
s=s.replace('@PROBERES@','''All that break a promise are caught, those that break none are
quiet. What had to change for that: letters that differ only in case and special characters in every position (a
comparison that folds case, a byte order mark skipped), errors of size zero (a conversion that lost the severity of
one), values of size zero and combinators put directly around the library's own leaves (an option that rewound after a
value without a size), every way to make a `BytesDelta`.''')
s=s.replace('@REVERTS@','''every repair, taken back in a scratch copy, makes the checks of the
properties in its row report a violation again (8163de0 together with the later repairs of the same files).''')
open('/verif/DESIGN.md','w').write(s)
