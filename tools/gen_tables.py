#!/usr/bin/env python3
"""Writes spec/SpaTables.tla from the constants of the *original* commit (git show 08c462d:...), compared by eye
with tables A4.2/A4.3 of NREL/TP-560-34302.  Run once; the output is committed and pinned, so that a later change
of the tables in the package is a disagreement with the specification, not a change of the specification."""
import subprocess
from decimal import Decimal
src = lambda f: subprocess.check_output(['git','-C','/repo','show','08c462d:'+f],text=True)
ns={}; exec(src('pysolar/constants.py'),ns)
def dec(v):
    d=Decimal(repr(v)); s,dg,e=d.as_tuple()
    n=int(''.join(map(str,dg)));
    while e<0 and n%10==0 and n: n//=10; e+=1
    if e>0: n*=10**e; e=0
    if n==0: return 'FxZero'
    hi,lo=divmod(n,10**9)
    return 'Dec(%d, %d, %d, %d)'%(-1 if s else 1,hi,lo,-e)
o=[]
w=o.append
w('---------------------------- MODULE SpaTables ----------------------------')
w('(* Generated by tools/gen_tables.py: the periodic terms of NREL/TP-560-34302 (tables A4.2, A4.3) and')
w('   the monthly USNO values of Delta-T (deltat.data) in units of 1e-4 s.  Pinned; see DESIGN.md. *)')
w('EXTENDS Fx\nLOCAL INSTANCE Integers\n')
for nm,t in (('TermsL',ns['heliocentric_longitude_coeffs']),('TermsB',ns['heliocentric_latitude_coeffs']),('TermsR',ns['sun_earth_distance_coeffs'])):
    w(nm+' == <<')
    w(',\n'.join('  << '+',\n     '.join('<<%s>>'%', '.join(dec(x) for x in r) for r in g)+' >>' for g in t))
    w('>>\n')
w('\\* <<D, M, M\', F, Omega>> multipliers')
w('NutArgs == <<\n'+',\n'.join('  <<%s>>'%', '.join(str(x) for x in r) for r in ns['aberration_sin_terms'])+'\n>>\n')
w('\\* a + b T (sine, longitude) and c + d T (cosine, obliquity), in 0.0001 arc seconds')
w('NutCoef == <<\n'+',\n'.join('  <<%s>>'%', '.join(dec(x) for x in r) for r in ns['nutation_coefficients'])+'\n>>\n')
import re
m={}
t=src('pysolar/solartime.py'); t=re.sub(r'from .*?import.*?(\n    .*)?\n','',t.split('@check')[0]) if 0 else t
body=t[t.index('delta_t_base_year'):t.index('@check_aware_dt',t.index('delta_t_base_year'))]
exec(body,m)
vals=[round(x*10000) for y in m['delta_t'] for x in y]
assert all(abs(v/10000-x)<1e-9 for v,x in zip(vals,[x for y in m['delta_t'] for x in y]))
w('DeltaTBaseYear == %d'%m['delta_t_base_year']); w('DeltaTBaseMonth == %d'%m['delta_t_base_month'])
w('DeltaTValues == <<')
for k in range(0,len(vals),12): w('  '+', '.join(map(str,vals[k:k+12]))+(',' if k+12<len(vals) else ''))
w('>>'); w('='*77)
open('/verif/spec/SpaTables.tla','w').write('\n'.join(o)+'\n')
print(len(vals))
