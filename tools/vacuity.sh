#!/bin/bash
# Are the contracts contradictory? Puts `assert(false)` at the entry (or at the end) of every body under
# contract: Verus has to refuse each of them. usage: tools/vacuity.sh entry|end   (after bin/setup.py)
export E2_VACUOUS=$1
V=/verif; D=$V/.work/e2d/debug/deps; T=$(mktemp -d); cd "$T" || exit 2
for u in auto_enum derives types impls; do
  cs=$(python3 - $u <<'P'
import sys; sys.path.insert(0,'/verif/bin'); import e2
print(','.join(f'/verif/e2/contracts/{c}.vrs' for c in e2.UNITS.get(sys.argv[1],{}).get('contracts',[])))
P
)
  [ -n "$cs" ] || continue
  E2_SRC=/repo/src $V/.work/e2t/debug/e2x $u "$cs" "$T/$u.rs" > "$T/$u.json"
  verus "$T/$u.rs" --edition 2021 -L dependency=$D --extern syn=$(ls $D/libsyn-*.rlib) --extern proc_macro2=$(ls $D/libproc_macro2-*.rlib) \
    --triggers-mode silent --no-trait-conflicts --rlimit 40 --multiple-errors 4 > "$T/$u.out" 2>&1
  python3 - $u <<'P'
import sys,re
u=sys.argv[1]; cur=None; vac={}
for i,l in enumerate(open(f'{u}.rs'),1):
    if l.startswith('//@begin '): cur=l[9:].strip()
    if 'VACUOUS' in l: vac[i]=cur
out=open(f'{u}.out').read()
hit={int(m) for m in re.findall(r'%s.rs:(\d+):'%u, out)}
print(u,re.findall(r'verification results.*',out),len(vac),'bodies, vacuous:',[f for i,f in vac.items() if i not in hit])
P
done
rm -r "$T"
