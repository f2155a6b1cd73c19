ID='c24-hex-fill'
PROP='C24'
EDITS=[('src/kernel/Simulation.cpp','      fillStream.copyfmt(m_lineBuffer);\n','')]
NEEDS='an argument with both fill=VALUE and hex'
BREAKS='the fill value is read as decimal'
DEMO_SH=r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/k.cl" <<'X'
kernel void k(global uint *a) { a[get_global_id(0)] += 1; }
X
printf 'k.cl\nk\n2 1 1\n2 1 1\n<size=8 fill=10 hex dump>\n' > "$D/k.sim"
export OCLGRIND_PCH_DIR="$PWD/_build/include/oclgrind"
B="$PWD/_build/oclgrind-kernel"
cd "$D" && out=$(timeout 60 "$B" k.sim) || exit 1
echo "$out"
[ "$(echo "$out" | grep -c -i '= *0x0*11$\|= *11$')" = 2 ]
'''
