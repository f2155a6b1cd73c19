ID='c25-break-earlier-line'
PROP='C25'
EDITS=[('src/plugins/InteractiveDebugger.cpp','if (getCurrentLineNumber() != m_lastBreakLine)','if (getCurrentLineNumber() > m_lastBreakLine)')]
NEEDS='two breakpoints in a loop, continued through: execution comes back to the earlier line before it goes beyond the later one'
BREAKS='a breakpoint on an earlier line than the last one hit is passed over'
DEMO_SH=r'''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/k.cl" <<'X'
kernel void k(global int *a)
{
  int s = 0;
  for (int i = 0; i < 3; i++)
    if (a[i] + i)
      s += a[i] * 2;
  a[0] = s;
}
X
printf 'k.cl\nk\n1 1 1\n1 1 1\n<size=16 fill=1 dump>\n' > "$D/k.sim"
export OCLGRIND_PCH_DIR="$PWD/_build/include/oclgrind"
B="$PWD/_build/oclgrind-kernel"
cd "$D" && out=$(printf 'break 5\nbreak 6\nc\nc\nc\nc\nc\nc\nc\nc\n' | timeout 60 "$B" -i k.sim) || exit 1
echo "$out"
[ "$(echo "$out" | grep -c 'hit at line 5')" -ge 3 ] && [ "$(echo "$out" | grep -c 'hit at line 6')" -ge 3 ]
'''
