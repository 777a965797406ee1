#!/bin/bash
# tools/mkseed.sh ID : (re)package a planted bug's demo: seeded/ID/{patch.diff,demo.py,meta.json} are written by hand
set -e
cd "$(dirname "$0")/.."
d=seeded/$1
cp lib/ath.py prob/vpgen.c tools/demolib.py $d/
cat > $d/demo.sh <<'X'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONDONTWRITEBYTECODE=1 python3-vt "$here/demo.py"
X
chmod +x $d/demo.sh
