#!/bin/bash
# mkseed.sh ID PROPERTY "what it breaks" "needs"  < demo.py
# to be run after editing the scratch clone /tmp/seedrepo (created when absent);
# writes /verif/seeded/ID and puts the clone back to HEAD
set -e
W=/tmp/seedrepo
if [ "$1" = init ]; then
  rm -rf /tmp/seedrepo; git clone -q /repo /tmp/seedrepo; exit 0
fi
D=/verif/seeded/$1; mkdir -p "$D"
git -C $W diff > "$D/patch.diff"
test -s "$D/patch.diff"
cat > "$D/demo.py"
printf '#!/bin/bash\nexport OMP_NUM_THREADS=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > "$D/demo.sh"; chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[3]},open(sys.argv[1],"w"),indent=1)
P
git -C $W checkout -q -- .
git -C /repo apply --check "$D/patch.diff" && echo "seed $1 written"
