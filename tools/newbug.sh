#!/bin/bash
# newbug.sh <seeded id>: takes /repo's uncommitted change as the patch, undoes it, adds demo.sh and the helper.
cd "$(dirname "$0")/.." || exit 2
d=seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -q -- .
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
if [ -f "$d/demo.py" ]; then
cp tools/demo/esync.py "$d/esync.py"
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > "$d/demo.sh"
fi
