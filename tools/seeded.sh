#!/bin/bash
# Development aid: runs each planted bug's check (all of seeded/, or the names given); 3 at a time.
cd "$(dirname "$0")/.."
ls ${@:-seeded} 2>/dev/null >/dev/null
N=${@:-$(ls seeded)}
for i in $N; do echo $i; done | xargs -P 3 -I{} bash -c 'p=$(python3 -c "import json;print(json.load(open(\"seeded/{}/meta.json\"))[\"property\"])"); echo "{} $(python3 tools/mut.py $p -p seeded/{}/patch.diff 2>&1 | tail -1 | cut -c1-250)"'
