python3 tools/refac.py || exit 1
git -C /repo diff --stat | tail -3
cd /verif
. /opt/vp/env.sh; cd /verif
bash b.sh
ls -la target/release/vh
for p in $(python3 -c "import json;print(' '.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); do
 case $p in M01|M02) continue;; esac
 VH_CASES=${CASES:-30000} taskset -c 4-7 timeout 300 target/release/vh check $p quick 2>&1 | tail -1
done
