bash /opt/vp/build.sh 2>&1 | grep -i "error\|finished"; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))['passed'];print(len(b),set(b)-set(o))"
