#!/bin/bash
# rp.sh REPLAY: replay with error logs
python3 -c "import json,sys; json.dump(json.load(open('$1'))['plan'],open('/tmp/rp.json','w'))"
SIM_LOG=${2:-error} /verif/.build/simbin -plan /tmp/rp.json -out /tmp/o.json 2>&1 | cut -c1-400 | head -${3:-12}
