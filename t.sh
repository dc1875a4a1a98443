#!/bin/bash
# developer helper: build /repo and run its tests, quietly
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { grep -A8 '^error' /tmp/build.log | head -40; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1; tail -1 /tmp/test.log; grep -E '\.\.\. FAILED|panicked' /tmp/test.log | head
