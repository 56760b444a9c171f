#!/bin/bash
# try.sh: build and test the working-tree change of /repo, then undo unless KEEP is set
bash /opt/vp/build.sh > /tmp/seed.b 2>&1 || { echo BUILD FAILS; grep -v == /tmp/seed.b | tail -3; }
bash /opt/vp/test.sh /tmp/seed.t | tail -1
[ -n "$KEEP" ] || git -C /repo checkout -- .
