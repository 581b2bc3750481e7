#!/bin/sh
# fix.sh MESSAGE: gofmt, build and test /repo, then commit what is changed there.
cd /repo || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
sh /verif/tools/basecheck.sh || exit 1
git commit -qam "$1" && git log --oneline -1
