#!/bin/bash
# vmut.sh JOB FILE SED — does a Verus job notice an edit of a copy of the source?
rm -rf /tmp/vmut && mkdir -p /tmp/vmut && cp -a /repo/src /tmp/vmut/src
sed -i "$3" /tmp/vmut/src/$2
diff -q /repo/src/$2 /tmp/vmut/src/$2 >/dev/null && echo "NO CHANGE"
cd /verif/verus && OBJVERIF_SRC=/tmp/vmut/src python3 extract.py $1 | grep -o "'status': '[a-z]*'"
