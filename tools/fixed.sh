#!/bin/bash
# fixed.sh PROP "what failed": records HEAD of /repo as the fix
echo "fixed: property=$1 $(git -C /repo rev-parse --short=12 ${3:-HEAD}) $2" >> /verif/KNOWN_FINDINGS
