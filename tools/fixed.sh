#!/bin/bash
# fixed.sh PROP "what failed": record the last /repo commit as a repair
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known_findings.txt
