#!/bin/bash
# fix.sh IDS "subject" "what failed": commit the working tree of /repo as a fix and record it
set -e
git -C /repo commit -qam "fix: $2"
echo "HEAD $1 $3" | python3 "$(dirname "$0")/mkfindings.py"
git -C /repo log --oneline | head -1
