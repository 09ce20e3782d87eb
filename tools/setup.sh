#!/bin/bash
# Nothing is built ahead of the checks (they compile against /repo's current tree); this parses every module of the
# specification, so that a broken toolchain shows up here and not as an error of some check.
cd "$(dirname "$0")/../spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in Trace*.tla MC*.tla Gen*.tla; do
	java -cp $CP tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
	grep -qiE "^\*\*\* Errors|Parsing or semantic analysis failed|Could not parse" /tmp/sany.$$ && { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "specification parses"
