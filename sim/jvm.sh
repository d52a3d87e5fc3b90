#!/bin/sh
# Jython with the simulator's Java classes; compiles them when needed.  Usage: jvm.sh script args
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${VERIF_BUILD:-$HERE/../build}/java
J=/usr/share/java
[ -f "$OUT/Sqlite.class" ] && [ -z "$(find "$HERE/java" -newer "$OUT/Sqlite.class")" ] || {
	mkdir -p "$OUT.$$" "$OUT" && /usr/bin/javac -nowarn -cp $J/jython.jar -d "$OUT.$$" "$HERE"/java/*.java &&
	touch "$OUT.$$"/*.class && mv -f "$OUT.$$"/*.class "$OUT"/ ; rmdir "$OUT.$$"
} || exit 3
export LC_ALL=C.UTF-8 TZ=UTC
export JYTHONPATH="/opt/vp/jython/site"
unset JAVA_TOOL_OPTIONS CLASSPATH
exec /usr/bin/java -Xss16m -Xmx${VERIF_XMX:-1g} -XX:TieredStopAtLevel=1 -XX:+UseSerialGC $VERIF_JVM_OPTS \
	-Djava.net.preferIPv4Stack=true -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
	-cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar:/opt/vp/jython:"$OUT" \
	org.python.util.jython -B "$@"
