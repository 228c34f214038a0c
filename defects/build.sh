#!/bin/bash
# usage: build.sh prog.cpp OUT   -- compiles a demonstration against /repo's core sources and test mocks
set -e
R=${VP_REPO:-/repo}; d=$(mktemp -d); trap 'find "$d" -delete' EXIT
srcs="Controller Configuration LongMessageService Parameters Service MinimumNodeService MinimumNodeServiceWithDiagnostics CanService CanServiceWithDiagnostics EventConsumerService EventTeachingService EventTeachingServiceWithDiagnostics EventProducerService EventProducerServiceWithDiagnostics EventConsumerServiceWithDiagnostics NodeVariableService ConsumeOwnEventsService GridConnect"
for s in $srcs; do [ -f $R/src/$s.cpp ] && echo $R/src/$s.cpp; done > $d/l
for s in MockStorage MockTransportService MockCanTransport ArduinoMock VlcbCommon MockUserInterface TestTools; do echo $R/test/$s.cpp; done >> $d/l
xargs -P8 -I{} sh -c 'g++ -std=gnu++14 -g -O0 -w '"$CXXEXTRA"' -I'$R'/src -I'$R'/Arduino -I'$R'/test -c {} -o '$d'/$(basename {}).o' < $d/l
g++ -std=gnu++14 -g -O0 -w $CXXEXTRA -I$R/src -I$R/Arduino -I$R/test "$1" $d/*.o -o "$2"
