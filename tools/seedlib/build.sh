#!/bin/bash
# usage: build.sh REPO prog.cpp OUT   -- compiles a demonstration against REPO's sources and test mocks
set -e
R=$1; d=$(mktemp -d); trap 'find "$d" -delete' EXIT
for s in Controller Configuration LongMessageService Parameters Service MinimumNodeService MinimumNodeServiceWithDiagnostics CanService CanServiceWithDiagnostics EventConsumerService EventTeachingService EventTeachingServiceWithDiagnostics EventProducerService EventProducerServiceWithDiagnostics EventConsumerServiceWithDiagnostics NodeVariableService ConsumeOwnEventsService GridConnect; do [ -f $R/src/$s.cpp ] && echo $R/src/$s.cpp; done > $d/l
for s in MockStorage MockTransportService MockCanTransport ArduinoMock VlcbCommon MockUserInterface TestTools; do [ -f $R/test/$s.cpp ] && echo $R/test/$s.cpp; done >> $d/l
xargs -P8 -I{} sh -c 'g++ -std=gnu++14 -g -O0 -w $CXXEXTRA -I'$R'/src -I'$R'/Arduino -I'$R'/test -c {} -o '$d'/$(basename {}).o' < $d/l
g++ -std=gnu++14 -g -O0 -w $CXXEXTRA -I$R/src -I$R/Arduino -I$R/test -I"$(dirname "$0")" "$2" $d/*.o -o "$3"
