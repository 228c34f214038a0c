// Not part of the library: makes the compiler emit the constructors and inline
// members of every service class, so that they are present in the analysed IR.
#include <Arduino.h>
#include <new>
#include <Controller.h>
#include <Configuration.h>
#include <Service.h>
#define PROBE(C) void *vp_probe_##C() { return new VLCB::C; }
#if __has_include(<MinimumNodeService.h>)
#include <MinimumNodeService.h>
PROBE(MinimumNodeService)
void vp_probe_heartbeat(VLCB::MinimumNodeService *s, bool f) { s->setHeartBeat(f); }
#endif
#if __has_include(<MinimumNodeServiceWithDiagnostics.h>)
#include <MinimumNodeServiceWithDiagnostics.h>
PROBE(MinimumNodeServiceWithDiagnostics)
#endif
#if __has_include(<NodeVariableService.h>)
#include <NodeVariableService.h>
PROBE(NodeVariableService)
#endif
#if __has_include(<EventTeachingService.h>)
#include <EventTeachingService.h>
PROBE(EventTeachingService)
#endif
#if __has_include(<EventTeachingServiceWithDiagnostics.h>)
#include <EventTeachingServiceWithDiagnostics.h>
PROBE(EventTeachingServiceWithDiagnostics)
#endif
#if __has_include(<EventConsumerService.h>)
#include <EventConsumerService.h>
PROBE(EventConsumerService)
#endif
#if __has_include(<EventConsumerServiceWithDiagnostics.h>)
#include <EventConsumerServiceWithDiagnostics.h>
PROBE(EventConsumerServiceWithDiagnostics)
#endif
#if __has_include(<EventProducerService.h>)
#include <EventProducerService.h>
PROBE(EventProducerService)
#endif
#if __has_include(<EventProducerServiceWithDiagnostics.h>)
#include <EventProducerServiceWithDiagnostics.h>
PROBE(EventProducerServiceWithDiagnostics)
#endif
#if __has_include(<ConsumeOwnEventsService.h>)
#include <ConsumeOwnEventsService.h>
PROBE(ConsumeOwnEventsService)
#endif
#if __has_include(<LongMessageService.h>)
#include <LongMessageService.h>
PROBE(LongMessageService)
PROBE(LongMessageServiceEx)
#endif
#if __has_include(<CanService.h>)
#include <CanService.h>
void *vp_probe_CanService(VLCB::CanTransport *t) { return new VLCB::CanService(t); }
#endif
#if __has_include(<CanServiceWithDiagnostics.h>)
#include <CanServiceWithDiagnostics.h>
void *vp_probe_CanServiceWithDiagnostics(VLCB::CanTransport *t) { return new VLCB::CanServiceWithDiagnostics(t); }
#endif
#if __has_include(<SerialGC.h>)
#include <SerialGC.h>
void *vp_probe_SerialGC() { return new VLCB::SerialGC(Serial); }
#endif
#if __has_include(<CircularBuffer.h>)
#include <CircularBuffer.h>
template class VLCB::CircularBuffer<VLCB::Action>;
template class VLCB::CircularBuffer<uint16_t>;
#endif
#if __has_include(<Parameters.h>)
#include <Parameters.h>
void *vp_probe_Parameters(VLCB::Configuration &c) { return new VLCB::Parameters(c); }
void vp_probe_Parameters2(VLCB::Parameters &p, const char *n) { p.setVersion(n[0], n[1], n[2]); p.setManufacturer(1); p.setModuleId(1); p.setFlags(1); p.setProcessor(1, 2, n); p.getParams(); }
#endif
// every protocol enumeration is described, also when the code does not use it
#if __has_include(<vlcbdefs.hpp>)
#include <vlcbdefs.hpp>
using namespace VLCB;
int vp_probe_enums(VlcbManufacturer a, VlcbOpCodes b, VlcbStmodModes c, VlcbCmdErrs d, VlcbGrspCodes e, VlcbServiceTypes f, VlcbParams g, VlcbParamFlags h, VlcbModeParams i, VlcbBusTypes j, VlcbProcessorManufacturers k)
{ return a + b + c + d + e + f + g + h + i + j + k; }
#endif
