// Concrete demonstrations of the defects repaired in /repo; prints one line each: DEFECT or ok.
#include <iostream>
#include <cstring>
#include <memory>
#include "Controller.h"
#include "VlcbCommon.h"
#include "MockTransportService.h"
#include "MinimumNodeService.h"
#include "NodeVariableService.h"
#include "EventTeachingService.h"
#include "EventProducerService.h"
#include "ArduinoMock.hpp"
#include "vlcbdefs.hpp"
using namespace VLCB;
extern std::unique_ptr<Configuration> configuration;
std::unique_ptr<MockTransportService> tr;
template <class... S> static Controller mk(S *...s)
{
  tr.reset(new MockTransportService);
  return ::createController(MODE_NORMAL, {s..., tr.get()});
}
static void say(const char *n, bool bad) { std::cout << (bad ? "DEFECT " : "ok     ") << n << std::endl; }
int main()
{
  {
    NodeVariableService nv; Controller c = mk(&nv); c.begin();
    configuration->setModuleNormalMode(0x0104);
    // NVs at 10..13; address 9 is outside
    unsigned char before = 0xFF;
    tr->setNextMessage({5, {OPC_NVSET, 1, 4, 0, 42}});
    process(c);
    bool acked = false; for (auto &m : tr->sent_messages) acked |= m.data[0] == OPC_WRACK;
    say("NVSET index 0 acknowledged / writes below the NV area", acked);
  }
  {
    EventTeachingService t; Controller c = mk(&t); c.begin();
    tr->setNextMessage({4, {OPC_MODE, 9, 9, MODE_LEARN_ON}});
    process(c);
    tr->setNextMessage({7, {OPC_EVLRN, 5, 6, 7, 8, 1, 9}});
    process(c);
    say("MODE(learn on) for another node enables learning here", configuration->findExistingEvent(0x0506, 0x0708) < configuration->EE_MAX_EVENTS);
  }
  {
    EventTeachingService t; Controller c = mk(&t); c.begin();
    tr->setNextMessage({4, {OPC_NENRD, 1, 4, 3}});
    process(c);
    bool ans = false; for (auto &m : tr->sent_messages) ans |= m.data[0] == OPC_ENRSP;
    say("NENRD of an empty slot answers with an event", ans);
  }
  {
    EventTeachingService t; Controller c = mk(&t); c.begin();
    t.enableLearn();
    tr->setNextMessage({7, {OPC_EVLRN, 5, 6, 7, 8, 2, 9}});
    process(c);
    bool ack = false; for (auto &m : tr->sent_messages) ack |= m.data[0] == OPC_WRACK;
    say("EVLRN of a new event with EV 2 acknowledged but not stored", ack && configuration->findExistingEvent(0x0506, 0x0708) >= configuration->EE_MAX_EVENTS);
  }
  {
    EventProducerService p; Controller c = mk(&p); c.begin();
    for (int i = 0; i < 20; ++i) { byte e[4] = {1, 2, 3, (byte)i}; configuration->writeEvent(i, e); configuration->updateEvHashEntry(i); }
    byte guard = configuration->getEventEVval(20, 1);
    p.sendEvent(true, (byte)77);
    process(c);
    say("producing with a full event table writes outside the table", configuration->getEventEVval(20, 1) != guard);
  }
}
