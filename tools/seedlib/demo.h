// helpers of the demonstrations
#pragma once
#include <iostream>
#include <sstream>
#include <malloc.h>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <vector>
#include "Controller.h"
#include "VlcbCommon.h"
#include "MockTransportService.h"
#include "MockStorage.h"
#include "MinimumNodeService.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventTeachingService.h"
#include "EventProducerService.h"
#include "EventConsumerService.h"
#include "ConsumeOwnEventsService.h"
#include "CanService.h"
#include "CanServiceWithDiagnostics.h"
#include "LongMessageService.h"
#include "MockCanTransport.h"
#include "GridConnect.h"
#include "CircularBuffer.h"
#include "Parameters.h"
#include "ArduinoMock.hpp"
#include "TestTools.hpp"
#include "vlcbdefs.hpp"
using namespace VLCB;
extern std::unique_ptr<Configuration> configuration;
static std::unique_ptr<MockTransportService> tr;
typedef std::vector<int> Bytes;
template <class... S> static Controller mk(VlcbModeParams mode, S *...s)
{
  tr.reset(new MockTransportService);
  return ::createController(mode, {s..., tr.get()});
}
static VlcbMessage vm(Bytes b)
{
  VlcbMessage m; memset(&m, 0, sizeof m); m.len = b.size();
  for (size_t i = 0; i < b.size(); ++i) m.data[i] = b[i];
  return m;
}
// feed one message, return everything sent in response
static std::vector<Bytes> feed(Controller &c, Bytes b)
{
  tr->clearMessages();
  tr->setNextMessage(vm(b));
  for (int i = 0; i < 6; ++i) process(c);
  std::vector<Bytes> r;
  for (auto &m : tr->sent_messages) { Bytes x; for (int i = 0; i < m.len; ++i) x.push_back(m.data[i]); r.push_back(x); }
  return r;
}
static void show(const std::vector<Bytes> &r)
{
  for (auto &m : r) { for (int x : m) std::cout << std::hex << x << ' '; std::cout << std::dec << '\n'; }
}
static void check(bool ok, const char *what)
{
  std::cout << (ok ? "ok   " : "FAIL ") << what << std::endl;
  if (!ok) exit(1);
}
