// what the core of the ESP8266 declares
#pragma once
#include <stdint.h>
struct EspClass { void restart(); uint32_t getFreeHeap(); };
extern EspClass ESP;
