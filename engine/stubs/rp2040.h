// what the arduino-pico core declares
#pragma once
#include <SPI.h>
#include <stdint.h>
struct SPIClassRP2040 : SPIClass
{
  bool setTX(int pin);
  bool setRX(int pin);
  bool setSCK(int pin);
  bool setCS(int pin);
};
extern SPIClassRP2040 SPI_RP2040;
#define SPI SPI_RP2040
extern "C" void watchdog_enable(uint32_t delay_ms, bool pause_on_debug);
struct RP2040 { int getFreeHeap(); };
extern RP2040 rp2040;
