// Stand-in for the DueFlashStorage library: declarations only, modelled by checks/drivers.py.
#pragma once
#include <Arduino.h>
struct DueFlashStorage
{
  byte read(uint32_t address);
  byte *readAddress(uint32_t address);
  bool write(uint32_t address, byte value);
  bool write(uint32_t address, byte *data, uint32_t dataLength);
};
