// Stand-in for the DxCore flash library: declarations only, modelled by checks/drivers.py.
#pragma once
#include <Arduino.h>
#define PROGMEM_SIZE 0x20000
#define FLASHWRITE_OK 0
struct FlashClass
{
  byte checkWritable();
  byte readByte(uint32_t address);
  byte erasePage(uint32_t address, byte size);
  byte writeBytes(uint32_t address, const uint8_t *data, uint16_t length);
  byte writeByte(uint32_t address, uint8_t data);
  byte writeWord(uint32_t address, uint16_t data);
  byte writeWords(uint32_t address, const uint16_t *data, uint16_t length);
};
extern FlashClass Flash;
