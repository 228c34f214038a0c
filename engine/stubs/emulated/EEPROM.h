// EEPROM emulated in flash (ESP32, ESP8266, RP2040): a copy in memory, written back by commit()
#pragma once
#include <stddef.h>
#include <stdint.h>
struct EEPROM_T
{
  bool begin(size_t size);
  uint8_t read(int address);
  void write(int address, uint8_t value);
  bool commit();
};
extern EEPROM_T EEPROM;
