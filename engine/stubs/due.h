// what the SDK of the Arduino Due declares
#pragma once
struct Rstc;
#define RSTC ((Rstc *)0x400E1A00U)
extern "C" void rstc_start_software_reset(Rstc *);
