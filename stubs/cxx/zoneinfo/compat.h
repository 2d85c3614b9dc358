#pragma once
#define ACE_TIME_PROGMEM
