#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
typedef struct AtcZoneContext { int16_t startYear; int16_t untilYear; int16_t startYearAccurate; int16_t untilYearAccurate;
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments; uint8_t numLetters;
  const char* const* fragments; const char* const* letters; } AtcZoneContext;
#ifdef VT_HIGH
typedef struct AtcZoneRule { int16_t fromYear; int16_t toYear; uint8_t inMonth; uint8_t onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeModifier; uint16_t atTimeCode; int8_t deltaMinutes; uint8_t letterIndex; } AtcZoneRule;
#else
typedef struct AtcZoneRule { int8_t fromYearTiny; int8_t toYearTiny; uint8_t inMonth; uint8_t onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeCode; uint8_t atTimeModifier; uint8_t deltaCode; uint8_t letterIndex; } AtcZoneRule;
#endif
typedef struct AtcZonePolicy { const AtcZoneRule* rules; uint8_t numRules; } AtcZonePolicy;
#ifdef VT_HIGH
typedef struct AtcZoneEra { const AtcZonePolicy* zonePolicy; const char* format; int16_t offsetCode; uint8_t offsetRemainder; int8_t deltaMinutes;
  int16_t untilYear; uint8_t untilMonth; uint8_t untilDay; uint16_t untilTimeCode; uint8_t untilTimeModifier; } AtcZoneEra;
#else
typedef struct AtcZoneEra { const AtcZonePolicy* zonePolicy; const char* format; int8_t offsetCode; uint8_t deltaCode;
  int8_t untilYearTiny; uint8_t untilMonth; uint8_t untilDay; uint8_t untilTimeCode; uint8_t untilTimeModifier; } AtcZoneEra;
#endif
typedef struct AtcZoneInfo AtcZoneInfo;
struct AtcZoneInfo { const char* name; uint32_t zoneId; const AtcZoneContext* zoneContext; uint8_t numEras; const AtcZoneEra* eras; const AtcZoneInfo* targetInfo; };
