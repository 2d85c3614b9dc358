#pragma once
#include <stdint.h>
#include <stddef.h>
namespace ace_time {
namespace basic {
struct ZoneContext { int16_t startYear; int16_t untilYear; int16_t startYearAccurate; int16_t untilYearAccurate; int16_t baseYear;
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments; uint8_t numLetters;
  const char* const* fragments; const char* const* letters; };
struct ZoneRule { int8_t fromYearTiny; int8_t toYearTiny; uint8_t inMonth; uint8_t onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeCode; uint8_t atTimeModifier; uint8_t deltaCode; uint8_t letterIndex; };
struct ZonePolicy { const ZoneRule* rules; uint8_t numRules; };
struct ZoneEra { const ZonePolicy* zonePolicy; const char* format; int8_t offsetCode; uint8_t deltaCode;
  int8_t untilYearTiny; uint8_t untilMonth; uint8_t untilDay; uint8_t untilTimeCode; uint8_t untilTimeModifier; };
struct ZoneInfo { const char* name; uint32_t zoneId; const ZoneContext* zoneContext; uint8_t numEras; const ZoneEra* eras; const ZoneInfo* targetInfo; };
}
namespace extended {
struct ZoneContext { int16_t startYear; int16_t untilYear; int16_t startYearAccurate; int16_t untilYearAccurate; int16_t baseYear;
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments; uint8_t numLetters;
  const char* const* fragments; const char* const* letters; };
struct ZoneRule { int8_t fromYearTiny; int8_t toYearTiny; uint8_t inMonth; uint8_t onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeCode; uint8_t atTimeModifier; uint8_t deltaCode; uint8_t letterIndex; };
struct ZonePolicy { const ZoneRule* rules; uint8_t numRules; };
struct ZoneEra { const ZonePolicy* zonePolicy; const char* format; int8_t offsetCode; uint8_t deltaCode;
  int8_t untilYearTiny; uint8_t untilMonth; uint8_t untilDay; uint8_t untilTimeCode; uint8_t untilTimeModifier; };
struct ZoneInfo { const char* name; uint32_t zoneId; const ZoneContext* zoneContext; uint8_t numEras; const ZoneEra* eras; const ZoneInfo* targetInfo; };
}
namespace complete {
struct ZoneContext { int16_t startYear; int16_t untilYear; int16_t startYearAccurate; int16_t untilYearAccurate; int16_t baseYear;
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments; uint8_t numLetters;
  const char* const* fragments; const char* const* letters; };
struct ZoneRule { int16_t fromYear; int16_t toYear; uint8_t inMonth; uint8_t onDayOfWeek; int8_t onDayOfMonth;
  uint8_t atTimeModifier; uint16_t atTimeCode; int8_t deltaMinutes; uint8_t letterIndex; };
struct ZonePolicy { const ZoneRule* rules; uint8_t numRules; };
struct ZoneEra { const ZonePolicy* zonePolicy; const char* format; int16_t offsetCode; uint8_t offsetRemainder; int8_t deltaMinutes;
  int16_t untilYear; uint8_t untilMonth; uint8_t untilDay; uint16_t untilTimeCode; uint8_t untilTimeModifier; };
struct ZoneInfo { const char* name; uint32_t zoneId; const ZoneContext* zoneContext; uint8_t numEras; const ZoneEra* eras; const ZoneInfo* targetInfo; };
}
}
