// Package zoneinfo: stand-in with the field widths of the acetimego runtime.
package zoneinfo

type ZoneRuleRecord struct {
	FromYear          int16
	ToYear            int16
	InMonth           uint8
	OnDayOfWeek       uint8
	OnDayOfMonth      int8
	AtSecondsModifier uint8
	AtSecondsCode     uint16
	DeltaMinutes      int8
	LetterIndex       uint8
}

type ZonePolicyRecord struct {
	RuleIndex uint16
	RuleCount uint16
}

type ZoneEraRecord struct {
	FormatIndex            uint16
	PolicyIndex            uint8
	OffsetSecondsRemainder uint8
	OffsetSecondsCode      int16
	UntilYear              int16
	DeltaMinutes           int8
	UntilMonth             uint8
	UntilDay               uint8
	UntilSecondsModifier   uint8
	UntilSecondsCode       uint16
}

type ZoneInfoRecord struct {
	ZoneID      uint32
	NameIndex   uint16
	EraIndex    uint16
	EraCount    uint16
	TargetIndex uint16
}

type ZoneDataContext struct {
	TzDatabaseVersion   string
	StartYear           int16
	UntilYear           int16
	StartYearAccurate   int16
	UntilYearAccurate   int16
	MaxTransitions      int16
	LetterData          string
	LetterOffsets       []uint8
	FormatData          string
	FormatOffsets       []uint16
	NameData            string
	NameOffsets         []uint16
	ZoneRuleChunkSize   uint16
	ZonePolicyChunkSize uint16
	ZoneEraChunkSize    uint16
	ZoneInfoChunkSize   uint16
	ZoneRuleCount       uint16
	ZonePolicyCount     uint16
	ZoneEraCount        uint16
	ZoneInfoCount       uint16
	ZoneRulesData       string
	ZonePoliciesData    string
	ZoneErasData        string
	ZoneInfosData       string
}

type ZoneRecordContext struct {
	TzDatabaseVersion string
	StartYear         int16
	UntilYear         int16
	StartYearAccurate int16
	UntilYearAccurate int16
	MaxTransitions    int16
	LetterData        string
	LetterOffsets     []uint8
	FormatData        string
	FormatOffsets     []uint16
	NameData          string
	NameOffsets       []uint16
	ZoneRuleRecords   []ZoneRuleRecord
	ZonePolicyRecords []ZonePolicyRecord
	ZoneEraRecords    []ZoneEraRecord
	ZoneInfoRecords   []ZoneInfoRecord
}
