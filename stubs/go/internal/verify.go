// Package internal: stand-in for the reader self-tests of acetimego.  It only
// records what it was asked to compare.
package internal

import (
	"github.com/bxparks/acetimego/zoneinfo"
	"testing"
)

type Call struct {
	Kind string
	D    *zoneinfo.ZoneDataContext
	R    *zoneinfo.ZoneRecordContext
}

var Calls []Call

func VerifyZoneInfoReader(t *testing.T, d *zoneinfo.ZoneDataContext, r *zoneinfo.ZoneRecordContext) {
	Calls = append(Calls, Call{"infos", d, r})
}

func VerifyZoneEraReader(t *testing.T, d *zoneinfo.ZoneDataContext, r *zoneinfo.ZoneRecordContext) {
	Calls = append(Calls, Call{"eras", d, r})
}

func VerifyZonePolicyReader(t *testing.T, d *zoneinfo.ZoneDataContext, r *zoneinfo.ZoneRecordContext) {
	Calls = append(Calls, Call{"policies", d, r})
}

func VerifyZoneRuleReader(t *testing.T, d *zoneinfo.ZoneDataContext, r *zoneinfo.ZoneRecordContext) {
	Calls = append(Calls, Call{"rules", d, r})
}
