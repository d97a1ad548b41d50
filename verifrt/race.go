//go:build race

package verifrt

import "runtime"

func init() { raceErrors = runtime.RaceErrors }
