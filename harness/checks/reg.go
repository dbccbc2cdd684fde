// Package checks contains the monitored workloads and oracles, one per
// property.
package checks

import "verifharness/mon"

// Reg maps property ids to their checks.
var Reg = map[string]func(c *mon.Ctx){}
