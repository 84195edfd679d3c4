//go:build go1.23

package harness

import "time"

// Check is the machinery of one property.
type Check struct {
	Prop   string
	Scen   []Scen
	Keys   []string // violation keys reported under this property (crash, hang, livelock always are)
	MaxSim time.Duration
}

// Scen is one family of simulated systems.
type Scen struct {
	Name   string
	Weight int
	Run    func(h *H)
	Only   string // runs only as the demonstration of this recorded finding
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }
