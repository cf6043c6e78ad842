// Package props holds the scenarios that decide each property.
package props

import (
	"io"

	"github.com/cybozu-go/log"
	"vmc/explore"
)

var all = map[string]*explore.Property{}

// All returns every property.
func All() map[string]*explore.Property { return all }

func init() {
	log.DefaultLogger().SetThreshold(log.LvCritical)
	log.DefaultLogger().SetOutput(io.Discard)
}

// register adds scenarios to a property.
func register(id, level string, assume []string, scs ...*explore.Scenario) {
	p := all[id]
	if p == nil {
		p = &explore.Property{ID: id, Level: level}
		all[id] = p
	}
	p.Assume = append(p.Assume, assume...)
	for _, sc := range scs {
		p.Scenarios = append(p.Scenarios, sc)
		if sc.Quick.Sched > 0 && !sc.NoPrio {
			// the same with priority scheduling, where one deviation can delay
			// a goroutine for arbitrarily long
			c := *sc
			c.Name += "-prio"
			c.Doc += " (priority scheduling)"
			c.Prio = true
			if c.Quick.Sched == 1 {
				c.Quick.Sched++
				c.Quick.Total++
			}
			p.Scenarios = append(p.Scenarios, &c)
		}
	}
}
