package processors

import "fmt"

func init() {
	vProps["C01"] = vProp{
		build: func(g *vG) { g.mkServices(1+g.cnt(), 80) },
		run:   func(g *vG) { ServiceMinimizer{}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Services) != len(b.services) {
				return fmt.Sprintf("%d services before, %d after", len(b.services), len(a.f.Services))
			}
			for i, s := range b.services {
				t, in := a.f.Services[s.Id()]
				if !in || t != a.services[i] || t.Id() != s.Id() {
					return "service " + s.Id() + " was removed, replaced or renamed"
				}
				for d := vLo; d < vHi; d++ {
					if vActive(s, d) != vActive(t, d) {
						return fmt.Sprintf("service %s on %s: active before %v, after %v", s.Id(), vDate(d), vActive(s, d), vActive(t, d))
					}
				}
			}
			return ""
		},
	}
}
