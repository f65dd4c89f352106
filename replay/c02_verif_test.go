package processors

import (
	"fmt"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vDupServices adds services with the dates of earlier ones in another representation.
func vDupServices(g *vG, k int) {
	for i := 0; i < k; i++ {
		o := g.services[g.n(len(g.services))]
		s := gtfs.EmptyService()
		s.SetId(vID(g, "v", len(g.services)))
		s.SetExceptions(map[gtfs.Date]bool{})
		switch g.n(3) {
		case 0: // a copy
			s.SetRawDaymap(o.RawDaymap())
			s.SetStart_date(o.Start_date())
			s.SetEnd_date(o.End_date())
			for d, v := range o.Exceptions() {
				s.Exceptions()[d] = v
			}
		case 1: // additions only
			for d := vLo; d < vHi; d++ {
				if vActive(o, d) {
					s.SetExceptionTypeOn(vDay(d), 1)
				}
			}
		default: // a copy, one date different or redundantly stated
			s.SetRawDaymap(o.RawDaymap())
			s.SetStart_date(o.Start_date())
			s.SetEnd_date(o.End_date())
			for d, v := range o.Exceptions() {
				s.Exceptions()[d] = v
			}
			d := g.n(25) - 2
			on := vActive(o, d)
			if g.p(50) {
				on = !on
			}
			s.Exceptions()[vDay(d)] = on
		}
		if s.Start_date().Day() == 0 && len(s.Exceptions()) == 0 {
			continue
		}
		g.f.Services[s.Id()] = s
		g.services = append(g.services, s)
	}
}

func init() {
	vProps["C02"] = vProp{
		size: 14,
		build: func(g *vG) {
			g.mkAgencies(1)
			g.mkRoutes(1 + g.n(2))
			g.mkServices(1+g.n(3)+g.cnt()/4, 60)
			for id, s := range g.f.Services { // the parser never delivers a service without any date
				if s.Start_date().Day() == 0 && len(s.Exceptions()) == 0 {
					s.SetExceptionTypeOn(vDay(3), 1)
					_ = id
				}
			}
			vDupServices(g, g.cnt())
			g.mkTrips(g.cnt())
		},
		run: func(g *vG) { ServiceDuplicateRemover{}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[t.Id] != u || u.Id != t.Id {
					return "trip " + t.Id + " was removed or renamed"
				}
				if vDates(t.Service) != vDates(u.Service) {
					return fmt.Sprintf("trip %s ran on days %s (service %s), now runs on %s (service %s)", t.Id, vDates(t.Service), t.Service.Id(), vDates(u.Service), u.Service.Id())
				}
				if a.f.Services[u.Service.Id()] != u.Service {
					return "trip " + t.Id + " has the unregistered service " + u.Service.Id()
				}
			}
			have := map[string]bool{}
			for id, s := range a.f.Services {
				if s.Id() != id {
					return "service " + s.Id() + " is registered as " + id
				}
				have[vDates(s)] = true
			}
			if len(a.f.Services) > len(b.f.Services) {
				return "services were added"
			}
			for i, s := range b.services {
				if vDates(s) != vDates(a.services[i]) || s.Id() != a.services[i].Id() {
					return "the dates or the id of service " + s.Id() + " changed"
				}
				if x, in := a.f.Services[s.Id()]; in && x != a.services[i] {
					return "service " + s.Id() + " was replaced"
				}
				if !have[vDates(s)] {
					return fmt.Sprintf("service %s was removed, no remaining service has its dates %s", s.Id(), vDates(s))
				}
			}
			return ""
		},
	}
}
