package processors

import (
	"fmt"
	"sort"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vRun gives what runs on one day: the trips active then, without their ids.
func vRun(g *vG, day int) []string {
	var o []string
	for _, t := range g.f.Trips {
		if !vActive(t.Service, day) {
			continue
		}
		sh := ""
		if t.Shape != nil {
			sh = t.Shape.Id
		}
		fl := vFlds(g.f.TripsAddFlds, t.Id)
		for k, m := range g.f.StopTimesAddFlds {
			var q []int
			for s := range m[t.Id] {
				q = append(q, s)
			}
			sort.Ints(q)
			for _, s := range q {
				fl += fmt.Sprintf(" %s[%d]=%s", k, s, m[t.Id][s])
			}
		}
		fr := ""
		if t.Frequencies != nil {
			fr = "freqs"
			for _, f := range *t.Frequencies {
				fr += fmt.Sprintf(" [%s-%s/%d %v", vT(f.Start_time), vT(f.End_time), f.Headway_secs, f.Exact_times)
				for k, m := range g.f.FrequenciesAddFlds {
					fr += k + "=" + m[t.Id][f]
				}
				fr += "]"
			}
		}
		at := ""
		if t.Attributions != nil {
			for _, a := range *t.Attributions {
				at += " " + a.Id
			}
		}
		s := fmt.Sprintf("route=%s shape=%s %s %s%s %s", t.Route.Id, sh, vTripAttr(t), fr, at, fl)
		for _, x := range t.StopTimes {
			s += " | " + vStopTime(x)
		}
		o = append(o, s)
	}
	sort.Strings(o)
	return o
}

func init() {
	vProps["C12"] = vProp{
		size: 10,
		build: func(g *vG) {
			g.extra["freq"] = 30
			g.extra["tripflds"] = 30
			g.extra["stflds"] = 20
			if g.p(50) {
				g.extra["idstyle"] = 1 + g.n(2)
				g.extra["idshift"] = g.n(3)
			}
			g.mkAgencies(1)
			g.mkStops(2)
			g.mkRoutes(1 + g.n(2))
			g.mkShapes(1)
			g.mkServices(1+g.n(3)+g.cnt()/3, 70)
			for _, s := range g.services { // the parser never delivers a service without any date
				if s.Start_date().Day() == 0 && len(s.Exceptions()) == 0 {
					s.Exceptions()[vDay(g.n(5))] = g.p(50)
				}
			}
			if g.extra["idstyle"] != 0 && g.p(60) && len(g.services) > 1 { // a1 and a11
				for i, s := range g.services {
					delete(g.f.Services, s.Id())
					s.SetId(fmt.Sprint([]int{1, 10, 11, 111, 12, 2, 22, 5, 6, 7, 8, 9, 13, 14}[i%14]))
				}
				for _, s := range g.services {
					g.f.Services[s.Id()] = s
				}
			}
			g.mkTrips(g.cnt())
			if g.p(30) { // trip ids one of which continues another
				ids := []string{"1", "11", "12", "111", "13", "2", "21", "3", "31", "113", "15"}
				ok := len(g.trips) <= len(ids) && len(g.f.TripsAddFlds) == 0 && len(g.f.StopTimesAddFlds) == 0 && len(g.f.FrequenciesAddFlds) == 0
				if ok {
					g.f.Trips = map[string]*gtfs.Trip{}
					for i, t := range g.trips {
						t.Id = ids[i]
						g.f.Trips[t.Id] = t
					}
				}
			}
		},
		run: func(g *vG) { ServiceCalDatesRem{}.Run(g.f) },
		check: func(b, a *vG) string {
			for id, s := range a.f.Services {
				if s.Id() != id {
					return fmt.Sprintf("service %s is registered as %s", s.Id(), id)
				}
				if len(s.Exceptions()) != 0 {
					return "service " + id + " has exceptions"
				}
			}
			for id, t := range a.f.Trips {
				if t.Id != id {
					return fmt.Sprintf("trip %s is registered as %s", t.Id, id)
				}
				if a.f.Services[t.Service.Id()] != t.Service {
					return fmt.Sprintf("trip %s has the unregistered service %s", id, t.Service.Id())
				}
			}
			for i, t := range b.trips {
				if a.f.Trips[t.Id] != a.trips[i] {
					return "trip " + t.Id + " is gone"
				}
			}
			for d := vLo; d < vHi; d++ {
				x, y := vRun(b, d), vRun(a, d)
				if fmt.Sprint(x) != fmt.Sprint(y) {
					for i := 0; i < len(x) || i < len(y); i++ {
						if i >= len(x) || i >= len(y) || x[i] != y[i] {
							u, v := "nothing", "nothing"
							if i < len(x) {
								u = x[i]
							}
							if i < len(y) {
								v = y[i]
							}
							return fmt.Sprintf("on %s %d trips ran before, %d after; first difference: before %s, after %s", vDate(d), len(x), len(y), u, v)
						}
					}
				}
			}
			return ""
		},
	}
}
