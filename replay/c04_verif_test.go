package processors

import (
	"fmt"
	"sort"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vRouteOf gives what the remover promises to keep of a trip's route.
func vRouteOf(f *gtfsparser.Feed, r *gtfs.Route) string {
	ag := "-"
	if r.Agency != nil {
		ag = r.Agency.Id
	}
	return fmt.Sprintf("agency=%s short=%q long=%q desc=%q type=%d url=%v color=%q text=%q cpu=%d cdo=%d %s", ag, r.Short_name, r.Long_name, r.Desc, r.Type, r.Url, r.Color, r.Text_color, r.Continuous_pickup, r.Continuous_drop_off, vFlds(f.RoutesAddFlds, r.Id))
}

// vRouteFares gives the fare rules of a route.
func vRouteFares(f *gtfsparser.Feed, r *gtfs.Route) string {
	var o []string
	for id, fa := range f.FareAttributes {
		for _, x := range fa.Rules {
			if x.Route == r {
				o = append(o, fmt.Sprintf("%s(%s>%s via %s)", id, x.Origin_id, x.Destination_id, x.Contains_id))
			}
		}
	}
	sort.Strings(o)
	return fmt.Sprint(o)
}

func init() {
	vProps["C04"] = vProp{
		size: 14,
		build: func(g *vG) {
			g.mkAgencies(1 + g.n(2))
			g.mkStops(2)
			g.mkServices(1, 0)
			g.mkRoutes(g.cnt())
			g.mkFares(g.n(4))
			for _, fa := range g.fares {
				for _, r := range fa.Rules {
					if g.p(40) {
						r.Contains_id = g.pick("", "z1", "z3")
					}
				}
			}
			// mostly near copies: take another route's values but for at most one attribute
			for i, a := range g.routes {
				if i == 0 || !g.p(75) {
					continue
				}
				o := g.routes[g.n(i)]
				k := -1
				if g.p(50) {
					k = g.n(12)
				}
				if k != 0 {
					a.Agency = o.Agency
				}
				if k != 1 {
					a.Short_name = o.Short_name
				}
				if k != 2 {
					a.Long_name = o.Long_name
				}
				if k != 3 {
					a.Desc = o.Desc
				}
				if k != 4 {
					a.Type = o.Type
				}
				if k != 5 {
					a.Url = o.Url
					if o.Url != nil && g.p(50) {
						c := *o.Url
						a.Url = &c
						if k == -1 && g.p(30) {
							a.Url = vURL(g.pick("http://u?q=1", "https://u", "http://u/p", "http://u#f", "http://x@u", "http://w"))
						}
					}
				}
				if k != 6 {
					a.Color = o.Color
				}
				if k != 7 {
					a.Text_color = o.Text_color
				}
				if k != 8 {
					a.Continuous_pickup = o.Continuous_pickup
				}
				if k != 9 {
					a.Continuous_drop_off = o.Continuous_drop_off
				}
				if k != 10 {
					for _, m := range g.f.RoutesAddFlds {
						delete(m, a.Id)
						if v, in := m[o.Id]; in {
							m[a.Id] = v
						}
					}
				}
				for _, fa := range g.fares {
					var keep []*gtfs.FareAttributeRule
					for _, r := range fa.Rules {
						if r.Route != a {
							keep = append(keep, r)
						}
						if r.Route == o {
							c := *r
							c.Route = a
							if k == 11 && g.p(40) {
								c.Contains_id = g.pick("", "z1", "z3")
							}
							if k == 11 && g.p(20) {
								continue
							}
							keep = append(keep, &c)
							if k == 11 && g.p(20) {
								d := c
								keep = append(keep, &d)
							}
						}
					}
					fa.Rules = keep
				}
			}
			if len(g.routes) > 0 {
				g.mkTrips(g.cnt())
			}
		},
		run: func(g *vG) { RouteDuplicateRemover{}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Trips) != len(b.f.Trips) {
				return fmt.Sprintf("%d trips before, %d after", len(b.f.Trips), len(a.f.Trips))
			}
			shared := map[string]int{}
			full := func(f *gtfsparser.Feed, r *gtfs.Route) string { return vRouteOf(f, r) + " fares=" + vRouteFares(f, r) }
			for _, r := range b.routes {
				shared[full(b.f, r)]++
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[t.Id] != u {
					return "trip " + t.Id + " was removed"
				}
				if a.f.Routes[u.Route.Id] != u.Route {
					return fmt.Sprintf("trip %s has the unregistered route %s", t.Id, u.Route.Id)
				}
				if x, y := full(b.f, t.Route), full(a.f, u.Route); x != y {
					return fmt.Sprintf("trip %s had route %s (%s), now has %s (%s)", t.Id, t.Route.Id, x, u.Route.Id, y)
				}
				if shared[full(b.f, t.Route)] == 1 && u.Route.Id != t.Route.Id {
					return fmt.Sprintf("trip %s: route %s was replaced by %s without an equal one", t.Id, t.Route.Id, u.Route.Id)
				}
				c := *u
				c.Route = t.Route
				if s := vKeptTrip(t, &c); s != "" {
					return s
				}
			}
			have := map[string]bool{}
			for id, x := range a.f.Routes {
				if x.Id != id {
					return "route " + x.Id + " is registered as " + id
				}
				have[full(a.f, x)] = true
			}
			if len(a.f.Routes) > len(b.f.Routes) {
				return "routes were added"
			}
			for i, x := range b.routes {
				y, in := a.f.Routes[x.Id]
				if in && y != a.routes[i] {
					return "route " + x.Id + " was replaced"
				}
				if in && full(b.f, x) != full(a.f, y) {
					return fmt.Sprintf("route %s changed: before %s after %s", x.Id, full(b.f, x), full(a.f, y))
				}
				if !in && !have[full(b.f, x)] {
					return fmt.Sprintf("route %s (%s) was removed, no remaining route equals it", x.Id, full(b.f, x))
				}
			}
			return ""
		},
	}
}
