package processors

import (
	"fmt"
	"math"
)

func init() {
	vProps["C19"] = vProp{
		build: func(g *vG) {
			g.extra["boarding"] = g.n(2)
			g.extra["max"] = 20 + g.n(100)
			g.mkLevels(g.n(2))
			g.mkStops(2 + 2*g.cnt())
			for _, s := range g.stops { // some children around some stations
				if g.p(70) {
					s.Lat = 47 + float32(g.n(8))*0.0003
					s.Lon = 8 + float32(g.n(3))*0.0004
				}
			}
		},
		run: func(g *vG) { StopParentAverager{MaxDist: float64(g.extra["max"])}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Stops) != len(b.f.Stops) {
				return "stops were added or removed"
			}
			isParent := map[string]bool{}
			for _, s := range b.stops {
				if s.Parent_station != nil {
					isParent[s.Parent_station.Id] = true
				}
			}
			max := float64(b.extra["max"])
			for i, s := range b.stops {
				u := a.stops[i]
				if a.f.Stops[s.Id] != u || u.Id != s.Id || vStopRest(s) != vStopRest(u) {
					return "stop " + s.Id + " is no longer registered or changed: " + vStopRest(s) + " / " + vStopRest(u)
				}
				moved := s.Lat != u.Lat || s.Lon != u.Lon
				if !isParent[s.Id] {
					if moved {
						return "stop " + s.Id + ", which has no children, was moved"
					}
					continue
				}
				lat, lon, n, nested, far := 0.0, 0.0, 0.0, false, false
				for _, c := range b.stops {
					if c.Parent_station == s {
						nested = nested || isParent[c.Id]
						lat, lon, n = lat+float64(c.Lat), lon+float64(c.Lon), n+1
						far = far || haversineApprox(float64(s.Lat), float64(s.Lon), float64(c.Lat), float64(c.Lon)) >= max
					}
				}
				if nested {
					continue
				}
				lat, lon = lat/n, lon/n
				close, open := true, false // open: a distance too close to the limit to tell
				for _, c := range b.stops {
					if c.Parent_station == s {
						d := haversineApprox(float64(c.Lat), float64(c.Lon), lat, lon)
						close = close && d < max
						open = open || math.Abs(d-max) < 0.001
					}
				}
				if open {
					continue
				}
				if want := far && close; !want && moved {
					return fmt.Sprintf("stop %s was moved, though far=%v close=%v (limit %v)", s.Id, far, close, max)
				} else if want && (math.Abs(float64(u.Lat)-lat) > 1e-5 || math.Abs(float64(u.Lon)-lon) > 1e-5) {
					return fmt.Sprintf("stop %s is at %v,%v, the mean of its %v children is %v,%v (limit %v)", s.Id, u.Lat, u.Lon, n, lat, lon, max)
				}
			}
			return ""
		},
	}
}
