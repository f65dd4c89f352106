package processors

import (
	"fmt"
	"math"
)

func init() {
	vProps["C17"] = vProp{
		build: func(g *vG) {
			g.extra["dist"] = g.n(2)
			g.extra["nostoptimes"] = 8
			g.mkLevels(g.n(3))
			g.mkStops(1 + g.cnt())
			// IDs of added stops may be taken
			for _, s := range g.stops[:len(g.stops)] {
				for _, p := range []string{"1#", "2#", "3#"} {
					if !g.p(12) {
						continue
					}
					t := *s
					t.Id = p + s.Id
					if _, in := g.f.Stops[t.Id]; !in {
						g.f.Stops[t.Id] = &t
						g.stops = append(g.stops, &t)
					}
				}
			}
			for _, s := range g.stops {
				if g.p(5) {
					s.Lat, s.Lon = float32(math.NaN()), float32(math.NaN())
				}
			}
			g.mkRoutes(1 + g.n(2))
			g.mkServices(1, 20)
			g.mkShapes(g.n(3))
			g.mkTrips(1 + g.cnt())
		},
		run: func(g *vG) { ShapeSnapper{MaxDist: 100}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, s := range b.stops {
				t := a.f.Stops[s.Id]
				if t != a.stops[i] || t.Id != s.Id || t.Lat != s.Lat && s.Lat == s.Lat || t.Lon != s.Lon && s.Lon == s.Lon || vStopRest(s) != vStopRest(t) {
					return "stop " + s.Id + " is no longer registered or changed: " + vStopRest(s)
				}
			}
			for k, t := range a.f.Stops {
				if t == nil || t.Id != k {
					return "entry " + k + " is not registered under its own ID"
				}
			}
			if len(b.f.Trips) != len(a.f.Trips) || len(b.f.Shapes) != len(a.f.Shapes) {
				return "trips or shapes were added or removed"
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[u.Id] != u || vTripAttr(t) != vTripAttr(u) || vFreqs(t) != vFreqs(u) || len(t.StopTimes) != len(u.StopTimes) || (t.Shape == nil) != (u.Shape == nil) || t.Shape != nil && t.Shape.Id != u.Shape.Id {
					return "trip " + t.Id + " changed"
				}
				for j, st := range t.StopTimes {
					ut := u.StopTimes[j]
					if vStopTimeNoStop(st) != vStopTimeNoStop(ut) {
						return fmt.Sprintf("trip %s stop time %d: %s became %s", t.Id, j, vStopTimeNoStop(st), vStopTimeNoStop(ut))
					}
					o, n := st.Stop(), ut.Stop()
					if o.Id == n.Id {
						continue
					}
					at := fmt.Sprintf("trip %s stop time %d: stop %s was replaced by %s", t.Id, j, o.Id, n.Id)
					if t.Shape == nil {
						return at + " without a shape"
					}
					if a.f.Stops[n.Id] != n {
						return at + ", which is not registered"
					}
					if _, in := b.f.Stops[n.Id]; in {
						return at + ", which is not new"
					}
					if vStopRest(o) != vStopRest(n) {
						return at + ", which is no copy: " + vStopRest(o) + " / " + vStopRest(n)
					}
					if d := haversineApprox(float64(n.Lat), float64(n.Lon), float64(o.Lat), float64(o.Lon)); !(d > 100) {
						return fmt.Sprintf("%s, only %v m away", at, d)
					}
				}
			}
			for i, s := range b.shapes {
				if u := a.shapes[i]; a.f.Shapes[s.Id] != u || len(u.Points) != len(s.Points) {
					return "shape " + s.Id + " changed"
				}
				for j := range s.Points {
					if !vSamePoint(s.Points[j], a.shapes[i].Points[j]) {
						return "shape " + s.Id + " changed"
					}
				}
			}
			return ""
		},
	}
}
