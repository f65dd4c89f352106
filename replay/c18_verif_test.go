package processors

import (
	"fmt"
	"math"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vWay is the way along the points from point a to point b.
func vWay(ps gtfs.ShapePoints, a, b int) float64 {
	d := 0.0
	for i := a + 1; i <= b; i++ {
		d += haversine(float64(ps[i-1].Lat), float64(ps[i-1].Lon), float64(ps[i].Lat), float64(ps[i].Lon))
	}
	return d
}

func vRemeasured(id string, o, n gtfs.ShapePoints, force bool) string {
	if len(o) != len(n) {
		return "shape " + id + " has another number of points"
	}
	none, dropped := true, true
	for j := range o {
		if o[j].Lat != n[j].Lat || o[j].Lon != n[j].Lon || o[j].Sequence != n[j].Sequence {
			return fmt.Sprintf("shape %s: point %d has another position or sequence number", id, j)
		}
		none = none && !vMeasured(o[j])
		dropped = dropped && !vMeasured(n[j])
	}
	if !none && dropped && !force {
		return ""
	}
	last := -1
	for j := range o {
		if none {
			if w := vWay(o, 0, j); !vNear(n[j].Dist_traveled, w) {
				return fmt.Sprintf("shape %s without measurements: point %d has %v, not %v", id, j, n[j].Dist_traveled, w)
			}
			continue
		}
		if !vMeasured(o[j]) {
			continue
		}
		if n[j].Dist_traveled != o[j].Dist_traveled {
			return fmt.Sprintf("shape %s: the measurement %v of point %d became %v", id, o[j].Dist_traveled, j, n[j].Dist_traveled)
		}
		last0 := last
		if last < 0 {
			last0 = 0
		}
		if d := vWay(o, last0, j); last >= 0 && d > 0 {
			m := float64(o[last].Dist_traveled)
			for k := last + 1; k < j; k++ {
				v := m + vWay(o, last, k)*(float64(o[j].Dist_traveled)-m)/d
				if v == v && !vNear(n[k].Dist_traveled, v) {
					return fmt.Sprintf("shape %s: point %d between the measurements %v and %v has %v, not %v", id, k, m, o[j].Dist_traveled, n[k].Dist_traveled, v)
				}
			}
		}
		last = j
	}
	return ""
}

func init() {
	vProps["C18"] = vProp{
		build: func(g *vG) {
			g.extra["dist"] = 1
			g.extra["force"] = g.n(2)
			g.mkStops(1 + g.n(4))
			g.mkRoutes(1 + g.n(2))
			g.mkServices(1, 20)
			g.mkShapes(1 + g.cnt())
			for _, s := range g.shapes {
				holes, flat := g.n(100), g.p(10)
				zero := s.Points[g.n(1+g.n(len(s.Points)))].Dist_traveled // where the measurements start
				for j := range s.Points {
					if zero == zero {
						s.Points[j].Dist_traveled -= zero
					}
					if g.p(holes) {
						s.Points[j].Dist_traveled = float32(math.NaN())
					} else if flat && vMeasured(s.Points[j]) {
						s.Points[j].Dist_traveled = 5
					}
				}
			}
			g.mkTrips(1 + g.cnt())
			for _, t := range g.trips {
				for j := range t.StopTimes {
					if g.p(25) {
						t.StopTimes[j].SetShape_dist_traveled(float32(math.NaN()))
					} else if g.p(30) {
						t.StopTimes[j].SetShape_dist_traveled(float32(g.n(40)))
					}
				}
			}
		},
		run: func(g *vG) { ShapeRemeasurer{Force: g.extra["force"] == 1}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Shapes) != len(b.f.Shapes) || len(a.f.Trips) != len(b.f.Trips) {
				return "shapes or trips were added or removed"
			}
			for i, s := range b.shapes {
				u := a.shapes[i]
				if a.f.Shapes[s.Id] != u || u.Id != s.Id {
					return "shape " + s.Id + " is no longer registered"
				}
				if r := vRemeasured(s.Id, s.Points, u.Points, b.extra["force"] == 1); r != "" {
					return r
				}
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[u.Id] != u || vTripAttr(t) != vTripAttr(u) || vFreqs(t) != vFreqs(u) || len(t.StopTimes) != len(u.StopTimes) || (t.Shape == nil) != (u.Shape == nil) || t.Shape != nil && t.Shape.Id != u.Shape.Id {
					return "trip " + t.Id + " changed"
				}
				for j, st := range t.StopTimes {
					ut := u.StopTimes[j]
					if u.Shape != nil {
						p := u.Shape.Points[len(u.Shape.Points)-1]
						if st.HasDistanceTraveled() && vMeasured(p) && st.Shape_dist_traveled() > p.Dist_traveled {
							st.SetShape_dist_traveled(p.Dist_traveled)
						}
					}
					if vStopTime(st) != vStopTime(ut) {
						return fmt.Sprintf("trip %s stop time %d: %s became %s", t.Id, j, vStopTime(t.StopTimes[j]), vStopTime(ut))
					}
				}
			}
			return ""
		},
	}
}
