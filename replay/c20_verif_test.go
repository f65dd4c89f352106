package processors

import (
	"fmt"
	"math"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vPlace is a segment of a shape near a stop, the fraction of it up to the point closest to the stop, and the measurement there.
type vPlace struct {
	seg  int
	frac float64
	dist float64
}

func vPlaces(ps gtfs.ShapePoints, s *gtfs.Stop) (out []vPlace) {
	px, py := float64(s.Lon), float64(s.Lat)
	for i := 0; i+1 < len(ps); i++ {
		ax, ay, bx, by := float64(ps[i].Lon), float64(ps[i].Lat), float64(ps[i+1].Lon), float64(ps[i+1].Lat)
		t := 0.0
		if d := math.Hypot(bx-ax, by-ay); d > 0 {
			t = math.Min(1, math.Max(0, ((px-ax)*(bx-ax)+(py-ay)*(by-ay))/(d*d)))
		}
		if haversine(py, px, ay+t*(by-ay), ax+t*(bx-ax)) > 250.001 {
			continue
		}
		m := float64(ps[i].Dist_traveled)
		out = append(out, vPlace{i, t, m + (float64(ps[i+1].Dist_traveled)-m)*t})
	}
	return
}

func vPlacedAt(p vPlace, st gtfs.StopTime) bool {
	d := st.Shape_dist_traveled()
	return vNear(d, p.dist) || d != d && p.dist != p.dist
}

func init() {
	vProps["C20"] = vProp{
		build: func(g *vG) {
			g.extra["dist"] = 1
			g.mkStops(1 + g.n(4))
			g.mkRoutes(1 + g.n(2))
			g.mkServices(1, 20)
			g.mkShapes(1 + g.cnt())
			for _, s := range g.shapes {
				f := float32(1+g.n(3)) * 0.5
				wide := g.p(50) // as wide as the grid of stops
				for j := range s.Points {
					s.Points[j].Dist_traveled = f*float32(j) + 0.1*float32(g.n(3)*j)
					if wide {
						s.Points[j].Lat = 47 + float32(g.n(3))*0.0008*float32(j)
						s.Points[j].Lon = 8 + float32(g.n(3))*0.0008*float32(j)
					}
				}
			}
			for _, s := range g.stops {
				if g.p(70) { // near a shape
					ps := g.shapes[g.n(len(g.shapes))].Points
					p := ps[g.n(len(ps))]
					s.Lat, s.Lon = p.Lat+float32(g.n(3)*g.n(2))*0.0002, p.Lon+float32(g.n(5)*g.n(2))*0.0004
				}
			}
			g.mkTrips(1 + g.cnt())
			for _, t := range g.trips {
				holes := g.n(3) * 50
				for j := range t.StopTimes {
					t.StopTimes[j].SetShape_dist_traveled(float32(g.n(40)))
					if g.p(holes) {
						t.StopTimes[j].SetShape_dist_traveled(float32(math.NaN()))
					}
				}
			}
		},
		run: func(g *vG) { StopTimeRemeasurer{}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Shapes) != len(b.f.Shapes) || len(a.f.Trips) != len(b.f.Trips) || len(a.f.Stops) != len(b.f.Stops) {
				return "shapes, trips or stops were added or removed"
			}
			for i, s := range b.stops {
				t := a.stops[i]
				if a.f.Stops[s.Id] != t || t.Lat != s.Lat || t.Lon != s.Lon || vStopRest(s) != vStopRest(t) {
					return "stop " + s.Id + " changed"
				}
			}
			for i, s := range b.shapes {
				u := a.shapes[i]
				if a.f.Shapes[s.Id] != u || len(s.Points) != len(u.Points) {
					return "shape " + s.Id + " changed"
				}
				for j, p := range s.Points {
					q := u.Points[j]
					if p.Lat != q.Lat || p.Lon != q.Lon || p.Sequence != q.Sequence || p.Dist_traveled != q.Dist_traveled && (vMeasured(p) || vMeasured(q)) {
						return fmt.Sprintf("shape %s: point %d changed", s.Id, j)
					}
				}
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[u.Id] != u || vTripAttr(t) != vTripAttr(u) || vFreqs(t) != vFreqs(u) || len(t.StopTimes) != len(u.StopTimes) || (t.Shape == nil) != (u.Shape == nil) || t.Shape != nil && t.Shape.Id != u.Shape.Id {
					return "trip " + t.Id + " changed"
				}
				same, need := true, false
				for j, st := range t.StopTimes {
					same = same && vStopTime(st) == vStopTime(u.StopTimes[j])
					need = need || !st.HasDistanceTraveled()
				}
				if same {
					continue
				}
				if t.Shape == nil || !need {
					return "trip " + t.Id + " has no shape or is measured, but its stop times changed"
				}
				var last []vPlace
				for j, st := range t.StopTimes {
					ut := u.StopTimes[j]
					st.SetShape_dist_traveled(ut.Shape_dist_traveled())
					if vStopTime(st) != vStopTime(ut) {
						return fmt.Sprintf("trip %s: stop time %d differs in more than its distance: %s became %s", t.Id, j, vStopTime(t.StopTimes[j]), vStopTime(ut))
					}
					var at []vPlace
					ahead := j == 0
					for _, p := range vPlaces(t.Shape.Points, st.Stop()) {
						if !vPlacedAt(p, ut) {
							continue
						}
						at = append(at, p)
						for _, q := range last {
							ahead = ahead || q.seg < p.seg || q.seg == p.seg && q.frac <= p.frac+1e-9
						}
					}
					if len(at) == 0 {
						return fmt.Sprintf("trip %s: stop time %d has distance %v, which belongs to no segment near its stop %s", t.Id, j, ut.Shape_dist_traveled(), st.Stop().Id)
					}
					if !ahead {
						return fmt.Sprintf("trip %s: stop time %d at %v lies behind the one before it", t.Id, j, ut.Shape_dist_traveled())
					}
					last = at
				}
			}
			return ""
		},
	}
}
