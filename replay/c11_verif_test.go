package processors

import (
	"fmt"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vInRing is the even-odd rule; the generated points are never on an edge.
func vInRing(ring [][2]float64, x, y float64) bool {
	in := false
	for i, j := 0, len(ring)-1; i < len(ring); j, i = i, i+1 {
		a, b := ring[i], ring[j]
		if (a[1] > y) != (b[1] > y) && x < (b[0]-a[0])*(y-a[1])/(b[1]-a[1])+a[0] {
			in = !in
		}
	}
	return in
}

func vInPolys(g *vG, s *gtfs.Stop) bool {
	x, y := float64(s.Lon), float64(s.Lat)
	for _, p := range g.polys {
		in := vInRing(p.OuterRing, x, y)
		for _, h := range p.InnerRings {
			in = in && !vInRing(h, x, y)
		}
		if in {
			return true
		}
	}
	return false
}

func init() {
	vProps["C11"] = vProp{
		build: func(g *vG) {
			g.extra["nostoptimes"] = 8
			g.extra["boarding"] = 1
			g.extra["pwidasfare"] = 1
			g.mkAgencies(1 + g.n(2))
			g.mkLevels(g.n(2))
			g.mkStops(1 + 2*g.cnt())
			for _, s := range g.stops {
				s.Lat = float32(g.n(5))
				s.Lon = float32(g.n(5))
			}
			g.mkRoutes(1 + g.n(3))
			g.mkServices(1+g.n(3), 20)
			g.mkShapes(g.n(2))
			g.mkTrips(g.cnt())
			for _, t := range g.trips {
				for j := range t.StopTimes {
					if g.p(50) {
						t.StopTimes[j].SetStop(g.stops[g.n(len(g.stops))])
					}
				}
			}
			g.mkFares(g.n(4))
			g.mkPathways(g.cnt())
			g.mkTransfers(g.cnt())
			rect := func(x, y, w, h float64) [][2]float64 {
				return [][2]float64{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}
			}
			for k := g.n(3); k > 0; k-- {
				x, y := float64(g.n(5))-0.5, float64(g.n(5))-0.5
				w, h := float64(1+g.n(4)), float64(1+g.n(4))
				var holes [][][2]float64
				if g.p(30) {
					holes = append(holes, rect(x+0.2, y+0.2, 1, 1))
				}
				o := rect(x, y, w, h)
				if g.p(30) { // a triangle
					o = [][2]float64{{x, y}, {x + w + 0.3137, y}, {x, y + h + 0.2731}}
				}
				g.polys = append(g.polys, gtfsparser.NewPolygon(o, holes))
			}
		},
		run: func(g *vG) { CompleteTripsGeoFilter{Polygons: g.polys}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, t := range b.trips {
				inside := false
				for _, st := range t.StopTimes {
					inside = inside || vInPolys(b, st.Stop())
				}
				u, in := a.f.Trips[t.Id]
				if in != inside {
					return fmt.Sprintf("trip %s: has a stop inside the polygons: %v, kept: %v", t.Id, inside, in)
				}
				if !in {
					continue
				}
				if u != a.trips[i] {
					return "trip " + t.Id + " was replaced"
				}
				if s := vKeptTrip(t, u); s != "" {
					return s
				}
				for _, st := range u.StopTimes {
					for p := st.Stop(); p != nil; p = p.Parent_station {
						if a.f.Stops[p.Id] != p {
							return "stop " + p.Id + ", used by trip " + t.Id + " or the parent of such a stop, was deleted"
						}
					}
				}
			}
			if len(a.f.Trips) > len(b.f.Trips) || len(a.f.Stops) > len(b.f.Stops) || len(a.f.Pathways) > len(b.f.Pathways) {
				return "entries were added"
			}
			for i, s := range b.stops {
				u := a.stops[i]
				if x, in := a.f.Stops[s.Id]; in && x != u {
					return "stop " + s.Id + " was replaced"
				}
				if vInPolys(b, s) {
					for p := u; p != nil; p = p.Parent_station {
						if a.f.Stops[p.Id] != p {
							return "stop " + p.Id + ", inside a polygon or the parent of such a stop, was deleted"
						}
					}
				}
				if u.Lat != s.Lat || u.Lon != s.Lon || u.Location_type != s.Location_type || (u.Parent_station == nil) != (s.Parent_station == nil) {
					return "stop " + s.Id + " was changed"
				}
			}
			if len(a.f.FareAttributes) != len(b.f.FareAttributes) {
				return fmt.Sprintf("%d fare attributes before, %d after", len(b.f.FareAttributes), len(a.f.FareAttributes))
			}
			for i, p := range a.pathways {
				regd := a.f.Stops[p.From_stop.Id] == p.From_stop && a.f.Stops[p.To_stop.Id] == p.To_stop
				if x, in := a.f.Pathways[p.Id]; in != regd || in && x != p {
					return fmt.Sprintf("pathway %s from %s to %s: both stops remain: %v, kept: %v", b.pathways[i].Id, p.From_stop.Id, p.To_stop.Id, regd, in)
				}
			}
			return vTransfersReg(a.f)
		},
	}
}
