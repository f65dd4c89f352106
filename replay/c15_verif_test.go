package processors

import (
	"fmt"
	"math"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vNear: (x, y), at distance travelled d, is within e of a segment of b where the distance travelled agrees
// (with some room for another order of the same float operations).
func vNear(e, x, y float64, d float64, b []gtfs.ShapePoint) bool {
	for q := 0; q+1 < len(b); q++ {
		ax, ay := vMerc(b[q])
		bx, by := vMerc(b[q+1])
		l := (bx-ax)*(bx-ax) + (by-ay)*(by-ay)
		t := 0.0
		if l > 0 {
			t = math.Max(0, math.Min(1, ((x-ax)*(bx-ax)+(y-ay)*(by-ay))/l))
		}
		hi, lo := q+2, q-1
		if hi > len(b)-1 {
			hi = len(b) - 1
		}
		if lo < 0 {
			lo = 0
		}
		if math.Hypot(x-(ax+t*(bx-ax)), y-(ay+t*(by-ay))) <= e*(1+1e-6)+1e-3 && !(float64(b[hi].Dist_traveled) < d-1e-2) && !(d+1e-2 < float64(b[lo].Dist_traveled)) {
			return true
		}
	}
	return false
}

func vWithin(e float64, a, b []gtfs.ShapePoint) bool {
	far := func(p, q gtfs.ShapePoint) bool {
		px, py := vMerc(p)
		qx, qy := vMerc(q)
		return math.Hypot(px-qx, py-qy) > e*(1+1e-6)+1e-3
	}
	if far(a[0], b[0]) || far(a[len(a)-1], b[len(b)-1]) {
		return false
	}
	for i := 0; i+1 < len(a); i++ {
		px, py := vMerc(a[i])
		qx, qy := vMerc(a[i+1])
		l := math.Hypot(px-qx, py-qy)
		for d := 0.0; d == 0 || d < l-1e-3; d += 10 {
			x, y, m := px, py, float64(a[i].Dist_traveled)
			if d > 0 {
				x, y = px+(qx-px)*d/l, py+(qy-py)*d/l
				m += float64(a[i+1].Dist_traveled-a[i].Dist_traveled) * d / l
			}
			if !vNear(e, x, y, m, b) {
				return false
			}
		}
	}
	return true
}

func init() {
	vProps["C15"] = vProp{
		size: 10,
		build: func(g *vG) {
			g.extra["eps"] = []int{5, 10, 10, 30}[g.n(4)]
			mrc := func(m float64) float32 { return float32(m / 163000) } // mercator units to degrees, about
			e := float64(g.extra["eps"])
			k := 1 + g.cnt()
			for i := 0; i < k; i++ {
				s := &gtfs.Shape{Id: vID(g, "h", i)}
				if i == 0 || g.p(25) {
					lat, lon := float32(47), float32(8)
					n := 1 + g.n(6)
					d, m := float32(0), g.n(3) > 0
					for j := 0; j < n; j++ {
						p := gtfs.ShapePoint{Lat: lat, Lon: lon, Sequence: uint32(j), Dist_traveled: float32(math.NaN())}
						if m {
							p.Dist_traveled = d
						}
						s.Points = append(s.Points, p)
						x, y := float64(g.n(5))*40, float64(g.n(9)-4)*20
						if g.p(15) {
							x = -x
						}
						lat, lon, d = lat+mrc(y), lon+mrc(x)*1.46, d+float32(math.Hypot(x, y))
					}
				} else { // like an earlier one, but for some deviation
					o := g.shapes[g.n(i)]
					s.Points = append(s.Points, o.Points...)
					off := mrc(e * []float64{0, 0.3, 0.7, 0.7, 1.6, 4}[g.n(6)] * float64(1-2*g.n(2)))
					switch g.n(9) {
					case 0: // all of it aside
						for j := range s.Points {
							s.Points[j].Lat += off
						}
					case 1: // one point aside
						s.Points[g.n(len(s.Points))].Lat += off
					case 2: // without one
						j := g.n(len(s.Points))
						if len(s.Points) > 1 {
							s.Points = append(s.Points[:j], s.Points[j+1:]...)
						}
					case 3: // a detour
						j := g.n(len(s.Points))
						p := s.Points[j]
						p.Lat += off
						s.Points = append(s.Points[:j+1], append([]gtfs.ShapePoint{p}, s.Points[j:]...)...)
					case 4: // other distances travelled
						f := float32([]float64{1, 1.001, 2, 0.1}[g.n(4)])
						c := float32(g.n(3) * 100)
						for j := range s.Points {
							s.Points[j].Dist_traveled = s.Points[j].Dist_traveled*f + c
						}
					case 5: // none
						for j := range s.Points {
							s.Points[j].Dist_traveled = float32(math.NaN())
						}
					case 6: // the other way round
						for x, y := 0, len(s.Points)-1; x < y; x, y = x+1, y-1 {
							s.Points[x], s.Points[y] = s.Points[y], s.Points[x]
						}
					case 7: // a point in between
						if j := g.n(len(s.Points)); j > 0 {
							p, q := s.Points[j-1], s.Points[j]
							p.Lat, p.Lon = (p.Lat+q.Lat)/2, (p.Lon+q.Lon)/2
							p.Lat += off
							p.Dist_traveled = (p.Dist_traveled + q.Dist_traveled) / 2
							s.Points = append(s.Points[:j], append([]gtfs.ShapePoint{p}, s.Points[j:]...)...)
						}
					}
					for j := range s.Points {
						s.Points[j].Sequence = uint32(j)
					}
				}
				g.f.Shapes[s.Id] = s
				g.shapes = append(g.shapes, s)
			}
			g.mkAgencies(1)
			g.mkRoutes(1)
			g.mkServices(1, 0)
			g.mkTrips(g.cnt())
		},
		run: func(g *vG) { ShapeDuplicateRemover{MaxEqDist: float64(g.extra["eps"])}.Run(g.f) },
		check: func(b, a *vG) string {
			e := float64(a.extra["eps"])
			n := len(b.shapes)
			idx := map[*gtfs.Shape]int{}
			comp := make([]int, n)
			for i, s := range a.shapes {
				idx[s] = i
				comp[i] = i
				o := b.shapes[i]
				if len(o.Points) != len(s.Points) {
					return "shape " + s.Id + " has lost or gained points"
				}
				for j := range s.Points {
					if !vSamePoint(s.Points[j], o.Points[j]) || s.Points[j].Sequence != o.Points[j].Sequence {
						return fmt.Sprintf("point %d of shape %s was changed", j, s.Id)
					}
				}
				if r, in := a.f.Shapes[s.Id]; in && r != s {
					return "shape " + s.Id + " was replaced"
				}
			}
			for i, s := range b.shapes {
				for j := 0; j < i; j++ {
					if comp[i] != comp[j] && vWithin(e, s.Points, b.shapes[j].Points) && vWithin(e, b.shapes[j].Points, s.Points) {
						x, y := comp[i], comp[j]
						for k := range comp {
							if comp[k] == x {
								comp[k] = y
							}
						}
					}
				}
			}
			if len(a.f.Shapes) > n {
				return "shapes were added"
			}
			left := map[int]bool{}
			for id, s := range a.f.Shapes {
				i, in := idx[s]
				if !in || s.Id != id {
					return "shape " + id + " is new"
				}
				left[comp[i]] = true
			}
			for i, s := range b.shapes {
				if !left[comp[i]] {
					return fmt.Sprintf("shape %s was removed, and no shape connected to it by shapes equal within %v remains", s.Id, e)
				}
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[t.Id] != u {
					return "trip " + t.Id + " was removed"
				}
				if (t.Shape == nil) != (u.Shape == nil) {
					return "trip " + t.Id + " has lost or gained a shape"
				}
				if t.Shape == nil {
					continue
				}
				if a.f.Shapes[u.Shape.Id] != u.Shape {
					return fmt.Sprintf("trip %s had shape %s, now has the unregistered shape %s", t.Id, t.Shape.Id, u.Shape.Id)
				}
				o := 0
				for b.shapes[o] != t.Shape {
					o++
				}
				if comp[o] != comp[idx[u.Shape]] {
					return fmt.Sprintf("trip %s had shape %s, now has %s, which is not connected to it by shapes equal within %v", t.Id, t.Shape.Id, u.Shape.Id, e)
				}
			}
			return ""
		},
	}
}
