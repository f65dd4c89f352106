package processors

import (
	"fmt"
	"math"
	"reflect"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vSegDist is written anew from the definition of the distance to a segment.
func vSegDist(p, a, b gtfs.ShapePoint) float64 {
	px, py := vMerc(p)
	ax, ay := vMerc(a)
	bx, by := vMerc(b)
	l := (bx-ax)*(bx-ax) + (by-ay)*(by-ay)
	if l == 0 {
		return math.Hypot(px-ax, py-ay)
	}
	t := math.Max(0, math.Min(1, ((px-ax)*(bx-ax)+(py-ay)*(by-ay))/l))
	return math.Hypot(px-(ax+t*(bx-ax)), py-(ay+t*(by-ay)))
}

// vSimplified: b is a subsequence of a with both ends, and the dropped points are within e.
func vSimplified(a, b []gtfs.ShapePoint, e float64) bool {
	n, m := len(a), len(b)
	if m == 0 || n == 0 {
		return m == n
	}
	reach := make([]bool, n)
	reach[0] = vSamePoint(a[0], b[0])
	for i := 1; i < m; i++ {
		next := make([]bool, n)
		for j := 0; j < n; j++ {
			if !reach[j] {
				continue
			}
			for k := j + 1; k < n; k++ {
				if !vSamePoint(a[k], b[i]) {
					continue
				}
				ok := true
				for d := j + 1; d < k && ok; d++ {
					ok = vSegDist(a[d], a[j], a[k]) <= e*(1+1e-9)+1e-6
				}
				next[k] = next[k] || ok
			}
		}
		reach = next
	}
	return reach[n-1]
}

func init() {
	vProps["C08"] = vProp{
		build: func(g *vG) {
			g.extra["eps"] = []int{0, 1, 1, 5, 20, 100}[g.n(6)]
			g.mkShapes(1 + g.cnt())
			if g.p(50) {
				for _, s := range g.shapes {
					if g.p(40) { // a wiggly one, there and back
						for k := g.n(12); k > 0; k-- {
							p := s.Points[g.n(len(s.Points))]
							p.Lat += float32(g.n(9)-4) * 0.00002
							p.Lon += float32(g.n(9)-4) * 0.00003
							s.Points = append(s.Points, p)
						}
					}
					for i := range s.Points {
						s.Points[i].Sequence = uint32(10 * i)
					}
				}
			}
		},
		run: func(g *vG) { ShapeMinimizer{Epsilon: float64(g.extra["eps"])}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, s := range b.shapes {
				t := a.shapes[i]
				if a.f.Shapes[s.Id] != t || t.Id != s.Id {
					return "shape " + s.Id + " is no longer registered"
				}
				if !vSimplified(s.Points, t.Points, float64(b.extra["eps"])) {
					return fmt.Sprintf("shape %s with tolerance %d: before %v after %v", s.Id, b.extra["eps"], s.Points, t.Points)
				}
				for j, p := range t.Points {
					if int(p.Sequence) != j {
						return fmt.Sprintf("shape %s: point %d has sequence number %d", s.Id, j, p.Sequence)
					}
				}
			}
			if len(a.f.Shapes) != len(b.f.Shapes) {
				return "number of shapes changed"
			}
			a.f.Shapes, b.f.Shapes = nil, nil
			if !reflect.DeepEqual(a.f.StopTimesAddFlds, b.f.StopTimesAddFlds) {
				return "additional fields changed"
			}
			return ""
		},
		size: 5,
	}
}
