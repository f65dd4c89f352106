package processors

import "fmt"

func init() {
	vProps["C10"] = vProp{
		build: func(g *vG) {
			g.extra["par"] = 1
			g.mkLevels(g.n(3))
			g.mkStops(1 + g.cnt())
			// names of added stations may be taken, by stations or stops
			for _, p := range []string{"par::", "par1::", "par2::"} {
				for _, s := range g.stops[:len(g.stops)] {
					if g.p(12) {
						t := *s
						t.Id = p + s.Id
						if _, in := g.f.Stops[t.Id]; in {
							continue
						}
						t.Location_type = 1 - int8(g.n(3)/2)
						t.Parent_station = nil
						g.f.Stops[t.Id] = &t
						g.stops = append(g.stops, &t)
					}
				}
			}
		},
		run: func(g *vG) { StopParentEnforcer{}.Run(g.f) },
		check: func(b, a *vG) string {
			old := map[string]bool{}
			for i, s := range b.stops {
				old[s.Id] = true
				t := a.f.Stops[s.Id]
				if t != a.stops[i] {
					return "stop " + s.Id + " is no longer registered under its ID"
				}
				if t.Id != s.Id || t.Lat != s.Lat || t.Lon != s.Lon || t.Name != s.Name || t.Location_type != s.Location_type {
					return "stop " + s.Id + " changed ID, position, name or type"
				}
				if s.Parent_station != nil && (t.Parent_station == nil || t.Parent_station.Id != s.Parent_station.Id) {
					return "stop " + s.Id + " lost its parent " + s.Parent_station.Id
				}
				if s.Parent_station == nil && s.Location_type != 0 && t.Parent_station != nil {
					return fmt.Sprintf("stop %s of type %d got a parent", s.Id, s.Location_type)
				}
			}
			childs := map[string]int{}
			for k, t := range a.f.Stops {
				if t == nil || t.Id != k {
					return "entry " + k + " is not registered under its own ID"
				}
				if p := t.Parent_station; p != nil {
					childs[p.Id]++
					if t.Location_type == 0 && (a.f.Stops[p.Id] != p || p.Location_type != 1) {
						return "the parent of stop " + k + " is not a registered station"
					}
				} else if t.Location_type == 0 {
					return "stop " + k + " has no parent"
				}
			}
			for k, t := range a.f.Stops {
				if old[k] {
					continue
				}
				if t.Location_type != 1 || t.Parent_station != nil || childs[k] != 1 {
					return fmt.Sprintf("added station %s: type %d, parent %v, %d children", k, t.Location_type, t.Parent_station != nil, childs[k])
				}
				for _, c := range a.f.Stops {
					if c.Parent_station == t && (c.Lat != t.Lat || c.Lon != t.Lon || c.Name != t.Name) {
						return "added station " + k + " differs from its child in position or name"
					}
				}
			}
			return ""
		},
	}
}
