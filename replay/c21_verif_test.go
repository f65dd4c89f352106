package processors

func init() {
	vProps["C21"] = vProp{
		build: func(g *vG) {
			g.mkLevels(g.n(3))
			g.mkStops(1 + g.cnt())
			for _, s := range g.stops {
				if g.p(50) {
					s.Platform_code = g.pick("1", "2", "a b", " ", "0")
				}
			}
		},
		run: func(g *vG) { PlatformCodeDropper{}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(a.f.Stops) != len(b.f.Stops) {
				return "stops were added or removed"
			}
			for i, s := range b.stops {
				t := a.stops[i]
				o := *s
				if s.Parent_station == nil {
					o.Platform_code = ""
				}
				if a.f.Stops[s.Id] != t || t.Id != s.Id || t.Lat != s.Lat || t.Lon != s.Lon {
					return "stop " + s.Id + " changed"
				}
				if vStopRest(&o) != vStopRest(t) {
					return "stop " + s.Id + " became " + vStopRest(t) + " instead of " + vStopRest(&o)
				}
			}
			return ""
		},
	}
}
