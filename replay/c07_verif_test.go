package processors

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vEnt is one renamed entity: its ID and the additional fields found under that ID.
type vEnt struct {
	kind string
	id   func() string
	reg  func(id string) interface{} // what the feed has under an ID
	self interface{}
	flds func(id string) string
	n    func() int
}

func vEnts(g *vG) (es []vEnt) {
	f := g.f
	for _, x := range g.trips {
		x := x
		es = append(es, vEnt{"trip", func() string { return x.Id }, func(id string) interface{} { return f.Trips[id] }, x, func(id string) string {
			var o []string
			for k, m := range f.StopTimesAddFlds {
				for s, v := range m[id] {
					o = append(o, fmt.Sprintf("%s.%d=%s", k, s, v))
				}
			}
			for k, m := range f.FrequenciesAddFlds {
				for fr, v := range m[id] {
					o = append(o, fmt.Sprintf("%s.%s=%s", k, vT(fr.Start_time), v))
				}
			}
			sort.Strings(o)
			return vFlds(f.TripsAddFlds, id) + strings.Join(o, ";")
		}, func() int { return len(f.Trips) }})
	}
	for _, x := range g.stops {
		x := x
		es = append(es, vEnt{"stop", func() string { return x.Id }, func(id string) interface{} { return f.Stops[id] }, x, func(id string) string { return vFlds(f.StopsAddFlds, id) }, func() int { return len(f.Stops) }})
	}
	for _, x := range g.routes {
		x := x
		es = append(es, vEnt{"route", func() string { return x.Id }, func(id string) interface{} { return f.Routes[id] }, x, func(id string) string { return vFlds(f.RoutesAddFlds, id) }, func() int { return len(f.Routes) }})
	}
	for _, x := range g.agencies {
		x := x
		es = append(es, vEnt{"agency", func() string { return x.Id }, func(id string) interface{} { return f.Agencies[id] }, x, func(id string) string { return vFlds(f.AgenciesAddFlds, id) }, func() int { return len(f.Agencies) }})
	}
	for _, x := range g.services {
		x := x
		es = append(es, vEnt{"service", func() string { return x.Id() }, func(id string) interface{} { return f.Services[id] }, x, func(id string) string { return "" }, func() int { return len(f.Services) }})
	}
	for _, x := range g.levels {
		x := x
		es = append(es, vEnt{"level", func() string { return x.Id }, func(id string) interface{} { return f.Levels[id] }, x, func(id string) string { return vFlds(f.LevelsAddFlds, id) }, func() int { return len(f.Levels) }})
	}
	for _, x := range g.pathways {
		x := x
		es = append(es, vEnt{"pathway", func() string { return x.Id }, func(id string) interface{} { return f.Pathways[id] }, x, func(id string) string { return vFlds(f.PathwaysAddFlds, id) }, func() int { return len(f.Pathways) }})
	}
	for _, x := range g.shapes {
		x := x
		es = append(es, vEnt{"shape", func() string { return x.Id }, func(id string) interface{} { return f.Shapes[id] }, x, func(id string) string {
			var o []string
			for k, m := range f.ShapesAddFlds {
				for s, v := range m[id] {
					o = append(o, fmt.Sprintf("%s.%d=%s", k, s, v))
				}
			}
			sort.Strings(o)
			return strings.Join(o, ";")
		}, func() int { return len(f.Shapes) }})
	}
	for _, x := range g.fares {
		x := x
		es = append(es, vEnt{"fare", func() string { return x.Id }, func(id string) interface{} { return f.FareAttributes[id] }, x, func(id string) string {
			var o []string
			for k, m := range f.FareRulesAddFlds {
				for i, r := range x.Rules {
					if v, in := m[id][r]; in {
						o = append(o, fmt.Sprintf("%s.%d=%s", k, i, v))
					}
				}
			}
			return vFlds(f.FareAttributesAddFlds, id) + strings.Join(o, ";")
		}, func() int { return len(f.FareAttributes) }})
	}
	return
}

func init() {
	kinds := []string{"trip", "stop", "route", "agency", "service", "level", "pathway", "shape", "fare", "attribution"}
	vProps["C07"] = vProp{
		size: 16,
		build: func(g *vG) {
			g.extra["idstyle"] = g.n(3)
			g.extra["idshift"] = g.n(4)
			g.extra["freq"] = 40
			g.extra["tripflds"] = 50
			g.extra["stflds"] = 50
			g.extra["prefix"] = g.n(4) / 3
			g.extra["base"] = []int{10, 36, 2, 16}[g.n(4)]
			all := g.n(10)
			for _, k := range kinds {
				g.extra["keep "+k] = g.n(4) / 3
				if all == 0 {
					g.extra["keep "+k] = 1
				}
				if all < 4 && all > 0 {
					g.extra["keep "+k] = 0
				}
			}
			g.mkAgencies(g.cnt())
			g.mkLevels(g.cnt())
			g.mkStops(1 + g.cnt())
			g.mkRoutes(1 + g.cnt())
			g.mkServices(1+g.cnt(), 40)
			g.mkShapes(g.cnt())
			g.mkTrips(g.cnt())
			g.mkFares(g.cnt())
			g.mkPathways(g.cnt())
		},
		run: func(g *vG) {
			p := IDMinimizer{Base: g.extra["base"], KeepTrips: g.extra["keep trip"] == 1, KeepStations: g.extra["keep stop"] == 1, KeepRoutes: g.extra["keep route"] == 1, KeepAgencies: g.extra["keep agency"] == 1,
				KeepServices: g.extra["keep service"] == 1, KeepLevels: g.extra["keep level"] == 1, KeepPathways: g.extra["keep pathway"] == 1, KeepShapes: g.extra["keep shape"] == 1, KeepFares: g.extra["keep fare"] == 1, KeepAttributions: g.extra["keep attribution"] == 1}
			if g.extra["prefix"] == 1 {
				p.Prefix = "p"
			}
			f := g.f
			heads := func() (hs [9]uintptr) {
				for i, m := range []interface{}{f.Trips, f.Stops, f.Routes, f.Agencies, f.Services, f.Levels, f.Pathways, f.Shapes, f.FareAttributes} {
					hs[i] = reflect.ValueOf(m).Pointer()
				}
				return
			}
			n := runtime.NumGoroutine()
			p.Run(f)
			h := heads()
			for i := 0; i < 40 && runtime.NumGoroutine() > n; i++ { // workers that are still running
				time.Sleep(50 * time.Microsecond)
			}
			if h != heads() {
				g.extra["late"] = 1
			}
		},
		check: func(b, a *vG) string {
			if a.extra["late"] == 1 {
				return "a worker was still renaming when Run returned"
			}
			be, ae := vEnts(b), vEnts(a)
			seen := map[string]string{}
			cnt := map[string]int{}
			for i, x := range be {
				y := ae[i]
				what := x.kind + " " + x.id()
				if b.extra["keep "+x.kind] == 1 && x.id() != y.id() {
					return what + " was to be kept, is now " + y.id()
				}
				if y.reg(y.id()) != y.self {
					return what + " is not registered under its own new ID " + y.id()
				}
				if o, in := seen[x.kind+y.id()]; in {
					return what + " has the same ID as " + o
				}
				seen[x.kind+y.id()] = what
				cnt[x.kind]++
				if s, t := x.flds(x.id()), y.flds(y.id()); s != t {
					return fmt.Sprintf("%s had the additional fields %s, as %s it has %s", what, s, y.id(), t)
				}
			}
			for _, y := range ae {
				if y.n() != cnt[y.kind] {
					return fmt.Sprintf("%d entries of kind %s registered, there were %d", y.n(), y.kind, cnt[y.kind])
				}
			}
			_ = gtfs.Stop{}
			return ""
		},
	}
}
