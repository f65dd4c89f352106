package processors

import (
	"fmt"
	"reflect"
)

func init() {
	vProps["C03"] = vProp{
		build: func(g *vG) {
			g.extra["nostoptimes"] = 12
			g.extra["noboarding"] = 20
			g.extra["freq"] = 25
			g.mkAgencies(g.cnt())
			g.mkLevels(g.n(2))
			g.mkStops(g.cnt())
			g.mkRoutes(1 + g.cnt())
			g.mkServices(1+g.cnt(), 50)
			g.mkShapes(g.cnt())
			g.mkTrips(g.cnt())
			for _, r := range g.routes {
				if g.p(15) {
					r.Continuous_pickup = 0
				}
				if g.p(15) {
					r.Continuous_drop_off = 0
				}
			}
			for _, t := range g.trips { // flags are additive: set none or one
				if !g.p(40) {
					continue
				}
				for j := range t.StopTimes {
					if t.StopTimes[j].Pickup_type() == 0 && t.StopTimes[j].Drop_off_type() == 0 && t.StopTimes[j].Continuous_pickup() == 0 && t.StopTimes[j].Continuous_drop_off() == 0 {
						t.StopTimes[j].SetPickup_type(uint8(g.n(6) / 5))
						t.StopTimes[j].SetDrop_off_type(uint8(1 - g.n(6)/5))
						t.StopTimes[j].SetContinuous_pickup(uint8(1 - g.n(6)/5))
						t.StopTimes[j].SetContinuous_drop_off(uint8(1 - g.n(6)/5))
					}
				}
			}
			g.mkFares(g.n(4))
			g.mkPathways(g.n(4))
			g.mkTransfers(g.n(5))
		},
		run: func(g *vG) { OrphanRemover{}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, t := range b.trips {
				u, in := a.f.Trips[t.Id]
				if !in {
					bo, al := false, false
					for _, st := range t.StopTimes {
						bo = bo || st.Pickup_type() != 1 || st.Continuous_pickup() != 1 || t.Route.Continuous_pickup != 1
						al = al || st.Drop_off_type() != 1 || st.Continuous_drop_off() != 1 || t.Route.Continuous_drop_off != 1
					}
					if bo && al {
						return "trip " + t.Id + " was deleted although boarding and alighting are possible"
					}
					continue
				}
				if u != a.trips[i] {
					return "trip " + t.Id + " was replaced"
				}
				if s := vKeptTrip(t, u); s != "" {
					return s
				}
				if u.Shape != nil && a.f.Shapes[u.Shape.Id] != u.Shape {
					return "trip " + u.Id + " references the deleted shape " + u.Shape.Id
				}
				if a.f.Services[u.Service.Id()] != u.Service {
					return "trip " + u.Id + " references the deleted service " + u.Service.Id()
				}
				if a.f.Routes[u.Route.Id] != u.Route {
					return "trip " + u.Id + " references the deleted route " + u.Route.Id
				}
				for _, st := range u.StopTimes {
					if a.f.Stops[st.Stop().Id] != st.Stop() {
						return "trip " + u.Id + " references the deleted stop " + st.Stop().Id
					}
				}
			}
			for id, r := range a.f.Routes {
				if r.Agency != nil && a.f.Agencies[r.Agency.Id] != r.Agency {
					return "route " + id + " references the deleted agency " + r.Agency.Id
				}
			}
			if len(a.f.FareAttributes) != len(b.f.FareAttributes) {
				return "fare attributes were deleted"
			}
			for id, f := range a.f.FareAttributes {
				if f.Agency != nil && a.f.Agencies[f.Agency.Id] != f.Agency {
					return "fare attribute " + id + " references the deleted agency " + f.Agency.Id
				}
				for _, r := range f.Rules {
					if r.Route != nil && a.f.Routes[r.Route.Id] != r.Route {
						return "a rule of fare " + id + " references the deleted route " + r.Route.Id
					}
				}
			}
			for _, m := range [][2]interface{}{{b.f.Stops, a.f.Stops}, {b.f.Shapes, a.f.Shapes}, {b.f.Routes, a.f.Routes}, {b.f.Agencies, a.f.Agencies}, {b.f.Services, a.f.Services}, {b.f.Trips, a.f.Trips}} {
				x, y := reflect.ValueOf(m[0]), reflect.ValueOf(m[1])
				for _, k := range y.MapKeys() {
					if !x.MapIndex(k).IsValid() {
						return fmt.Sprintf("%v was added to the feed", k)
					}
				}
			}
			return vTransfersReg(a.f)
		},
	}
}
