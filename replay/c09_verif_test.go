package processors

import (
	"fmt"
	"math"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vAdjoin tells whether two consecutive stop events are to be merged.
func vAdjoin(a, b gtfs.StopTime) bool {
	if a.Stop().Id != b.Stop().Id || a.Arrival_time() != a.Departure_time() || b.Arrival_time() != b.Departure_time() || a.Headsign() != b.Headsign() {
		return false
	}
	if a.HasDistanceTraveled() != b.HasDistanceTraveled() || a.HasDistanceTraveled() && a.Shape_dist_traveled() != b.Shape_dist_traveled() {
		return false
	}
	return a.Continuous_pickup() == b.Continuous_pickup() && a.Continuous_drop_off() == b.Continuous_drop_off()
}

// vEvent has everything of a merged event: arrival side of the first, departure side of the last.
func vEvent(first, last gtfs.StopTime) string {
	return fmt.Sprint(first.Stop().Id, "@", first.Sequence(), " ", vT(first.Arrival_time()), "-", vT(last.Departure_time()), " hs=", vs(first.Headsign()),
		" pickup=", last.Pickup_type(), " dropoff=", first.Drop_off_type(), " cont=", first.Continuous_pickup(), first.Continuous_drop_off(), " d=", first.Shape_dist_traveled(), " tp=", first.Timepoint())
}

func init() {
	vProps["C09"] = vProp{
		build: func(g *vG) {
			g.extra["nostoptimes"] = 8
			g.extra["freq"] = 15
			g.extra["stflds"] = 5
			g.mkAgencies(1)
			g.mkStops(2 + g.n(4))
			g.mkRoutes(1 + g.n(2))
			g.mkServices(1+g.n(3), 20)
			g.mkShapes(g.n(3))
			g.mkTrips(1 + g.cnt())
			hs := []*string{nil, vStr("X"), vStr("Y")}
			for _, t := range g.trips {
				if len(t.StopTimes) == 0 {
					continue
				}
				n := 1 + g.n(6)
				if g.p(10) {
					n = 1 + g.n(20)
				}
				t.StopTimes = nil
				now, seq, same := 6*3600+60*g.n(600), 0, 50+g.n(45)
				stop, sign, dist, cp, cd := g.stops[g.n(len(g.stops))], hs[g.n(3)], float32(g.n(3)), uint8(g.n(4)), uint8(g.n(4))
				if g.p(40) {
					dist = float32(math.NaN())
				}
				for i := 0; i < n; i++ {
					if !g.p(same) {
						stop = g.stops[g.n(len(g.stops))]
					}
					if g.p(8) {
						sign = hs[g.n(3)]
					}
					if g.p(8) {
						dist += float32(g.n(3))
					}
					if g.p(5) {
						dist = float32(math.NaN())
					}
					if g.p(5) {
						cp = uint8(g.n(4))
					}
					if g.p(5) {
						cd = uint8(g.n(4))
					}
					st := gtfs.StopTime{}
					st.SetStop(stop)
					st.SetArrival_time(vTime(now))
					if g.p(12) {
						now += 60
					}
					st.SetDeparture_time(vTime(now))
					now += 60 * g.n(4)
					seq += 1 + g.n(3)/2
					st.SetSequence(seq)
					st.SetHeadsign(sign)
					st.SetPickup_type(uint8(g.n(4)))
					st.SetDrop_off_type(uint8(g.n(4)))
					st.SetContinuous_pickup(cp)
					st.SetContinuous_drop_off(cd)
					st.SetShape_dist_traveled(dist)
					st.SetTimepoint(g.p(80))
					t.StopTimes = append(t.StopTimes, st)
				}
			}
		},
		run: func(g *vG) { AdjacentStopTimeGrouper{}.Run(g.f) },
		check: func(b, a *vG) string {
			if len(b.f.Trips) != len(a.f.Trips) {
				return "trips were added or removed"
			}
			for i, t := range b.trips {
				u := a.trips[i]
				if a.f.Trips[u.Id] != u || vTripAttr(t) != vTripAttr(u) || vFreqs(t) != vFreqs(u) {
					return "trip " + t.Id + ": other attributes changed"
				}
				var want, got []string
				for j := 0; j < len(t.StopTimes); {
					k := j
					for k+1 < len(t.StopTimes) && vAdjoin(t.StopTimes[k], t.StopTimes[k+1]) {
						k++
					}
					want = append(want, vEvent(t.StopTimes[j], t.StopTimes[k]))
					j = k + 1
				}
				for _, st := range u.StopTimes {
					got = append(got, vEvent(st, st))
				}
				if len(want) != len(got) {
					return fmt.Sprintf("trip %s: %d stop times instead of %d: %v instead of %v", t.Id, len(got), len(want), got, want)
				}
				for j := range want {
					if want[j] != got[j] {
						return fmt.Sprintf("trip %s: stop time %d is %s instead of %s", t.Id, j+1, got[j], want[j])
					}
				}
			}
			return ""
		},
	}
}
