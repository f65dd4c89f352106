package processors

import (
	"fmt"
	"math"

	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vLimit is the speed limit (km/h) of a basic route type.
func vLimit(ty int16) float64 {
	switch gtfs.GetTypeFromExtended(ty) {
	case 0:
		return 100
	case 1, 3, 12:
		return 150
	case 2:
		return 500
	case 4:
		return 80
	case 5:
		return 30
	case 6, 7, 11:
		return 50
	}
	return math.Inf(1)
}

// vGeoDist is the great-circle distance in metres (haversine).
func vGeoDist(a, b *gtfs.Stop) float64 {
	r := math.Pi / 180
	la, lb := float64(a.Lat)*r, float64(b.Lat)*r
	x := math.Pow(math.Sin((lb-la)/2), 2) + math.Cos(la)*math.Cos(lb)*math.Pow(math.Sin((float64(b.Lon)-float64(a.Lon))*r/2), 2)
	return 2 * 6378137 * math.Asin(math.Min(1, math.Sqrt(x)))
}

func vSec(t gtfs.Time) int { return int(t.Hour)*3600 + int(t.Minute)*60 + int(t.Second) }

// vTooFast applies the two tests of the filter, with all distances scaled.
func vTooFast(t *gtfs.Trip, scale float64) string {
	over := func(d float64, secs int) bool {
		if secs == 0 {
			secs = 60
		}
		return d/1000/(float64(secs)/3600) > vLimit(t.Route.Type)
	}
	last := 0
	for i, d := 1, 0.0; i < len(t.StopTimes); i++ {
		d += scale * vGeoDist(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
		secs := vSec(t.StopTimes[i].Arrival_time()) - vSec(t.StopTimes[last].Departure_time())
		if d >= 7000 && over(d, secs) {
			return fmt.Sprintf("stop events %d to %d: %.0f m in %d s", last+1, i+1, d, secs)
		}
		if secs != 0 {
			last = i
			d = 0
		}
	}
	for j := 1; j < len(t.StopTimes); j++ {
		d := 0.0
		for i := j + 1; i < len(t.StopTimes); i++ {
			d += scale * vGeoDist(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
			secs := vSec(t.StopTimes[i].Arrival_time()) - vSec(t.StopTimes[j].Departure_time())
			if d >= 10000 && over(d, secs) {
				return fmt.Sprintf("stop events %d to %d: %.0f m in %d s", j+1, i+1, d, secs)
			}
		}
	}
	return ""
}

func init() {
	vProps["C16"] = vProp{
		build: func(g *vG) {
			g.extra["nostoptimes"] = 5
			g.extra["freq"] = 15
			g.mkAgencies(1)
			g.mkStops(2 + g.cnt())
			g.mkRoutes(1 + g.cnt())
			g.mkServices(1+g.n(3), 20)
			g.mkShapes(g.n(3))
			g.mkTrips(1 + g.cnt())
			for _, r := range g.routes {
				if g.p(60) {
					r.Type = []int16{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 100, 200, 400, 700, 900, 1000, 1300, 1400}[g.n(18)]
				}
			}
			// positions some kilometres apart, in either direction
			step := []float64{0.0005, 0.01, 0.03, 0.07}[g.n(4)]
			lat := []float64{0, 47, 60, -35}[g.n(4)]
			for _, s := range g.stops {
				s.Lat = float32(lat + step*float64(g.n(5)))
				s.Lon = float32(8 + step*float64(g.n(5)))
			}
			for _, t := range g.trips {
				if !g.p(80) || len(t.StopTimes) == 0 {
					continue
				}
				for n := g.n(4); n > 0; n-- { // longer trips
					st := t.StopTimes[len(t.StopTimes)-1]
					st.SetStop(g.stops[g.n(len(g.stops))])
					st.SetSequence(st.Sequence() + 1)
					t.StopTimes = append(t.StopTimes, st)
				}
				// from fast to slow, with stop events at the same time
				pace := []int{1, 2, 5, 10}[g.n(4)]
				now := 6 * 3600
				for i := range t.StopTimes {
					t.StopTimes[i].SetArrival_time(vTime(now))
					if g.p(15) {
						now += 60
					}
					t.StopTimes[i].SetDeparture_time(vTime(now))
					if !g.p(25) {
						now += 60 * g.n(pace*5)
					}
				}
			}
			g.mkFares(g.n(2))
			g.mkTransfers(g.n(5))
		},
		run: func(g *vG) { TooFastTripRemover{}.Run(g.f) },
		check: func(b, a *vG) string {
			for i, t := range b.trips {
				u, in := a.f.Trips[t.Id]
				if !in {
					if vTooFast(t, 1.01) == "" {
						return "trip " + t.Id + " was deleted although no part of it is too fast"
					}
					continue
				}
				if u != a.trips[i] {
					return "trip " + t.Id + " was replaced"
				}
				if s := vKeptTrip(t, u); s != "" {
					return s
				}
				if s := vTooFast(t, 0.99); s != "" {
					return fmt.Sprintf("trip %s (route type %d) was kept although it is too fast between %s", t.Id, t.Route.Type, s)
				}
			}
			if len(a.f.Trips) > len(b.f.Trips) {
				return "trips were added"
			}
			if len(a.f.Stops) != len(b.f.Stops) || len(a.f.Routes) != len(b.f.Routes) || len(a.f.Services) != len(b.f.Services) || len(a.f.Shapes) != len(b.f.Shapes) {
				return "a stop, route, service or shape was deleted"
			}
			return vTransfersReg(a.f)
		},
	}
}
