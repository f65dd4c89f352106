// Replay harness of /verif: runs a processor of the working tree on small random feeds and compares
// the feed before and after against an oracle written from the property's statement. It is used only
// to look for a concrete input after the verifier has rejected an obligation.
package processors

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/mail"
	"net/url"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

// vG is a generated feed with its entities in creation order: the i-th entity of two feeds made from
// the same seed are counterparts.
type vG struct {
	r        *rand.Rand
	size     int
	f        *gtfsparser.Feed
	agencies []*gtfs.Agency
	stops    []*gtfs.Stop
	levels   []*gtfs.Level
	routes   []*gtfs.Route
	services []*gtfs.Service
	shapes   []*gtfs.Shape
	trips    []*gtfs.Trip
	fares    []*gtfs.FareAttribute
	pathways []*gtfs.Pathway
	transfer []gtfs.TransferKey
	polys    []gtfsparser.Polygon
	extra    map[string]int
}

type vProp struct {
	build func(g *vG)
	run   func(g *vG)
	check func(b, a *vG) string
	size  int // largest size, default 6
}

var vProps = map[string]vProp{}

func (g *vG) n(k int) int             { return g.r.Intn(k) }
func (g *vG) p(pct int) bool          { return g.r.Intn(100) < pct }
func (g *vG) pick(s ...string) string { return s[g.r.Intn(len(s))] }
func (g *vG) cnt() int                { return g.r.Intn(g.size + 1) }

func vURL(s string) *url.URL {
	if s == "" {
		return nil
	}
	u, _ := url.Parse(s)
	return u
}

func vID(g *vG, kind string, i int) string {
	switch g.extra["idstyle"] {
	case 1: // looks like minimised ids, shifted
		return strconv.Itoa(i + 1 + g.extra["idshift"])
	case 2:
		return strconv.FormatInt(int64(3*i+1), 36)
	}
	return kind + strconv.Itoa(i)
}

func (g *vG) addFlds(m map[string]map[string]string, id string) {
	for _, f := range []string{"x_a", "x_b"} {
		if g.p(25) {
			if m[f] == nil {
				m[f] = map[string]string{}
			}
			m[f][id] = g.pick("u", "v")
		}
	}
}

func (g *vG) mkAgencies(k int) {
	for i := 0; i < k; i++ {
		a := &gtfs.Agency{Id: vID(g, "a", i), Name: g.pick("N1", "N1", "N1", "N2"), Url: vURL(g.pick("http://u", "http://u", "http://v"))}
		a.Timezone, _ = gtfs.NewTimezone(g.pick("Europe/Berlin", "Europe/Berlin", "Europe/Berlin", "Europe/Paris"))
		a.Lang, _ = gtfs.NewLanguageISO6391(g.pick("de", "de", "de", "fr"))
		a.Phone = g.pick("", "", "", "1")
		a.Fare_url = vURL(g.pick("", "", "http://f", "http://g"))
		if g.p(30) {
			a.Email, _ = mail.ParseAddress(g.pick("a@b.de", "c@b.de"))
		}
		g.f.Agencies[a.Id] = a
		g.agencies = append(g.agencies, a)
		g.addFlds(g.f.AgenciesAddFlds, a.Id)
	}
}

func (g *vG) mkLevels(k int) {
	for i := 0; i < k; i++ {
		l := &gtfs.Level{Id: vID(g, "l", i), Index: float32(i), Name: g.pick("L", "M")}
		g.f.Levels[l.Id] = l
		g.levels = append(g.levels, l)
		g.addFlds(g.f.LevelsAddFlds, l.Id)
	}
}

func (g *vG) mkStops(k int) {
	for i := 0; i < k; i++ {
		s := &gtfs.Stop{Id: vID(g, "s", i), Code: g.pick("", "", "c"), Name: g.pick("A", "A", "A", "A", "B", ""), Desc: g.pick("", "", "d")}
		s.Lat = 47 + float32(g.n(3))*0.00001 + float32(g.n(2)*g.n(2))*0.01
		s.Lon = 8 + float32(g.n(3))*0.00001 + float32(g.n(2)*g.n(2))*0.01
		s.Location_type = []int8{0, 0, 0, 0, 1, 1, 2}[g.n(7)]
		s.Wheelchair_boarding = int8(g.n(4) / 3)
		s.Zone_id = g.pick("", "", "", "z1", "z2")
		s.Url = vURL(g.pick("", "", "", "http://u"))
		s.Timezone, _ = gtfs.NewTimezone("Europe/Berlin")
		s.Platform_code = g.pick("", "", "", "1")
		if len(g.levels) > 0 && g.p(25) {
			s.Level = g.levels[g.n(len(g.levels))]
		}
		g.f.Stops[s.Id] = s
		g.stops = append(g.stops, s)
		g.addFlds(g.f.StopsAddFlds, s.Id)
	}
	// parents: stations have none, entrances and stops may have a station
	for _, s := range g.stops {
		if s.Location_type == 1 || !g.p(50) {
			continue
		}
		p := g.stops[g.n(len(g.stops))]
		if p.Location_type == 1 {
			s.Parent_station = p
		}
	}
	if g.extra["boarding"] == 1 { // boarding areas hang on platforms
		for _, s := range g.stops {
			if s.Location_type == 0 && s.Parent_station == nil && g.p(40) {
				p := g.stops[g.n(len(g.stops))]
				if p.Location_type == 0 && p.Parent_station != nil {
					s.Location_type = 4
					s.Parent_station = p
				}
			}
		}
	}
}

func (g *vG) mkRoutes(k int) {
	for i := 0; i < k; i++ {
		r := &gtfs.Route{Id: vID(g, "r", i), Short_name: g.pick("1", "1", "1", "2"), Long_name: g.pick("", "", "", "Long"), Desc: g.pick("", "", "", "d"), Color: g.pick("", "", "", "ff0000"), Text_color: g.pick("", "", "", "00ff00")}
		r.Type = []int16{3, 3, 3, 2, 0, 1}[g.n(6)]
		r.Url = vURL(g.pick("", "", "", "http://u"))
		r.Sort_order = g.n(5) / 4
		r.Continuous_pickup = int8(1 - g.n(5)/4)
		r.Continuous_drop_off = int8(1 - g.n(5)/4)
		if len(g.agencies) > 0 && g.p(70) {
			r.Agency = g.agencies[g.n(len(g.agencies))]
		}
		g.f.Routes[r.Id] = r
		g.routes = append(g.routes, r)
		g.addFlds(g.f.RoutesAddFlds, r.Id)
		if g.p(10) {
			r.Attributions = append(r.Attributions, &gtfs.Attribution{Id: "at" + r.Id})
		}
	}
}

func vDay(i int) gtfs.Date { // day i after Monday 2020-01-06
	return gtfs.GetGtfsDateFromTime(time.Date(2020, 1, 6+i, 12, 0, 0, 0, time.UTC))
}

func (g *vG) mkServices(k int, exceptions int) {
	for i := 0; i < k; i++ {
		s := gtfs.EmptyService()
		s.SetId(vID(g, "v", i))
		s.SetExceptions(map[gtfs.Date]bool{})
		span := 1 + g.n(12)
		if g.p(15) {
			span = 30
		}
		st := g.n(6)
		if g.p(15) {
			st += 350
		}
		if g.p(75) {
			maps := []uint8{127, 62, 65, 1, 2, 31, uint8(g.n(128)), uint8(g.n(128))}
			s.SetRawDaymap(maps[g.n(len(maps))])
			s.SetStart_date(vDay(st))
			s.SetEnd_date(vDay(st + span - 1))
		}
		if g.p(exceptions) {
			m := g.n(4)
			if g.p(20) {
				m = g.n(10)
			}
			for j := 0; j < m; j++ {
				s.SetExceptionTypeOn(vDay(st+g.n(span+4)-2), int8(1+g.n(2)))
			}
		}
		g.f.Services[s.Id()] = s
		g.services = append(g.services, s)
	}
}

func (g *vG) mkShapes(k int) {
	for i := 0; i < k; i++ {
		s := &gtfs.Shape{Id: vID(g, "h", i)}
		n := 1 + g.n(7)
		lat, lon := 47.0+0.0001*float64(g.n(2)*g.n(2)), 8.0+0.0001*float64(g.n(2)*g.n(2))
		m := g.n(4)
		for j := 0; j < n; j++ {
			p := gtfs.ShapePoint{Lat: float32(lat), Lon: float32(lon), Sequence: uint32(j), Dist_traveled: float32(math.NaN())}
			if m > 0 {
				p.Dist_traveled = float32(j * m)
			}
			s.Points = append(s.Points, p)
			lat += []float64{0, 0.000001, 0.0001, 0.0001, 0.00002, -0.0001}[g.n(6)]
			lon += []float64{0, 0.000001, 0.0001, 0.0002, -0.00001, 0.00005}[g.n(6)]
		}
		if i > 0 && g.p(50) { // close to an earlier one
			o := g.shapes[g.n(i)]
			s.Points = nil
			d := float32([]float64{0, 0.000003, 0.00002, 0.0004}[g.n(4)])
			for j, p := range o.Points {
				if j > 0 && j < len(o.Points)-1 && g.p(15) {
					continue
				}
				p.Lat += d
				s.Points = append(s.Points, p)
			}
		}
		g.f.Shapes[s.Id] = s
		g.shapes = append(g.shapes, s)
		for j := range s.Points {
			if g.p(3) {
				if g.f.ShapesAddFlds["x_s"] == nil {
					g.f.ShapesAddFlds["x_s"] = map[string]map[int]string{}
				}
				if g.f.ShapesAddFlds["x_s"][s.Id] == nil {
					g.f.ShapesAddFlds["x_s"][s.Id] = map[int]string{}
				}
				g.f.ShapesAddFlds["x_s"][s.Id][j] = g.pick("u", "v")
			}
		}
	}
}

func vTime(sec int) gtfs.Time {
	return gtfs.Time{Hour: int8(sec / 3600), Minute: int8(sec / 60 % 60), Second: int8(sec % 60)}
}

func vStr(s string) *string { return &s }

// mkTrips: with stop times when stops exist. Templates make equal trips likely.
func (g *vG) mkTrips(k int) {
	if len(g.routes) == 0 || len(g.services) == 0 {
		return
	}
	type tmpl struct {
		stops []int
		offs  []int
	}
	var ts []tmpl
	for i := 0; i < 2; i++ {
		t := tmpl{}
		off := 0
		if len(g.stops) > 0 {
			for j := 0; j < 2+g.n(3); j++ {
				t.stops = append(t.stops, g.n(len(g.stops)))
				t.offs = append(t.offs, off)
				off += 60 * g.n(10)
			}
		}
		ts = append(ts, t)
	}
	for i := 0; i < k; i++ {
		t := &gtfs.Trip{Id: vID(g, "t", i), Route: g.routes[g.n(len(g.routes))], Service: g.services[g.n(len(g.services))]}
		if g.p(60) {
			t.Route = g.routes[0]
		}
		t.Headsign = vStr(g.pick("H", "H", "H", "I"))
		t.Short_name = vStr(g.pick("", "", "", "s"))
		t.Block_id = vStr(g.pick("", "", "", "b"))
		t.Direction_id = int8(g.n(5) / 4)
		t.Wheelchair_accessible = int8(g.n(6) / 5)
		t.Bikes_allowed = int8(g.n(6) / 5)
		if len(g.shapes) > 0 && g.p(70) {
			t.Shape = g.shapes[g.n(len(g.shapes))]
		}
		tm := ts[g.n(2)]
		start := 6*3600 + 600*g.n(8)
		if g.extra["sametime"] == 1 && g.p(60) {
			start = 6 * 3600
		}
		seq := 0
		for j, s := range tm.stops {
			st := gtfs.StopTime{}
			st.SetStop(g.stops[s])
			st.SetArrival_time(vTime(start + tm.offs[j]))
			st.SetDeparture_time(vTime(start + tm.offs[j] + 60*(g.n(8)/7)))
			seq += 1 + g.n(6)/5
			st.SetSequence(seq)
			st.SetHeadsign(vStr(g.pick("", "", "", "", "", "sh")))
			if g.p(10) {
				st.SetPickup_type(uint8(g.n(4)))
			}
			if g.p(10) {
				st.SetDrop_off_type(uint8(g.n(4)))
			}
			if g.p(5) {
				st.SetContinuous_pickup(uint8(g.n(4)))
			}
			if g.p(5) {
				st.SetContinuous_drop_off(uint8(g.n(4)))
			}
			st.SetTimepoint(!g.p(5))
			st.SetShape_dist_traveled(float32(math.NaN()))
			if t.Shape != nil && g.extra["dist"] == 1 {
				st.SetShape_dist_traveled(float32(j))
			}
			t.StopTimes = append(t.StopTimes, st)
		}
		if g.p(g.extra["nostoptimes"]) {
			t.StopTimes = nil
		}
		if g.p(g.extra["noboarding"]) {
			for j := range t.StopTimes {
				t.StopTimes[j].SetPickup_type(1)
				t.StopTimes[j].SetDrop_off_type(1)
			}
		}
		if g.p(g.extra["freq"]) {
			fs := []*gtfs.Frequency{}
			for j := 0; j < 1+g.n(2); j++ {
				a := 6*3600 + 1800*g.n(4)
				f := &gtfs.Frequency{Start_time: vTime(a), End_time: vTime(a + 600*(1+g.n(6))), Headway_secs: 300 * (1 + g.n(4)), Exact_times: g.p(70)}
				fs = append(fs, f)
				if g.p(20) {
					if g.f.FrequenciesAddFlds["x_f"] == nil {
						g.f.FrequenciesAddFlds["x_f"] = map[string]map[*gtfs.Frequency]string{}
					}
					if g.f.FrequenciesAddFlds["x_f"][t.Id] == nil {
						g.f.FrequenciesAddFlds["x_f"][t.Id] = map[*gtfs.Frequency]string{}
					}
					g.f.FrequenciesAddFlds["x_f"][t.Id][f] = g.pick("u", "v")
				}
			}
			t.Frequencies = &fs
		}
		if g.p(5) {
			t.Attributions = &[]*gtfs.Attribution{{Id: "att" + t.Id}}
		}
		g.f.Trips[t.Id] = t
		g.f.NumStopTimes += len(t.StopTimes)
		g.trips = append(g.trips, t)
		if g.p(g.extra["tripflds"]) {
			g.addFlds(g.f.TripsAddFlds, t.Id)
		}
		for _, st := range t.StopTimes {
			if g.p(g.extra["stflds"]) {
				if g.f.StopTimesAddFlds["x_t"] == nil {
					g.f.StopTimesAddFlds["x_t"] = map[string]map[int]string{}
				}
				if g.f.StopTimesAddFlds["x_t"][t.Id] == nil {
					g.f.StopTimesAddFlds["x_t"][t.Id] = map[int]string{}
				}
				g.f.StopTimesAddFlds["x_t"][t.Id][st.Sequence()] = g.pick("u", "v")
			}
		}
	}
}

func (g *vG) mkFares(k int) {
	for i := 0; i < k; i++ {
		f := &gtfs.FareAttribute{Id: vID(g, "f", i), Price: "1", Currency_type: "EUR"}
		if len(g.agencies) > 0 && g.p(60) {
			f.Agency = g.agencies[g.n(len(g.agencies))]
		}
		for j := 0; j < g.n(3); j++ {
			r := &gtfs.FareAttributeRule{Origin_id: g.pick("", "z1"), Destination_id: g.pick("", "z2")}
			if len(g.routes) > 0 && g.p(60) {
				r.Route = g.routes[g.n(len(g.routes))]
			}
			f.Rules = append(f.Rules, r)
			if g.p(25) {
				if g.f.FareRulesAddFlds["x_r"] == nil {
					g.f.FareRulesAddFlds["x_r"] = map[string]map[*gtfs.FareAttributeRule]string{}
				}
				if g.f.FareRulesAddFlds["x_r"][f.Id] == nil {
					g.f.FareRulesAddFlds["x_r"][f.Id] = map[*gtfs.FareAttributeRule]string{}
				}
				g.f.FareRulesAddFlds["x_r"][f.Id][r] = g.pick("u", "v")
			}
		}
		g.f.FareAttributes[f.Id] = f
		g.fares = append(g.fares, f)
		g.addFlds(g.f.FareAttributesAddFlds, f.Id)
	}
}

func (g *vG) mkPathways(k int) {
	if len(g.stops) == 0 {
		return
	}
	for i := 0; i < k; i++ {
		p := &gtfs.Pathway{Id: vID(g, "p", i), From_stop: g.stops[g.n(len(g.stops))], To_stop: g.stops[g.n(len(g.stops))], Mode: uint8(1 + g.n(3))}
		if g.extra["pwidasfare"] == 1 && len(g.fares) > 0 && g.p(40) {
			p.Id = g.fares[g.n(len(g.fares))].Id
			if _, in := g.f.Pathways[p.Id]; in {
				continue
			}
		}
		g.f.Pathways[p.Id] = p
		g.pathways = append(g.pathways, p)
		g.addFlds(g.f.PathwaysAddFlds, p.Id)
	}
}

func (g *vG) mkTransfers(k int) {
	if len(g.stops) == 0 {
		return
	}
	for i := 0; i < k; i++ {
		tk := gtfs.TransferKey{From_stop: g.stops[g.n(len(g.stops))], To_stop: g.stops[g.n(len(g.stops))]}
		if len(g.routes) > 0 && g.p(30) {
			tk.From_route = g.routes[g.n(len(g.routes))]
		}
		if len(g.routes) > 0 && g.p(30) {
			tk.To_route = g.routes[g.n(len(g.routes))]
		}
		if len(g.trips) > 0 && g.p(20) {
			tk.From_trip = g.trips[g.n(len(g.trips))]
		}
		if len(g.trips) > 0 && g.p(20) {
			tk.To_trip = g.trips[g.n(len(g.trips))]
		}
		if _, in := g.f.Transfers[tk]; in {
			continue
		}
		g.f.Transfers[tk] = gtfs.TransferVal{Transfer_type: 2, Min_transfer_time: i}
		g.transfer = append(g.transfer, tk)
		if g.p(30) {
			if g.f.TransfersAddFlds["x_x"] == nil {
				g.f.TransfersAddFlds["x_x"] = map[gtfs.TransferKey]string{}
			}
			g.f.TransfersAddFlds["x_x"][tk] = strconv.Itoa(i)
		}
	}
}

// ---------- dates ----------

// vActive is the GTFS rule: an exception on the day decides, otherwise weekday map and date range.
func vActive(s *gtfs.Service, i int) bool {
	d := vDay(i)
	if v, in := s.Exceptions()[d]; in {
		return v
	}
	t := d.GetTime()
	return s.RawDaymap()&(1<<uint(t.Weekday())) != 0 && !t.Before(s.Start_date().GetTime()) && !t.After(s.End_date().GetTime())
}

const vLo, vHi = -15, 430

func vDates(s *gtfs.Service) string {
	var sb strings.Builder
	for i := vLo; i < vHi; i++ {
		if vActive(s, i) {
			fmt.Fprintf(&sb, "%d,", i)
		}
	}
	return sb.String()
}

func vDate(i int) string {
	d := vDay(i)
	return fmt.Sprintf("%04d-%02d-%02d", d.Year(), d.Month(), d.Day())
}

// ---------- printing ----------

func vs(p *string) string {
	if p == nil {
		return "<nil>"
	}
	return *p
}

func vT(t gtfs.Time) string { return fmt.Sprintf("%02d:%02d:%02d", t.Hour, t.Minute, t.Second) }

func vStopTime(st gtfs.StopTime) string {
	id := "<nil>"
	if st.Stop() != nil {
		id = st.Stop().Id
	}
	return id + " " + vStopTimeNoStop(st)
}

func vStopTimeNoStop(st gtfs.StopTime) string {
	return fmt.Sprintf("arr=%s dep=%s seq=%d pu=%d do=%d cpu=%d cdo=%d hs=%q tp=%v dist=%v", vT(st.Arrival_time()), vT(st.Departure_time()), st.Sequence(), st.Pickup_type(), st.Drop_off_type(), st.Continuous_pickup(), st.Continuous_drop_off(), vs(st.Headsign()), st.Timepoint(), st.Shape_dist_traveled())
}

func vMeasured(p gtfs.ShapePoint) bool { return p.Dist_traveled == p.Dist_traveled }

func vNear(x float32, y float64) bool {
	return math.Abs(float64(x)-y) <= 1e-3+1e-5*math.Abs(y)
}

// vStopRest is everything of a stop but its ID and position.
func vStopRest(s *gtfs.Stop) string {
	parent, level, url := "", "", ""
	if s.Parent_station != nil {
		parent = s.Parent_station.Id
	}
	if s.Level != nil {
		level = s.Level.Id
	}
	if s.Url != nil {
		url = s.Url.String()
	}
	return fmt.Sprintf("code=%q name=%q desc=%q type=%d wheelchair=%d zone=%q url=%q parent=%q translations=%d level=%q platform=%q tz=%q",
		s.Code, s.Name, s.Desc, s.Location_type, s.Wheelchair_boarding, s.Zone_id, url, parent, len(s.Translations), level, s.Platform_code, s.Timezone.GetTzString())
}

func vFreqs(t *gtfs.Trip) string {
	if t.Frequencies == nil {
		return "none"
	}
	var out []string
	for _, f := range *t.Frequencies {
		out = append(out, fmt.Sprintf("%s-%s/%d/%v", vT(f.Start_time), vT(f.End_time), f.Headway_secs, f.Exact_times))
	}
	return strings.Join(out, " ")
}

func vTripAttr(t *gtfs.Trip) string {
	return fmt.Sprintf("headsign=%q short=%q block=%q dir=%d wh=%d bikes=%d", vs(t.Headsign), vs(t.Short_name), vs(t.Block_id), t.Direction_id, t.Wheelchair_accessible, t.Bikes_allowed)
}

func vDump(g *vG) []string {
	var o []string
	add := func(f string, a ...interface{}) { o = append(o, fmt.Sprintf(f, a...)) }
	for _, a := range g.agencies {
		add("agency %s name=%s url=%v tz=%s lang=%s phone=%s fare_url=%v email=%v", a.Id, a.Name, a.Url, a.Timezone.GetTzString(), a.Lang.GetLangString(), a.Phone, a.Fare_url, a.Email)
	}
	for _, s := range g.stops {
		p, l := "", ""
		if s.Parent_station != nil {
			p = s.Parent_station.Id
		}
		if s.Level != nil {
			l = s.Level.Id
		}
		add("stop %s name=%s code=%s desc=%s pos=%v,%v type=%d parent=%s level=%s zone=%s wh=%d platform=%s url=%v", s.Id, s.Name, s.Code, s.Desc, s.Lat, s.Lon, s.Location_type, p, l, s.Zone_id, s.Wheelchair_boarding, s.Platform_code, s.Url)
	}
	for _, r := range g.routes {
		a := ""
		if r.Agency != nil {
			a = r.Agency.Id
		}
		add("route %s %s", r.Id, vRoute(r)+" agency="+a)
	}
	for _, s := range g.services {
		e := ""
		var is []string
		for d, v := range s.Exceptions() {
			is = append(is, fmt.Sprintf("%04d%02d%02d:%v", d.Year(), d.Month(), d.Day(), v))
		}
		sort.Strings(is)
		e = strings.Join(is, " ")
		st, en := s.Start_date(), s.End_date()
		add("service %s daymap(sun=bit0)=%07b %04d%02d%02d-%04d%02d%02d exceptions=[%s]", s.Id(), s.RawDaymap(), st.Year(), st.Month(), st.Day(), en.Year(), en.Month(), en.Day(), e)
	}
	for _, s := range g.shapes {
		l := "shape " + s.Id + ":"
		for _, p := range s.Points {
			l += fmt.Sprintf(" (%v,%v,%d,%v)", p.Lat, p.Lon, p.Sequence, p.Dist_traveled)
		}
		o = append(o, l)
	}
	for _, t := range g.trips {
		sh := ""
		if t.Shape != nil {
			sh = t.Shape.Id
		}
		add("trip %s route=%s service=%s shape=%s %s frequencies=%s", t.Id, t.Route.Id, t.Service.Id(), sh, vTripAttr(t), vFreqs(t))
		for _, st := range t.StopTimes {
			add("   %s", vStopTime(st))
		}
	}
	for _, f := range g.fares {
		a := ""
		if f.Agency != nil {
			a = f.Agency.Id
		}
		add("fare %s agency=%s rules=%d", f.Id, a, len(f.Rules))
	}
	for _, p := range g.pathways {
		add("pathway %s %s -> %s", p.Id, p.From_stop.Id, p.To_stop.Id)
	}
	for _, k := range g.transfer {
		add("transfer %s", vTransfer(k))
	}
	for k, m := range map[string]map[string]map[string]string{"agencies": g.f.AgenciesAddFlds, "stops": g.f.StopsAddFlds, "routes": g.f.RoutesAddFlds, "trips": g.f.TripsAddFlds} {
		for fld, mm := range m {
			for id, v := range mm {
				add("additional field %s.%s[%s]=%s", k, fld, id, v)
			}
		}
	}
	return o
}

func vRoute(r *gtfs.Route) string {
	return fmt.Sprintf("short=%q long=%q desc=%q type=%d url=%v color=%q text=%q sort=%d cpu=%d cdo=%d", r.Short_name, r.Long_name, r.Desc, r.Type, r.Url, r.Color, r.Text_color, r.Sort_order, r.Continuous_pickup, r.Continuous_drop_off)
}

func vTransfer(k gtfs.TransferKey) string {
	s := ""
	for i, x := range []*gtfs.Stop{k.From_stop, k.To_stop} {
		if x != nil {
			s += fmt.Sprintf("stop%d=%s ", i, x.Id)
		}
	}
	for i, x := range []*gtfs.Route{k.From_route, k.To_route} {
		if x != nil {
			s += fmt.Sprintf("route%d=%s ", i, x.Id)
		}
	}
	for i, x := range []*gtfs.Trip{k.From_trip, k.To_trip} {
		if x != nil {
			s += fmt.Sprintf("trip%d=%s ", i, x.Id)
		}
	}
	return s
}

// vTransfersReg reports a transfer that refers to an unregistered entry.
func vTransfersReg(f *gtfsparser.Feed) string {
	for k := range f.Transfers {
		for _, s := range []*gtfs.Stop{k.From_stop, k.To_stop} {
			if s != nil && f.Stops[s.Id] != s {
				return "transfer " + vTransfer(k) + "refers to the unregistered stop " + s.Id
			}
		}
		for _, s := range []*gtfs.Route{k.From_route, k.To_route} {
			if s != nil && f.Routes[s.Id] != s {
				return "transfer " + vTransfer(k) + "refers to the unregistered route " + s.Id
			}
		}
		for _, s := range []*gtfs.Trip{k.From_trip, k.To_trip} {
			if s != nil && f.Trips[s.Id] != s {
				return "transfer " + vTransfer(k) + "refers to the unregistered trip " + s.Id
			}
		}
	}
	return ""
}

// vKeptTrip compares everything of a trip that no filter may touch.
func vKeptTrip(t *gtfs.Trip, u *gtfs.Trip) string {
	s1, s2 := "", ""
	for _, x := range t.StopTimes {
		s1 += vStopTime(x) + "\n"
	}
	for _, x := range u.StopTimes {
		s2 += vStopTime(x) + "\n"
	}
	sh := func(t *gtfs.Trip) string {
		if t.Shape == nil {
			return ""
		}
		return t.Shape.Id
	}
	a := fmt.Sprintf("%s route=%s service=%s shape=%s %s %s\n%s", t.Id, t.Route.Id, t.Service.Id(), sh(t), vTripAttr(t), vFreqs(t), s1)
	b := fmt.Sprintf("%s route=%s service=%s shape=%s %s %s\n%s", u.Id, u.Route.Id, u.Service.Id(), sh(u), vTripAttr(u), vFreqs(u), s2)
	if a != b {
		return "trip changed: before " + a + " after " + b
	}
	return ""
}

// vFlds gives the additional fields of one entity.
func vFlds(m map[string]map[string]string, id string) string {
	var o []string
	for f, mm := range m {
		if v := mm[id]; v != "" { // an empty value is the same as none
			o = append(o, f+"="+v)
		}
	}
	sort.Strings(o)
	return strings.Join(o, ";")
}

// ---------- driver ----------

func vGen(p vProp, seed int64, size int) *vG {
	g := &vG{r: rand.New(rand.NewSource(seed)), size: size, f: gtfsparser.NewFeed(), extra: map[string]int{}}
	p.build(g)
	return g
}

type vResult struct {
	Property string
	Seed     int64
	Size     int
	Failure  string
	Feed     []string
	Tried    int
}

// vOne runs the processor on one generated feed.
func vOne(p vProp, seed int64, size int, limit time.Duration) string {
	b := vGen(p, seed, size)
	a := vGen(p, seed, size)
	type out struct{ s string }
	c := make(chan out, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				c <- out{fmt.Sprintf("panic: %v\n%s", r, st)}
			}
		}()
		p.run(a)
		c <- out{p.check(b, a)}
	}()
	select {
	case r := <-c:
		return r.s
	case <-time.After(limit):
		return "does not return within " + limit.String()
	}
}

func TestVerifReplay(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p, ok := vProps[id]
	if !ok {
		t.Skip("no property")
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	stdout := os.Stdout
	if null != nil {
		os.Stdout = null
	}
	seed0, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	maxSize := p.size
	if maxSize == 0 {
		maxSize = 6
	}
	if one := os.Getenv("VERIF_ONE"); one != "" { // replay of a recorded input: seed:size
		var s int64
		var n int
		fmt.Sscanf(one, "%d:%d", &s, &n)
		for _, l := range vDump(vGen(p, s, n)) {
			fmt.Fprintln(stdout, l)
		}
		for i := 0; i < 50; i++ { // map iteration order is random
			if r := vOne(p, s, n, 20*time.Second); r != "" {
				fmt.Fprintln(stdout, "FAILURE:", r)
				t.Fatal(r)
			}
		}
		return
	}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	tried := 0
	for i := int64(0); time.Now().Before(end); i++ {
		size := 2 + int(i/40)%(maxSize-1)
		s := seed0*1000003 + i
		tried++
		if cur := os.Getenv("VERIF_OUT"); cur != "" { // kept when a goroutine of the code ends the process
			js, _ := json.Marshal(vResult{Property: id, Seed: s, Size: size, Tried: tried})
			os.WriteFile(cur+".cur", js, 0644)
		}
		r := vOne(p, s, size, 20*time.Second)
		if r == "" {
			continue
		}
		res := vResult{id, s, size, r, vDump(vGen(p, s, size)), tried}
		js, _ := json.MarshalIndent(res, "", " ")
		os.WriteFile(os.Getenv("VERIF_OUT"), js, 0644)
		t.Fatal(r)
	}
	fmt.Fprintf(stdout, "tried %d inputs\n", tried)
}

// vMerc is the processors' projection (it rounds to float32)
func vMerc(p gtfs.ShapePoint) (float64, float64) { return latLngToWebMerc(p.Lat, p.Lon) }

func vSamePoint(a, b gtfs.ShapePoint) bool {
	return a.Lat == b.Lat && a.Lon == b.Lon && (a.Dist_traveled == b.Dist_traveled || a.Dist_traveled != a.Dist_traveled && b.Dist_traveled != b.Dist_traveled)
}
