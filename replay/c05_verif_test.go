package processors

import (
	"fmt"

	"github.com/patrickbr/gtfsparser"
	gtfs "github.com/patrickbr/gtfsparser/gtfs"
)

func vAgency(f *gtfsparser.Feed, a *gtfs.Agency) string {
	m := ""
	if a.Email != nil {
		m = fmt.Sprintf("%q <%q>", a.Email.Name, a.Email.Address)
	}
	u := func(x interface{ String() string }, nil_ bool) string {
		if nil_ {
			return "-"
		}
		return x.String()
	}
	fl := ""
	for _, k := range []string{"x_a", "x_b"} {
		fl += k + "=" + f.AgenciesAddFlds[k][a.Id] + ";"
	}
	return fmt.Sprintf("name=%q url=%s tz=%s lang=%s phone=%q fare_url=%s email=%s %s", a.Name, u(a.Url, a.Url == nil), a.Timezone.GetTzString(), a.Lang.GetLangString(), a.Phone, u(a.Fare_url, a.Fare_url == nil), m, fl)
}

func init() {
	vProps["C05"] = vProp{
		size: 14,
		build: func(g *vG) {
			g.mkAgencies(g.cnt())
			// mostly near copies: take another agency's values but for at most one attribute
			for i, a := range g.agencies {
				if i == 0 || !g.p(70) {
					continue
				}
				o := g.agencies[g.n(i)]
				k := g.n(10)
				if k != 0 {
					a.Name = o.Name
				}
				if k != 1 {
					a.Url = o.Url
				}
				if k != 2 {
					a.Timezone = o.Timezone
				}
				if k != 3 {
					a.Lang = o.Lang
				}
				if k != 4 {
					a.Phone = o.Phone
				}
				if k != 5 {
					a.Fare_url = o.Fare_url
				}
				if k != 6 {
					a.Email = o.Email
				}
				if k != 7 {
					for _, m := range g.f.AgenciesAddFlds {
						delete(m, a.Id)
						if v, in := m[o.Id]; in {
							m[a.Id] = v
						}
					}
				}
				if k == 8 && a.Email != nil {
					c := *a.Email
					c.Name = "n"
					a.Email = &c
				}
				if k == 9 && a.Url != nil {
					c := *a.Url
					a.Url = &c
				}
			}
			g.mkRoutes(g.cnt())
			g.mkFares(g.cnt())
		},
		run: func(g *vG) { AgencyDuplicateRemover{}.Run(g.f) },
		check: func(b, a *vG) string {
			ref := func(what string, x, y *gtfs.Agency) string {
				if (x == nil) != (y == nil) {
					return what + " has lost or gained an agency"
				}
				if x == nil {
					return ""
				}
				if a.f.Agencies[y.Id] != y {
					return what + " has the unregistered agency " + y.Id
				}
				if s, t := vAgency(b.f, x), vAgency(a.f, y); s != t {
					return fmt.Sprintf("%s had agency %s (%s), now has %s (%s)", what, x.Id, s, y.Id, t)
				}
				return ""
			}
			for i, r := range b.routes {
				if a.f.Routes[r.Id] != a.routes[i] {
					return "route " + r.Id + " was removed"
				}
				if s := ref("route "+r.Id, r.Agency, a.routes[i].Agency); s != "" {
					return s
				}
			}
			for i, r := range b.fares {
				if a.f.FareAttributes[r.Id] != a.fares[i] {
					return "fare " + r.Id + " was removed"
				}
				if s := ref("fare "+r.Id, r.Agency, a.fares[i].Agency); s != "" {
					return s
				}
			}
			have := map[string]bool{}
			for id, x := range a.f.Agencies {
				if x.Id != id {
					return "agency " + x.Id + " is registered as " + id
				}
				have[vAgency(a.f, x)] = true
			}
			if len(a.f.Agencies) > len(b.f.Agencies) {
				return "agencies were added"
			}
			for i, x := range b.agencies {
				y, in := a.f.Agencies[x.Id]
				if in && y != a.agencies[i] {
					return "agency " + x.Id + " was replaced"
				}
				if in && vAgency(b.f, x) != vAgency(a.f, y) {
					return fmt.Sprintf("agency %s changed: before %s after %s", x.Id, vAgency(b.f, x), vAgency(a.f, y))
				}
				if !in && !have[vAgency(b.f, x)] {
					return fmt.Sprintf("agency %s (%s) was removed, no remaining agency equals it", x.Id, vAgency(b.f, x))
				}
			}
			return ""
		},
	}
}
