property C07 processors.IDMinimizer.Run
assumes every entity is registered under its own ID, and no two additional-field tables share a map

pred Base(b: int) := 2 <= b && b <= 36

func processors.renameAddFlds[string]
  requires forall a: string, b: string :: {newIds[a], newIds[b]} a in newIds && b in newIds && newIds[a] == newIds[b] ==> a == b
  modifies map[string]map[string]string at addFlds
  ensures forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
  ensures forall g: string, k: string :: {addFlds[g][newIds[k]]} g in addFlds && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 1
    modifies map[string]map[string]string at addFlds
    invariant forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
    invariant forall g: string :: {addFlds[g]} !visited(g) ==> addFlds[g] == old(addFlds[g])
    invariant forall g: string :: {addFlds[g]} visited(g) ==> fresh(addFlds[g]) && allocated(addFlds[g])
    invariant forall g: string, k: string :: {addFlds[g][newIds[k]]} visited(g) && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 2
    modifies map[string]string at renamed
    invariant forall k: string :: {visited(k)} {newIds[k]} visited(k) ==> renamed[newIds[k]] == flds[k]
    invariant flds != renamed
    invariant forall k: string :: {visited(k)} visited(k) ==> k in newIds
    invariant forall k: string :: {newIds[k]} k in newIds && !visited(k) ==> !(newIds[k] in renamed)

func processors.renameAddFlds[map[int]string]
  requires forall a: string, b: string :: {newIds[a], newIds[b]} a in newIds && b in newIds && newIds[a] == newIds[b] ==> a == b
  modifies map[string]map[string]map[int]string at addFlds
  ensures forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
  ensures forall g: string, k: string :: {addFlds[g][newIds[k]]} g in addFlds && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 1
    modifies map[string]map[string]map[int]string at addFlds
    invariant forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
    invariant forall g: string :: {addFlds[g]} !visited(g) ==> addFlds[g] == old(addFlds[g])
    invariant forall g: string :: {addFlds[g]} visited(g) ==> fresh(addFlds[g]) && allocated(addFlds[g])
    invariant forall g: string, k: string :: {addFlds[g][newIds[k]]} visited(g) && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 2
    modifies map[string]map[int]string at renamed
    invariant forall k: string :: {visited(k)} {newIds[k]} visited(k) ==> renamed[newIds[k]] == flds[k]
    invariant flds != renamed
    invariant forall k: string :: {visited(k)} visited(k) ==> k in newIds
    invariant forall k: string :: {newIds[k]} k in newIds && !visited(k) ==> !(newIds[k] in renamed)

func processors.renameAddFlds[map[*gtfs.Frequency]string]
  requires forall a: string, b: string :: {newIds[a], newIds[b]} a in newIds && b in newIds && newIds[a] == newIds[b] ==> a == b
  modifies map[string]map[string]map[*gtfs.Frequency]string at addFlds
  ensures forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
  ensures forall g: string, k: string :: {addFlds[g][newIds[k]]} g in addFlds && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 1
    modifies map[string]map[string]map[*gtfs.Frequency]string at addFlds
    invariant forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
    invariant forall g: string :: {addFlds[g]} !visited(g) ==> addFlds[g] == old(addFlds[g])
    invariant forall g: string :: {addFlds[g]} visited(g) ==> fresh(addFlds[g]) && allocated(addFlds[g])
    invariant forall g: string, k: string :: {addFlds[g][newIds[k]]} visited(g) && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 2
    modifies map[string]map[*gtfs.Frequency]string at renamed
    invariant forall k: string :: {visited(k)} {newIds[k]} visited(k) ==> renamed[newIds[k]] == flds[k]
    invariant flds != renamed
    invariant forall k: string :: {visited(k)} visited(k) ==> k in newIds
    invariant forall k: string :: {newIds[k]} k in newIds && !visited(k) ==> !(newIds[k] in renamed)

func processors.renameAddFlds[map[*gtfs.FareAttributeRule]string]
  requires forall a: string, b: string :: {newIds[a], newIds[b]} a in newIds && b in newIds && newIds[a] == newIds[b] ==> a == b
  modifies map[string]map[string]map[*gtfs.FareAttributeRule]string at addFlds
  ensures forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
  ensures forall g: string, k: string :: {addFlds[g][newIds[k]]} g in addFlds && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 1
    modifies map[string]map[string]map[*gtfs.FareAttributeRule]string at addFlds
    invariant forall g: string :: {g in addFlds} g in addFlds <==> old(g in addFlds)
    invariant forall g: string :: {addFlds[g]} !visited(g) ==> addFlds[g] == old(addFlds[g])
    invariant forall g: string :: {addFlds[g]} visited(g) ==> fresh(addFlds[g]) && allocated(addFlds[g])
    invariant forall g: string, k: string :: {addFlds[g][newIds[k]]} visited(g) && k in newIds ==> addFlds[g][newIds[k]] == old(addFlds[g][k])
  loop 2
    modifies map[string]map[*gtfs.FareAttributeRule]string at renamed
    invariant forall k: string :: {visited(k)} {newIds[k]} visited(k) ==> renamed[newIds[k]] == flds[k]
    invariant flds != renamed
    invariant forall k: string :: {visited(k)} visited(k) ==> k in newIds
    invariant forall k: string :: {newIds[k]} k in newIds && !visited(k) ==> !(newIds[k] in renamed)

func processors.IDMinimizer.minimizeTripIds
  requires feed != nil && feed.Trips != nil && (forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Trip.Id where x: *gtfs.Trip :: x.Id in feed.Trips && feed.Trips[x.Id] == x
  modifies gtfsparser.Feed.Trips at feed
  modifies map[string]map[string]string at feed.TripsAddFlds
  modifies map[string]map[string]map[int]string at feed.StopTimesAddFlds
  modifies map[string]map[string]map[*gtfs.Frequency]string at feed.FrequenciesAddFlds
  ensures forall k: string :: {old(feed.Trips[k])} old(k in feed.Trips) ==> old(feed.Trips[k]).Id in feed.Trips && feed.Trips[old(feed.Trips[k]).Id] == old(feed.Trips[k])
  ensures forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k && (exists l: string :: {old(feed.Trips[l])} old(l in feed.Trips) && old(feed.Trips[l]) == feed.Trips[k])
  ensures forall g: string :: {g in feed.TripsAddFlds} g in feed.TripsAddFlds <==> old(g in feed.TripsAddFlds)
  ensures forall g: string, k: string :: {feed.TripsAddFlds[g], old(feed.Trips[k])} g in feed.TripsAddFlds && old(k in feed.Trips) ==> feed.TripsAddFlds[g][old(feed.Trips[k]).Id] == old(feed.TripsAddFlds[g][k])
  ensures forall g: string :: {g in feed.StopTimesAddFlds} g in feed.StopTimesAddFlds <==> old(g in feed.StopTimesAddFlds)
  ensures forall g: string, k: string :: {feed.StopTimesAddFlds[g], old(feed.Trips[k])} g in feed.StopTimesAddFlds && old(k in feed.Trips) ==> feed.StopTimesAddFlds[g][old(feed.Trips[k]).Id] == old(feed.StopTimesAddFlds[g][k])
  ensures forall g: string :: {g in feed.FrequenciesAddFlds} g in feed.FrequenciesAddFlds <==> old(g in feed.FrequenciesAddFlds)
  ensures forall g: string, k: string :: {feed.FrequenciesAddFlds[g], old(feed.Trips[k])} g in feed.FrequenciesAddFlds && old(k in feed.Trips) ==> feed.FrequenciesAddFlds[g][old(feed.Trips[k]).Id] == old(feed.FrequenciesAddFlds[g][k])
  loop 1
    modifies gtfs.Trip.Id where x: *gtfs.Trip :: x.Id in feed.Trips && feed.Trips[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Trip at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Trips[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Trips[k]
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !visited(k) ==> feed.Trips[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Trips[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Trips[l] && feed.Trips[l].Id == x && l in feed.Trips)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeStopIds
  requires feed != nil && feed.Stops != nil && (forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Stop.Id where x: *gtfs.Stop :: x.Id in feed.Stops && feed.Stops[x.Id] == x
  modifies gtfsparser.Feed.Stops at feed
  modifies map[string]map[string]string at feed.StopsAddFlds
  ensures forall k: string :: {old(feed.Stops[k])} old(k in feed.Stops) ==> old(feed.Stops[k]).Id in feed.Stops && feed.Stops[old(feed.Stops[k]).Id] == old(feed.Stops[k])
  ensures forall k: string :: {feed.Stops[k]} {k in feed.Stops} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k && (exists l: string :: {old(feed.Stops[l])} old(l in feed.Stops) && old(feed.Stops[l]) == feed.Stops[k])
  ensures forall g: string :: {g in feed.StopsAddFlds} g in feed.StopsAddFlds <==> old(g in feed.StopsAddFlds)
  ensures forall g: string, k: string :: {feed.StopsAddFlds[g], old(feed.Stops[k])} g in feed.StopsAddFlds && old(k in feed.Stops) ==> feed.StopsAddFlds[g][old(feed.Stops[k]).Id] == old(feed.StopsAddFlds[g][k])
  loop 1
    modifies gtfs.Stop.Id where x: *gtfs.Stop :: x.Id in feed.Stops && feed.Stops[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Stop at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Stops[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Stops[k]
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops && !visited(k) ==> feed.Stops[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Stops[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Stops[l] && feed.Stops[l].Id == x && l in feed.Stops)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeRouteIds
  requires feed != nil && feed.Routes != nil && (forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k] != nil && feed.Routes[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Route.Id where x: *gtfs.Route :: x.Id in feed.Routes && feed.Routes[x.Id] == x
  modifies gtfsparser.Feed.Routes at feed
  modifies map[string]map[string]string at feed.RoutesAddFlds
  ensures forall k: string :: {old(feed.Routes[k])} old(k in feed.Routes) ==> old(feed.Routes[k]).Id in feed.Routes && feed.Routes[old(feed.Routes[k]).Id] == old(feed.Routes[k])
  ensures forall k: string :: {feed.Routes[k]} {k in feed.Routes} k in feed.Routes ==> feed.Routes[k] != nil && feed.Routes[k].Id == k && (exists l: string :: {old(feed.Routes[l])} old(l in feed.Routes) && old(feed.Routes[l]) == feed.Routes[k])
  ensures forall g: string :: {g in feed.RoutesAddFlds} g in feed.RoutesAddFlds <==> old(g in feed.RoutesAddFlds)
  ensures forall g: string, k: string :: {feed.RoutesAddFlds[g], old(feed.Routes[k])} g in feed.RoutesAddFlds && old(k in feed.Routes) ==> feed.RoutesAddFlds[g][old(feed.Routes[k]).Id] == old(feed.RoutesAddFlds[g][k])
  loop 1
    modifies gtfs.Route.Id where x: *gtfs.Route :: x.Id in feed.Routes && feed.Routes[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Route at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Routes[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Routes[k]
    invariant forall k: string :: {feed.Routes[k]} k in feed.Routes && !visited(k) ==> feed.Routes[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Routes[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Routes[l] && feed.Routes[l].Id == x && l in feed.Routes)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeShapeIds
  requires feed != nil && feed.Shapes != nil && (forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Shape.Id where x: *gtfs.Shape :: x.Id in feed.Shapes && feed.Shapes[x.Id] == x
  modifies gtfsparser.Feed.Shapes at feed
  modifies map[string]map[string]map[int]string at feed.ShapesAddFlds
  ensures forall k: string :: {old(feed.Shapes[k])} old(k in feed.Shapes) ==> old(feed.Shapes[k]).Id in feed.Shapes && feed.Shapes[old(feed.Shapes[k]).Id] == old(feed.Shapes[k])
  ensures forall k: string :: {feed.Shapes[k]} {k in feed.Shapes} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k && (exists l: string :: {old(feed.Shapes[l])} old(l in feed.Shapes) && old(feed.Shapes[l]) == feed.Shapes[k])
  ensures forall g: string :: {g in feed.ShapesAddFlds} g in feed.ShapesAddFlds <==> old(g in feed.ShapesAddFlds)
  ensures forall g: string, k: string :: {feed.ShapesAddFlds[g], old(feed.Shapes[k])} g in feed.ShapesAddFlds && old(k in feed.Shapes) ==> feed.ShapesAddFlds[g][old(feed.Shapes[k]).Id] == old(feed.ShapesAddFlds[g][k])
  loop 1
    modifies gtfs.Shape.Id where x: *gtfs.Shape :: x.Id in feed.Shapes && feed.Shapes[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Shape at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Shapes[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Shapes[k]
    invariant forall k: string :: {feed.Shapes[k]} k in feed.Shapes && !visited(k) ==> feed.Shapes[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Shapes[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Shapes[l] && feed.Shapes[l].Id == x && l in feed.Shapes)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeAgencyIds
  requires feed != nil && feed.Agencies != nil && (forall k: string :: {feed.Agencies[k]} k in feed.Agencies ==> feed.Agencies[k] != nil && feed.Agencies[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Agency.Id where x: *gtfs.Agency :: x.Id in feed.Agencies && feed.Agencies[x.Id] == x
  modifies gtfsparser.Feed.Agencies at feed
  modifies map[string]map[string]string at feed.AgenciesAddFlds
  ensures forall k: string :: {old(feed.Agencies[k])} old(k in feed.Agencies) ==> old(feed.Agencies[k]).Id in feed.Agencies && feed.Agencies[old(feed.Agencies[k]).Id] == old(feed.Agencies[k])
  ensures forall k: string :: {feed.Agencies[k]} {k in feed.Agencies} k in feed.Agencies ==> feed.Agencies[k] != nil && feed.Agencies[k].Id == k && (exists l: string :: {old(feed.Agencies[l])} old(l in feed.Agencies) && old(feed.Agencies[l]) == feed.Agencies[k])
  ensures forall g: string :: {g in feed.AgenciesAddFlds} g in feed.AgenciesAddFlds <==> old(g in feed.AgenciesAddFlds)
  ensures forall g: string, k: string :: {feed.AgenciesAddFlds[g], old(feed.Agencies[k])} g in feed.AgenciesAddFlds && old(k in feed.Agencies) ==> feed.AgenciesAddFlds[g][old(feed.Agencies[k]).Id] == old(feed.AgenciesAddFlds[g][k])
  loop 1
    modifies gtfs.Agency.Id where x: *gtfs.Agency :: x.Id in feed.Agencies && feed.Agencies[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Agency at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Agencies[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Agencies[k]
    invariant forall k: string :: {feed.Agencies[k]} k in feed.Agencies && !visited(k) ==> feed.Agencies[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Agencies[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Agencies[l] && feed.Agencies[l].Id == x && l in feed.Agencies)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeServiceIds
  requires feed != nil && feed.Services != nil && (forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Service.id where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies gtfsparser.Feed.Services at feed
  ensures forall k: string :: {old(feed.Services[k])} old(k in feed.Services) ==> old(feed.Services[k]).id in feed.Services && feed.Services[old(feed.Services[k]).id] == old(feed.Services[k])
  ensures forall k: string :: {feed.Services[k]} {k in feed.Services} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k && (exists l: string :: {old(feed.Services[l])} old(l in feed.Services) && old(feed.Services[l]) == feed.Services[k])
  loop 1
    modifies gtfs.Service.id where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap)
    modifies map[string]*gtfs.Service at newMap
    invariant forall k: string :: {visited(k)} {feed.Services[k]} visited(k) ==> feed.Services[k].id in newMap && newMap[feed.Services[k].id] == feed.Services[k]
    invariant forall k: string :: {feed.Services[k]} k in feed.Services && !visited(k) ==> feed.Services[k].id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {visited(l)} {feed.Services[l]} visited(l) && l in feed.Services && feed.Services[l] == newMap[x] && newMap[x].id == x)
    invariant forall k: string :: {feed.Services[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && feed.Services[k].id == minimizer.Prefix + itoa(n, minimizer.Base))

func processors.IDMinimizer.minimizeFareIds
  requires feed != nil && feed.FareAttributes != nil && (forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes ==> feed.FareAttributes[k] != nil && feed.FareAttributes[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.FareAttribute.Id where x: *gtfs.FareAttribute :: x.Id in feed.FareAttributes && feed.FareAttributes[x.Id] == x
  modifies gtfsparser.Feed.FareAttributes at feed
  modifies map[string]map[string]string at feed.FareAttributesAddFlds
  modifies map[string]map[string]map[*gtfs.FareAttributeRule]string at feed.FareRulesAddFlds
  ensures forall k: string :: {old(feed.FareAttributes[k])} old(k in feed.FareAttributes) ==> old(feed.FareAttributes[k]).Id in feed.FareAttributes && feed.FareAttributes[old(feed.FareAttributes[k]).Id] == old(feed.FareAttributes[k])
  ensures forall k: string :: {feed.FareAttributes[k]} {k in feed.FareAttributes} k in feed.FareAttributes ==> feed.FareAttributes[k] != nil && feed.FareAttributes[k].Id == k && (exists l: string :: {old(feed.FareAttributes[l])} old(l in feed.FareAttributes) && old(feed.FareAttributes[l]) == feed.FareAttributes[k])
  ensures forall g: string :: {g in feed.FareAttributesAddFlds} g in feed.FareAttributesAddFlds <==> old(g in feed.FareAttributesAddFlds)
  ensures forall g: string, k: string :: {feed.FareAttributesAddFlds[g], old(feed.FareAttributes[k])} g in feed.FareAttributesAddFlds && old(k in feed.FareAttributes) ==> feed.FareAttributesAddFlds[g][old(feed.FareAttributes[k]).Id] == old(feed.FareAttributesAddFlds[g][k])
  ensures forall g: string :: {g in feed.FareRulesAddFlds} g in feed.FareRulesAddFlds <==> old(g in feed.FareRulesAddFlds)
  ensures forall g: string, k: string :: {feed.FareRulesAddFlds[g], old(feed.FareAttributes[k])} g in feed.FareRulesAddFlds && old(k in feed.FareAttributes) ==> feed.FareRulesAddFlds[g][old(feed.FareAttributes[k]).Id] == old(feed.FareRulesAddFlds[g][k])
  loop 1
    modifies gtfs.FareAttribute.Id where x: *gtfs.FareAttribute :: x.Id in feed.FareAttributes && feed.FareAttributes[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.FareAttribute at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.FareAttributes[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.FareAttributes[k]
    invariant forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && !visited(k) ==> feed.FareAttributes[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.FareAttributes[l]} visited(l) && newIds[l] == x && newMap[x] == feed.FareAttributes[l] && feed.FareAttributes[l].Id == x && l in feed.FareAttributes)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizePathwayIds
  requires feed != nil && feed.Pathways != nil && (forall k: string :: {feed.Pathways[k]} k in feed.Pathways ==> feed.Pathways[k] != nil && feed.Pathways[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Pathway.Id where x: *gtfs.Pathway :: x.Id in feed.Pathways && feed.Pathways[x.Id] == x
  modifies gtfsparser.Feed.Pathways at feed
  modifies map[string]map[string]string at feed.PathwaysAddFlds
  ensures forall k: string :: {old(feed.Pathways[k])} old(k in feed.Pathways) ==> old(feed.Pathways[k]).Id in feed.Pathways && feed.Pathways[old(feed.Pathways[k]).Id] == old(feed.Pathways[k])
  ensures forall k: string :: {feed.Pathways[k]} {k in feed.Pathways} k in feed.Pathways ==> feed.Pathways[k] != nil && feed.Pathways[k].Id == k && (exists l: string :: {old(feed.Pathways[l])} old(l in feed.Pathways) && old(feed.Pathways[l]) == feed.Pathways[k])
  ensures forall g: string :: {g in feed.PathwaysAddFlds} g in feed.PathwaysAddFlds <==> old(g in feed.PathwaysAddFlds)
  ensures forall g: string, k: string :: {feed.PathwaysAddFlds[g], old(feed.Pathways[k])} g in feed.PathwaysAddFlds && old(k in feed.Pathways) ==> feed.PathwaysAddFlds[g][old(feed.Pathways[k]).Id] == old(feed.PathwaysAddFlds[g][k])
  loop 1
    modifies gtfs.Pathway.Id where x: *gtfs.Pathway :: x.Id in feed.Pathways && feed.Pathways[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Pathway at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Pathways[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Pathways[k]
    invariant forall k: string :: {feed.Pathways[k]} k in feed.Pathways && !visited(k) ==> feed.Pathways[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Pathways[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Pathways[l] && feed.Pathways[l].Id == x && l in feed.Pathways)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeLevelIds
  requires feed != nil && feed.Levels != nil && (forall k: string :: {feed.Levels[k]} k in feed.Levels ==> feed.Levels[k] != nil && feed.Levels[k].Id == k)
  requires Base(minimizer.Base)
  modifies gtfs.Level.Id where x: *gtfs.Level :: x.Id in feed.Levels && feed.Levels[x.Id] == x
  modifies gtfsparser.Feed.Levels at feed
  modifies map[string]map[string]string at feed.LevelsAddFlds
  ensures forall k: string :: {old(feed.Levels[k])} old(k in feed.Levels) ==> old(feed.Levels[k]).Id in feed.Levels && feed.Levels[old(feed.Levels[k]).Id] == old(feed.Levels[k])
  ensures forall k: string :: {feed.Levels[k]} {k in feed.Levels} k in feed.Levels ==> feed.Levels[k] != nil && feed.Levels[k].Id == k && (exists l: string :: {old(feed.Levels[l])} old(l in feed.Levels) && old(feed.Levels[l]) == feed.Levels[k])
  ensures forall g: string :: {g in feed.LevelsAddFlds} g in feed.LevelsAddFlds <==> old(g in feed.LevelsAddFlds)
  ensures forall g: string, k: string :: {feed.LevelsAddFlds[g], old(feed.Levels[k])} g in feed.LevelsAddFlds && old(k in feed.Levels) ==> feed.LevelsAddFlds[g][old(feed.Levels[k]).Id] == old(feed.LevelsAddFlds[g][k])
  loop 1
    modifies gtfs.Level.Id where x: *gtfs.Level :: x.Id in feed.Levels && feed.Levels[x.Id] == x
    invariant idCount >= 1 && newMap != nil && fresh(newMap) && newIds != nil && fresh(newIds)
    modifies map[string]*gtfs.Level at newMap
    modifies map[string]string at newIds
    invariant forall k: string :: {k in newIds} {visited(k)} k in newIds <==> visited(k)
    invariant forall k: string :: {newIds[k]} {visited(k)} visited(k) ==> feed.Levels[k].Id == newIds[k]
    invariant forall k: string :: {newIds[k]} visited(k) ==> newIds[k] in newMap && newMap[newIds[k]] == feed.Levels[k]
    invariant forall k: string :: {feed.Levels[k]} k in feed.Levels && !visited(k) ==> feed.Levels[k].Id == k
    invariant forall x: string :: {x in newMap} {newMap[x]} x in newMap ==> (exists l: string :: {newIds[l]} {feed.Levels[l]} visited(l) && newIds[l] == x && newMap[x] == feed.Levels[l] && feed.Levels[l].Id == x && l in feed.Levels)
    invariant forall k: string :: {newIds[k]} visited(k) ==> (exists n: int :: {itoa(n, minimizer.Base)} 1 <= n && n < idCount && newIds[k] == minimizer.Prefix + itoa(n, minimizer.Base))
    invariant forall a: string, b: string :: {newIds[a], newIds[b]} visited(a) && visited(b) && newIds[a] == newIds[b] ==> a == b

func processors.IDMinimizer.minimizeAttributionIds
  requires feed != nil
  nosafety
  modifies gtfs.Attribution.Id any

func processors.IDMinimizer.Run
  requires feed != nil && Base(minimizer.Base)
  requires feed.Trips != nil && (forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k)
  requires feed.Stops != nil && (forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k)
  requires feed.Routes != nil && (forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k] != nil && feed.Routes[k].Id == k)
  requires feed.Shapes != nil && (forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k)
  requires feed.Agencies != nil && (forall k: string :: {feed.Agencies[k]} k in feed.Agencies ==> feed.Agencies[k] != nil && feed.Agencies[k].Id == k)
  requires feed.Services != nil && (forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k)
  requires feed.FareAttributes != nil && (forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes ==> feed.FareAttributes[k] != nil && feed.FareAttributes[k].Id == k)
  requires feed.Pathways != nil && (forall k: string :: {feed.Pathways[k]} k in feed.Pathways ==> feed.Pathways[k] != nil && feed.Pathways[k].Id == k)
  requires feed.Levels != nil && (forall k: string :: {feed.Levels[k]} k in feed.Levels ==> feed.Levels[k] != nil && feed.Levels[k].Id == k)
  requires feed.TripsAddFlds != feed.StopsAddFlds
  requires feed.TripsAddFlds != feed.RoutesAddFlds
  requires feed.TripsAddFlds != feed.AgenciesAddFlds
  requires feed.TripsAddFlds != feed.FareAttributesAddFlds
  requires feed.TripsAddFlds != feed.PathwaysAddFlds
  requires feed.TripsAddFlds != feed.LevelsAddFlds
  requires feed.StopsAddFlds != feed.RoutesAddFlds
  requires feed.StopsAddFlds != feed.AgenciesAddFlds
  requires feed.StopsAddFlds != feed.FareAttributesAddFlds
  requires feed.StopsAddFlds != feed.PathwaysAddFlds
  requires feed.StopsAddFlds != feed.LevelsAddFlds
  requires feed.RoutesAddFlds != feed.AgenciesAddFlds
  requires feed.RoutesAddFlds != feed.FareAttributesAddFlds
  requires feed.RoutesAddFlds != feed.PathwaysAddFlds
  requires feed.RoutesAddFlds != feed.LevelsAddFlds
  requires feed.AgenciesAddFlds != feed.FareAttributesAddFlds
  requires feed.AgenciesAddFlds != feed.PathwaysAddFlds
  requires feed.AgenciesAddFlds != feed.LevelsAddFlds
  requires feed.FareAttributesAddFlds != feed.PathwaysAddFlds
  requires feed.FareAttributesAddFlds != feed.LevelsAddFlds
  requires feed.PathwaysAddFlds != feed.LevelsAddFlds
  requires feed.StopTimesAddFlds != feed.ShapesAddFlds
  modifies gtfs.Trip.Id where x: *gtfs.Trip :: x.Id in feed.Trips && feed.Trips[x.Id] == x
  modifies gtfsparser.Feed.Trips at feed
  modifies map[string]map[string]string at feed.TripsAddFlds
  modifies map[string]map[string]map[int]string at feed.StopTimesAddFlds
  modifies map[string]map[string]map[*gtfs.Frequency]string at feed.FrequenciesAddFlds
  modifies gtfs.Stop.Id where x: *gtfs.Stop :: x.Id in feed.Stops && feed.Stops[x.Id] == x
  modifies gtfsparser.Feed.Stops at feed
  modifies map[string]map[string]string at feed.StopsAddFlds
  modifies gtfs.Route.Id where x: *gtfs.Route :: x.Id in feed.Routes && feed.Routes[x.Id] == x
  modifies gtfsparser.Feed.Routes at feed
  modifies map[string]map[string]string at feed.RoutesAddFlds
  modifies gtfs.Shape.Id where x: *gtfs.Shape :: x.Id in feed.Shapes && feed.Shapes[x.Id] == x
  modifies gtfsparser.Feed.Shapes at feed
  modifies map[string]map[string]map[int]string at feed.ShapesAddFlds
  modifies gtfs.Agency.Id where x: *gtfs.Agency :: x.Id in feed.Agencies && feed.Agencies[x.Id] == x
  modifies gtfsparser.Feed.Agencies at feed
  modifies map[string]map[string]string at feed.AgenciesAddFlds
  modifies gtfs.Service.id where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies gtfsparser.Feed.Services at feed
  modifies gtfs.FareAttribute.Id where x: *gtfs.FareAttribute :: x.Id in feed.FareAttributes && feed.FareAttributes[x.Id] == x
  modifies gtfsparser.Feed.FareAttributes at feed
  modifies map[string]map[string]string at feed.FareAttributesAddFlds
  modifies map[string]map[string]map[*gtfs.FareAttributeRule]string at feed.FareRulesAddFlds
  modifies gtfs.Pathway.Id where x: *gtfs.Pathway :: x.Id in feed.Pathways && feed.Pathways[x.Id] == x
  modifies gtfsparser.Feed.Pathways at feed
  modifies map[string]map[string]string at feed.PathwaysAddFlds
  modifies gtfs.Level.Id where x: *gtfs.Level :: x.Id in feed.Levels && feed.Levels[x.Id] == x
  modifies gtfsparser.Feed.Levels at feed
  modifies map[string]map[string]string at feed.LevelsAddFlds
  modifies gtfs.Attribution.Id any
  ensures !minimizer.KeepTrips ==> (forall k: string :: {old(feed.Trips[k])} old(k in feed.Trips) ==> old(feed.Trips[k]).Id in feed.Trips && feed.Trips[old(feed.Trips[k]).Id] == old(feed.Trips[k]))
  ensures !minimizer.KeepTrips ==> (forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k && (exists l: string :: {old(feed.Trips[l])} old(l in feed.Trips) && old(feed.Trips[l]) == feed.Trips[k]))
  ensures !minimizer.KeepTrips ==> (forall g: string :: {g in feed.TripsAddFlds} g in feed.TripsAddFlds <==> old(g in feed.TripsAddFlds))
  ensures !minimizer.KeepTrips ==> (forall g: string, k: string :: {feed.TripsAddFlds[g], old(feed.Trips[k])} g in feed.TripsAddFlds && old(k in feed.Trips) ==> feed.TripsAddFlds[g][old(feed.Trips[k]).Id] == old(feed.TripsAddFlds[g][k]))
  ensures !minimizer.KeepTrips ==> (forall g: string :: {g in feed.StopTimesAddFlds} g in feed.StopTimesAddFlds <==> old(g in feed.StopTimesAddFlds))
  ensures !minimizer.KeepTrips ==> (forall g: string, k: string :: {feed.StopTimesAddFlds[g], old(feed.Trips[k])} g in feed.StopTimesAddFlds && old(k in feed.Trips) ==> feed.StopTimesAddFlds[g][old(feed.Trips[k]).Id] == old(feed.StopTimesAddFlds[g][k]))
  ensures !minimizer.KeepTrips ==> (forall g: string :: {g in feed.FrequenciesAddFlds} g in feed.FrequenciesAddFlds <==> old(g in feed.FrequenciesAddFlds))
  ensures !minimizer.KeepTrips ==> (forall g: string, k: string :: {feed.FrequenciesAddFlds[g], old(feed.Trips[k])} g in feed.FrequenciesAddFlds && old(k in feed.Trips) ==> feed.FrequenciesAddFlds[g][old(feed.Trips[k]).Id] == old(feed.FrequenciesAddFlds[g][k]))
  ensures minimizer.KeepTrips ==> feed.Trips == old(feed.Trips) && (forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k].Id == k)
  ensures !minimizer.KeepStations ==> (forall k: string :: {old(feed.Stops[k])} old(k in feed.Stops) ==> old(feed.Stops[k]).Id in feed.Stops && feed.Stops[old(feed.Stops[k]).Id] == old(feed.Stops[k]))
  ensures !minimizer.KeepStations ==> (forall k: string :: {feed.Stops[k]} {k in feed.Stops} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k && (exists l: string :: {old(feed.Stops[l])} old(l in feed.Stops) && old(feed.Stops[l]) == feed.Stops[k]))
  ensures !minimizer.KeepStations ==> (forall g: string :: {g in feed.StopsAddFlds} g in feed.StopsAddFlds <==> old(g in feed.StopsAddFlds))
  ensures !minimizer.KeepStations ==> (forall g: string, k: string :: {feed.StopsAddFlds[g], old(feed.Stops[k])} g in feed.StopsAddFlds && old(k in feed.Stops) ==> feed.StopsAddFlds[g][old(feed.Stops[k]).Id] == old(feed.StopsAddFlds[g][k]))
  ensures minimizer.KeepStations ==> feed.Stops == old(feed.Stops) && (forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k].Id == k)
  ensures !minimizer.KeepRoutes ==> (forall k: string :: {old(feed.Routes[k])} old(k in feed.Routes) ==> old(feed.Routes[k]).Id in feed.Routes && feed.Routes[old(feed.Routes[k]).Id] == old(feed.Routes[k]))
  ensures !minimizer.KeepRoutes ==> (forall k: string :: {feed.Routes[k]} {k in feed.Routes} k in feed.Routes ==> feed.Routes[k] != nil && feed.Routes[k].Id == k && (exists l: string :: {old(feed.Routes[l])} old(l in feed.Routes) && old(feed.Routes[l]) == feed.Routes[k]))
  ensures !minimizer.KeepRoutes ==> (forall g: string :: {g in feed.RoutesAddFlds} g in feed.RoutesAddFlds <==> old(g in feed.RoutesAddFlds))
  ensures !minimizer.KeepRoutes ==> (forall g: string, k: string :: {feed.RoutesAddFlds[g], old(feed.Routes[k])} g in feed.RoutesAddFlds && old(k in feed.Routes) ==> feed.RoutesAddFlds[g][old(feed.Routes[k]).Id] == old(feed.RoutesAddFlds[g][k]))
  ensures minimizer.KeepRoutes ==> feed.Routes == old(feed.Routes) && (forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k].Id == k)
  ensures !minimizer.KeepShapes ==> (forall k: string :: {old(feed.Shapes[k])} old(k in feed.Shapes) ==> old(feed.Shapes[k]).Id in feed.Shapes && feed.Shapes[old(feed.Shapes[k]).Id] == old(feed.Shapes[k]))
  ensures !minimizer.KeepShapes ==> (forall k: string :: {feed.Shapes[k]} {k in feed.Shapes} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k && (exists l: string :: {old(feed.Shapes[l])} old(l in feed.Shapes) && old(feed.Shapes[l]) == feed.Shapes[k]))
  ensures !minimizer.KeepShapes ==> (forall g: string :: {g in feed.ShapesAddFlds} g in feed.ShapesAddFlds <==> old(g in feed.ShapesAddFlds))
  ensures !minimizer.KeepShapes ==> (forall g: string, k: string :: {feed.ShapesAddFlds[g], old(feed.Shapes[k])} g in feed.ShapesAddFlds && old(k in feed.Shapes) ==> feed.ShapesAddFlds[g][old(feed.Shapes[k]).Id] == old(feed.ShapesAddFlds[g][k]))
  ensures minimizer.KeepShapes ==> feed.Shapes == old(feed.Shapes) && (forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k].Id == k)
  ensures !minimizer.KeepAgencies ==> (forall k: string :: {old(feed.Agencies[k])} old(k in feed.Agencies) ==> old(feed.Agencies[k]).Id in feed.Agencies && feed.Agencies[old(feed.Agencies[k]).Id] == old(feed.Agencies[k]))
  ensures !minimizer.KeepAgencies ==> (forall k: string :: {feed.Agencies[k]} {k in feed.Agencies} k in feed.Agencies ==> feed.Agencies[k] != nil && feed.Agencies[k].Id == k && (exists l: string :: {old(feed.Agencies[l])} old(l in feed.Agencies) && old(feed.Agencies[l]) == feed.Agencies[k]))
  ensures !minimizer.KeepAgencies ==> (forall g: string :: {g in feed.AgenciesAddFlds} g in feed.AgenciesAddFlds <==> old(g in feed.AgenciesAddFlds))
  ensures !minimizer.KeepAgencies ==> (forall g: string, k: string :: {feed.AgenciesAddFlds[g], old(feed.Agencies[k])} g in feed.AgenciesAddFlds && old(k in feed.Agencies) ==> feed.AgenciesAddFlds[g][old(feed.Agencies[k]).Id] == old(feed.AgenciesAddFlds[g][k]))
  ensures minimizer.KeepAgencies ==> feed.Agencies == old(feed.Agencies) && (forall k: string :: {feed.Agencies[k]} k in feed.Agencies ==> feed.Agencies[k].Id == k)
  ensures !minimizer.KeepServices ==> (forall k: string :: {old(feed.Services[k])} old(k in feed.Services) ==> old(feed.Services[k]).id in feed.Services && feed.Services[old(feed.Services[k]).id] == old(feed.Services[k]))
  ensures !minimizer.KeepServices ==> (forall k: string :: {feed.Services[k]} {k in feed.Services} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k && (exists l: string :: {old(feed.Services[l])} old(l in feed.Services) && old(feed.Services[l]) == feed.Services[k]))
  ensures minimizer.KeepServices ==> feed.Services == old(feed.Services) && (forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k].id == k)
  ensures !minimizer.KeepFares ==> (forall k: string :: {old(feed.FareAttributes[k])} old(k in feed.FareAttributes) ==> old(feed.FareAttributes[k]).Id in feed.FareAttributes && feed.FareAttributes[old(feed.FareAttributes[k]).Id] == old(feed.FareAttributes[k]))
  ensures !minimizer.KeepFares ==> (forall k: string :: {feed.FareAttributes[k]} {k in feed.FareAttributes} k in feed.FareAttributes ==> feed.FareAttributes[k] != nil && feed.FareAttributes[k].Id == k && (exists l: string :: {old(feed.FareAttributes[l])} old(l in feed.FareAttributes) && old(feed.FareAttributes[l]) == feed.FareAttributes[k]))
  ensures !minimizer.KeepFares ==> (forall g: string :: {g in feed.FareAttributesAddFlds} g in feed.FareAttributesAddFlds <==> old(g in feed.FareAttributesAddFlds))
  ensures !minimizer.KeepFares ==> (forall g: string, k: string :: {feed.FareAttributesAddFlds[g], old(feed.FareAttributes[k])} g in feed.FareAttributesAddFlds && old(k in feed.FareAttributes) ==> feed.FareAttributesAddFlds[g][old(feed.FareAttributes[k]).Id] == old(feed.FareAttributesAddFlds[g][k]))
  ensures !minimizer.KeepFares ==> (forall g: string :: {g in feed.FareRulesAddFlds} g in feed.FareRulesAddFlds <==> old(g in feed.FareRulesAddFlds))
  ensures !minimizer.KeepFares ==> (forall g: string, k: string :: {feed.FareRulesAddFlds[g], old(feed.FareAttributes[k])} g in feed.FareRulesAddFlds && old(k in feed.FareAttributes) ==> feed.FareRulesAddFlds[g][old(feed.FareAttributes[k]).Id] == old(feed.FareRulesAddFlds[g][k]))
  ensures minimizer.KeepFares ==> feed.FareAttributes == old(feed.FareAttributes) && (forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes ==> feed.FareAttributes[k].Id == k)
  ensures !minimizer.KeepPathways ==> (forall k: string :: {old(feed.Pathways[k])} old(k in feed.Pathways) ==> old(feed.Pathways[k]).Id in feed.Pathways && feed.Pathways[old(feed.Pathways[k]).Id] == old(feed.Pathways[k]))
  ensures !minimizer.KeepPathways ==> (forall k: string :: {feed.Pathways[k]} {k in feed.Pathways} k in feed.Pathways ==> feed.Pathways[k] != nil && feed.Pathways[k].Id == k && (exists l: string :: {old(feed.Pathways[l])} old(l in feed.Pathways) && old(feed.Pathways[l]) == feed.Pathways[k]))
  ensures !minimizer.KeepPathways ==> (forall g: string :: {g in feed.PathwaysAddFlds} g in feed.PathwaysAddFlds <==> old(g in feed.PathwaysAddFlds))
  ensures !minimizer.KeepPathways ==> (forall g: string, k: string :: {feed.PathwaysAddFlds[g], old(feed.Pathways[k])} g in feed.PathwaysAddFlds && old(k in feed.Pathways) ==> feed.PathwaysAddFlds[g][old(feed.Pathways[k]).Id] == old(feed.PathwaysAddFlds[g][k]))
  ensures minimizer.KeepPathways ==> feed.Pathways == old(feed.Pathways) && (forall k: string :: {feed.Pathways[k]} k in feed.Pathways ==> feed.Pathways[k].Id == k)
  ensures !minimizer.KeepLevels ==> (forall k: string :: {old(feed.Levels[k])} old(k in feed.Levels) ==> old(feed.Levels[k]).Id in feed.Levels && feed.Levels[old(feed.Levels[k]).Id] == old(feed.Levels[k]))
  ensures !minimizer.KeepLevels ==> (forall k: string :: {feed.Levels[k]} {k in feed.Levels} k in feed.Levels ==> feed.Levels[k] != nil && feed.Levels[k].Id == k && (exists l: string :: {old(feed.Levels[l])} old(l in feed.Levels) && old(feed.Levels[l]) == feed.Levels[k]))
  ensures !minimizer.KeepLevels ==> (forall g: string :: {g in feed.LevelsAddFlds} g in feed.LevelsAddFlds <==> old(g in feed.LevelsAddFlds))
  ensures !minimizer.KeepLevels ==> (forall g: string, k: string :: {feed.LevelsAddFlds[g], old(feed.Levels[k])} g in feed.LevelsAddFlds && old(k in feed.Levels) ==> feed.LevelsAddFlds[g][old(feed.Levels[k]).Id] == old(feed.LevelsAddFlds[g][k]))
  ensures minimizer.KeepLevels ==> feed.Levels == old(feed.Levels) && (forall k: string :: {feed.Levels[k]} k in feed.Levels ==> feed.Levels[k].Id == k)
  loop 1
    invariant true
