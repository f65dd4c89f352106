property C11 processors.CompleteTripsGeoFilter.Run

// containment in one polygon is the parser's
ufun polyE(gtfsparser.Polygon, float64, float64): bool
func gtfsparser.Polygon.PolyContains
  trusted
  modifies nothing
  ensures result == polyE(deref(p), x, y)

ufun InPolys(fn[int, gtfsparser.Polygon], int, float64, float64): bool
axiom InPolysDef := forall r: fn[int, gtfsparser.Polygon], n: int, x: float64, y: float64 :: {InPolys(r, n, x, y)} InPolys(r, n, x, y) == (exists i: int :: {polyE(r[i], x, y)} 0 <= i && i < n && polyE(r[i], x, y))
pred Inside(f: processors.CompleteTripsGeoFilter, s: *gtfs.Stop) := InPolys(row(f.Polygons), len(f.Polygons), float64(s.Lon), float64(s.Lat))
pred TripInside(f: processors.CompleteTripsGeoFilter, t: *gtfs.Trip) := exists i: int :: {row(t.StopTimes)[i]} 0 <= i && i < len(t.StopTimes) && Inside(f, row(t.StopTimes)[i].stop)
// registered, as every stop the parsed feed refers to is
pred RegStop(f: *gtfsparser.Feed, s: *gtfs.Stop) := s != nil && s.Id in f.Stops && f.Stops[s.Id] == s

// p is an element of a list
ufun HasPw(fn[int, *gtfs.Pathway], int, *gtfs.Pathway): bool
axiom HasPwDef := forall r: fn[int, *gtfs.Pathway], n: int, p: *gtfs.Pathway :: {HasPw(r, n, p)} HasPw(r, n, p) == (exists j: int :: {r[j]} 0 <= j && j < n && r[j] == p)

func processors.CompleteTripsGeoFilter.Run
  requires feed != nil && off(f.Polygons) == 0
  requires forall k: string :: {feed.Stops[k]} k in feed.Stops ==> RegStop(feed, feed.Stops[k]) && feed.Stops[k].Id == k && (feed.Stops[k].Parent_station != nil ==> RegStop(feed, feed.Stops[k].Parent_station))
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && off(feed.Trips[k].StopTimes) == 0
  requires forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> RegStop(feed, row(feed.Trips[k].StopTimes)[i].stop)
  requires forall k: string :: {feed.Pathways[k]} k in feed.Pathways ==> feed.Pathways[k] != nil && feed.Pathways[k].Id == k && RegStop(feed, feed.Pathways[k].From_stop) && RegStop(feed, feed.Pathways[k].To_stop)
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies map[string]*gtfs.Stop at feed.Stops
  modifies map[string]*gtfs.Pathway at feed.Pathways
  modifies gtfsparser.Feed.NumStopTimes at feed
  modifies map[string]string any
  modifies map[string]map[int]string any
  modifies map[string]map[*gtfs.Frequency]string any
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k]) && TripInside(f, feed.Trips[k])
  ensures forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> !TripInside(f, old(feed.Trips[k]))
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> old(k in feed.Stops) && feed.Stops[k] == old(feed.Stops[k])
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops && feed.Stops[k].Parent_station != nil ==> RegStop(feed, feed.Stops[k].Parent_station)
  ensures forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> RegStop(feed, row(feed.Trips[k].StopTimes)[i].stop)
  ensures forall k: string :: {k in feed.Stops} old(k in feed.Stops) && Inside(f, old(feed.Stops[k])) ==> k in feed.Stops
  ensures forall k: string :: {k in feed.FareAttributes} k in feed.FareAttributes <==> old(k in feed.FareAttributes)
  ensures forall k: string :: {feed.FareAttributes[k]} feed.FareAttributes[k] == old(feed.FareAttributes[k])
  ensures forall k: string :: {feed.Pathways[k]} k in feed.Pathways ==> old(k in feed.Pathways) && feed.Pathways[k] == old(feed.Pathways[k]) && RegStop(feed, feed.Pathways[k].From_stop) && RegStop(feed, feed.Pathways[k].To_stop)
  ensures forall k: string :: {k in feed.Pathways} old(k in feed.Pathways) && !(k in feed.Pathways) ==> !RegStop(feed, old(feed.Pathways[k].From_stop)) || !RegStop(feed, old(feed.Pathways[k].To_stop))
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers <==> old(k in feed.Transfers) && TransferReg(feed, k)
  loop 1
    modifies map[*gtfs.Stop]bool at filterstops
    modifies map[*gtfs.Stop]bool at usedstops
    invariant filterstops != nil && usedstops != nil && filterstops != usedstops && fresh(filterstops) && fresh(usedstops)
    invariant forall k: string :: {feed.Stops[k]} visited(k) && Inside(f, feed.Stops[k]) ==> feed.Stops[k] in filterstops && feed.Stops[k] in usedstops
    invariant forall s: *gtfs.Stop :: {s in filterstops} s in filterstops ==> Inside(f, s)
    invariant forall s: *gtfs.Stop :: {s in usedstops} s in usedstops ==> RegStop(feed, s) && usedstops[s] && (s.Parent_station != nil ==> s.Parent_station in usedstops)
  loop 2
    modifies nothing
    invariant forall i: int :: {polyE(row(f.Polygons)[i], float64(s.Lon), float64(s.Lat))} 0 <= i && i < $i ==> !polyE(row(f.Polygons)[i], float64(s.Lon), float64(s.Lat))
  loop 3
    modifies map[*gtfs.Stop]bool at usedstops
    invariant p != nil ==> RegStop(feed, p)
    invariant forall s: *gtfs.Stop :: {s in usedstops} atpre(s in usedstops) ==> s in usedstops
    invariant forall s: *gtfs.Stop :: {s in usedstops} s in usedstops ==> RegStop(feed, s) && usedstops[s] && (s.Parent_station != nil && s.Parent_station != p ==> s.Parent_station in usedstops)
  loop 4
    modifies map[*gtfs.Stop]bool at usedstops
    modifies map[string]*gtfs.Trip at feed.Trips
    modifies gtfsparser.Feed.NumStopTimes at feed
    modifies map[string]string any
    modifies map[string]map[int]string any
    modifies map[string]map[*gtfs.Frequency]string any
    invariant forall s: *gtfs.Stop :: {s in usedstops} s in usedstops ==> RegStop(feed, s) && usedstops[s] && (s.Parent_station != nil ==> s.Parent_station in usedstops)
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops && Inside(f, feed.Stops[k]) ==> feed.Stops[k] in usedstops
    invariant forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k]) && (visited(k) ==> TripInside(f, feed.Trips[k]))
    invariant forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> !TripInside(f, old(feed.Trips[k]))
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && visited(k) && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop in usedstops
  loop 5
    modifies nothing
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i ==> !Inside(f, row(t.StopTimes)[i].stop)
  loop 6
    modifies map[*gtfs.Stop]bool at usedstops
    invariant forall s: *gtfs.Stop :: {s in usedstops} s in usedstops ==> RegStop(feed, s) && usedstops[s] && (s.Parent_station != nil ==> s.Parent_station in usedstops)
    invariant forall s: *gtfs.Stop :: {s in usedstops} atpre(s in usedstops) ==> s in usedstops
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i ==> row(t.StopTimes)[i].stop in usedstops
  loop 7
    modifies map[*gtfs.Stop]bool at usedstops
    invariant p != nil ==> RegStop(feed, p)
    invariant forall s: *gtfs.Stop :: {s in usedstops} atpre(s in usedstops) ==> s in usedstops
    invariant forall s: *gtfs.Stop :: {s in usedstops} s in usedstops ==> RegStop(feed, s) && usedstops[s] && (s.Parent_station != nil && s.Parent_station != p ==> s.Parent_station in usedstops)
  loop 8
    modifies nothing
    invariant off(toDel) == 0 && fresh(toDel) && (len(toDel) > 0 ==> allocated(arr(toDel))) && (cap(toDel) > 0 ==> freshloop(toDel))
    invariant forall i: int :: {row(toDel)[i]} 0 <= i && i < len(toDel) ==> RegStop(feed, row(toDel)[i]) && !(row(toDel)[i] in usedstops)
    invariant forall k: string :: {feed.Stops[k]} visited(k) && !(feed.Stops[k] in usedstops) ==> exists i: int :: {row(toDel)[i]} 0 <= i && i < len(toDel) && row(toDel)[i] == feed.Stops[k]
  loop 9
    modifies map[*gtfs.Stop][]*gtfs.Pathway at pathways
    invariant pathways != nil && fresh(pathways) && allocated(pathways)
    invariant forall s: *gtfs.Stop :: {pathways[s]} off(pathways[s]) == 0 && (len(pathways[s]) > 0 ==> freshloop(pathways[s]) && allocated(arr(pathways[s])))
    invariant local forall s: *gtfs.Stop :: {pathways[s]} len(pathways[s]) == 0 ==> cap(pathways[s]) == 0
    invariant local forall s: *gtfs.Stop, u: *gtfs.Stop :: {pathways[s], pathways[u]} s != u && len(pathways[s]) > 0 && len(pathways[u]) > 0 ==> arr(pathways[s]) != arr(pathways[u])
    invariant forall s: *gtfs.Stop, j: int :: {row(pathways[s])[j]} 0 <= j && j < len(pathways[s]) ==> row(pathways[s])[j] != nil && row(pathways[s])[j].Id in feed.Pathways && feed.Pathways[row(pathways[s])[j].Id] == row(pathways[s])[j] && (row(pathways[s])[j].From_stop == s || row(pathways[s])[j].To_stop == s)
    invariant forall k: string :: {feed.Pathways[k]} visited(k) ==> HasPw(row(pathways[feed.Pathways[k].From_stop]), len(pathways[feed.Pathways[k].From_stop]), feed.Pathways[k])
    invariant forall k: string :: {feed.Pathways[k]} visited(k) ==> HasPw(row(pathways[feed.Pathways[k].To_stop]), len(pathways[feed.Pathways[k].To_stop]), feed.Pathways[k])
  loop 10
    modifies map[string]*gtfs.Stop at feed.Stops
    modifies map[string]*gtfs.Pathway at feed.Pathways
    modifies map[string]string any
    invariant forall k: string :: {feed.Stops[k]} {k in feed.Stops} k in feed.Stops ==> old(k in feed.Stops) && feed.Stops[k] == old(feed.Stops[k])
    invariant forall k: string :: {k in feed.Stops} old(k in feed.Stops) && !(k in feed.Stops) ==> !(old(feed.Stops[k]) in usedstops)
    invariant forall j: int :: {row(toDel)[j]} 0 <= j && j < $i ==> !(row(toDel)[j].Id in feed.Stops)
    invariant forall k: string :: {feed.Pathways[k]} {k in feed.Pathways} k in feed.Pathways ==> old(k in feed.Pathways) && feed.Pathways[k] == old(feed.Pathways[k])
    invariant forall k: string :: {k in feed.Pathways} old(k in feed.Pathways) && !(k in feed.Pathways) ==> !(old(feed.Pathways[k].From_stop) in usedstops) || !(old(feed.Pathways[k].To_stop) in usedstops)
    invariant forall j: int, i: int :: {row(pathways[row(toDel)[j]])[i]} 0 <= j && j < $i && 0 <= i && i < len(pathways[row(toDel)[j]]) ==> !(row(pathways[row(toDel)[j]])[i].Id in feed.Pathways)
  loop 11
    modifies map[string]*gtfs.Pathway at feed.Pathways
    modifies map[string]string any
    invariant forall k: string :: {feed.Pathways[k]} {k in feed.Pathways} k in feed.Pathways ==> old(k in feed.Pathways) && atpre(k in feed.Pathways) && feed.Pathways[k] == old(feed.Pathways[k])
    invariant forall k: string :: {k in feed.Pathways} old(k in feed.Pathways) && !(k in feed.Pathways) ==> !(old(feed.Pathways[k].From_stop) in usedstops) || !(old(feed.Pathways[k].To_stop) in usedstops)
    invariant forall i: int :: {row(pathways[s])[i]} 0 <= i && i < $i ==> !(row(pathways[s])[i].Id in feed.Pathways)
  loop 12
    modifies map[string]string any
