property C03 processors.OrphanRemover.Run

// the feed as the parser delivers it
pred TripsWF(f: *gtfsparser.Feed) := f != nil && (forall k: string :: {f.Trips[k]} k in f.Trips ==> f.Trips[k] != nil && f.Trips[k].Route != nil && off(f.Trips[k].StopTimes) == 0)
pred EntriesWF(f: *gtfsparser.Feed) := (forall k: string :: {f.Stops[k]} k in f.Stops ==> f.Stops[k] != nil)
  && (forall k: string :: {f.Routes[k]} k in f.Routes ==> f.Routes[k] != nil)
  && (forall k: string :: {f.Pathways[k]} k in f.Pathways ==> f.Pathways[k] != nil)
  && (forall k: string :: {f.FareAttributes[k]} k in f.FareAttributes ==> f.FareAttributes[k] != nil && off(f.FareAttributes[k].Rules) == 0)
  && (forall k: string, i: int :: {row(f.FareAttributes[k].Rules)[i]} k in f.FareAttributes && 0 <= i && i < len(f.FareAttributes[k].Rules) ==> row(f.FareAttributes[k].Rules)[i] != nil)

pred Board(t: *gtfs.Trip, i: int) := Pickup(row(t.StopTimes)[i]) != 1 || CPickup(row(t.StopTimes)[i]) != 1 || t.Route.Continuous_pickup != 1
pred Alight(t: *gtfs.Trip, i: int) := Dropoff(row(t.StopTimes)[i]) != 1 || CDropoff(row(t.StopTimes)[i]) != 1 || t.Route.Continuous_drop_off != 1
// no stop time at which boarding, or none at which alighting is possible (true of a trip without stop times)
pred NoUse(t: *gtfs.Trip) := (forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < len(t.StopTimes) ==> !Board(t, i))
  || (forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < len(t.StopTimes) ==> !Alight(t, i))

func processors.OrphanRemover.removeTripOrphans
  requires TripsWF(feed)
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies gtfsparser.Feed.NumStopTimes at feed
  modifies map[string]string any
  modifies map[string]map[int]string any
  modifies map[string]map[*gtfs.Frequency]string any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
  ensures forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> NoUse(old(feed.Trips[k]))
  loop 1
    modifies map[string]*gtfs.Trip at feed.Trips
    modifies gtfsparser.Feed.NumStopTimes at feed
    modifies map[string]string any
    modifies map[string]map[int]string any
    modifies map[string]map[*gtfs.Frequency]string any
    invariant forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
    invariant forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> NoUse(old(feed.Trips[k]))
  loop 2
    invariant !hasDropOff ==> forall i: int :: {row(s.StopTimes)[i]} 0 <= i && i < $i ==> !Alight(s, i)
    invariant !hasPickUp ==> forall i: int :: {row(s.StopTimes)[i]} 0 <= i && i < $i ==> !Board(s, i)

func processors.OrphanRemover.removeTransferOrphans
  requires TripsWF(feed)
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers ==> old(k in feed.Transfers)
  loop 4
    modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
    modifies map[gtfs.TransferKey]string any
    invariant forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers ==> old(k in feed.Transfers)

pred UsedStop(f: *gtfsparser.Feed, s: *gtfs.Stop) := exists k: string, i: int :: {row(f.Trips[k].StopTimes)[i]} k in f.Trips && 0 <= i && i < len(f.Trips[k].StopTimes) && row(f.Trips[k].StopTimes)[i].stop == s

func processors.OrphanRemover.removeStopOrphans
  requires TripsWF(feed) && EntriesWF(feed)
  modifies map[string]*gtfs.Stop at feed.Stops
  modifies map[string]string any
  ensures forall k: string :: {feed.Stops[k]} {k in feed.Stops} k in feed.Stops ==> old(k in feed.Stops) && feed.Stops[k] == old(feed.Stops[k])
  ensures forall t: string, i: int, k: string :: {row(feed.Trips[t].StopTimes)[i], old(feed.Stops[k])} t in feed.Trips && 0 <= i && i < len(feed.Trips[t].StopTimes) && old(k in feed.Stops) && old(feed.Stops[k]) == row(feed.Trips[t].StopTimes)[i].stop ==> k in feed.Stops
  loop 1
    modifies map[*gtfs.Stop]processors.empty at referenced
    invariant forall t: string, i: int :: {row(feed.Trips[t].StopTimes)[i]} visited(t) && 0 <= i && i < len(feed.Trips[t].StopTimes) ==> row(feed.Trips[t].StopTimes)[i].stop in referenced
  loop 2
    modifies map[*gtfs.Stop]processors.empty at referenced
    invariant forall s: *gtfs.Stop :: {s in referenced} atpre(s in referenced) ==> s in referenced
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i ==> row(t.StopTimes)[i].stop in referenced
  loop 3
    modifies map[*gtfs.Stop]processors.empty at referenced
    invariant forall s: *gtfs.Stop :: {s in referenced} atpre(s in referenced) ==> s in referenced
  loop 4
    modifies map[*gtfs.Stop]processors.empty at referenced
    invariant forall s: *gtfs.Stop :: {s in referenced} atpre(s in referenced) ==> s in referenced
  loop 5
    modifies map[*gtfs.Stop]processors.empty at referenced
    invariant forall s: *gtfs.Stop :: {s in referenced} atpre(s in referenced) ==> s in referenced
  loop 6
    modifies map[string]*gtfs.Stop at feed.Stops
    modifies map[string]string any
    invariant forall k: string :: {feed.Stops[k]} {k in feed.Stops} k in feed.Stops ==> old(k in feed.Stops) && feed.Stops[k] == old(feed.Stops[k])
    invariant forall k: string :: {k in feed.Stops} old(k in feed.Stops) && old(feed.Stops[k]) in referenced ==> k in feed.Stops

func processors.OrphanRemover.removeShapeOrphans
  requires TripsWF(feed)
  modifies map[string]*gtfs.Shape at feed.Shapes
  modifies map[string]map[int]string any
  ensures forall k: string :: {feed.Shapes[k]} {k in feed.Shapes} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k])
  ensures forall k: string, t: string :: {k in feed.Shapes, feed.Trips[t]} old(k in feed.Shapes) && !(k in feed.Shapes) && t in feed.Trips && feed.Trips[t].Shape != nil ==> feed.Trips[t].Shape != old(feed.Shapes[k])
  loop 1
    modifies map[*gtfs.Shape]processors.empty at referenced
    invariant forall t: string :: {feed.Trips[t]} visited(t) && feed.Trips[t].Shape != nil ==> feed.Trips[t].Shape in referenced
  loop 2
    modifies map[string]*gtfs.Shape at feed.Shapes
    modifies map[string]map[int]string any
    invariant forall k: string :: {feed.Shapes[k]} {k in feed.Shapes} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k])
    invariant forall k: string :: {k in feed.Shapes} old(k in feed.Shapes) && old(feed.Shapes[k]) in referenced ==> k in feed.Shapes

func processors.OrphanRemover.removeServiceOrphans
  requires TripsWF(feed)
  modifies map[string]*gtfs.Service at feed.Services
  ensures forall k: string :: {feed.Services[k]} {k in feed.Services} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k])
  ensures forall k: string, t: string :: {k in feed.Services, feed.Trips[t]} old(k in feed.Services) && !(k in feed.Services) && t in feed.Trips ==> feed.Trips[t].Service != old(feed.Services[k])
  loop 1
    modifies map[*gtfs.Service]processors.empty at referenced
    invariant forall t: string :: {feed.Trips[t]} visited(t) ==> feed.Trips[t].Service in referenced
  loop 2
    modifies map[string]*gtfs.Service at feed.Services
    invariant forall k: string :: {feed.Services[k]} {k in feed.Services} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k])
    invariant forall k: string :: {k in feed.Services} old(k in feed.Services) && old(feed.Services[k]) in referenced ==> k in feed.Services

func processors.OrphanRemover.removeRouteOrphans
  requires TripsWF(feed) && EntriesWF(feed)
  modifies map[string]*gtfs.Route at feed.Routes
  modifies map[string]string any
  ensures forall k: string :: {feed.Routes[k]} {k in feed.Routes} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k])
  ensures forall k: string, t: string :: {k in feed.Routes, feed.Trips[t]} old(k in feed.Routes) && !(k in feed.Routes) && t in feed.Trips ==> feed.Trips[t].Route != old(feed.Routes[k])
  ensures forall k: string, f: string, i: int :: {k in feed.Routes, row(feed.FareAttributes[f].Rules)[i]} old(k in feed.Routes) && !(k in feed.Routes) && f in feed.FareAttributes && 0 <= i && i < len(feed.FareAttributes[f].Rules) && row(feed.FareAttributes[f].Rules)[i].Route != nil ==> row(feed.FareAttributes[f].Rules)[i].Route != old(feed.Routes[k])
  loop 1
    modifies map[*gtfs.Route]processors.empty at referenced
    invariant forall t: string :: {feed.Trips[t]} visited(t) ==> feed.Trips[t].Route in referenced
  loop 2
    modifies map[*gtfs.Route]processors.empty at referenced
    invariant forall s: *gtfs.Route :: {s in referenced} atpre(s in referenced) ==> s in referenced
    invariant forall f: string, i: int :: {row(feed.FareAttributes[f].Rules)[i]} visited(f) && 0 <= i && i < len(feed.FareAttributes[f].Rules) && row(feed.FareAttributes[f].Rules)[i].Route != nil ==> row(feed.FareAttributes[f].Rules)[i].Route in referenced
  loop 3
    modifies map[*gtfs.Route]processors.empty at referenced
    invariant forall s: *gtfs.Route :: {s in referenced} atpre(s in referenced) ==> s in referenced
    invariant forall i: int :: {row(fa.Rules)[i]} 0 <= i && i < $i && row(fa.Rules)[i].Route != nil ==> row(fa.Rules)[i].Route in referenced
  loop 4
    modifies map[string]*gtfs.Route at feed.Routes
    modifies map[string]string any
    invariant forall k: string :: {feed.Routes[k]} {k in feed.Routes} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k])
    invariant forall k: string :: {k in feed.Routes} old(k in feed.Routes) && old(feed.Routes[k]) in referenced ==> k in feed.Routes

func processors.OrphanRemover.removeAgencyOrphans
  requires EntriesWF(feed) && feed != nil
  modifies map[string]*gtfs.Agency at feed.Agencies
  modifies map[string]string any
  ensures forall k: string :: {feed.Agencies[k]} {k in feed.Agencies} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k])
  ensures forall k: string, t: string :: {k in feed.Agencies, feed.Routes[t]} old(k in feed.Agencies) && !(k in feed.Agencies) && t in feed.Routes && feed.Routes[t].Agency != nil ==> feed.Routes[t].Agency != old(feed.Agencies[k])
  ensures forall k: string, t: string :: {k in feed.Agencies, feed.FareAttributes[t]} old(k in feed.Agencies) && !(k in feed.Agencies) && t in feed.FareAttributes && feed.FareAttributes[t].Agency != nil ==> feed.FareAttributes[t].Agency != old(feed.Agencies[k])
  loop 1
    modifies map[*gtfs.Agency]processors.empty at referenced
    invariant forall t: string :: {feed.Routes[t]} visited(t) && feed.Routes[t].Agency != nil ==> feed.Routes[t].Agency in referenced
  loop 2
    modifies map[*gtfs.Agency]processors.empty at referenced
    invariant forall s: *gtfs.Agency :: {s in referenced} atpre(s in referenced) ==> s in referenced
    invariant forall t: string :: {feed.FareAttributes[t]} visited(t) && feed.FareAttributes[t].Agency != nil ==> feed.FareAttributes[t].Agency in referenced
  loop 3
    modifies map[string]*gtfs.Agency at feed.Agencies
    modifies map[string]string any
    invariant forall k: string :: {feed.Agencies[k]} {k in feed.Agencies} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k])
    invariant forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && old(feed.Agencies[k]) in referenced ==> k in feed.Agencies

func processors.OrphanRemover.Run
  requires TripsWF(feed) && EntriesWF(feed)
  // only these maps change, and entries are only taken out of them
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies map[string]*gtfs.Stop at feed.Stops
  modifies map[string]*gtfs.Shape at feed.Shapes
  modifies map[string]*gtfs.Service at feed.Services
  modifies map[string]*gtfs.Route at feed.Routes
  modifies map[string]*gtfs.Agency at feed.Agencies
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies gtfsparser.Feed.NumStopTimes at feed
  modifies map[string]string any
  modifies map[string]map[int]string any
  modifies map[string]map[*gtfs.Frequency]string any
  modifies map[gtfs.TransferKey]string any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> old(k in feed.Stops) && feed.Stops[k] == old(feed.Stops[k])
  ensures forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k])
  ensures forall k: string :: {feed.Services[k]} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k])
  ensures forall k: string :: {feed.Routes[k]} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k])
  ensures forall k: string :: {feed.Agencies[k]} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k])
  // a trip is deleted only if it cannot be used
  ensures forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> NoUse(old(feed.Trips[k]))
  // nothing is deleted that a remaining trip, route or fare references
  ensures forall k: string, t: string :: {k in feed.Shapes, feed.Trips[t]} old(k in feed.Shapes) && !(k in feed.Shapes) && t in feed.Trips && feed.Trips[t].Shape != nil ==> feed.Trips[t].Shape != old(feed.Shapes[k])
  ensures forall k: string, t: string :: {k in feed.Services, feed.Trips[t]} old(k in feed.Services) && !(k in feed.Services) && t in feed.Trips ==> feed.Trips[t].Service != old(feed.Services[k])
  ensures forall k: string, t: string :: {k in feed.Routes, feed.Trips[t]} old(k in feed.Routes) && !(k in feed.Routes) && t in feed.Trips ==> feed.Trips[t].Route != old(feed.Routes[k])
  ensures forall k: string, f: string, i: int :: {k in feed.Routes, row(feed.FareAttributes[f].Rules)[i]} old(k in feed.Routes) && !(k in feed.Routes) && f in feed.FareAttributes && 0 <= i && i < len(feed.FareAttributes[f].Rules) && row(feed.FareAttributes[f].Rules)[i].Route != nil ==> row(feed.FareAttributes[f].Rules)[i].Route != old(feed.Routes[k])
  ensures forall k: string, t: string :: {k in feed.Agencies, feed.Routes[t]} old(k in feed.Agencies) && !(k in feed.Agencies) && t in feed.Routes && feed.Routes[t].Agency != nil ==> feed.Routes[t].Agency != old(feed.Agencies[k])
  ensures forall k: string, t: string :: {k in feed.Agencies, feed.FareAttributes[t]} old(k in feed.Agencies) && !(k in feed.Agencies) && t in feed.FareAttributes && feed.FareAttributes[t].Agency != nil ==> feed.FareAttributes[t].Agency != old(feed.Agencies[k])
  ensures forall t: string, i: int, k: string :: {row(feed.Trips[t].StopTimes)[i], old(feed.Stops[k])} t in feed.Trips && 0 <= i && i < len(feed.Trips[t].StopTimes) && old(k in feed.Stops) && old(feed.Stops[k]) == row(feed.Trips[t].StopTimes)[i].stop ==> k in feed.Stops
  // transfers are only taken out, and those that remain refer to registered entries
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers ==> old(k in feed.Transfers) && TransferReg(feed, k)
assumes the feed is as the parser delivers it: no nil entries, every trip has a route, slices start at the beginning of their array
