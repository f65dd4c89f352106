// Deletion of feed entries (package gtfsparser) and stop time attributes, shared by several properties.

func gtfsparser.Feed.DeleteTrip
  requires feed != nil && (id in feed.Trips ==> feed.Trips[id] != nil)
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies gtfsparser.Feed.NumStopTimes at feed
  modifies map[string]string any
  modifies map[string]map[int]string any
  modifies map[string]map[*gtfs.Frequency]string any
  ensures forall k: string :: {k in feed.Trips} k in feed.Trips <==> old(k in feed.Trips) && k != id
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] == old(feed.Trips[k])

func gtfsparser.Feed.DeleteShape
  requires feed != nil
  modifies map[string]*gtfs.Shape at feed.Shapes
  modifies map[string]map[int]string any
  ensures forall k: string :: {k in feed.Shapes} k in feed.Shapes <==> old(k in feed.Shapes) && k != id
  ensures forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] == old(feed.Shapes[k])

func gtfsparser.Feed.DeleteAgency
  requires feed != nil
  modifies map[string]*gtfs.Agency at feed.Agencies
  modifies map[string]string any
  ensures forall k: string :: {k in feed.Agencies} k in feed.Agencies <==> old(k in feed.Agencies) && k != id
  ensures forall k: string :: {feed.Agencies[k]} k in feed.Agencies ==> feed.Agencies[k] == old(feed.Agencies[k])
  ensures forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == old(m[k])
  loop 1
    modifies map[string]string any
    invariant forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == old(m[k])

func gtfsparser.Feed.DeleteRoute
  requires feed != nil
  modifies map[string]*gtfs.Route at feed.Routes
  modifies map[string]string any
  ensures forall k: string :: {k in feed.Routes} k in feed.Routes <==> old(k in feed.Routes) && k != id
  ensures forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k] == old(feed.Routes[k])
  ensures forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == old(m[k])
  loop 1
    modifies map[string]string any
    invariant forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == old(m[k])

func gtfsparser.Feed.DeleteStop
  requires feed != nil
  modifies map[string]*gtfs.Stop at feed.Stops
  modifies map[string]string any
  ensures forall k: string :: {k in feed.Stops} k in feed.Stops <==> old(k in feed.Stops) && k != id
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] == old(feed.Stops[k])

func gtfsparser.Feed.DeleteService
  requires feed != nil
  modifies map[string]*gtfs.Service at feed.Services
  ensures forall k: string :: {k in feed.Services} k in feed.Services <==> old(k in feed.Services) && k != id
  ensures forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] == old(feed.Services[k])

func gtfsparser.Feed.DeleteTransfer
  requires feed != nil
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers <==> old(k in feed.Transfers) && k != tk
  ensures forall k: gtfs.TransferKey :: {feed.Transfers[k]} k in feed.Transfers ==> feed.Transfers[k] == old(feed.Transfers[k])

// every end of the transfer is registered under its ID
pred TransferReg(f: *gtfsparser.Feed, k: gtfs.TransferKey) := (k.From_stop != nil ==> k.From_stop.Id in f.Stops) && (k.To_stop != nil ==> k.To_stop.Id in f.Stops)
  && (k.From_route != nil ==> k.From_route.Id in f.Routes) && (k.To_route != nil ==> k.To_route.Id in f.Routes)
  && (k.From_trip != nil ==> k.From_trip.Id in f.Trips) && (k.To_trip != nil ==> k.To_trip.Id in f.Trips)

func gtfsparser.Feed.CleanTransfers
  requires feed != nil
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers <==> old(k in feed.Transfers) && TransferReg(feed, k)
  ensures forall k: gtfs.TransferKey :: {feed.Transfers[k]} k in feed.Transfers ==> feed.Transfers[k] == old(feed.Transfers[k])
  loop 1
    modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
    modifies map[gtfs.TransferKey]string any
    invariant forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers ==> old(k in feed.Transfers) && (visited(k) ==> TransferReg(feed, k))
    invariant forall k: gtfs.TransferKey :: {k in feed.Transfers} old(k in feed.Transfers) && TransferReg(feed, k) ==> k in feed.Transfers
    invariant forall k: gtfs.TransferKey :: {feed.Transfers[k]} k in feed.Transfers ==> feed.Transfers[k] == old(feed.Transfers[k])

// stop time flags
fun Pickup(s: gtfs.StopTime) := s.pudo % 4
fun Dropoff(s: gtfs.StopTime) := s.pudo / 4 % 4
fun CPickup(s: gtfs.StopTime) := s.pudo / 16 % 4
fun CDropoff(s: gtfs.StopTime) := s.pudo / 64 % 4
