property C10 processors.StopParentEnforcer.Run

// Stops as the parser delivers them: registered under their own ID, and the parent of a stop or
// platform is a registered station.
pred StopsWF(f: *gtfsparser.Feed) := f != nil && f.Stops != nil
  && (forall k: string :: {f.Stops[k]} k in f.Stops ==> f.Stops[k] != nil && f.Stops[k].Id == k
      && (f.Stops[k].Location_type == 0 && f.Stops[k].Parent_station != nil ==>
          f.Stops[k].Parent_station.Id in f.Stops && f.Stops[f.Stops[k].Parent_station.Id] == f.Stops[k].Parent_station && f.Stops[k].Parent_station.Location_type == 1))

pred Added(f: *gtfsparser.Feed, k: string) := k in f.Stops && !old(k in f.Stops)
pred Kept(f: *gtfsparser.Feed, k: string) := old(k in f.Stops)
// p is a station registered under its own id
pred Station(f: *gtfsparser.Feed, p: *gtfs.Stop) := p != nil && p.Id in f.Stops && f.Stops[p.Id] == p && p.Location_type == 1

func processors.StopParentEnforcer.Run
  requires StopsWF(feed)
  // stops that existed stay, under the same ID, with their position, name and type
  ensures forall k: string :: {feed.Stops[k]} Kept(feed, k) ==> k in feed.Stops && feed.Stops[k] == old(feed.Stops[k])
      && feed.Stops[k].Id == old(feed.Stops[k].Id) && feed.Stops[k].Lat == old(feed.Stops[k].Lat) && feed.Stops[k].Lon == old(feed.Stops[k].Lon)
      && feed.Stops[k].Name == old(feed.Stops[k].Name) && feed.Stops[k].Location_type == old(feed.Stops[k].Location_type)
  // a parent is kept
  ensures forall k: string :: {feed.Stops[k]} Kept(feed, k) && old(feed.Stops[k].Parent_station) != nil ==> feed.Stops[k].Parent_station == old(feed.Stops[k].Parent_station)
  // every stop or platform has a station that is registered under its own ID
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops && feed.Stops[k].Location_type == 0 ==> Station(feed, feed.Stops[k].Parent_station)
  // everything is registered under its own ID
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
  // an added station is new, has no parent, and is the parent of exactly one stop, whose position and name it has
  ensures forall k: string :: {feed.Stops[k]} Added(feed, k) ==> feed.Stops[k].Location_type == 1 && feed.Stops[k].Parent_station == nil && fresh(feed.Stops[k])
      && (exists c: string :: {feed.Stops[c]} Kept(feed, c) && feed.Stops[c].Parent_station == feed.Stops[k] && old(feed.Stops[c].Parent_station) == nil
            && feed.Stops[c].Lat == feed.Stops[k].Lat && feed.Stops[c].Lon == feed.Stops[k].Lon && feed.Stops[c].Name == feed.Stops[k].Name)
  ensures forall k: string, c: string, d: string :: {feed.Stops[k], feed.Stops[c], feed.Stops[d]} Added(feed, k) && c in feed.Stops && d in feed.Stops && feed.Stops[c].Parent_station == feed.Stops[k] && feed.Stops[d].Parent_station == feed.Stops[k] ==> c == d
  // stations and all other stops keep what they had: nothing else of a stop changes
  modifies gtfs.Stop.Parent_station where x: *gtfs.Stop :: x.Location_type == 0 && x.Parent_station == nil
  modifies map[string]*gtfs.Stop at feed.Stops
  loop 1
    invariant forall k: string :: {feed.Stops[k]} Kept(feed, k) ==> k in feed.Stops && feed.Stops[k] == old(feed.Stops[k])
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
    invariant forall k: string :: {feed.Stops[k]} Kept(feed, k) && old(feed.Stops[k].Parent_station) != nil ==> feed.Stops[k].Parent_station == old(feed.Stops[k].Parent_station)
    invariant forall k: string :: {feed.Stops[k]} Kept(feed, k) && visited(k) && feed.Stops[k].Location_type == 0 ==> Station(feed, feed.Stops[k].Parent_station)
    invariant forall k: string :: {feed.Stops[k]} Kept(feed, k) && feed.Stops[k].Parent_station != old(feed.Stops[k].Parent_station) ==>
      old(feed.Stops[k].Parent_station) == nil && visited(k) && fresh(feed.Stops[k].Parent_station) && allocated(feed.Stops[k].Parent_station)
    invariant forall k: string :: {feed.Stops[k]} Added(feed, k) ==> feed.Stops[k].Location_type == 1 && feed.Stops[k].Parent_station == nil && fresh(feed.Stops[k]) && allocated(feed.Stops[k])
      && (exists c: string :: {feed.Stops[c]} Kept(feed, c) && feed.Stops[c].Parent_station == feed.Stops[k] && old(feed.Stops[c].Parent_station) == nil
            && feed.Stops[c].Lat == feed.Stops[k].Lat && feed.Stops[c].Lon == feed.Stops[k].Lon && feed.Stops[c].Name == feed.Stops[k].Name)
    invariant forall k: string, c: string, d: string :: {feed.Stops[k], feed.Stops[c], feed.Stops[d]} Added(feed, k) && Kept(feed, c) && Kept(feed, d) && feed.Stops[c].Parent_station == feed.Stops[k] && feed.Stops[d].Parent_station == feed.Stops[k] ==> c == d
  loop 2
    invariant true
assumes the feed is as the parser delivers it: every stop is registered under its own ID, and a parent of a stop or platform is a registered station
assumes Go's map iteration: an entry inserted during iteration may or may not be visited, every other remaining entry is visited exactly once
