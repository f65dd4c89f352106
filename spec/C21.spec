property C21 processors.PlatformCodeDropper.Run
assumes every stop is registered under its own ID

pred Dropped(s: *gtfs.Stop) := len(s.Platform_code) == 0
pred Kept(s: *gtfs.Stop) := s.Platform_code == old(s.Platform_code)

func processors.PlatformCodeDropper.Run
  requires feed != nil
  requires forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
  // nothing but platform codes of registered stops changes
  modifies gtfs.Stop.Platform_code where s: *gtfs.Stop :: s.Id in feed.Stops && feed.Stops[s.Id] == s && s.Parent_station == nil
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> (if feed.Stops[k].Parent_station == nil then Dropped(feed.Stops[k]) else Kept(feed.Stops[k]))
  loop 1
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops ==> (if feed.Stops[k].Parent_station == nil then !visited(k) || Dropped(feed.Stops[k]) else Kept(feed.Stops[k]))
