property C17 processors.ShapeSnapper.Run
assumes the feed is as the parser delivers it: every stop is registered under its own ID, every stop time refers to a stop, and the trips' stop times are slices of their own

pred TripsWF(f: *gtfsparser.Feed) := forall k: string :: {f.Trips[k]} k in f.Trips ==> f.Trips[k] != nil && off(f.Trips[k].StopTimes) == 0 && cap(f.Trips[k].StopTimes) >= len(f.Trips[k].StopTimes)
pred Own(f: *gtfsparser.Feed) := forall k: string, l: string :: {f.Trips[k], f.Trips[l]} k in f.Trips && l in f.Trips && k != l && len(f.Trips[k].StopTimes) > 0 && len(f.Trips[l].StopTimes) > 0 ==> arr(f.Trips[k].StopTimes) != arr(f.Trips[l].StopTimes)
// everything of a stop event but the stop
pred SameEvt(a: gtfs.StopTime, b: gtfs.StopTime) := a.arrival_time == b.arrival_time && a.departure_time == b.departure_time && a.sequence == b.sequence && a.headsign == b.headsign
  && a.shape_dist_traveled == b.shape_dist_traveled && a.pudo == b.pudo
// n is an added copy of o
pred CopyOf(f: *gtfsparser.Feed, n: *gtfs.Stop, o: *gtfs.Stop) := n != nil && n.Id in f.Stops && f.Stops[n.Id] == n && (let id := n.Id :: !old(id in f.Stops)) && fresh(n) && allocated(n)
  && n.Code == o.Code && n.Name == o.Name && n.Desc == o.Desc && n.Location_type == o.Location_type && n.Wheelchair_boarding == o.Wheelchair_boarding && n.Zone_id == o.Zone_id && n.Url == o.Url
  && n.Parent_station == o.Parent_station && n.Translations == o.Translations && n.Level == o.Level && n.Platform_code == o.Platform_code && n.Timezone == o.Timezone
pred Far(m: float64, n: *gtfs.Stop, o: *gtfs.Stop) := havApproxE(float64(n.Lat), float64(n.Lon), float64(o.Lat), float64(o.Lon)) > m
pred Snapped(f: *gtfsparser.Feed, m: float64, n: *gtfs.Stop, o: *gtfs.Stop) := CopyOf(f, n, o) && Far(m, n, o)

func processors.ShapeSnapper.Run
  requires feed != nil && feed.Stops != nil && TripsWF(feed) && Own(feed)
  requires forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil
  requires forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop != nil
  // nothing but the registry of stops and the stop times changes
  modifies map[string]*gtfs.Stop at feed.Stops
  modifies []gtfs.StopTime any
  // former stops stay registered
  ensures forall k: string :: {feed.Stops[k]} old(k in feed.Stops) ==> k in feed.Stops && feed.Stops[k] == old(feed.Stops[k])
  // every entry is registered under its own ID
  ensures forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
  // a stop event keeps everything but its stop
  ensures forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> SameEvt(row(feed.Trips[k].StopTimes)[i], old(row(feed.Trips[k].StopTimes)[i]))
  // trips without shape keep their stops
  ensures forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) && feed.Trips[k].Shape == nil ==> row(feed.Trips[k].StopTimes)[i].stop == old(row(feed.Trips[k].StopTimes)[i].stop)
  // another stop is a copy farther away than the maximal distance
  ensures forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==>
    row(feed.Trips[k].StopTimes)[i].stop == old(row(feed.Trips[k].StopTimes)[i].stop) || Snapped(feed, sm.MaxDist, row(feed.Trips[k].StopTimes)[i].stop, old(row(feed.Trips[k].StopTimes)[i].stop))
  loop 1
    modifies map[*gtfs.Shape][][]float64 any
    modifies [][]float64 any
    invariant forall x: *gtfs.Shape :: {sm.mercs[x]} allocated(arr(sm.mercs[x])) && (cap(sm.mercs[x]) == 0 || fresh(sm.mercs[x]))
  loop 2
    modifies map[*gtfs.Shape][][]float64 any
    modifies [][]float64 any
    invariant forall x: *gtfs.Shape :: {sm.mercs[x]} allocated(arr(sm.mercs[x])) && (cap(sm.mercs[x]) == 0 || fresh(sm.mercs[x]))
  loop 3
    modifies map[*gtfs.Stop][2]float64 any
    invariant true
  loop 4
    modifies map[string]*gtfs.Stop at feed.Stops
    modifies []gtfs.StopTime any
    invariant forall k: string :: {feed.Stops[k]} old(k in feed.Stops) ==> k in feed.Stops && feed.Stops[k] == old(feed.Stops[k])
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> SameEvt(row(feed.Trips[k].StopTimes)[i], old(row(feed.Trips[k].StopTimes)[i]))
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 && (!visited(k) || athead(visited(k))) ==> arr(feed.Trips[k].StopTimes) != arr(t.StopTimes) || len(t.StopTimes) == 0
    step forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) && (!visited(k) || athead(visited(k))) ==> row(feed.Trips[k].StopTimes)[i] == athead(row(feed.Trips[k].StopTimes)[i])
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) && !athead(visited(k)) ==> feed.Trips[k] == t
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && !visited(k) && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i] == old(row(feed.Trips[k].StopTimes)[i])
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) && feed.Trips[k].Shape == nil ==> row(feed.Trips[k].StopTimes)[i].stop == old(row(feed.Trips[k].StopTimes)[i].stop)
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==>
      row(feed.Trips[k].StopTimes)[i].stop == old(row(feed.Trips[k].StopTimes)[i].stop) || Snapped(feed, sm.MaxDist, row(feed.Trips[k].StopTimes)[i].stop, old(row(feed.Trips[k].StopTimes)[i].stop))
  loop 5
    modifies map[string]*gtfs.Stop at feed.Stops
    modifies []gtfs.StopTime at arr(t.StopTimes)
    invariant forall k: string :: {feed.Stops[k]} atpre(k in feed.Stops) ==> k in feed.Stops && feed.Stops[k] == atpre(feed.Stops[k])
    invariant forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < len(t.StopTimes) ==> SameEvt(row(t.StopTimes)[i], atpre(row(t.StopTimes)[i]))
    invariant forall i: int :: {row(t.StopTimes)[i]} $i <= i || i < 0 || len(t.StopTimes) == 0 ==> row(t.StopTimes)[i] == atpre(row(t.StopTimes)[i])
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || fresh(n)
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || allocated(n)
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || n.Id in feed.Stops
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || feed.Stops[n.Id] == n
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || (let id := n.Id :: !athead(id in feed.Stops))
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || (let id := n.Id :: !old(id in feed.Stops))
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || Far(sm.MaxDist, n, o)
    step let n := row(t.StopTimes)[$i - 1].stop :: let o := athead(row(t.StopTimes)[$i].stop) :: n == o || Snapped(feed, sm.MaxDist, n, o)
    step forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i - 1 ==> row(t.StopTimes)[i] == athead(row(t.StopTimes)[i])
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i ==>
      row(t.StopTimes)[i].stop == atpre(row(t.StopTimes)[i].stop) || Snapped(feed, sm.MaxDist, row(t.StopTimes)[i].stop, atpre(row(t.StopTimes)[i].stop))

func processors.ShapeSnapper.snapTo
  nosafety
  modifies nothing
  loop 1
    modifies nothing
    invariant true
  loop 2
    modifies nothing
    invariant true

func processors.snapTo
  nosafety
  modifies nothing

func processors.ShapeSnapper.freeStopId
  requires feed != nil
  nosafety
  modifies nothing
  ensures !(result in feed.Stops)
  loop 1
    modifies nothing
    invariant true
