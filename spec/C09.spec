property C09 processors.AdjacentStopTimeGrouper.Run

// IEEE equality
axiom FeqRefl := forall a: float32, b: float32 :: {feq(a, b)} a == b && !isnan(float64(a)) ==> feq(a, b)
axiom FeqTrans := forall a: float32, b: float32, c: float32 :: {feq(a, b), feq(b, c)} feq(a, b) && feq(b, c) ==> feq(a, c)

fun Seq(s: gtfs.StopTime) := if s.sequence == 0 then 1 else if s.sequence < 0 then 0 - (s.sequence + 1) else s.sequence - 1
pred Timepoint(s: gtfs.StopTime) := !(s.sequence < 0)
pred SameDist(a: gtfs.StopTime, b: gtfs.StopTime) := isnan(float64(a.shape_dist_traveled)) && isnan(float64(b.shape_dist_traveled)) || !isnan(float64(a.shape_dist_traveled)) && !isnan(float64(b.shape_dist_traveled)) && feq(a.shape_dist_traveled, b.shape_dist_traveled)
// stop events that are grouped
pred Adj(a: gtfs.StopTime, b: gtfs.StopTime) := a.stop == b.stop && a.arrival_time == a.departure_time && b.arrival_time == b.departure_time && SameDist(a, b) && a.headsign == b.headsign
  && CPickup(a) == CPickup(b) && CDropoff(a) == CDropoff(b)
// index of the group of stop event i
ufun GI(fn[int, gtfs.StopTime], int): int
ufun Grp(fn[int, gtfs.StopTime], int): bool
axiom GrpDef := forall r: fn[int, gtfs.StopTime], i: int :: {Grp(r, i)} Grp(r, i) && GI(r, 0) == 0 && (i > 0 ==> GI(r, i) == (if Adj(r[i - 1], r[i]) then GI(r, i - 1) else GI(r, i - 1) + 1))

// what a group takes from all, the first and the last of its events
ufun EvAll(gtfs.StopTime, gtfs.StopTime): bool
axiom EvAllDef := forall a: gtfs.StopTime, g: gtfs.StopTime :: {EvAll(a, g)}
  EvAll(a, g) == (g.stop == a.stop && g.headsign == a.headsign && CPickup(g) == CPickup(a) && CDropoff(g) == CDropoff(a) && SameDist(a, g))
ufun EvFirst(gtfs.StopTime, gtfs.StopTime): bool
axiom EvFirstDef := forall a: gtfs.StopTime, g: gtfs.StopTime :: {EvFirst(a, g)}
  EvFirst(a, g) == (g.arrival_time == a.arrival_time && Dropoff(g) == Dropoff(a) && Seq(g) == Seq(a) && Timepoint(g) == Timepoint(a))
ufun EvLast(gtfs.StopTime, gtfs.StopTime): bool
axiom EvLastDef := forall a: gtfs.StopTime, g: gtfs.StopTime :: {EvLast(a, g)}
  EvLast(a, g) == (g.departure_time == a.departure_time && Pickup(g) == Pickup(a))
// chains: what p takes from a, g takes from p
lemma EvAllTrans := forall a: gtfs.StopTime, p: gtfs.StopTime, g: gtfs.StopTime :: {EvAll(a, p), EvAll(p, g)} EvAll(a, p) && EvAll(p, g) ==> EvAll(a, g)
lemma EvFirstTrans := forall a: gtfs.StopTime, p: gtfs.StopTime, g: gtfs.StopTime :: {EvFirst(a, p), EvFirst(p, g)} EvFirst(a, p) && EvFirst(p, g) ==> EvFirst(a, g)
// the first n events of r are grouped to the m of q
ufun GStr(fn[int, gtfs.StopTime], int, int): bool
axiom GStrDef := forall r: fn[int, gtfs.StopTime], n: int, m: int :: {GStr(r, n, m)}
  GStr(r, n, m) == (m == GI(r, n - 1) + 1 && (forall i: int :: {GI(r, i)} 0 <= i && i < n ==> 0 <= GI(r, i) && GI(r, i) < m && (i < n - 1 && !Adj(r[i], r[i + 1]) ==> GI(r, i) < m - 1)))
ufun GAll(fn[int, gtfs.StopTime], int, fn[int, gtfs.StopTime]): bool
axiom GAllDef := forall r: fn[int, gtfs.StopTime], n: int, q: fn[int, gtfs.StopTime] :: {GAll(r, n, q)}
  GAll(r, n, q) == (forall i: int :: {GI(r, i)} 0 <= i && i < n ==> EvAll(r[i], q[GI(r, i)]))
ufun GFirst(fn[int, gtfs.StopTime], int, fn[int, gtfs.StopTime]): bool
axiom GFirstDef := forall r: fn[int, gtfs.StopTime], n: int, q: fn[int, gtfs.StopTime] :: {GFirst(r, n, q)}
  GFirst(r, n, q) == (forall i: int :: {GI(r, i)} 0 <= i && i < n && (i == 0 || !Adj(r[i - 1], r[i])) ==> EvFirst(r[i], q[GI(r, i)]))
ufun GLast(fn[int, gtfs.StopTime], int, fn[int, gtfs.StopTime]): bool
axiom GLastDef := forall r: fn[int, gtfs.StopTime], n: int, q: fn[int, gtfs.StopTime] :: {GLast(r, n, q)}
  GLast(r, n, q) == (forall i: int :: {GI(r, i)} 0 <= i && i < n && (i == n - 1 || !Adj(r[i], r[i + 1])) ==> EvLast(r[i], q[GI(r, i)]))
ufun GSame(fn[int, gtfs.StopTime], int, fn[int, gtfs.StopTime]): bool
axiom GSameDef := forall r: fn[int, gtfs.StopTime], n: int, q: fn[int, gtfs.StopTime] :: {GSame(r, n, q)}
  GSame(r, n, q) == (forall i: int :: {GI(r, i)} 0 <= i && i < n && (i == 0 || !Adj(r[i - 1], r[i])) && (i == n - 1 || !Adj(r[i], r[i + 1])) ==> q[GI(r, i)] == r[i])
pred Grouped(r: fn[int, gtfs.StopTime], n: int, q: fn[int, gtfs.StopTime], m: int) := GStr(r, n, m) && GAll(r, n, q) && GFirst(r, n, q) && GLast(r, n, q) && GSame(r, n, q)

func processors.AdjacentStopTimeGrouper.Run
  requires feed != nil && (forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k && off(feed.Trips[k].StopTimes) == 0 && cap(feed.Trips[k].StopTimes) >= len(feed.Trips[k].StopTimes))
  modifies gtfs.Trip.StopTimes any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && len(old(feed.Trips[k].StopTimes)) == 0 ==> feed.Trips[k].StopTimes == old(feed.Trips[k].StopTimes)
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && len(old(feed.Trips[k].StopTimes)) > 0 ==> off(feed.Trips[k].StopTimes) == 0
     && Grouped(old(row(feed.Trips[k].StopTimes)), old(len(feed.Trips[k].StopTimes)), row(feed.Trips[k].StopTimes), len(feed.Trips[k].StopTimes))
  loop 1
    modifies gtfs.Trip.StopTimes any
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && len(old(feed.Trips[k].StopTimes)) == 0 ==> feed.Trips[k].StopTimes == old(feed.Trips[k].StopTimes)
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !visited(k) ==> feed.Trips[k].StopTimes == old(feed.Trips[k].StopTimes) && row(feed.Trips[k].StopTimes) == old(row(feed.Trips[k].StopTimes))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) && len(old(feed.Trips[k].StopTimes)) > 0 ==> off(feed.Trips[k].StopTimes) == 0 && allocated(arr(feed.Trips[k].StopTimes))
     && Grouped(old(row(feed.Trips[k].StopTimes)), old(len(feed.Trips[k].StopTimes)), row(feed.Trips[k].StopTimes), len(feed.Trips[k].StopTimes))
  loop 2
    assert Grp(row(t.StopTimes), 0)
    modifies []gtfs.StopTime at arr(newSt)
    invariant 1 <= i && i <= len(t.StopTimes) && Grp(row(t.StopTimes), i)
    invariant off(newSt) == 0 && fresh(newSt) && (arr(newSt) == atentry(arr(newSt)) || freshloop(newSt)) && allocated(arr(newSt)) && len(newSt) >= 1
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> Seq(row(newSt)[len(newSt) - 1]) == Seq(athead(row(newSt)[len(newSt) - 1]))
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> Timepoint(row(newSt)[len(newSt) - 1]) == Timepoint(athead(row(newSt)[len(newSt) - 1]))
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> Dropoff(row(newSt)[len(newSt) - 1]) == Dropoff(athead(row(newSt)[len(newSt) - 1]))
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> CPickup(row(newSt)[len(newSt) - 1]) == CPickup(athead(row(newSt)[len(newSt) - 1]))
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> CDropoff(row(newSt)[len(newSt) - 1]) == CDropoff(athead(row(newSt)[len(newSt) - 1]))
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> SameDist(athead(row(newSt)[len(newSt) - 1]), row(newSt)[len(newSt) - 1])
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> EvAll(athead(row(newSt)[len(newSt) - 1]), row(newSt)[len(newSt) - 1])
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> EvFirst(athead(row(newSt)[len(newSt) - 1]), row(newSt)[len(newSt) - 1])
    step Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) ==> EvLast(row(t.StopTimes)[i - 1], row(newSt)[len(newSt) - 1])
    step Grp(row(t.StopTimes), i - 1) && (if Adj(row(t.StopTimes)[i - 2], row(t.StopTimes)[i - 1]) then len(newSt) == athead(len(newSt)) else len(newSt) == athead(len(newSt)) + 1 && row(newSt)[len(newSt) - 1] == row(t.StopTimes)[i - 1])
    step forall j: int :: {row(newSt)[j]} 0 <= j && j < len(newSt) - 1 ==> row(newSt)[j] == athead(row(newSt))[j]
    invariant GStr(row(t.StopTimes), i, len(newSt))
    invariant GAll(row(t.StopTimes), i, row(newSt))
    invariant GFirst(row(t.StopTimes), i, row(newSt))
    invariant GLast(row(t.StopTimes), i, row(newSt))
    invariant GSame(row(t.StopTimes), i, row(newSt))
