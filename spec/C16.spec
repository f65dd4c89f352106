property C16 processors.TooFastTripRemover.Run
assumes feeds without nil entries, a route for every trip and a stop for every stop time

fun Secs(t: gtfs.Time) := t.Hour * 3600 + t.Minute * 60 + t.Second
fun DistS(la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], a: gtfs.StopTime, b: gtfs.StopTime) := havApproxE(float64(la[a.stop]), float64(lo[a.stop]), float64(la[b.stop]), float64(lo[b.stop]))
// km/h; stop times without a difference count a minute
fun Speed(m: float64, secs: int) := if secs == 0 then (m / 1000) / fconst("60/3600") else (m / 1000) / (float64(secs) / 3600)
pred Over(ty: int, v: float64) := ty == 0 && v > 100 || ty == 1 && v > 150 || ty == 2 && v > 500 || ty == 3 && v > 150 || ty == 4 && v > 80 || ty == 5 && v > 30
  || ty == 6 && v > 50 || ty == 7 && v > 50 || ty == 11 && v > 50 || ty == 12 && v > 150

// First test. Before stop time i, LegL is the last stop time at which time passed, LegD the distance since.
ufun LegL(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int): int
ufun LegD(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int): float64
fun ArrS(s: gtfs.StopTime) := Secs(s.arrival_time)
fun DepS(s: gtfs.StopTime) := Secs(s.departure_time)
fun LegDist(la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], i: int) := LegD(la, lo, r, i) + DistS(la, lo, r[i - 1], r[i])
fun LegTime(la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], i: int) := ArrS(r[i]) - DepS(r[LegL(la, lo, r, i)])
ufun Leg(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int): bool
axiom LegDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], i: int :: {Leg(la, lo, r, i)} Leg(la, lo, r, i)
  && LegL(la, lo, r, 1) == 0 && LegD(la, lo, r, 1) == float64(0)
  && (i >= 1 ==> LegL(la, lo, r, i + 1) == (if LegTime(la, lo, r, i) != 0 then i else LegL(la, lo, r, i))
              && LegD(la, lo, r, i + 1) == (if LegTime(la, lo, r, i) != 0 then float64(0) else LegDist(la, lo, r, i)))
ufun FastLeg(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int): bool
axiom FastLegDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], i: int, ty: int :: {FastLeg(la, lo, r, i, ty)}
  FastLeg(la, lo, r, i, ty) == (LegDist(la, lo, r, i) >= 7000 && Over(ty, Speed(LegDist(la, lo, r, i), LegTime(la, lo, r, i))))

// Second test: between stop times j and i, j not the first one.
ufun Sum(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int): float64
ufun Part(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int): bool
axiom PartDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], j: int, i: int :: {Part(la, lo, r, j, i)} Part(la, lo, r, j, i)
  && Sum(la, lo, r, j, j) == float64(0) && (i > j ==> Sum(la, lo, r, j, i) == Sum(la, lo, r, j, i - 1) + DistS(la, lo, r[i - 1], r[i]))
ufun FastPart(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int, int): bool
axiom FastPartDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], j: int, i: int, ty: int :: {FastPart(la, lo, r, j, i, ty)}
  FastPart(la, lo, r, j, i, ty) == (Sum(la, lo, r, j, i) >= 10000 && Over(ty, Speed(Sum(la, lo, r, j, i), ArrS(r[i]) - DepS(r[j]))))

// a trip is too fast by either test
ufun AnyLeg(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int): bool
axiom AnyLegDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], n: int, ty: int :: {AnyLeg(la, lo, r, n, ty)} AnyLeg(la, lo, r, n, ty) == (exists i: int :: {FastLeg(la, lo, r, i, ty)} 1 <= i && i < n && FastLeg(la, lo, r, i, ty))
ufun AnyPart(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int): bool
axiom AnyPartDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], n: int, ty: int :: {AnyPart(la, lo, r, n, ty)} AnyPart(la, lo, r, n, ty) == (exists j: int, i: int :: {FastPart(la, lo, r, j, i, ty)} 1 <= j && j < i && i < n && FastPart(la, lo, r, j, i, ty))
// LegAt and PartAt only name the leg or part that ends at a stop time
ufun LegAt(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int, int): bool
axiom LegAtDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], i: int, n: int, ty: int :: {LegAt(la, lo, r, i, n, ty)} LegAt(la, lo, r, i, n, ty) && (1 <= i && i < n && FastLeg(la, lo, r, i, ty) ==> AnyLeg(la, lo, r, n, ty))
ufun PartAt(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], fn[int, gtfs.StopTime], int, int, int, int): bool
axiom PartAtDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], r: fn[int, gtfs.StopTime], j: int, i: int, n: int, ty: int :: {PartAt(la, lo, r, j, i, n, ty)} PartAt(la, lo, r, j, i, n, ty) && (1 <= j && j < i && i < n && FastPart(la, lo, r, j, i, ty) ==> AnyPart(la, lo, r, n, ty))

pred FastA(t: *gtfs.Trip) := AnyLeg(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), len(t.StopTimes), baseType(t.Route.Type))
pred FastB(t: *gtfs.Trip) := AnyPart(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), len(t.StopTimes), baseType(t.Route.Type))

func processors.TooFastTripRemover.Run
  requires feed != nil && (forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Route != nil && off(feed.Trips[k].StopTimes) == 0)
  requires forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop != nil
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies gtfsparser.Feed.NumStopTimes at feed
  modifies map[string]string any
  modifies map[string]map[int]string any
  modifies map[string]map[*gtfs.Frequency]string any
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> !FastA(feed.Trips[k]) && !FastB(feed.Trips[k])
  ensures forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> FastA(old(feed.Trips[k])) || FastB(old(feed.Trips[k]))
  ensures forall k: gtfs.TransferKey :: {k in feed.Transfers} k in feed.Transfers <==> old(k in feed.Transfers) && TransferReg(feed, k)
  loop 1
    modifies map[string]*gtfs.Trip at feed.Trips
    modifies gtfsparser.Feed.NumStopTimes at feed
    modifies map[string]string any
    modifies map[string]map[int]string any
    modifies map[string]map[*gtfs.Frequency]string any
    invariant forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) ==> !FastA(feed.Trips[k])
    invariant forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> FastA(old(feed.Trips[k]))
  loop 2
    assert Leg(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), 1)
    modifies nothing
    invariant 1 <= i && Leg(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i) && LegAt(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i, len(t.StopTimes), baseType(t.Route.Type))
    invariant LegL(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i) < i && 0 <= LegL(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i)
    invariant last == row(t.StopTimes)[LegL(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i)]
    invariant dist == LegD(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), i)
    invariant forall m: int :: {FastLeg(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), m, baseType(t.Route.Type))} 1 <= m && m < i ==> !FastLeg(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), m, baseType(t.Route.Type))
  loop 3
    modifies map[string]*gtfs.Trip at feed.Trips
    modifies gtfsparser.Feed.NumStopTimes at feed
    modifies map[string]string any
    modifies map[string]map[int]string any
    modifies map[string]map[*gtfs.Frequency]string any
    invariant forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> old(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips ==> !FastA(feed.Trips[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) ==> !FastB(feed.Trips[k])
    invariant forall k: string :: {k in feed.Trips} old(k in feed.Trips) && !(k in feed.Trips) ==> FastA(old(feed.Trips[k])) || FastB(old(feed.Trips[k]))
  loop 4
    modifies map[string]*gtfs.Trip at feed.Trips
    modifies gtfsparser.Feed.NumStopTimes at feed
    modifies map[string]string any
    modifies map[string]map[int]string any
    modifies map[string]map[*gtfs.Frequency]string any
    invariant 1 <= j
    invariant forall k: string :: {feed.Trips[k]} {k in feed.Trips} k in feed.Trips ==> atpre(k in feed.Trips) && feed.Trips[k] == old(feed.Trips[k])
    invariant forall k: string :: {k in feed.Trips} atpre(k in feed.Trips) && !(k in feed.Trips) ==> k == id && FastB(t)
    invariant id in feed.Trips ==> forall n: int, m: int :: {FastPart(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), n, m, baseType(t.Route.Type))} 1 <= n && n < j && n < m && m < len(t.StopTimes) ==> !FastPart(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), n, m, baseType(t.Route.Type))
  loop 5
    assert Part(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, j) && Part(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, j + 1)
    modifies nothing
    invariant j < i && Part(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, i) && PartAt(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, i, len(t.StopTimes), baseType(t.Route.Type))
    invariant dist == Sum(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, i - 1)
    invariant forall m: int :: {FastPart(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, m, baseType(t.Route.Type))} j < m && m < i ==> !FastPart(fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon), row(t.StopTimes), j, m, baseType(t.Route.Type))
