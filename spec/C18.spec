property C18 processors.ShapeRemeasurer.Run
assumes every shape has points, which start at the beginning of a slice of its own, the stop times of each trip too

axiom NaNConv := forall a: float64 :: {float32(a)} isnan(a) ==> isnan(float64(float32(a)))

ufun havE(float64, float64, float64, float64): float64
func processors.haversine
  pure havE
  ensures let r := fconst("0.017453292519943295769236907684886127134428718885417254560") ::
     let sa := math("Sin", (latB * r - latA * r) / 2) :: let so := math("Sin", (lonB * r - lonA * r) / 2) ::
     let a := sa * sa + math("Cos", latA * r) * math("Cos", latB * r) * so * so ::
     result == 2 * math("Atan2", math("Sqrt", a), math("Sqrt", 1 - a)) * 6378137

pred SamePos(p: gtfs.ShapePoint, q: gtfs.ShapePoint) := p.Lat == q.Lat && p.Lon == q.Lon && p.Sequence == q.Sequence
fun DT(p: gtfs.ShapePoint) := p.Dist_traveled
pred Meas(p: gtfs.ShapePoint) := !isnan(float64(p.Dist_traveled))
// positions
fun PLat(p: gtfs.ShapePoint) := p.Lat
fun PLon(p: gtfs.ShapePoint) := p.Lon
ufun La(fn[int, gtfs.ShapePoint]): fn[int, float32]
ufun Lo(fn[int, gtfs.ShapePoint]): fn[int, float32]
axiom LaDef := forall r: fn[int, gtfs.ShapePoint], j: int :: {La(r)[j]} La(r)[j] == PLat(r[j])
axiom LoDef := forall r: fn[int, gtfs.ShapePoint], j: int :: {Lo(r)[j]} Lo(r)[j] == PLon(r[j])
pred SameLL(r: fn[int, gtfs.ShapePoint], s: fn[int, gtfs.ShapePoint]) := La(r) == La(s) && Lo(r) == Lo(s)
// length of the way from the point before a (from point a if a is 0) to point j, added up in this order
ufun Ds(fn[int, float32], fn[int, float32], int, int): float64
ufun DsSt(fn[int, float32], fn[int, float32], int, int): bool
axiom DsDef := forall la: fn[int, float32], lo: fn[int, float32], a: int, j: int :: {DsSt(la, lo, a, j)} DsSt(la, lo, a, j)
  && Ds(la, lo, a, a - 1) == float64(0)
  && (j >= a ==> Ds(la, lo, a, j) == (if j > 0 then Ds(la, lo, a, j - 1) + havE(float64(la[j - 1]), float64(lo[j - 1]), float64(la[j]), float64(lo[j])) else Ds(la, lo, a, j - 1)))
fun Way(r: fn[int, gtfs.ShapePoint], a: int, j: int) := Ds(La(r), Lo(r), a, j)
pred DsStep(r: fn[int, gtfs.ShapePoint], a: int, j: int) := DsSt(La(r), Lo(r), a, j)
// the last measured point before j, -1 if there is none
ufun Pm(fn[int, gtfs.ShapePoint], int): int
ufun PmStep(fn[int, gtfs.ShapePoint], int): bool
axiom PmDef := forall r: fn[int, gtfs.ShapePoint], j: int :: {PmStep(r, j)} PmStep(r, j) && Pm(r, 0) == -1 && (j >= 0 ==> Pm(r, j + 1) == (if Meas(r[j]) then j else Pm(r, j)))

// what a point j gets: m at the point before a, unit per metre
fun Val(r: fn[int, gtfs.ShapePoint], a: int, j: int, m: float64, unit: float64) := float32(m + Way(r, a, j) * unit)
// between measured points l and q, by the way
fun Interp(r: fn[int, gtfs.ShapePoint], l: int, q: int, j: int) := Val(r, l + 1, j, float64(DT(r[l])), (float64(DT(r[q])) - float64(DT(r[l]))) / Way(r, l + 1, q))
// q is a measured point, with a measured one before it, on a way of positive length
pred Gap(r: fn[int, gtfs.ShapePoint], n: int, q: int, j: int) := 0 <= q && q < n && Meas(r[q]) && 0 <= Pm(r, q) && Pm(r, q) < j && j < q && Way(r, Pm(r, q) + 1, q) > 0

pred AllPos(r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint]) := forall j: int :: {s[j]} 0 <= j && j < n ==> SamePos(r[j], s[j])
pred AllMeas(r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint]) := forall j: int :: {s[j]} 0 <= j && j < n && Meas(r[j]) ==> DT(s[j]) == DT(r[j])
pred NoMeas(r: fn[int, gtfs.ShapePoint], n: int) := forall j: int :: {r[j]} 0 <= j && j < n ==> !Meas(r[j])
pred Interpolated(r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint]) := forall q: int, j: int :: {Pm(r, q), s[j]} Gap(r, n, q, j) ==> DT(s[j]) == Interp(r, Pm(r, q), q, j)
pred Interpolated2(r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint]) := forall q: int, j: int :: {Pm(r, q), s[j]} Gap(r, n, q, j) ==> DT(s[j]) == Interp(r, Pm(r, q), q, j) || isnan(float64(Interp(r, Pm(r, q), q, j)))
pred Metres(r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint]) := forall j: int :: {s[j]} 0 <= j && j < n ==> DT(s[j]) == Val(r, 0, j, float64(0), float64(1))

// s is the remeasured r
ufun Rem(fn[int, gtfs.ShapePoint], int, fn[int, gtfs.ShapePoint], bool): bool
axiom RemDef := forall r: fn[int, gtfs.ShapePoint], n: int, s: fn[int, gtfs.ShapePoint], force: bool :: {Rem(r, n, s, force)} Rem(r, n, s, force) == (AllPos(r, n, s)
  && (if NoMeas(r, n) then Metres(r, n, s)
      else !force && NoMeas(s, n) || AllMeas(r, n, s) && Interpolated2(r, n, s)))

func processors.ShapeRemeasurer.remeasureBetween
  requires shape != nil && off(shape.Points) == 0 && 0 <= i && i <= end && end <= len(shape.Points)
  modifies []gtfs.ShapePoint at arr(shape.Points)
  ensures SameLL(row(shape.Points), old(row(shape.Points)))
  ensures forall j: int :: {row(shape.Points)[j]} j < i || j >= end ==> row(shape.Points)[j] == old(row(shape.Points)[j])
  ensures forall j: int :: {row(shape.Points)[j]} i <= j && j < end ==> SamePos(row(shape.Points)[j], old(row(shape.Points)[j])) && row(shape.Points)[j].Dist_traveled == Val(old(row(shape.Points)), i, j, lastMeasure, mPUnit)
  loop 1
    assert DsStep(row(shape.Points), i#1, i#1)
    modifies []gtfs.ShapePoint at arr(shape.Points)
    step DsStep(old(row(shape.Points)), i, i#1) && DsStep(old(row(shape.Points)), i, i#1 - 1)
    invariant SameLL(row(shape.Points), old(row(shape.Points)))
    invariant i <= i#1 && i#1 <= end && d == Way(old(row(shape.Points)), i, i#1 - 1)
    invariant forall j: int :: {row(shape.Points)[j]} j < i || j >= i#1 ==> row(shape.Points)[j] == old(row(shape.Points)[j])
    invariant forall j: int :: {row(shape.Points)[j]} i <= j && j < i#1 ==> SamePos(row(shape.Points)[j], old(row(shape.Points)[j])) && row(shape.Points)[j].Dist_traveled == Val(old(row(shape.Points)), i, j, lastMeasure, mPUnit)

func processors.ShapeRemeasurer.remeasureKnown
  requires shape != nil && off(shape.Points) == 0
  modifies []gtfs.ShapePoint at arr(shape.Points)
  ensures SameLL(row(shape.Points), old(row(shape.Points))) && AllPos(old(row(shape.Points)), len(shape.Points), row(shape.Points))
  ensures AllMeas(old(row(shape.Points)), len(shape.Points), row(shape.Points))
  ensures Interpolated(old(row(shape.Points)), len(shape.Points), row(shape.Points))
  ensures result1 <==> NoMeas(old(row(shape.Points)), len(shape.Points))
  ensures result1 ==> (forall j: int :: {row(shape.Points)[j]} row(shape.Points)[j] == old(row(shape.Points)[j])) && result0 == float64(0)
  loop 1
    assert DsStep(row(shape.Points), 0, 0) && PmStep(row(shape.Points), 0)
    modifies []gtfs.ShapePoint at arr(shape.Points)
    step PmStep(old(row(shape.Points)), i - 1) && PmStep(old(row(shape.Points)), i) && DsStep(old(row(shape.Points)), athead(lastMIndex) + 1, i - 1) && DsStep(old(row(shape.Points)), lastMIndex + 1, i)
    invariant 0 <= i && i <= len(shape.Points) && lastMIndex == Pm(old(row(shape.Points)), i) && -1 <= lastMIndex && lastMIndex < i && cc >= 0 && c >= 0 && c <= cc
    invariant hasLast <==> lastMIndex >= 0
    invariant hasLast ==> Meas(old(row(shape.Points))[lastMIndex]) && lastM == float64(DT(old(row(shape.Points))[lastMIndex]))
    invariant d == Way(old(row(shape.Points)), lastMIndex + 1, i - 1)
    invariant cc == 0 <==> lastMIndex == -1
    invariant forall j: int :: {row(shape.Points)[j]} 0 <= j && j < i && Meas(old(row(shape.Points))[j]) ==> j <= lastMIndex
    invariant forall j: int :: {row(shape.Points)[j]} j < 0 || j > lastMIndex ==> row(shape.Points)[j] == old(row(shape.Points)[j])
    invariant SameLL(row(shape.Points), old(row(shape.Points))) && AllPos(old(row(shape.Points)), len(shape.Points), row(shape.Points))
    invariant AllMeas(old(row(shape.Points)), len(shape.Points), row(shape.Points))
    invariant Interpolated(old(row(shape.Points)), i, row(shape.Points))

func processors.ShapeRemeasurer.remeasureUnknown
  requires shape != nil && off(shape.Points) == 0
  modifies []gtfs.ShapePoint at arr(shape.Points)
  ensures SameLL(row(shape.Points), old(row(shape.Points))) && AllPos(old(row(shape.Points)), len(shape.Points), row(shape.Points))
  ensures AllMeas(old(row(shape.Points)), len(shape.Points), row(shape.Points))
  ensures NoMeas(old(row(shape.Points)), len(shape.Points)) ==> (forall j: int :: {row(shape.Points)[j]} 0 <= j && j < len(shape.Points) ==> row(shape.Points)[j].Dist_traveled == Val(old(row(shape.Points)), 0, j, float64(0), avgMeasure))
  loop 1
    modifies []gtfs.ShapePoint at arr(shape.Points)
    invariant 0 <= i && i <= len(shape.Points) + 1 && -1 <= lastUMIndex && lastUMIndex < i && (i > len(shape.Points) ==> lastUMIndex == -1)
    invariant forall j: int :: {row(shape.Points)[j]} j < 0 || j >= i || lastUMIndex >= 0 && j >= lastUMIndex ==> row(shape.Points)[j] == old(row(shape.Points)[j])
    invariant forall j: int :: {row(shape.Points)[j]} lastUMIndex >= 0 && lastUMIndex <= j && j < i ==> !Meas(old(row(shape.Points))[j])
    invariant SameLL(row(shape.Points), old(row(shape.Points))) && AllPos(old(row(shape.Points)), len(shape.Points), row(shape.Points))
    invariant AllMeas(old(row(shape.Points)), len(shape.Points), row(shape.Points))
    invariant NoMeas(old(row(shape.Points)), len(shape.Points)) ==> lastM == float64(0) && (0 < i && i <= len(shape.Points) ==> lastUMIndex == 0)
    invariant NoMeas(old(row(shape.Points)), len(shape.Points)) && i > len(shape.Points) ==> (forall j: int :: {row(shape.Points)[j]} 0 <= j && j < len(shape.Points) ==> row(shape.Points)[j].Dist_traveled == Val(old(row(shape.Points)), 0, j, float64(0), avgMeasure))

func processors.ShapeRemeasurer.remeasure
  requires shape != nil && off(shape.Points) == 0
  modifies []gtfs.ShapePoint at arr(shape.Points)
  ensures Rem(old(row(shape.Points)), len(shape.Points), row(shape.Points), s.Force)
  loop 1
    modifies []gtfs.ShapePoint at arr(shape.Points)
    invariant SameLL(row(shape.Points), atpre(row(shape.Points))) && AllPos(atpre(row(shape.Points)), len(shape.Points), row(shape.Points))
    invariant forall j: int :: {row(shape.Points)[j]} 0 <= j && j < $i ==> !Meas(row(shape.Points)[j])

pred SameP(s: *gtfs.Shape) := row(s.Points) == old(row(s.Points))
pred Done(s: *gtfs.Shape, force: bool) := Rem(old(row(s.Points)), len(s.Points), row(s.Points), force)
pred RegShape(f: *gtfsparser.Feed, s: *gtfs.Shape) := s != nil && s.Id in f.Shapes && f.Shapes[s.Id] == s
pred Own(f: *gtfsparser.Feed) := forall k: string, l: string :: {f.Trips[k], f.Trips[l]} k in f.Trips && l in f.Trips && k != l && len(f.Trips[k].StopTimes) > 0 && len(f.Trips[l].StopTimes) > 0 ==> arr(f.Trips[k].StopTimes) != arr(f.Trips[l].StopTimes)
pred SameEvt(a: gtfs.StopTime, b: gtfs.StopTime) := a.arrival_time == b.arrival_time && a.departure_time == b.departure_time && a.sequence == b.sequence && a.headsign == b.headsign && a.pudo == b.pudo && a.stop == b.stop
fun StD(a: gtfs.StopTime) := a.shape_dist_traveled
fun LastD(t: *gtfs.Trip) := DT(row(t.Shape.Points)[len(t.Shape.Points) - 1])
// a is b, its distance cut to the end of the shape
pred Cut(t: *gtfs.Trip, a: gtfs.StopTime, b: gtfs.StopTime) := SameEvt(a, b)
  && StD(a) == (if t.Shape != nil && !isnan(float64(StD(b))) && !isnan(float64(LastD(t))) && StD(b) > LastD(t) then LastD(t) else StD(b))

func processors.ShapeRemeasurer.Run
  hide RemDef
  requires feed != nil
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k && off(feed.Shapes[k].Points) == 0 && len(feed.Shapes[k].Points) > 0
  requires forall k: string, l: string :: {feed.Shapes[k], feed.Shapes[l]} k in feed.Shapes && l in feed.Shapes && k != l ==> arr(feed.Shapes[k].Points) != arr(feed.Shapes[l].Points)
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && off(feed.Trips[k].StopTimes) == 0 && cap(feed.Trips[k].StopTimes) >= len(feed.Trips[k].StopTimes)
     && (feed.Trips[k].Shape != nil ==> off(feed.Trips[k].Shape.Points) == 0 && len(feed.Trips[k].Shape.Points) > 0)
  requires Own(feed)
  modifies []gtfs.ShapePoint any
  modifies []gtfs.StopTime any
  ensures forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> Done(feed.Shapes[k], s.Force)
  ensures forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> Cut(feed.Trips[k], row(feed.Trips[k].StopTimes)[i], old(row(feed.Trips[k].StopTimes)[i]))
  loop 1
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant local 0 <= $i && $i <= len(feed.Shapes) && chunksize >= 0
    invariant local len(feed.Shapes) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && fresh(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> RegShape(feed, row(row(chunks)[c])[i])
    invariant forall k: string :: {feed.Shapes[k]} visited(k) ==> (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] == feed.Shapes[k])
    invariant local forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> visited(row(row(chunks)[c])[i].Id)
    invariant forall c: int, i: int, e: int, j: int :: {row(row(chunks)[c])[i], row(row(chunks)[e])[j]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && 0 <= e && e < len(chunks) && 0 <= j && j < len(row(chunks)[e]) && (c != e || i != j) ==> row(row(chunks)[c])[i] != row(row(chunks)[e])[j]
  loop 2
    modifies []gtfs.ShapePoint any
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> Done(row(row(chunks)[c])[i], s.Force)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} $i <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameP(row(row(chunks)[c])[i])
  loop 3
    modifies []gtfs.ShapePoint any
    step forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != shp ==> arr(row(row(chunks)[c])[i].Points) != arr(shp.Points)
    step forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && c != $i2 && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != shp
    step forall i: int :: {row(chunk)[i]} 0 <= i && i < len(chunk) && i != $i - 1 ==> row(chunk)[i] != shp
    step Done(shp, s.Force)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i2 && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> Done(row(row(chunks)[c])[i], s.Force)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} $i2 < c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameP(row(row(chunks)[c])[i])
    invariant forall i: int :: {row(chunk)[i]} 0 <= i && i < $i && i < len(chunk) ==> Done(row(chunk)[i], s.Force)
    invariant forall i: int :: {row(chunk)[i]} $i <= i && i < len(chunk) ==> SameP(row(chunk)[i])
  loop 4
    invariant true
  loop 5
    modifies []gtfs.StopTime any
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 && (!visited(k) || athead(visited(k))) ==> arr(feed.Trips[k].StopTimes) != arr(t.StopTimes) || len(t.StopTimes) == 0
    step forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) && (!visited(k) || athead(visited(k))) ==> row(feed.Trips[k].StopTimes)[i] == athead(row(feed.Trips[k].StopTimes)[i])
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) && !athead(visited(k)) ==> feed.Trips[k] == t
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && !visited(k) && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i] == old(row(feed.Trips[k].StopTimes)[i])
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && visited(k) && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> Cut(feed.Trips[k], row(feed.Trips[k].StopTimes)[i], old(row(feed.Trips[k].StopTimes)[i]))
  loop 6
    modifies []gtfs.StopTime at arr(t.StopTimes)
    invariant forall i: int :: {row(t.StopTimes)[i]} $i <= i || i < 0 || len(t.StopTimes) == 0 ==> row(t.StopTimes)[i] == atpre(row(t.StopTimes)[i])
    invariant forall i: int :: {row(t.StopTimes)[i]} 0 <= i && i < $i ==> Cut(t, row(t.StopTimes)[i], atpre(row(t.StopTimes)[i]))
