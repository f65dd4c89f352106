property C20 processors.StopTimeRemeasurer.Run
assumes every trip's shape is registered and has points, at most 2^31 of them, which start at the beginning of a slice of its own, the stop times of each trip too, and every stop time refers to a stop

// infinity plus anything is infinity or not a number
axiom InfAdd := forall c: float64, x: float64 :: {math("Inf", 1) + c < x} !(math("Inf", 1) + c < x)

ufun havE(float64, float64, float64, float64): float64
func processors.haversine
  pure havE
  ensures let r := fconst("0.017453292519943295769236907684886127134428718885417254560") ::
     let sa := math("Sin", (latB * r - latA * r) / 2) :: let so := math("Sin", (lonB * r - lonA * r) / 2) ::
     let a := sa * sa + math("Cos", latA * r) * math("Cos", latB * r) * so * so ::
     result == 2 * math("Atan2", math("Sqrt", a), math("Sqrt", 1 - a)) * 6378137

// the point of the segment from a to b closest to p, and which fraction of the segment lies before it
fun Dd(ax: float64, ay: float64, bx: float64, by: float64) := math("Sqrt", (bx - ax) * (bx - ax) + (by - ay) * (by - ay))
fun TT(px: float64, py: float64, ax: float64, ay: float64, bx: float64, by: float64) := ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / (Dd(ax, ay, bx, by) * Dd(ax, ay, bx, by))
ufun SnX(float64, float64, float64, float64, float64, float64): float64
ufun SnY(float64, float64, float64, float64, float64, float64): float64
ufun SnP(float64, float64, float64, float64, float64, float64): float64
axiom SnXDef := forall px: float64, py: float64, ax: float64, ay: float64, bx: float64, by: float64 :: {SnX(px, py, ax, ay, bx, by)}
  SnX(px, py, ax, ay, bx, by) == (let d := Dd(ax, ay, bx, by) :: let t := TT(px, py, ax, ay, bx, by) :: if feq(d * d, 0) then ax else if t < 0 then ax else if t > 1 then bx else ax + t * (bx - ax))
axiom SnYDef := forall px: float64, py: float64, ax: float64, ay: float64, bx: float64, by: float64 :: {SnY(px, py, ax, ay, bx, by)}
  SnY(px, py, ax, ay, bx, by) == (let d := Dd(ax, ay, bx, by) :: let t := TT(px, py, ax, ay, bx, by) :: if feq(d * d, 0) then ay else if t < 0 then ay else if t > 1 then by else ay + t * (by - ay))
axiom SnPDef := forall px: float64, py: float64, ax: float64, ay: float64, bx: float64, by: float64 :: {SnP(px, py, ax, ay, bx, by)}
  SnP(px, py, ax, ay, bx, by) == (let d := Dd(ax, ay, bx, by) :: let t := TT(px, py, ax, ay, bx, by) :: if feq(d * d, 0) then float64(0) else if t < 0 then float64(0) else if t > 1 then float64(1) else t)

func processors.snapToWithProgr
  modifies nothing
  ensures result0 == SnX(px, py, lax, lay, lbx, lby)
  ensures result1 == SnY(px, py, lax, lay, lbx, lby)
  ensures result2 == SnP(px, py, lax, lay, lbx, lby)

fun PLat(p: gtfs.ShapePoint) := float64(p.Lat)
fun PLon(p: gtfs.ShapePoint) := float64(p.Lon)
fun DT(p: gtfs.ShapePoint) := p.Dist_traveled
// of the position at lat, lon on the segment after point s: its fraction, and how far away it is
fun Pr(r: fn[int, gtfs.ShapePoint], s: int, lat: float32, lon: float32) := SnP(float64(lon), float64(lat), PLon(r[s]), PLat(r[s]), PLon(r[s + 1]), PLat(r[s + 1]))
fun Away(r: fn[int, gtfs.ShapePoint], s: int, lat: float32, lon: float32) := havE(float64(lat), float64(lon), SnY(float64(lon), float64(lat), PLon(r[s]), PLat(r[s]), PLon(r[s + 1]), PLat(r[s + 1])), SnX(float64(lon), float64(lat), PLon(r[s]), PLat(r[s]), PLon(r[s + 1]), PLat(r[s + 1])))
pred CandOK(c: processors.SegPair, r: fn[int, gtfs.ShapePoint], n: int, lat: float32, lon: float32) := 0 <= c.Seg && c.Seg + 1 < n && c.Progr == Pr(r, c.Seg, lat, lon) && c.Dist == Away(r, c.Seg, lat, lon) && Away(r, c.Seg, lat, lon) <= 250

pred InRange(r: fn[int, uint64], n: int, m: int) := forall i: int :: {r[i]} 0 <= i && i < n ==> 0 <= r[i] && r[i] + 1 < m

func processors.intersect
  nosafety
  requires off(a) == 0 && off(b) == 0
  modifies nothing
  ensures off(result) == 0
  ensures forall k: int :: {row(result)[k]} 0 <= k && k < len(result) ==> (exists i: int :: {row(a)[i]} 0 <= i && i < len(a) && row(a)[i] == row(result)[k])
  ensures forall k: int :: {row(result)[k]} 0 <= k && k < len(result) ==> (exists i: int :: {row(b)[i]} 0 <= i && i < len(b) && row(b)[i] == row(result)[k])
  loop 1
    invariant 0 <= i && 0 <= j && off(ret) == 0 && fresh(ret)
    invariant forall k: int :: {row(ret)[k]} 0 <= k && k < len(ret) ==> (exists i: int :: {row(a)[i]} 0 <= i && i < len(a) && row(a)[i] == row(ret)[k])
    invariant forall k: int :: {row(ret)[k]} 0 <= k && k < len(ret) ==> (exists i: int :: {row(b)[i]} 0 <= i && i < len(b) && row(b)[i] == row(ret)[k])

func processors.StopTimeRemeasurer.getCands
  hide SnXDef
  hide SnYDef
  hide SnPDef
  requires s != nil && shp != nil && off(shp.Points) == 0 && len(shp.Points) < 2147483648
  requires off(s.segmentsLat[shp]) == 0 && InRange(row(s.segmentsLat[shp]), len(s.segmentsLat[shp]), len(shp.Points))
  requires off(s.segmentsLon[shp]) == 0 && InRange(row(s.segmentsLon[shp]), len(s.segmentsLon[shp]), len(shp.Points))
  modifies nothing
  ensures off(result) == 0 && fresh(result) && allocated(arr(result))
  ensures forall k: int :: {row(result)[k]} 0 <= k && k < len(result) ==> CandOK(row(result)[k], row(shp.Points), len(shp.Points), lat, lon)
  loop 1
    invariant arr(searchSegsLat) != arr(searchSegsLon) && allocated(arr(searchSegsLon))
    invariant off(searchSegsLat) == 0 && allocated(arr(searchSegsLat)) && fresh(searchSegsLat) && latStart <= i && InRange(row(searchSegsLat), len(searchSegsLat), len(shp.Points))
  loop 2
    invariant arr(searchSegsLat) != arr(searchSegsLon) && allocated(arr(searchSegsLat))
    invariant InRange(row(searchSegsLat), len(searchSegsLat), len(shp.Points))
    invariant off(searchSegsLon) == 0 && allocated(arr(searchSegsLon)) && fresh(searchSegsLon) && lonStart <= i && InRange(row(searchSegsLon), len(searchSegsLon), len(shp.Points))
  loop 3
    assert arr(searchSegsLat) != arr(searchSegsLon)
    assert InRange(row(searchSegsLat), len(searchSegsLat), len(shp.Points))
    assert InRange(row(searchSegsLon), len(searchSegsLon), len(shp.Points))
    assert InRange(row(searchSegs), len(searchSegs), len(shp.Points))
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret))
    invariant forall k: int :: {row(ret)[k]} 0 <= k && k < len(ret) ==> CandOK(row(ret)[k], row(shp.Points), len(shp.Points), lat, lon)

// the stop event a is b, placed on the segment after point s
pred SameEvt(a: gtfs.StopTime, b: gtfs.StopTime) := a.arrival_time == b.arrival_time && a.departure_time == b.departure_time && a.sequence == b.sequence && a.headsign == b.headsign && a.pudo == b.pudo && a.stop == b.stop
fun StD(a: gtfs.StopTime) := a.shape_dist_traveled
fun StS(a: gtfs.StopTime) := a.stop
fun SLat(a: gtfs.StopTime) := a.stop.Lat
fun SLon(a: gtfs.StopTime) := a.stop.Lon
pred AtD(d: float32, la: float32, lo: float32, r: fn[int, gtfs.ShapePoint], n: int, s: int) := 0 <= s && s + 1 < n && Away(r, s, la, lo) <= 250
  && d == DT(r[s]) + float32(float64(DT(r[s + 1]) - DT(r[s])) * Pr(r, s, la, lo))
pred At(a: gtfs.StopTime, r: fn[int, gtfs.ShapePoint], n: int, s: int) := AtD(StD(a), SLat(a), SLon(a), r, n, s)
// on the segment after s at one position lies not behind another on the segment after u
pred Before(la: float32, lo: float32, s: int, lb: float32, mb: float32, u: int, r: fn[int, gtfs.ShapePoint]) := s < u || s == u && !(Pr(r, s, la, lo) > Pr(r, u, lb, mb))
// OnD: on some segment; NextD: the one on some segment, the other on another, not before it. These and Rem are least fixed by their
// axioms: what is proved for all relations satisfying them holds for the least ones, which are meant.
ufun OnD(float32, float32, float32, fn[int, gtfs.ShapePoint], int): bool
axiom OnDef := forall d: float32, la: float32, lo: float32, r: fn[int, gtfs.ShapePoint], n: int, s: int :: {OnD(d, la, lo, r, n), r[s]} AtD(d, la, lo, r, n, s) ==> OnD(d, la, lo, r, n)
ufun NextD(float32, float32, float32, float32, float32, float32, fn[int, gtfs.ShapePoint], int): bool
axiom NextDef := forall d: float32, la: float32, lo: float32, e: float32, lb: float32, mb: float32, r: fn[int, gtfs.ShapePoint], n: int, s: int, u: int :: {NextD(d, la, lo, e, lb, mb, r, n), r[s], r[u]}
  AtD(d, la, lo, r, n, s) && AtD(e, lb, mb, r, n, u) && Before(la, lo, s, lb, mb, u, r) ==> NextD(d, la, lo, e, lb, mb, r, n)
pred On(a: gtfs.StopTime, r: fn[int, gtfs.ShapePoint], n: int) := OnD(StD(a), SLat(a), SLon(a), r, n)
pred Next(a: gtfs.StopTime, b: gtfs.StopTime, r: fn[int, gtfs.ShapePoint], n: int) := NextD(StD(a), SLat(a), SLon(a), StD(b), SLat(b), SLon(b), r, n)
// s is the remeasured o; la and lo are the stops' positions
ufun Rem(fn[int, gtfs.StopTime], int, fn[int, gtfs.StopTime], fn[int, gtfs.ShapePoint], int, fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32]): bool
axiom RemDef := forall o: fn[int, gtfs.StopTime], n: int, s: fn[int, gtfs.StopTime], r: fn[int, gtfs.ShapePoint], m: int, la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32] :: {Rem(o, n, s, r, m, la, lo)}
  ((forall i: int :: {s[i]} 0 <= i && i < n ==> SameEvt(s[i], o[i]) && OnD(StD(s[i]), la[StS(s[i])], lo[StS(s[i])], r, m))
   && (forall i: int, j: int :: {s[i], s[j]} 0 <= i && j == i + 1 && j < n ==> NextD(StD(s[i]), la[StS(s[i])], lo[StS(s[i])], StD(s[j]), la[StS(s[j])], lo[StS(s[j])], r, m))) ==> Rem(o, n, s, r, m, la, lo)

fun CSeg(c: processors.SegPair) := c.Seg
pred Adj(a: processors.SegPair, b: processors.SegPair) := !(a.Seg > b.Seg || a.Seg == b.Seg && a.Progr > b.Progr)
pred SegOK(l: []uint64, s: *gtfs.Shape) := off(l) == 0 && InRange(row(l), len(l), len(s.Points))

func processors.StopTimeRemeasurer.remeasure
  hide SnXDef
  hide SnYDef
  hide SnPDef
  requires s != nil && trip != nil && trip.Shape != nil && off(trip.Shape.Points) == 0 && len(trip.Shape.Points) < 2147483648
  requires off(trip.StopTimes) == 0 && len(trip.StopTimes) > 0
  requires forall i: int :: {row(trip.StopTimes)[i]} 0 <= i && i < len(trip.StopTimes) ==> row(trip.StopTimes)[i].stop != nil
  requires SegOK(s.segmentsLat[trip.Shape], trip.Shape) && SegOK(s.segmentsLon[trip.Shape], trip.Shape)
  modifies []gtfs.StopTime at arr(trip.StopTimes)
  ensures forall i: int :: {row(trip.StopTimes)[i]} 0 <= i && i < len(trip.StopTimes) ==> row(trip.StopTimes)[i].stop != nil
  ensures !result ==> row(trip.StopTimes) == old(row(trip.StopTimes))
  ensures result ==> Rem(old(row(trip.StopTimes)), len(trip.StopTimes), row(trip.StopTimes), row(trip.Shape.Points), len(trip.Shape.Points), fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon))
  loop 1
    modifies []processors.SegPair any
    modifies [][]processors.SegPair any
    invariant off(cands) == 0 && len(cands) == len(trip.StopTimes) && fresh(cands)
    invariant forall i: int :: {row(cands)[i]} 0 <= i && i < $i ==> off(row(cands)[i]) == 0 && len(row(cands)[i]) > 0 && fresh(row(cands)[i]) && allocated(arr(row(cands)[i]))
    invariant forall i: int, k: int :: {row(row(cands)[i])[k]} 0 <= i && i < $i && 0 <= k && k < len(row(cands)[i]) ==> CandOK(row(row(cands)[i])[k], row(trip.Shape.Points), len(trip.Shape.Points), SLat(row(trip.StopTimes)[i]), SLon(row(trip.StopTimes)[i]))
  loop 2
    modifies [][]int any
    modifies [][]float64 any
    modifies []int any
    modifies []float64 any
    invariant off(prede) == 0 && off(dist) == 0 && len(prede) == len(trip.StopTimes) + 1 && len(dist) == len(trip.StopTimes) + 1 && fresh(prede) && fresh(dist)
    invariant forall i: int :: {row(prede)[i]} {row(dist)[i]} 0 <= i && i < $i ==> off(row(prede)[i]) == 0 && off(row(dist)[i]) == 0 && fresh(row(prede)[i]) && fresh(row(dist)[i]) && allocated(arr(row(prede)[i])) && allocated(arr(row(dist)[i])) && len(row(prede)[i]) == len(row(cands)[i]) && len(row(dist)[i]) == len(row(cands)[i])
    invariant forall i: int, e: int :: {row(prede)[i], row(prede)[e]} 0 <= i && i < e && e < $i ==> arr(row(prede)[i]) != arr(row(prede)[e])
    invariant forall i: int, e: int :: {row(dist)[i], row(dist)[e]} 0 <= i && i < e && e < $i ==> arr(row(dist)[i]) != arr(row(dist)[e])
    invariant forall i: int, k: int :: {row(row(prede)[i])[k]} {row(row(dist)[i])[k]} 0 <= i && i < $i && 0 <= k && k < len(row(dist)[i]) ==> row(row(prede)[i])[k] == -1 && row(row(dist)[i])[k] == math("Inf", 1)
  loop 3
    modifies []int any
    modifies []float64 any
    invariant forall i: int :: {row(prede)[i]} 0 <= i && i < len(prede) && i != $i2 ==> row(row(prede)[i]) == atpre(row(row(prede)[i]))
    invariant forall i: int :: {row(dist)[i]} 0 <= i && i < len(dist) && i != $i2 ==> row(row(dist)[i]) == atpre(row(row(dist)[i]))
    invariant forall k: int :: {row(row(prede)[$i2])[k]} {row(row(dist)[$i2])[k]} 0 <= k && k < $i ==> row(row(prede)[$i2])[k] == -1 && row(row(dist)[$i2])[k] == math("Inf", 1)
  loop 4
    assert forall i: int :: {row(prede)[i]} {row(dist)[i]} 0 <= i && i < len(trip.StopTimes) ==> off(row(prede)[i]) == 0 && off(row(dist)[i]) == 0 && fresh(row(prede)[i]) && fresh(row(dist)[i]) && len(row(prede)[i]) == len(row(dist)[i]) && len(row(prede)[i]) == (if i < len(trip.StopTimes) then len(row(cands)[i]) else 1)
    assert forall i: int, e: int :: {row(prede)[i], row(prede)[e]} 0 <= i && i < e && e < len(trip.StopTimes) ==> arr(row(prede)[i]) != arr(row(prede)[e])
    assert forall i: int, e: int :: {row(dist)[i], row(dist)[e]} 0 <= i && i < e && e < len(trip.StopTimes) ==> arr(row(dist)[i]) != arr(row(dist)[e])
    modifies []int at arr(row(prede)[0])
    modifies []float64 at arr(row(dist)[0])
    invariant forall i: int :: {row(prede)[i]} 0 <= i && i < len(trip.StopTimes) && i != 0 ==> row(row(prede)[i]) == atpre(row(row(prede)[i]))
    invariant forall i: int :: {row(dist)[i]} 0 <= i && i < len(trip.StopTimes) && i != 0 ==> row(row(dist)[i]) == atpre(row(row(dist)[i]))
    invariant forall k: int :: {row(row(prede)[0])[k]} {row(row(dist)[0])[k]} 0 <= k && k < len(row(dist)[0]) ==> (if k < $i then row(row(prede)[0])[k] == 0 else row(row(prede)[0])[k] == -1 && row(row(dist)[0])[k] == math("Inf", 1))
  loop 5
    assert forall i: int :: {row(prede)[i]} {row(dist)[i]} 0 <= i && i < len(prede) ==> off(row(prede)[i]) == 0 && off(row(dist)[i]) == 0 && fresh(row(prede)[i]) && fresh(row(dist)[i]) && len(row(prede)[i]) == len(row(dist)[i]) && len(row(prede)[i]) == (if i < len(trip.StopTimes) then len(row(cands)[i]) else 1)
    assert forall i: int, e: int :: {row(prede)[i], row(prede)[e]} 0 <= i && i < e && e < len(prede) ==> arr(row(prede)[i]) != arr(row(prede)[e])
    assert forall i: int, e: int :: {row(dist)[i], row(dist)[e]} 0 <= i && i < e && e < len(dist) ==> arr(row(dist)[i]) != arr(row(dist)[e])
    modifies []int any
    modifies []float64 any
    invariant forall k: int :: {row(row(prede)[0])[k]} {row(row(dist)[0])[k]} 0 <= k && k < len(row(prede)[0]) ==> row(row(prede)[0])[k] >= 0
    invariant forall i: int, k: int :: {row(row(prede)[i])[k]} {row(row(dist)[i])[k]} 1 <= i && i <= $i && 0 <= k && k < len(row(prede)[i]) ==> (row(row(prede)[i])[k] == -1 && row(row(dist)[i])[k] == math("Inf", 1) || (let p := row(row(prede)[i])[k] :: 0 <= p && p < len(row(cands)[i - 1]) && row(row(prede)[i - 1])[p] >= 0 && (i < len(trip.StopTimes) ==> Adj(row(row(cands)[i - 1])[p], row(row(cands)[i])[k]))))
    invariant forall i: int, k: int :: {row(row(prede)[i])[k]} {row(row(dist)[i])[k]} $i < i && i <= len(trip.StopTimes) && 0 <= k && k < len(row(prede)[i]) ==> row(row(prede)[i])[k] == -1 && row(row(dist)[i])[k] == math("Inf", 1)
  loop 6
    modifies []int any
    modifies []float64 any
    invariant forall i: int :: {row(prede)[i]} 0 <= i && i < len(prede) && i != $i5 + 1 ==> row(row(prede)[i]) == atpre(row(row(prede)[i]))
    invariant forall i: int :: {row(dist)[i]} 0 <= i && i < len(dist) && i != $i5 + 1 ==> row(row(dist)[i]) == atpre(row(row(dist)[i]))
    invariant forall k: int :: {row(row(prede)[$i5 + 1])[k]} {row(row(dist)[$i5 + 1])[k]} 0 <= k && k < len(row(prede)[$i5 + 1]) ==> (row(row(prede)[$i5 + 1])[k] == -1 && row(row(dist)[$i5 + 1])[k] == math("Inf", 1) || (let p := row(row(prede)[$i5 + 1])[k] :: 0 <= p && p < len(row(cands)[$i5 + 1 - 1]) && row(row(prede)[$i5 + 1 - 1])[p] >= 0 && ($i5 + 1 < len(trip.StopTimes) ==> Adj(row(row(cands)[$i5 + 1 - 1])[p], row(row(cands)[$i5 + 1])[k]))))
  loop 7
    modifies []int any
    modifies []float64 any
    invariant forall i: int :: {row(prede)[i]} 0 <= i && i < len(prede) && i != $i5 + 1 ==> row(row(prede)[i]) == atpre(row(row(prede)[i]))
    invariant forall i: int :: {row(dist)[i]} 0 <= i && i < len(dist) && i != $i5 + 1 ==> row(row(dist)[i]) == atpre(row(row(dist)[i]))
    invariant forall k: int :: {row(row(prede)[$i5 + 1])[k]} {row(row(dist)[$i5 + 1])[k]} 0 <= k && k < len(row(prede)[$i5 + 1]) ==> (row(row(prede)[$i5 + 1])[k] == -1 && row(row(dist)[$i5 + 1])[k] == math("Inf", 1) || (let p := row(row(prede)[$i5 + 1])[k] :: 0 <= p && p < len(row(cands)[$i5 + 1 - 1]) && row(row(prede)[$i5 + 1 - 1])[p] >= 0 && ($i5 + 1 < len(trip.StopTimes) ==> Adj(row(row(cands)[$i5 + 1 - 1])[p], row(row(cands)[$i5 + 1])[k]))))
  loop 8
    modifies []gtfs.StopTime at arr(trip.StopTimes)
    invariant -1 <= i && i < len(trip.StopTimes) && 0 <= last && last < len(row(prede)[i + 1]) && row(row(prede)[i + 1])[last] >= 0
    invariant forall j: int :: {row(trip.StopTimes)[j]} j <= i || j >= len(trip.StopTimes) ==> row(trip.StopTimes)[j] == atpre(row(trip.StopTimes)[j])
    invariant forall j: int :: {row(trip.StopTimes)[j]} i < j && j < len(trip.StopTimes) ==> SameEvt(row(trip.StopTimes)[j], atpre(row(trip.StopTimes)[j]))
    step row(trip.StopTimes)[i + 1].stop == atpre(row(trip.StopTimes)[i + 1].stop)
    step let c := CSeg(row(row(cands)[i + 1])[last]) :: At(row(trip.StopTimes)[i + 1], row(trip.Shape.Points), len(trip.Shape.Points), c)
    step let c := CSeg(row(row(cands)[i + 1])[last]) :: let r := row(trip.Shape.Points) :: DT(r[c]) == DT(r[c]) && On(row(trip.StopTimes)[i + 1], row(trip.Shape.Points), len(trip.Shape.Points))
    step i + 2 < len(trip.StopTimes) ==> row(trip.StopTimes)[i + 2] == athead(row(trip.StopTimes)[i + 1])
    step i + 2 < len(trip.StopTimes) ==> (let u := CSeg(row(row(cands)[i + 2])[athead(last)]) :: At(row(trip.StopTimes)[i + 2], row(trip.Shape.Points), len(trip.Shape.Points), u))
    step i + 2 < len(trip.StopTimes) ==> (let c := CSeg(row(row(cands)[i + 1])[last]) :: let u := CSeg(row(row(cands)[i + 2])[athead(last)]) :: Before(SLat(row(trip.StopTimes)[i + 1]), SLon(row(trip.StopTimes)[i + 1]), c, SLat(row(trip.StopTimes)[i + 2]), SLon(row(trip.StopTimes)[i + 2]), u, row(trip.Shape.Points)))
    step i + 2 < len(trip.StopTimes) ==> Next(row(trip.StopTimes)[i + 1], row(trip.StopTimes)[i + 2], row(trip.Shape.Points), len(trip.Shape.Points))
    step forall j: int :: {row(trip.StopTimes)[j]} i + 1 < j && j < len(trip.StopTimes) ==> row(trip.StopTimes)[j] == athead(row(trip.StopTimes)[j])
    invariant i + 1 < len(trip.StopTimes) ==> (let c := CSeg(row(row(cands)[i + 1])[last]) :: At(row(trip.StopTimes)[i + 1], row(trip.Shape.Points), len(trip.Shape.Points), c))
    invariant forall j: int :: {row(trip.StopTimes)[j]} i < j && j < len(trip.StopTimes) ==> On(row(trip.StopTimes)[j], row(trip.Shape.Points), len(trip.Shape.Points))
    invariant forall j: int, l: int :: {row(trip.StopTimes)[j], row(trip.StopTimes)[l]} i < j && l == j + 1 && l < len(trip.StopTimes) ==> Next(row(trip.StopTimes)[j], row(trip.StopTimes)[l], row(trip.Shape.Points), len(trip.Shape.Points))

pred SegsOK(s: processors.StopTimeRemeasurer, f: *gtfsparser.Feed) := forall k: string :: {f.Shapes[k]} k in f.Shapes ==> SegOK(s.segmentsLat[f.Shapes[k]], f.Shapes[k]) && SegOK(s.segmentsLon[f.Shapes[k]], f.Shapes[k])
// the lists of two shapes, and the two of a shape, are different
pred Apart(a: map[*gtfs.Shape][]uint64, b: map[*gtfs.Shape][]uint64) := a != b && (forall x: *gtfs.Shape, y: *gtfs.Shape :: {a[x], a[y]} x in a && y in a && x != y ==> arr(a[x]) != arr(a[y]))
  && (forall x: *gtfs.Shape, y: *gtfs.Shape :: {b[x], b[y]} x in b && y in b && x != y ==> arr(b[x]) != arr(b[y]))
  && (forall x: *gtfs.Shape, y: *gtfs.Shape :: {a[x], b[y]} x in a && y in b ==> arr(a[x]) != arr(b[y]))
pred SegOK2(l: []uint64, s: *gtfs.Shape) := off(l) == 0 && InRange(row(l), len(l), len(s.Points)) && allocated(arr(l)) && fresh(l)

func processors.StopTimeRemeasurer.buildAllSegments
  requires s != nil && feed != nil
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && len(feed.Shapes[k].Points) > 0
  modifies processors.StopTimeRemeasurer.segmentsLat at s
  modifies processors.StopTimeRemeasurer.segmentsLon at s
  modifies processors.StopTimeRemeasurer.latMaxLengths at s
  modifies processors.StopTimeRemeasurer.lonMaxLengths at s
  ensures forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> SegOK(s.segmentsLat[feed.Shapes[k]], feed.Shapes[k]) && SegOK(s.segmentsLon[feed.Shapes[k]], feed.Shapes[k])
  loop 1
    modifies map[*gtfs.Shape][]uint64 any
    modifies map[*gtfs.Shape]float32 any
    modifies []uint64 any
    modifies []*gtfs.Shape any
    modifies [][]*gtfs.Shape any
    invariant Apart(s.segmentsLat, s.segmentsLon)
    invariant forall x: *gtfs.Shape :: {s.segmentsLat[x]} x in s.segmentsLat ==> SegOK2(s.segmentsLat[x], x)
    invariant forall x: *gtfs.Shape :: {s.segmentsLon[x]} x in s.segmentsLon ==> SegOK2(s.segmentsLon[x], x)
    invariant forall k: string :: {feed.Shapes[k]} visited(k) ==> feed.Shapes[k] in s.segmentsLat && feed.Shapes[k] in s.segmentsLon
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant local 0 <= $i && $i <= len(feed.Shapes) && chunksize >= 0
    invariant local len(feed.Shapes) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && fresh(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant local forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != nil
  loop 2
    modifies map[*gtfs.Shape]float32 any
    modifies []uint64 any
    invariant 0 <= i
    invariant Apart(s.segmentsLat, s.segmentsLon)
    invariant forall x: *gtfs.Shape :: {s.segmentsLat[x]} x in s.segmentsLat ==> SegOK2(s.segmentsLat[x], x)
    invariant forall x: *gtfs.Shape :: {s.segmentsLon[x]} x in s.segmentsLon ==> SegOK2(s.segmentsLon[x], x)
  loop 3
    modifies []uint64 any
    invariant Apart(s.segmentsLat, s.segmentsLon)
    invariant forall x: *gtfs.Shape :: {s.segmentsLat[x]} x in s.segmentsLat ==> SegOK2(s.segmentsLat[x], x)
    invariant forall x: *gtfs.Shape :: {s.segmentsLon[x]} x in s.segmentsLon ==> SegOK2(s.segmentsLon[x], x)
  loop 4
    modifies []uint64 any
    invariant Apart(s.segmentsLat, s.segmentsLon)
    invariant forall x: *gtfs.Shape :: {s.segmentsLat[x]} x in s.segmentsLat ==> SegOK2(s.segmentsLat[x], x)
    invariant forall x: *gtfs.Shape :: {s.segmentsLon[x]} x in s.segmentsLon ==> SegOK2(s.segmentsLon[x], x)

pred RegTrip(f: *gtfsparser.Feed, t: *gtfs.Trip) := t != nil && t.Id in f.Trips && f.Trips[t.Id] == t
pred Own(f: *gtfsparser.Feed) := forall k: string, l: string :: {f.Trips[k], f.Trips[l]} k in f.Trips && l in f.Trips && k != l && len(f.Trips[k].StopTimes) > 0 && len(f.Trips[l].StopTimes) > 0 ==> arr(f.Trips[k].StopTimes) != arr(f.Trips[l].StopTimes)
// the trip has a shape and a stop time without distance
ufun Unmeas(fn[int, gtfs.StopTime], int): bool
axiom UnmeasDef := forall r: fn[int, gtfs.StopTime], n: int, i: int :: {Unmeas(r, n), r[i]} 0 <= i && i < n && isnan(float64(StD(r[i]))) ==> Unmeas(r, n)
// (there may be other lists of which it is true: what is proved holds in particular if there are none)
pred Need(t: *gtfs.Trip) := t.Shape != nil && Unmeas(old(row(t.StopTimes)), len(t.StopTimes))
pred SameR(t: *gtfs.Trip) := row(t.StopTimes) == old(row(t.StopTimes))
pred DoneT(t: *gtfs.Trip) := SameR(t) || Need(t) && Rem(old(row(t.StopTimes)), len(t.StopTimes), row(t.StopTimes), row(t.Shape.Points), len(t.Shape.Points), fieldmap(gtfs.Stop.Lat), fieldmap(gtfs.Stop.Lon))
pred TripOK(f: *gtfsparser.Feed, t: *gtfs.Trip) := RegTrip(f, t) && len(t.StopTimes) > 0 && Need(t)

func processors.StopTimeRemeasurer.Run
  hide RemDef
  hide SnXDef
  hide SnYDef
  hide SnPDef
  requires feed != nil
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k && off(feed.Shapes[k].Points) == 0 && len(feed.Shapes[k].Points) > 0 && len(feed.Shapes[k].Points) < 2147483648
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k && off(feed.Trips[k].StopTimes) == 0 && cap(feed.Trips[k].StopTimes) >= len(feed.Trips[k].StopTimes)
     && (let sh := feed.Trips[k].Shape :: sh != nil ==> sh.Id in feed.Shapes && feed.Shapes[sh.Id] == sh)
  requires forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop != nil
  requires Own(feed)
  // nothing but stop times changes
  modifies []gtfs.StopTime any
  // they stay, or are all placed on the shape if the trip has one and not all are measured
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 ==> DoneT(feed.Trips[k])
  loop 1
    invariant off(fixTrips) == 0 && fresh(fixTrips)
    invariant forall i: int :: {row(fixTrips)[i]} 0 <= i && i < len(fixTrips) ==> TripOK(feed, row(fixTrips)[i]) && visited(row(fixTrips)[i].Id)
    invariant forall i: int, j: int :: {row(fixTrips)[i], row(fixTrips)[j]} 0 <= i && i < j && j < len(fixTrips) ==> row(fixTrips)[i] != row(fixTrips)[j]
  loop 2
    modifies nothing
    invariant true
  loop 3
    modifies [][]*gtfs.Trip at arr(chunks)
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant local 0 <= $i && $i <= len(fixTrips) && chunksize >= 0
    invariant local len(fixTrips) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && freshloop(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> TripOK(feed, row(row(chunks)[c])[i])
    invariant local forall c: int, i: int, j: int :: {row(row(chunks)[c])[i], row(fixTrips)[j]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && $i <= j && j < len(fixTrips) ==> row(row(chunks)[c])[i] != row(fixTrips)[j]
    invariant forall c: int, i: int, e: int, j: int :: {row(row(chunks)[c])[i], row(row(chunks)[e])[j]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && 0 <= e && e < len(chunks) && 0 <= j && j < len(row(chunks)[e]) && (c != e || i != j) ==> row(row(chunks)[c])[i] != row(row(chunks)[e])[j]
  loop 4
    modifies []gtfs.StopTime any
    modifies []int any
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 ==> DoneT(feed.Trips[k])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} $i <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameR(row(row(chunks)[c])[i])
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop != nil
  loop 5
    modifies []gtfs.StopTime any
    modifies []int any
    step forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != trip ==> arr(row(row(chunks)[c])[i].StopTimes) != arr(trip.StopTimes)
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 && feed.Trips[k] != trip ==> arr(feed.Trips[k].StopTimes) != arr(trip.StopTimes)
    step forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && c != $i4 && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != trip
    step forall i: int :: {row(chunk)[i]} 0 <= i && i < len(chunk) && i != $i - 1 ==> row(chunk)[i] != trip
    step DoneT(trip)
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && len(feed.Trips[k].StopTimes) > 0 ==> DoneT(feed.Trips[k])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} $i4 < c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameR(row(row(chunks)[c])[i])
    invariant forall i: int :: {row(chunk)[i]} $i <= i && i < len(chunk) ==> SameR(row(chunk)[i])
    invariant forall k: string, i: int :: {row(feed.Trips[k].StopTimes)[i]} k in feed.Trips && 0 <= i && i < len(feed.Trips[k].StopTimes) ==> row(feed.Trips[k].StopTimes)[i].stop != nil
  loop 6
    modifies nothing
    invariant true
  loop 7
    modifies nothing
    invariant true
