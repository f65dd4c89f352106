property C19 processors.StopParentAverager.Run
assumes the feed is as the parser delivers it: every stop is registered under its own ID

// sum of the positions of the first i stops of a list
ufun Sm(fn[*gtfs.Stop, float32], fn[int, *gtfs.Stop], int): float64
ufun SmStep(fn[*gtfs.Stop, float32], fn[int, *gtfs.Stop], int): bool
axiom SmDef := forall la: fn[*gtfs.Stop, float32], r: fn[int, *gtfs.Stop], i: int :: {SmStep(la, r, i)} SmStep(la, r, i) && Sm(la, r, 0) == float64(0) && (i >= 0 ==> Sm(la, r, i + 1) == Sm(la, r, i) + float64(la[r[i]]))
fun Mean(la: fn[*gtfs.Stop, float32], r: fn[int, *gtfs.Stop], n: int) := Sm(la, r, n) / float64(n)
fun Hav(la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], p: *gtfs.Stop, c: *gtfs.Stop) := havApproxE(float64(la[p]), float64(lo[p]), float64(la[c]), float64(lo[c]))

// c is a registered child of p
pred Kid(f: *gtfsparser.Feed, p: *gtfs.Stop, c: *gtfs.Stop) := p != nil && c != nil && c.Id in f.Stops && f.Stops[c.Id] == c && c.Parent_station == p
pred NoNest(f: *gtfsparser.Feed, p: *gtfs.Stop) := forall k: string, l: string :: {f.Stops[k], f.Stops[l]} k in f.Stops && l in f.Stops && f.Stops[k].Parent_station == p ==> f.Stops[l].Parent_station != f.Stops[k]
// r lists the children of p
ufun Mark(fn[int, *gtfs.Stop], int): bool
axiom MarkDef := forall r: fn[int, *gtfs.Stop], n: int :: {Mark(r, n)} Mark(r, n)
pred Kids(f: *gtfsparser.Feed, p: *gtfs.Stop, r: fn[int, *gtfs.Stop], n: int) := n >= 0 && (forall i: int :: {r[i]} 0 <= i && i < n ==> Kid(f, p, r[i]))
  && (forall i: int, j: int :: {r[i], r[j]} 0 <= i && i < j && j < n ==> r[i] != r[j])
pred AllKids(f: *gtfsparser.Feed, p: *gtfs.Stop, r: fn[int, *gtfs.Stop], n: int) := Kids(f, p, r, n)
  && (forall k: string :: {f.Stops[k]} k in f.Stops && f.Stops[k].Parent_station == p ==> (exists i: int :: {r[i]} 0 <= i && i < n && r[i] == f.Stops[k]))
// p is too far from one of its children, and all of them are close to their mean
pred Moves(la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], p: *gtfs.Stop, r: fn[int, *gtfs.Stop], n: int, m: float64) := (exists i: int :: {r[i]} 0 <= i && i < n && Hav(la, lo, p, r[i]) >= m)
  && (forall i: int :: {r[i]} 0 <= i && i < n ==> !(havApproxE(float64(la[r[i]]), float64(lo[r[i]]), Mean(la, r, n), Mean(lo, r, n)) >= m))
ufun MovesE(fn[*gtfs.Stop, float32], fn[*gtfs.Stop, float32], *gtfs.Stop, fn[int, *gtfs.Stop], int, float64): bool
axiom MovesDef := forall la: fn[*gtfs.Stop, float32], lo: fn[*gtfs.Stop, float32], p: *gtfs.Stop, r: fn[int, *gtfs.Stop], n: int, m: float64 :: {MovesE(la, lo, p, r, n, m)} MovesE(la, lo, p, r, n, m) == Moves(la, lo, p, r, n, m)
pred Stays(p: *gtfs.Stop) := p.Lat == old(p.Lat) && p.Lon == old(p.Lon)
pred Moved(p: *gtfs.Stop, r: fn[int, *gtfs.Stop], n: int, m: float64) := if MovesE(old(fieldmap(gtfs.Stop.Lat)), old(fieldmap(gtfs.Stop.Lon)), p, r, n, m)
   then p.Lat == float32(Mean(old(fieldmap(gtfs.Stop.Lat)), r, n)) && p.Lon == float32(Mean(old(fieldmap(gtfs.Stop.Lon)), r, n)) else Stays(p)

func processors.StopParentAverager.Run
  requires feed != nil && (forall k: string :: {feed.Stops[k]} k in feed.Stops ==> feed.Stops[k] != nil && feed.Stops[k].Id == k)
  // nothing but positions changes
  modifies gtfs.Stop.Lat any
  modifies gtfs.Stop.Lon any
  // only parents move
  ensures forall s: *gtfs.Stop :: {s.Lat} {s.Lon} (forall k: string :: {feed.Stops[k]} k in feed.Stops && s != nil ==> feed.Stops[k].Parent_station != s) ==> s == nil || Stays(s)
  // a parent is moved to the mean of its children exactly if it is too far from one of them and the mean is close to all
  ensures forall p: *gtfs.Stop :: {p.Lat} {p.Lon} p != nil && NoNest(feed, p) ==> (exists r: fn[int, *gtfs.Stop], n: int :: {Mark(r, n)} Mark(r, n) && AllKids(feed, p, r, n) && (if n == 0 then Stays(p) else Moved(p, r, n, sdr.MaxDist)))
  loop 1
    modifies map[*gtfs.Stop][]*gtfs.Stop any
    modifies []*gtfs.Stop where x: []*gtfs.Stop :: fresh(x)
    invariant parentChilds != nil && fresh(parentChilds)
    invariant forall p: *gtfs.Stop :: {parentChilds[p]} off(parentChilds[p]) == 0 && allocated(arr(parentChilds[p])) && (cap(parentChilds[p]) == 0 || fresh(parentChilds[p]))
    invariant forall p: *gtfs.Stop :: {p in parentChilds} p in parentChilds <==> len(parentChilds[p]) > 0
    invariant forall p: *gtfs.Stop, q: *gtfs.Stop :: {parentChilds[p], parentChilds[q]} p != q && cap(parentChilds[p]) > 0 && cap(parentChilds[q]) > 0 ==> arr(parentChilds[p]) != arr(parentChilds[q])
    invariant forall p: *gtfs.Stop, i: int :: {row(parentChilds[p])[i]} 0 <= i && i < len(parentChilds[p]) ==> Kid(feed, p, row(parentChilds[p])[i]) && visited(row(parentChilds[p])[i].Id)
    invariant forall p: *gtfs.Stop, i: int, j: int :: {row(parentChilds[p])[i], row(parentChilds[p])[j]} 0 <= i && i < j && j < len(parentChilds[p]) ==> row(parentChilds[p])[i] != row(parentChilds[p])[j]
    invariant forall k: string :: {feed.Stops[k]} visited(k) && feed.Stops[k].Parent_station != nil ==> (exists i: int :: {row(parentChilds[feed.Stops[k].Parent_station])[i]} 0 <= i && i < len(parentChilds[feed.Stops[k].Parent_station]) && row(parentChilds[feed.Stops[k].Parent_station])[i] == feed.Stops[k])
  loop 2
    modifies gtfs.Stop.Lat any
    modifies gtfs.Stop.Lon any
    invariant forall s: *gtfs.Stop :: {s.Lat} {s.Lon} !visited(s) ==> Stays(s)
    invariant forall p: *gtfs.Stop :: {parentChilds[p]} visited(p) && NoNest(feed, p) ==> Moved(p, row(parentChilds[p]), len(parentChilds[p]), sdr.MaxDist)
  loop 3
    modifies nothing
    assert SmStep(old(fieldmap(gtfs.Stop.Lat)), row(childs), 0) && SmStep(old(fieldmap(gtfs.Stop.Lon)), row(childs), 0)
    assert NoNest(feed, p) ==> (forall i: int :: {row(childs)[i]} 0 <= i && i < len(childs) ==> Stays(row(childs)[i]))
    step SmStep(old(fieldmap(gtfs.Stop.Lat)), row(childs), $i - 1) && SmStep(old(fieldmap(gtfs.Stop.Lon)), row(childs), $i - 1)
    invariant NoNest(feed, p) ==> avgLat == Sm(old(fieldmap(gtfs.Stop.Lat)), row(childs), $i) && avgLon == Sm(old(fieldmap(gtfs.Stop.Lon)), row(childs), $i)
    invariant NoNest(feed, p) ==> (tooLarge <==> (exists i: int :: {row(childs)[i]} 0 <= i && i < $i && Hav(old(fieldmap(gtfs.Stop.Lat)), old(fieldmap(gtfs.Stop.Lon)), p, row(childs)[i]) >= sdr.MaxDist))
  loop 4
    modifies nothing
    invariant NoNest(feed, p) ==> (allOkay <==> (forall i: int :: {row(childs)[i]} 0 <= i && i < $i ==> !(havApproxE(float64(old(fieldmap(gtfs.Stop.Lat))[row(childs)[i]]), float64(old(fieldmap(gtfs.Stop.Lon))[row(childs)[i]]), Mean(old(fieldmap(gtfs.Stop.Lat)), row(childs), len(childs)), Mean(old(fieldmap(gtfs.Stop.Lon)), row(childs), len(childs))) >= sdr.MaxDist)))
