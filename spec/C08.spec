property C08 processors.ShapeMinimizer.Run
assumes every shape's points start at the beginning of a slice of its own; the tolerance is not negative

axiom FltZero := !isnan(float64(0))

pred PtEq(p: gtfs.ShapePoint, q: gtfs.ShapePoint) := p.Lat == q.Lat && p.Lon == q.Lon && p.Dist_traveled == q.Dist_traveled

// distance of a point from the segment between two others, in the processor's projection
ufun SegD(gtfs.ShapePoint, gtfs.ShapePoint, gtfs.ShapePoint): float64
axiom SegDDef := forall p: gtfs.ShapePoint, a: gtfs.ShapePoint, b: gtfs.ShapePoint :: {SegD(p, a, b)}
  SegD(p, a, b) == SegDist(mercX(p.Lat, p.Lon), mercY(p.Lat, p.Lon), mercX(a.Lat, a.Lon), mercY(a.Lat, a.Lon), mercX(b.Lat, b.Lon), mercY(b.Lat, b.Lon))

// B[0..n-1] is the subsequence idx of A[lo..hi]; points dropped between two kept ones are within e
ufun DPW(fn[int, gtfs.ShapePoint], int, int, fn[int, gtfs.ShapePoint], int, fn[int, int], float64): bool
axiom DPWDef := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], n: int, ix: fn[int, int], e: float64 :: {DPW(a, lo, hi, b, n, ix, e)}
  DPW(a, lo, hi, b, n, ix, e) == (n >= 1 && ix[0] == lo && ix[n - 1] == hi
   && (forall i: int :: {ix[i]} {b[i]} 0 <= i && i < n ==> lo <= ix[i] && ix[i] <= hi && PtEq(b[i], a[ix[i]]))
   && (forall i: int :: {ix[i]} 0 <= i && i < n - 1 ==> ix[i] < ix[i + 1])
   && (forall i: int, j: int :: {ix[i], a[j]} 0 <= i && i < n - 1 && ix[i] < j && j < ix[i + 1] ==> !(e < SegD(a[j], a[ix[i]], a[ix[i + 1]]))))

ufun Simpl(fn[int, gtfs.ShapePoint], int, int, fn[int, gtfs.ShapePoint], int, float64): bool
axiom SimplDef := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], n: int, e: float64 :: {Simpl(a, lo, hi, b, n, e)}
  Simpl(a, lo, hi, b, n, e) == (exists ix: fn[int, int] :: {DPW(a, lo, hi, b, n, ix, e)} DPW(a, lo, hi, b, n, ix, e))

ufun two(int, int): fn[int, int]
axiom TwoDef := forall x: int, y: int :: {two(x, y)} two(x, y)[0] == x && two(x, y)[1] == y
ufun cat(fn[int, int], fn[int, int], int): fn[int, int]
axiom CatDef := forall a: fn[int, int], b: fn[int, int], k: int, i: int :: {cat(a, b, k)[i]} cat(a, b, k)[i] == (if i < k then a[i] else b[i - k])

// one point, two points with everything between them within e, and two parts that share a point
lemma DPWOne := forall a: fn[int, gtfs.ShapePoint], lo: int, b: fn[int, gtfs.ShapePoint], e: float64 :: {Simpl(a, lo, lo, b, 1, e)}
  PtEq(b[0], a[lo]) ==> DPW(a, lo, lo, b, 1, two(lo, lo), e)
lemma DPWTwo := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], e: float64 :: {Simpl(a, lo, hi, b, 2, e)}
  lo < hi && PtEq(b[0], a[lo]) && PtEq(b[1], a[hi]) && (forall j: int :: {a[j]} lo < j && j < hi ==> !(e < SegD(a[j], a[lo], a[hi]))) ==> DPW(a, lo, hi, b, 2, two(lo, hi), e)
lemma DPWCat := forall a: fn[int, gtfs.ShapePoint], lo: int, mid: int, hi: int, b1: fn[int, gtfs.ShapePoint], n1: int, i1: fn[int, int], b2: fn[int, gtfs.ShapePoint], n2: int, i2: fn[int, int], b: fn[int, gtfs.ShapePoint], n: int, e: float64 ::
  {DPW(a, lo, mid, b1, n1, i1, e), DPW(a, mid, hi, b2, n2, i2, e), Simpl(a, lo, hi, b, n, e)}
  DPW(a, lo, mid, b1, n1, i1, e) && DPW(a, mid, hi, b2, n2, i2, e) && n1 >= 2 && n2 >= 2 && n == n1 - 1 + n2
  && (forall i: int :: {b[i]} {b1[i]} 0 <= i && i < n1 - 1 ==> PtEq(b[i], b1[i])) && (forall i: int :: {b2[i]} 0 <= i && i < n2 ==> PtEq(b[n1 - 1 + i], b2[i]))
  ==> DPW(a, lo, hi, b, n, cat(i1, i2, n1 - 1), e)
lemma SimplOne := forall a: fn[int, gtfs.ShapePoint], lo: int, b: fn[int, gtfs.ShapePoint], e: float64 :: {Simpl(a, lo, lo, b, 1, e)}
  PtEq(b[0], a[lo]) ==> Simpl(a, lo, lo, b, 1, e)
lemma SimplTwo := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], e: float64 :: {Simpl(a, lo, hi, b, 2, e)}
  lo < hi && PtEq(b[0], a[lo]) && PtEq(b[1], a[hi]) && (forall j: int :: {a[j]} lo < j && j < hi ==> !(e < SegD(a[j], a[lo], a[hi]))) ==> Simpl(a, lo, hi, b, 2, e)
lemma SimplStep := forall a: fn[int, gtfs.ShapePoint], lo: int, mid: int, hi: int, b1: fn[int, gtfs.ShapePoint], n1: int, b2: fn[int, gtfs.ShapePoint], n2: int, b: fn[int, gtfs.ShapePoint], n: int, e: float64 ::
  {Simpl(a, lo, mid, b1, n1, e), Simpl(a, mid, hi, b2, n2, e), Simpl(a, lo, hi, b, n, e)}
  Simpl(a, lo, mid, b1, n1, e) && Simpl(a, mid, hi, b2, n2, e) && n1 >= 2 && n2 >= 2 && n == n1 - 1 + n2
  && (forall i: int :: {b[i]} {b1[i]} 0 <= i && i < n1 - 1 ==> PtEq(b[i], b1[i])) && (forall i: int :: {b2[i]} 0 <= i && i < n2 ==> PtEq(b[n1 - 1 + i], b2[i]))
  ==> Simpl(a, lo, hi, b, n, e)
// sequence numbers do not matter
lemma SimplSeq := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], n: int, b2: fn[int, gtfs.ShapePoint], e: float64 ::
  {Simpl(a, lo, hi, b, n, e), Simpl(a, lo, hi, b2, n, e)}
  Simpl(a, lo, hi, b, n, e) && (forall i: int :: {b2[i]} 0 <= i && i < n ==> PtEq(b2[i], b[i])) ==> Simpl(a, lo, hi, b2, n, e)

func processors.ShapeMinimizer.minimizeShape
  hide DPWDef, SimplDef
  requires !(e < 0)
  modifies nothing
  ensures len(points) < 2 ==> result == points
  ensures len(points) >= 2 ==> fresh(result) && off(result) == 0 && allocated(arr(result)) && len(result) >= 2
  ensures len(points) >= 2 ==> Simpl(row(points), off(points), off(points) + len(points) - 1, row(result), len(result), e)
  loop 1
    invariant 1 <= i
    invariant !isnan(maxD) && 0 <= maxI && (maxI == 0 || maxI < len(points) - 1)
    invariant maxI == 0 ==> maxD == float64(0)
    invariant forall j: int :: {row(points)[j]} off(points) < j && j < off(points) + i && j < off(points) + len(points) - 1 ==> !(maxD < SegD(row(points)[j], row(points)[off(points)], row(points)[off(points) + len(points) - 1]))

ufun run(int): fn[int, int]
axiom RunDef := forall lo: int, i: int :: {run(lo)[i]} run(lo)[i] == lo + i
lemma DPWId := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], n: int, e: float64 :: {Simpl(a, lo, hi, b, n, e)}
  lo <= hi && n == hi - lo + 1 && (forall i: int :: {b[i]} 0 <= i && i < n ==> PtEq(b[i], a[lo + i])) ==> DPW(a, lo, hi, b, n, run(lo), e)
lemma SimplId := forall a: fn[int, gtfs.ShapePoint], lo: int, hi: int, b: fn[int, gtfs.ShapePoint], n: int, e: float64 :: {Simpl(a, lo, hi, b, n, e)}
  lo <= hi && n == hi - lo + 1 && (forall i: int :: {b[i]} 0 <= i && i < n ==> PtEq(b[i], a[lo + i])) ==> Simpl(a, lo, hi, b, n, e)

pred SameP(s: *gtfs.Shape) := s.Points == old(s.Points) && (len(s.Points) > 0 ==> row(s.Points) == old(row(s.Points)))
// s has what is left of the points it had when the function was entered
pred Reduced(s: *gtfs.Shape, e: float64) := if old(len(s.Points)) == 0 then len(s.Points) == 0
  else len(s.Points) > 0 && Simpl(old(row(s.Points)), 0, old(len(s.Points)) - 1, row(s.Points), len(s.Points), e)
pred PtsWF(s: *gtfs.Shape) := off(s.Points) == 0 && allocated(arr(s.Points))
pred RegShape(f: *gtfsparser.Feed, s: *gtfs.Shape) := s != nil && s.Id in f.Shapes && f.Shapes[s.Id] == s

func processors.ShapeMinimizer.Run
  hide SegDDef, DPWDef, SimplDef
  requires feed != nil && feed.Shapes != nil && !(sm.Epsilon < 0)
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> feed.Shapes[k] != nil && feed.Shapes[k].Id == k && PtsWF(feed.Shapes[k])
  requires forall k: string, l: string :: {feed.Shapes[k], feed.Shapes[l]} k in feed.Shapes && l in feed.Shapes && k != l && len(feed.Shapes[k].Points) > 0 && len(feed.Shapes[l].Points) > 0 ==> arr(feed.Shapes[k].Points) != arr(feed.Shapes[l].Points)
  modifies gtfs.Shape.Points any
  modifies []gtfs.ShapePoint any
  ensures forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> Reduced(feed.Shapes[k], sm.Epsilon)
  loop 1
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant local 0 <= $i && $i <= len(feed.Shapes) && chunksize >= 0
    invariant local len(feed.Shapes) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && fresh(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> RegShape(feed, row(row(chunks)[c])[i])
    invariant local forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> visited(row(row(chunks)[c])[i].Id)
    invariant forall c: int, i: int, e: int, j: int :: {row(row(chunks)[c])[i], row(row(chunks)[e])[j]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && 0 <= e && e < len(chunks) && 0 <= j && j < len(row(chunks)[e]) && (c != e || i != j) ==> row(row(chunks)[c])[i] != row(row(chunks)[e])[j]
  loop 2
    invariant forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> PtsWF(feed.Shapes[k]) && Reduced(feed.Shapes[k], sm.Epsilon)
    invariant forall k: string, l: string :: {feed.Shapes[k], feed.Shapes[l]} k in feed.Shapes && l in feed.Shapes && k != l && len(feed.Shapes[k].Points) > 0 && len(feed.Shapes[l].Points) > 0 ==> arr(feed.Shapes[k].Points) != arr(feed.Shapes[l].Points)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} $i <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameP(row(row(chunks)[c])[i])
  loop 3
    modifies gtfs.Shape.Points any
    modifies []gtfs.ShapePoint any
    modifies []int at arr(chunkgain)
    modifies []int at arr(chunknum)
    invariant forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> PtsWF(feed.Shapes[k]) && Reduced(feed.Shapes[k], sm.Epsilon)
    invariant forall k: string, l: string :: {feed.Shapes[k], feed.Shapes[l]} k in feed.Shapes && l in feed.Shapes && k != l && len(feed.Shapes[k].Points) > 0 && len(feed.Shapes[l].Points) > 0 ==> arr(feed.Shapes[k].Points) != arr(feed.Shapes[l].Points)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} a < c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> SameP(row(row(chunks)[c])[i])
    invariant forall i: int :: {row(chunk)[i]} $i <= i && i < len(chunk) ==> SameP(row(chunk)[i])
  loop 4
    modifies []gtfs.ShapePoint at arr(s.Points)
    assert forall k: string :: {feed.Shapes[k]} k in feed.Shapes && feed.Shapes[k] != s && len(feed.Shapes[k].Points) > 0 && len(s.Points) > 0 ==> arr(feed.Shapes[k].Points) != arr(s.Points)
    assert Reduced(s, sm.Epsilon)
    assert RegShape(feed, s)
    assert forall i: int :: {row(chunk)[i]} $i3 < i && i < len(chunk) ==> row(chunk)[i] != s && SameP(row(chunk)[i])
    assert forall i: int :: {row(chunk)[i]} $i3 < i && i < len(chunk) && len(row(chunk)[i].Points) > 0 && len(s.Points) > 0 ==> arr(row(chunk)[i].Points) != arr(s.Points)
    assert forall c: int, i: int :: {row(row(chunks)[c])[i]} a < c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != s && SameP(row(row(chunks)[c])[i]) && (len(row(row(chunks)[c])[i].Points) > 0 && len(s.Points) > 0 ==> arr(row(row(chunks)[c])[i].Points) != arr(s.Points))
    invariant 0 <= i
    invariant Reduced(s, sm.Epsilon)
    invariant len(s.Points) == 0 ==> row(s.Points) == atpre(row(s.Points))
    invariant forall j: int :: {row(s.Points)[j]} 0 <= j && j < len(s.Points) ==> PtEq(row(s.Points)[j], atpre(row(s.Points)[j]))
  loop 5
    invariant true
  loop 6
    invariant true
  loop 7
    invariant true
