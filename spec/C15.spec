property C15 processors.ShapeDuplicateRemover.Run
assumes shapes registered under their ID, with at least one point each, in a slice of their own; the shape of every trip is registered; the tolerance is a finite number

fun AX(p: gtfs.ShapePoint) := mercX(p.Lat, p.Lon)
fun AY(p: gtfs.ShapePoint) := mercY(p.Lat, p.Lon)
fun DD(p: gtfs.ShapePoint, q: gtfs.ShapePoint) := distE(AX(p), AY(p), AX(q), AY(q))
fun Mn(a: int, b: int) := if a < b then a else b
fun Mx(a: int, b: int) := if a > b then a else b

// (x, y), with distance travelled d, is within e of a segment of the polyline b[0..n-1], where the distance travelled agrees
ufun NearAt(float64, float64, float64, float32, seq[gtfs.ShapePoint], int, int): bool
axiom NearAtDef := forall e: float64, x: float64, y: float64, d: float32, b: seq[gtfs.ShapePoint], n: int, q: int :: {NearAt(e, x, y, d, b, n, q)}
  NearAt(e, x, y, d, b, n, q) == (0 <= q && q + 1 < n && !(e < SegDist(x, y, AX(b[q]), AY(b[q]), AX(b[q + 1]), AY(b[q + 1])))
    && !(b[Mn(n - 1, q + 2)].Dist_traveled < d) && !(d < b[Mx(0, q - 1)].Dist_traveled))
ufun Near(float64, float64, float64, float32, seq[gtfs.ShapePoint], int): bool
axiom NearDef := forall e: float64, x: float64, y: float64, d: float32, b: seq[gtfs.ShapePoint], n: int :: {Near(e, x, y, d, b, n)}
  Near(e, x, y, d, b, n) == (exists q: int :: {NearAt(e, x, y, d, b, n, q)} NearAt(e, x, y, d, b, n, q))

// positions tested between two points: 10, 20, ... metres after the first
ufun StepD(int): float64
axiom StepDef := forall k: int :: {StepD(k)} StepD(0) == 10 && (k >= 1 ==> StepD(k) == StepD(k - 1) + 10)
ufun Upto(int, float64): bool
axiom UptoDef := forall k: int, l: float64 :: {Upto(k, l)} Upto(k, l) == (forall j: int :: {StepD(j)} 0 <= j && j <= k ==> StepD(j) < l)
fun IX(p: gtfs.ShapePoint, q: gtfs.ShapePoint, d: float64) := AX(p) + ((AX(q) - AX(p)) / DD(p, q)) * d
fun IY(p: gtfs.ShapePoint, q: gtfs.ShapePoint, d: float64) := AY(p) + ((AY(q) - AY(p)) / DD(p, q)) * d
fun ID(p: gtfs.ShapePoint, q: gtfs.ShapePoint, d: float64) := p.Dist_traveled + (q.Dist_traveled - p.Dist_traveled) * float32(d / DD(p, q))
ufun SegIn(float64, gtfs.ShapePoint, gtfs.ShapePoint, seq[gtfs.ShapePoint], int): bool
axiom SegInDef := forall e: float64, p: gtfs.ShapePoint, q: gtfs.ShapePoint, b: seq[gtfs.ShapePoint], n: int :: {SegIn(e, p, q, b, n)}
  SegIn(e, p, q, b, n) == (Near(e, AX(p), AY(p), p.Dist_traveled, b, n)
    && (forall k: int :: {StepD(k)} 0 <= k && Upto(k, DD(p, q)) ==> Near(e, IX(p, q, StepD(k)), IY(p, q, StepD(k)), ID(p, q, StepD(k)), b, n)))
// a is within e of b: their ends are, and so is every other point and tested position of a
ufun Within(float64, seq[gtfs.ShapePoint], int, seq[gtfs.ShapePoint], int): bool
axiom WithinDef := forall e: float64, a: seq[gtfs.ShapePoint], n: int, b: seq[gtfs.ShapePoint], m: int :: {Within(e, a, n, b, m)}
  Within(e, a, n, b, m) == (!(e < DD(a[0], b[0])) && !(e < DD(a[n - 1], b[m - 1])) && (forall i: int :: {a[i]} 1 <= i && i < n ==> SegIn(e, a[i - 1], a[i], b, m)))
pred Acc(e: float64, a: *gtfs.Shape, b: *gtfs.Shape) := Within(e, row(a.Points), len(a.Points), row(b.Points), len(b.Points)) && Within(e, row(b.Points), len(b.Points), row(a.Points), len(a.Points))
// connected by a chain of accepted pairs: Chain is any relation closed under the following and containing the
// accepted pairs of the input (required where the run begins), so the least one, too
ufun Chain(*gtfs.Shape, *gtfs.Shape): bool
axiom ChainTrans := forall a: *gtfs.Shape, b: *gtfs.Shape, c: *gtfs.Shape :: {Chain(a, b), Chain(b, c)} Chain(a, b) && Chain(b, c) ==> Chain(a, c)
axiom ChainSym := forall a: *gtfs.Shape, b: *gtfs.Shape :: {Chain(a, b)} Chain(a, b) ==> Chain(b, a)
axiom ChainRefl := forall a: *gtfs.Shape :: {Chain(a, a)} Chain(a, a)

// registered when the run begins
ufun Known(*gtfs.Shape): bool
pred ShapeOk(s: *gtfs.Shape) := s != nil && len(s.Points) > 0 && off(s.Points) == 0
pred Reg(f: *gtfsparser.Feed, s: *gtfs.Shape) := s != nil && s.Id in f.Shapes && f.Shapes[s.Id] == s
pred MercPt(p: gtfs.ShapePoint, m: []float64) := off(m) == 0 && len(m) == 2 && row(m)[0] == AX(p) && row(m)[1] == AY(p)
pred MercOk(s: *gtfs.Shape, m: [][]float64) := off(m) == 0 && len(m) == len(s.Points) && (forall i: int :: {row(m)[i]} 0 <= i && i < len(m) ==> MercPt(row(s.Points)[i], row(m)[i]))
pred RowsOk(m: [][]float64) := off(m) == 0 && (forall i: int :: {row(m)[i]} 0 <= i && i < len(m) ==> off(row(m)[i]) == 0 && len(row(m)[i]) == 2)
pred IdxOk(gi: *processors.ShapeIdx) := gi != nil && off(gi.grid) == 0 && (forall x: int :: {row(gi.grid)[x]} 0 <= x && x < len(gi.grid) ==> off(row(gi.grid)[x]) == 0)
   && (forall x: int, y: int, s: *gtfs.Shape :: {s in row(row(gi.grid)[x])[y]} 0 <= x && x < len(gi.grid) && 0 <= y && y < len(row(gi.grid)[x]) && s in row(row(gi.grid)[x])[y] ==> Known(s))
pred Sep(gi: *processors.ShapeIdx, d: map[*gtfs.Shape]bool) := forall x: int, y: int :: {row(row(gi.grid)[x])[y]} 0 <= x && x < len(gi.grid) && 0 <= y && y < len(row(gi.grid)[x]) ==> row(row(gi.grid)[x])[y] != d
// the grid under construction
pred Grid(g: [][]map[*gtfs.Shape]bool) := off(g) == 0 && fresh(g) && (forall x: int :: {row(g)[x]} 0 <= x && x < len(g) ==> off(row(g)[x]) == 0 && fresh(row(g)[x]))
   && (forall x: int, y: int :: {row(row(g)[x])[y]} 0 <= x && x < len(g) && 0 <= y && y < len(row(g)[x]) ==> row(row(g)[x])[y] == nil || fresh(row(row(g)[x])[y]))
   && (forall x: int, y: int, s: *gtfs.Shape :: {s in row(row(g)[x])[y]} 0 <= x && x < len(g) && 0 <= y && y < len(row(g)[x]) && s in row(row(g)[x])[y] ==> Known(s))

func processors.ShapeIdx.isects
  modifies nothing
  nosafety
  loop 1
    invariant true

func processors.ShapeIdx.GetNeighbors
  requires IdxOk(gi) && RowsOk(shp)
  modifies nothing
  ensures forall s: *gtfs.Shape :: {s in result} s in result ==> Known(s)
  loop 1
    modifies map[*gtfs.Shape]bool at ret
    invariant forall s: *gtfs.Shape :: {s in ret} s in ret ==> Known(s)
  loop 2
    modifies map[*gtfs.Shape]bool at ret
    invariant forall s: *gtfs.Shape :: {s in ret} s in ret ==> Known(s)
  loop 3
    modifies map[*gtfs.Shape]bool at ret
    invariant forall s: *gtfs.Shape :: {s in ret} s in ret ==> Known(s)

func processors.NewShapeIdx
  requires off(shapes) == 0 && (forall i: int :: {row(shapes)[i]} 0 <= i && i < len(shapes) ==> Known(row(shapes)[i]))
  requires forall s: *gtfs.Shape :: {mercs[s]} RowsOk(mercs[s])
  modifies nothing
  ensures IdxOk(result) && fresh(result)
  ensures forall x: int, y: int :: {row(row(result.grid)[x])[y]} 0 <= x && x < len(result.grid) && 0 <= y && y < len(row(result.grid)[x]) ==> row(row(result.grid)[x])[y] == nil || fresh(row(row(result.grid)[x])[y])
  loop 1
    modifies processors.ShapeIdx.llx where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.lly where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.urx where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.ury where g: *processors.ShapeIdx :: fresh(g)
    invariant true
  loop 2
    modifies processors.ShapeIdx.llx where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.lly where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.urx where g: *processors.ShapeIdx :: fresh(g)
    modifies processors.ShapeIdx.ury where g: *processors.ShapeIdx :: fresh(g)
    invariant true
  loop 3
    modifies [][]map[*gtfs.Shape]bool at arr(idx.grid)
    invariant Grid(idx.grid)
    invariant forall x: int, y: int :: {row(row(idx.grid)[x])[y]} 0 <= x && x < len(idx.grid) && 0 <= y && y < len(row(idx.grid)[x]) ==> row(row(idx.grid)[x])[y] == nil
  loop 4
    modifies []map[*gtfs.Shape]bool any
    modifies map[*gtfs.Shape]bool where m: map[*gtfs.Shape]bool :: fresh(m)
    invariant Grid(idx.grid)
  loop 5
    modifies []map[*gtfs.Shape]bool any
    modifies map[*gtfs.Shape]bool where m: map[*gtfs.Shape]bool :: fresh(m)
    invariant Grid(idx.grid)
  loop 6
    modifies []map[*gtfs.Shape]bool any
    modifies map[*gtfs.Shape]bool where m: map[*gtfs.Shape]bool :: fresh(m)
    invariant Grid(idx.grid)
  loop 7
    modifies []map[*gtfs.Shape]bool any
    modifies map[*gtfs.Shape]bool where m: map[*gtfs.Shape]bool :: fresh(m)
    invariant Grid(idx.grid)

func processors.ShapeDuplicateRemover.distToShp
  requires RowsOk(shp)
  modifies nothing
  ensures result1 == math("Inf", 1) && result0 == Mx(0, s) || 0 <= result0 && result0 + 1 < len(shp) && result1 == SegDist(px, py, row(row(shp)[result0])[0], row(row(shp)[result0])[1], row(row(shp)[result0 + 1])[0], row(row(shp)[result0 + 1])[1])
  loop 1
    invariant minDist == math("Inf", 1) && minInd == Mx(0, s) || 0 <= minInd && minInd + 1 < len(shp) && minDist == SegDist(px, py, row(row(shp)[minInd])[0], row(row(shp)[minInd])[1], row(row(shp)[minInd + 1])[0], row(row(shp)[minInd + 1])[1])
    invariant i >= 1

func processors.ShapeDuplicateRemover.interpolate
  requires a != nil && b != nil
  modifies nothing
  ensures result0 == ax + ((bx - ax) / dist) * d && result1 == ay + ((by - ay) / dist) * d
  ensures result2 == a.Dist_traveled + (b.Dist_traveled - a.Dist_traveled) * float32(d / dist)

func processors.ShapeDuplicateRemover.inDistTo
  requires sdr != nil && sdr.MaxEqDist < math("Inf", 1)
  requires ShapeOk(shpA) && ShapeOk(shpB) && MercOk(shpA, sdr.mercs[shpA]) && MercOk(shpB, sdr.mercs[shpB])
  modifies nothing
  ensures result ==> Within(sdr.MaxEqDist, row(shpA.Points), len(shpA.Points), row(shpB.Points), len(shpB.Points))
  loop 1
    step SegIn(sdr.MaxEqDist, row(shpA.Points)[i - 2], row(shpA.Points)[i - 1], row(shpB.Points), len(shpB.Points))
    invariant 1 <= i && i <= len(a) && 0 <= last && (last < len(b) - 1 || i == 1 && last == 0)
    invariant !(sdr.MaxEqDist < DD(row(shpA.Points)[0], row(shpB.Points)[0])) && !(sdr.MaxEqDist < DD(row(shpA.Points)[len(a) - 1], row(shpB.Points)[len(b) - 1]))
    invariant forall k: int :: {row(shpA.Points)[k]} 1 <= k && k < i ==> SegIn(sdr.MaxEqDist, row(shpA.Points)[k - 1], row(shpA.Points)[k], row(shpB.Points), len(shpB.Points))
  loop 2
    assert NearAt(sdr.MaxEqDist, AX(row(shpA.Points)[i - 1]), AY(row(shpA.Points)[i - 1]), row(shpA.Points)[i - 1].Dist_traveled, row(shpB.Points), len(shpB.Points), last)
    assert Near(sdr.MaxEqDist, AX(row(shpA.Points)[i - 1]), AY(row(shpA.Points)[i - 1]), row(shpA.Points)[i - 1].Dist_traveled, row(shpB.Points), len(shpB.Points))
    step NearAt(sdr.MaxEqDist, IX(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), IY(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), ID(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), row(shpB.Points), len(shpB.Points), last)
    step Near(sdr.MaxEqDist, IX(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), IY(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), ID(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD($i - 1)), row(shpB.Points), len(shpB.Points))
    invariant 0 <= last && last < len(b) - 1 && curD == StepD($i)
    invariant forall k: int :: {StepD(k)} 0 <= k && k < $i ==> Near(sdr.MaxEqDist, IX(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD(k)), IY(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD(k)), ID(row(shpA.Points)[i - 1], row(shpA.Points)[i], StepD(k)), row(shpB.Points), len(shpB.Points))

pred Cand(d: map[*gtfs.Shape]bool, s: *gtfs.Shape, shp: *gtfs.Shape) := s != shp && Known(s) && !d[s] && Chain(s, shp)

func processors.ShapeDuplicateRemover.getEquShps
  requires sdr != nil && sdr.MaxEqDist < math("Inf", 1) && Known(shp) && off(idxs) == 0
  requires forall c: int :: {row(idxs)[c]} 0 <= c && c < len(idxs) ==> IdxOk(row(idxs)[c])
  requires forall s: *gtfs.Shape :: {Known(s)} Known(s) ==> ShapeOk(s) && MercOk(s, sdr.mercs[s])
  requires forall a: *gtfs.Shape, b: *gtfs.Shape :: {Chain(a, b)} Acc(sdr.MaxEqDist, a, b) ==> Chain(a, b)
  modifies nothing
  ensures off(result) == 0 && fresh(result)
  ensures forall j: int :: {row(result)[j]} 0 <= j && j < len(result) ==> Cand(sdr.deleted, row(result)[j], shp)
  loop 1
    modifies [][]*gtfs.Shape at arr(rets)
    invariant off(rets) == 0 && fresh(rets) && len(rets) == len(idxs) && allocated(arr(rets))
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) ==> off(row(rets)[c]) == 0 && allocated(arr(row(rets)[c])) && (cap(row(rets)[c]) == 0 || freshloop(row(rets)[c]))
    invariant forall c: int :: {row(rets)[c]} $i <= c && c < len(rets) ==> cap(row(rets)[c]) == 0
    invariant forall c: int, j: int :: {row(row(rets)[c])[j]} 0 <= c && c < $i && 0 <= j && j < len(row(rets)[c]) ==> Cand(sdr.deleted, row(row(rets)[c])[j], shp)
  loop 2
    modifies [][]*gtfs.Shape at arr(rets)
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) && c != j ==> row(rets)[c] == atpre(row(rets)[c])
    invariant off(row(rets)[j]) == 0 && allocated(arr(row(rets)[j])) && (cap(row(rets)[j]) == 0 || freshloop(row(rets)[j]))
    invariant forall q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) ==> Cand(sdr.deleted, row(row(rets)[j])[q], shp)
  loop 3
    invariant true
  loop 4
    modifies nothing
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret)) && (cap(ret) == 0 || freshloop(ret))
    invariant forall j: int :: {row(ret)[j]} 0 <= j && j < len(ret) ==> Cand(sdr.deleted, row(ret)[j], shp)

// the trips of every shape that is still registered, in slices of their own
pred TOk(f: *gtfsparser.Feed, t: map[*gtfs.Shape][]*gtfs.Trip) := t != nil
  && (forall s: *gtfs.Shape :: {t[s]} off(t[s]) == 0 && allocated(arr(t[s])) && (len(t[s]) == 0 ==> cap(t[s]) == 0))
  && (forall s: *gtfs.Shape, u: *gtfs.Shape :: {t[s], t[u]} s != u && len(t[s]) > 0 && len(t[u]) > 0 ==> arr(t[s]) != arr(t[u]))
  && (forall s: *gtfs.Shape, j: int :: {row(t[s])[j]} 0 <= j && j < len(t[s]) ==> row(t[s])[j] != nil)
pred TMine(f: *gtfsparser.Feed, t: map[*gtfs.Shape][]*gtfs.Trip) := forall s: *gtfs.Shape, j: int :: {row(t[s])[j]} Reg(f, s) && 0 <= j && j < len(t[s]) ==> row(t[s])[j].Shape == s
pred TAll(f: *gtfsparser.Feed, t: map[*gtfs.Shape][]*gtfs.Trip) := forall k: string :: {f.Trips[k]} k in f.Trips && f.Trips[k].Shape != nil ==> (exists j: int :: {row(t[f.Trips[k].Shape])[j]} 0 <= j && j < len(t[f.Trips[k].Shape]) && row(t[f.Trips[k].Shape])[j] == f.Trips[k])

func processors.ShapeDuplicateRemover.combineShapes
  requires sdr != nil && sdr.deleted != nil && feed != nil && feed.Shapes != nil && feed.Trips != nil && off(shps) == 0 && len(shps) > 0 && allocated(arr(shps))
  requires forall i: int :: {row(shps)[i]} 0 <= i && i < len(shps) ==> Reg(feed, row(shps)[i]) && ShapeOk(row(shps)[i])
  requires TOk(feed, tidx) && TMine(feed, tidx) && TAll(feed, tidx)
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil
  modifies gtfs.Trip.Shape any
  modifies []*gtfs.Trip any
  modifies map[*gtfs.Shape][]*gtfs.Trip at tidx
  modifies map[*gtfs.Shape]bool at sdr.deleted
  modifies map[string]map[int]string any
  modifies map[string]*gtfs.Shape at feed.Shapes
  ensures TOk(feed, tidx) && TMine(feed, tidx) && TAll(feed, tidx)
  ensures exists r: int :: {row(shps)[r]} 0 <= r && r < len(shps) && Reg(feed, row(shps)[r])
    && (forall t: *gtfs.Trip :: {t.Shape} t.Shape == old(t.Shape) || t.Shape == row(shps)[r] && (exists i: int :: {row(shps)[i]} 0 <= i && i < len(shps) && row(shps)[i] == old(t.Shape)))
    && (forall k: string, i: int :: {feed.Trips[k], row(shps)[i]} k in feed.Trips && 0 <= i && i < len(shps) && row(shps)[i] != row(shps)[r] ==> feed.Trips[k].Shape != row(shps)[i])
    && (forall k: string :: {k in feed.Shapes} {feed.Shapes[k]} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k]))
    && (forall k: string :: {k in feed.Shapes} old(k in feed.Shapes) && !(k in feed.Shapes) ==> (exists i: int :: {row(shps)[i]} 0 <= i && i < len(shps) && row(shps)[i] != row(shps)[r] && row(shps)[i].Id == k))
  ensures forall s: *gtfs.Shape :: {sdr.deleted[s]} old(sdr.deleted[s]) ==> sdr.deleted[s]
  ensures forall s: *gtfs.Shape :: {sdr.deleted[s]} old(Reg(feed, s)) && !Reg(feed, s) ==> sdr.deleted[s]
  loop 1
    invariant exists r: int :: {row(shps)[r]} 0 <= r && r < len(shps) && ref == row(shps)[r]
  loop 2
    modifies gtfs.Trip.Shape any
    modifies []*gtfs.Trip any
    modifies map[*gtfs.Shape][]*gtfs.Trip at tidx
    modifies map[*gtfs.Shape]bool at sdr.deleted
    modifies map[string]map[int]string any
    modifies map[string]*gtfs.Shape at feed.Shapes
    invariant Reg(feed, ref) && TOk(feed, tidx) && TMine(feed, tidx) && TAll(feed, tidx)
    invariant forall t: *gtfs.Trip :: {t.Shape} t.Shape == atpre(t.Shape) || t.Shape == ref && (exists i: int :: {row(shps)[i]} 0 <= i && i < len(shps) && row(shps)[i] == atpre(t.Shape))
    invariant forall k: string, i: int :: {feed.Trips[k], row(shps)[i]} k in feed.Trips && 0 <= i && i < $i && row(shps)[i] != ref ==> feed.Trips[k].Shape != row(shps)[i]
    invariant forall k: string :: {k in feed.Shapes} {feed.Shapes[k]} k in feed.Shapes ==> atpre(k in feed.Shapes) && feed.Shapes[k] == atpre(feed.Shapes[k])
    invariant forall k: string :: {k in feed.Shapes} atpre(k in feed.Shapes) && !(k in feed.Shapes) ==> (exists i: int :: {row(shps)[i]} 0 <= i && i < len(shps) && row(shps)[i] != ref && row(shps)[i].Id == k)
    invariant forall i: int :: {row(shps)[i]} 0 <= i && i < $i && row(shps)[i] != ref ==> sdr.deleted[row(shps)[i]]
    invariant forall s: *gtfs.Shape :: {sdr.deleted[s]} atpre(sdr.deleted[s]) ==> sdr.deleted[s]
    invariant forall s: *gtfs.Shape :: {sdr.deleted[s]} atpre(Reg(feed, s)) && !Reg(feed, s) ==> sdr.deleted[s]
    invariant forall i: int :: {row(shps)[i]} 0 <= i && i < len(shps) ==> Reg(feed, row(shps)[i]) || sdr.deleted[row(shps)[i]]
    invariant forall i: int, j: int :: {row(tidx[row(shps)[i]])[j]} 0 <= i && i < len(shps) && 0 <= j && j < len(tidx[row(shps)[i]]) ==> row(tidx[row(shps)[i]])[j].Shape == row(shps)[i] || row(tidx[row(shps)[i]])[j].Shape == ref
  loop 3
    modifies gtfs.Trip.Shape any
    modifies []*gtfs.Trip any
    modifies map[*gtfs.Shape][]*gtfs.Trip at tidx
    invariant forall i: int, j: int :: {row(tidx[row(shps)[i]])[j]} 0 <= i && i < len(shps) && 0 <= j && j < len(tidx[row(shps)[i]]) ==> row(tidx[row(shps)[i]])[j].Shape == row(shps)[i] || row(tidx[row(shps)[i]])[j].Shape == ref
    invariant TOk(feed, tidx) && TAll(feed, tidx)
    invariant forall u: *gtfs.Shape :: {tidx[u]} u != ref ==> tidx[u] == atpre(tidx[u])
    invariant forall u: *gtfs.Shape, j: int :: {row(tidx[u])[j]} u != ref && 0 <= j && j < len(tidx[u]) ==> row(tidx[u])[j] == atpre(row(tidx[u])[j])
    invariant forall u: *gtfs.Shape, j: int :: {row(tidx[u])[j]} Reg(feed, u) && u != s && 0 <= j && j < len(tidx[u]) ==> row(tidx[u])[j].Shape == u
    invariant forall t: *gtfs.Trip :: {t.Shape} t.Shape == atpre(t.Shape) || t.Shape == ref && atpre(t.Shape) == s
    invariant forall j: int :: {row(tidx[s])[j]} 0 <= j && j < len(tidx[s]) ==> row(tidx[s])[j].Shape == s || row(tidx[s])[j].Shape == ref
    invariant forall j: int :: {row(tidx[s])[j]} 0 <= j && j < $i ==> row(tidx[s])[j].Shape == ref

func processors.ShapeDuplicateRemover.Run
  requires feed != nil && feed.Shapes != nil && feed.Trips != nil && sdr.MaxEqDist < math("Inf", 1)
  requires forall k: string :: {feed.Shapes[k]} k in feed.Shapes ==> ShapeOk(feed.Shapes[k]) && feed.Shapes[k].Id == k
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && (feed.Trips[k].Shape != nil ==> Reg(feed, feed.Trips[k].Shape))
  requires forall s: *gtfs.Shape :: {Known(s)} Known(s) <==> Reg(feed, s)
  requires forall a: *gtfs.Shape, b: *gtfs.Shape :: {Chain(a, b)} Acc(sdr.MaxEqDist, a, b) ==> Chain(a, b)
  modifies gtfs.Trip.Shape any
  modifies []*gtfs.Trip any
  modifies map[string]map[int]string any
  modifies map[string]*gtfs.Shape at feed.Shapes
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Shape) != nil ==> Reg(feed, feed.Trips[k].Shape) && Chain(feed.Trips[k].Shape, old(feed.Trips[k].Shape))
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Shape) == nil ==> feed.Trips[k].Shape == nil
  ensures forall k: string :: {k in feed.Shapes} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k])
  ensures forall k: string :: {k in feed.Shapes} old(k in feed.Shapes) && !(k in feed.Shapes) ==> (exists l: string :: {l in feed.Shapes} l in feed.Shapes && Chain(old(feed.Shapes[k]), feed.Shapes[l]))
  loop 1
    modifies map[*gtfs.Shape][][]float64 at sdr.mercs
    invariant sdr.mercs != nil && fresh(sdr.mercs)
    invariant forall s: *gtfs.Shape :: {sdr.mercs[s]} RowsOk(sdr.mercs[s]) && allocated(arr(sdr.mercs[s])) && (len(sdr.mercs[s]) > 0 ==> freshloop(sdr.mercs[s]))
    invariant forall s: *gtfs.Shape :: {sdr.mercs[s]} len(sdr.mercs[s]) == 0 ==> cap(sdr.mercs[s]) == 0
    invariant forall k: string :: {feed.Shapes[k]} visited(k) ==> k in feed.Shapes && MercOk(feed.Shapes[k], sdr.mercs[feed.Shapes[k]])
    invariant forall s: *gtfs.Shape :: {sdr.mercs[s]} len(sdr.mercs[s]) > 0 ==> s != nil && visited(s.Id)
  loop 2
    modifies map[*gtfs.Shape][][]float64 at sdr.mercs
    invariant forall u: *gtfs.Shape :: {sdr.mercs[u]} u != s ==> sdr.mercs[u] == atpre(sdr.mercs[u])
    invariant off(sdr.mercs[s]) == 0 && allocated(arr(sdr.mercs[s])) && (cap(sdr.mercs[s]) == 0 || freshloop(sdr.mercs[s])) && len(sdr.mercs[s]) == $i
    invariant forall i: int :: {row(sdr.mercs[s])[i]} 0 <= i && i < $i ==> MercPt(row(s.Points)[i], row(sdr.mercs[s])[i])
  loop 3
    modifies [][]*gtfs.Shape at arr(chunks)
    invariant off(chunks) == 0 && len(chunks) == numchunks && fresh(chunks) && allocated(arr(chunks))
    invariant local 0 <= curchunk && curchunk <= numchunks && chunksize >= 0
    invariant local len(feed.Shapes) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < numchunks ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < numchunks ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && freshloop(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < numchunks && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < numchunks && 0 <= i && i < len(row(chunks)[c]) ==> Known(row(row(chunks)[c])[i])
  loop 4
    modifies []*processors.ShapeIdx at arr(chunkIdxs)
    invariant off(chunkIdxs) == 0 && len(chunkIdxs) == numchunks && fresh(chunkIdxs) && allocated(arr(chunkIdxs))
    invariant forall c: int :: {row(chunkIdxs)[c]} 0 <= c && c < $i ==> IdxOk(row(chunkIdxs)[c]) && Sep(row(chunkIdxs)[c], sdr.deleted)
  loop 5
    modifies map[*gtfs.Shape][]*gtfs.Trip at tidx
    invariant tidx != nil && fresh(tidx) && allocated(tidx)
    invariant forall s: *gtfs.Shape :: {tidx[s]} off(tidx[s]) == 0 && allocated(arr(tidx[s])) && (len(tidx[s]) > 0 ==> freshloop(tidx[s]))
    invariant forall s: *gtfs.Shape :: {tidx[s]} len(tidx[s]) == 0 ==> cap(tidx[s]) == 0
    invariant forall s: *gtfs.Shape, u: *gtfs.Shape :: {tidx[s], tidx[u]} s != u && len(tidx[s]) > 0 && len(tidx[u]) > 0 ==> arr(tidx[s]) != arr(tidx[u])
    invariant forall s: *gtfs.Shape, j: int :: {row(tidx[s])[j]} 0 <= j && j < len(tidx[s]) ==> row(tidx[s])[j] != nil && row(tidx[s])[j].Shape == s
    invariant forall k: string :: {feed.Trips[k]} visited(k) && feed.Trips[k].Shape != nil ==> (exists j: int :: {row(tidx[feed.Trips[k].Shape])[j]} 0 <= j && j < len(tidx[feed.Trips[k].Shape]) && row(tidx[feed.Trips[k].Shape])[j] == feed.Trips[k])
  loop 6
    modifies gtfs.Trip.Shape any
    modifies []*gtfs.Trip any
    modifies map[*gtfs.Shape][]*gtfs.Trip at tidx
    modifies map[*gtfs.Shape]bool at sdr.deleted
    modifies map[string]map[int]string any
    modifies map[string]*gtfs.Shape at feed.Shapes
    invariant TOk(feed, tidx) && TMine(feed, tidx) && TAll(feed, tidx)
    invariant forall c: int :: {row(chunkIdxs)[c]} 0 <= c && c < len(chunkIdxs) ==> IdxOk(row(chunkIdxs)[c]) && Sep(row(chunkIdxs)[c], sdr.deleted)
    invariant forall s: *gtfs.Shape :: {Known(s)} {sdr.deleted[s]} Known(s) && !sdr.deleted[s] ==> Reg(feed, s)
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Shape) != nil ==> Reg(feed, feed.Trips[k].Shape) && Chain(feed.Trips[k].Shape, old(feed.Trips[k].Shape))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Shape) == nil ==> feed.Trips[k].Shape == nil
    invariant forall k: string :: {k in feed.Shapes} {feed.Shapes[k]} k in feed.Shapes ==> old(k in feed.Shapes) && feed.Shapes[k] == old(feed.Shapes[k])
    invariant forall k: string :: {k in feed.Shapes} old(k in feed.Shapes) && !(k in feed.Shapes) ==> (exists l: string :: {l in feed.Shapes} l in feed.Shapes && Chain(old(feed.Shapes[k]), feed.Shapes[l]))
