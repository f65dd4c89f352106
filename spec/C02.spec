property C02 processors.ServiceDuplicateRemover.Run
assumes services as the parser delivers them (dates empty or valid calendar dates 1901-2154, with a date range or an exception), registered under their ID; every trip's service is registered

// ---- a compressed calendar describes the dates of a service ----
ufun Compr(gtfs.Date, gtfs.Date, int, fn[int, bool], uint8, gtfs.Date, gtfs.Date, set[gtfs.Date], fn[gtfs.Date, bool]): bool
axiom ComprDef := forall cs: gtfs.Date, ce: gtfs.Date, n: int, r: fn[int, bool], m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool] ::
  {Compr(cs, ce, n, r, m, s, e, ds, ev)}
  Compr(cs, ce, n, r, m, s, e, ds, ev) == (
    Empty(cs) && Empty(ce) && (forall d: gtfs.Date :: {Active(m, s, e, ds, ev, d)} DateOk(d) ==> !Active(m, s, e, ds, ev, d))
    || DateOk(cs) && DateOk(ce) && T(cs) <= T(ce) && n == T(ce) - T(cs) + 1
      && (forall d: gtfs.Date :: {Active(m, s, e, ds, ev, d)} DateOk(d) ==> (Active(m, s, e, ds, ev, d) ==> T(cs) <= T(d) && T(d) <= T(ce))
          && (T(cs) <= T(d) && T(d) <= T(ce) ==> (r[T(d) - T(cs)] <==> Active(m, s, e, ds, ev, d)))))

ufun EqRow(int, fn[int, bool], fn[int, bool]): bool
axiom EqRowDef := forall n: int, a: fn[int, bool], b: fn[int, bool] :: {EqRow(n, a, b)} EqRow(n, a, b) == (forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i])

ufun EqComp(gtfs.Date, gtfs.Date, int, fn[int, bool], gtfs.Date, gtfs.Date, int, fn[int, bool]): bool
axiom EqCompDef := forall s: gtfs.Date, e: gtfs.Date, n: int, r: fn[int, bool], s2: gtfs.Date, e2: gtfs.Date, n2: int, r2: fn[int, bool] ::
  {EqComp(s, e, n, r, s2, e2, n2, r2)} EqComp(s, e, n, r, s2, e2, n2, r2) == (s == s2 && e == e2 && n == n2 && EqRow(n, r, r2))
lemma EqCompRefl := forall s: gtfs.Date, e: gtfs.Date, n: int, r: fn[int, bool] :: {EqComp(s, e, n, r, s, e, n, r)} EqComp(s, e, n, r, s, e, n, r)
lemma EqCompSym := forall s: gtfs.Date, e: gtfs.Date, n: int, r: fn[int, bool], s2: gtfs.Date, e2: gtfs.Date, n2: int, r2: fn[int, bool] ::
  {EqComp(s, e, n, r, s2, e2, n2, r2)} EqComp(s, e, n, r, s2, e2, n2, r2) ==> EqComp(s2, e2, n2, r2, s, e, n, r)
lemma EqCompTrans := forall s: gtfs.Date, e: gtfs.Date, n: int, r: fn[int, bool], s2: gtfs.Date, e2: gtfs.Date, n2: int, r2: fn[int, bool], s3: gtfs.Date, e3: gtfs.Date, n3: int, r3: fn[int, bool] ::
  {EqComp(s, e, n, r, s2, e2, n2, r2), EqComp(s2, e2, n2, r2, s3, e3, n3, r3)} EqComp(s, e, n, r, s2, e2, n2, r2) && EqComp(s2, e2, n2, r2, s3, e3, n3, r3) ==> EqComp(s, e, n, r, s3, e3, n3, r3)

// ---- two calendars have the same dates ----
ufun SameCal(uint8, gtfs.Date, gtfs.Date, set[gtfs.Date], fn[gtfs.Date, bool], uint8, gtfs.Date, gtfs.Date, set[gtfs.Date], fn[gtfs.Date, bool]): bool
axiom SameCalDef := forall m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool], m2: uint8, s2: gtfs.Date, e2: gtfs.Date, ds2: set[gtfs.Date], ev2: fn[gtfs.Date, bool] ::
  {SameCal(m, s, e, ds, ev, m2, s2, e2, ds2, ev2)}
  SameCal(m, s, e, ds, ev, m2, s2, e2, ds2, ev2) == (forall d: gtfs.Date :: {Active(m, s, e, ds, ev, d)} {Active(m2, s2, e2, ds2, ev2, d)} ValidDate(d) ==> Active(m, s, e, ds, ev, d) == Active(m2, s2, e2, ds2, ev2, d))
lemma SameCalRefl := forall m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool] ::
  {SameCal(m, s, e, ds, ev, m, s, e, ds, ev)} SameCal(m, s, e, ds, ev, m, s, e, ds, ev)
lemma ComprSame := forall cs: gtfs.Date, ce: gtfs.Date, n: int, r: fn[int, bool], cs2: gtfs.Date, ce2: gtfs.Date, n2: int, r2: fn[int, bool], m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool], m2: uint8, s2: gtfs.Date, e2: gtfs.Date, ds2: set[gtfs.Date], ev2: fn[gtfs.Date, bool] ::
  {Compr(cs, ce, n, r, m, s, e, ds, ev), Compr(cs2, ce2, n2, r2, m2, s2, e2, ds2, ev2), EqComp(cs, ce, n, r, cs2, ce2, n2, r2)}
  Compr(cs, ce, n, r, m, s, e, ds, ev) && Compr(cs2, ce2, n2, r2, m2, s2, e2, ds2, ev2) && EqComp(cs, ce, n, r, cs2, ce2, n2, r2) ==> SameCal(m, s, e, ds, ev, m2, s2, e2, ds2, ev2)

pred SameS(a: *gtfs.Service, b: *gtfs.Service) := SameCal(a.daymap, a.start_date, a.end_date, dom(a.exceptions), mapval(a.exceptions), b.daymap, b.start_date, b.end_date, dom(b.exceptions), mapval(b.exceptions))
pred ComprS(c: processors.ServiceCompressed, s: *gtfs.Service) := off(c.activeMap) == 0 && allocated(arr(c.activeMap)) && len(c.activeMap) >= 0
  && Compr(c.start, c.end, len(c.activeMap), row(c.activeMap), s.daymap, s.start_date, s.end_date, dom(s.exceptions), mapval(s.exceptions))
pred EqC(a: processors.ServiceCompressed, b: processors.ServiceCompressed) := EqComp(a.start, a.end, len(a.activeMap), row(a.activeMap), b.start, b.end, len(b.activeMap), row(b.activeMap))
pred Cls(m: map[*gtfs.Service]processors.ServiceCompressed, a: *gtfs.Service, b: *gtfs.Service) := m[a].hash == m[b].hash && EqC(m[a], m[b])

pred Reg(f: *gtfsparser.Feed, s: *gtfs.Service) := s != nil && s.id in f.Services && f.Services[s.id] == s
pred ServicesWF(f: *gtfsparser.Feed) := f != nil && f.Services != nil
  && (forall k: string :: {f.Services[k]} k in f.Services ==> f.Services[k] != nil && f.Services[k].id == k && WFService(f.Services[k]) && Defined(f.Services[k]))
pred AmapsOk(f: *gtfsparser.Feed, m: map[*gtfs.Service]processors.ServiceCompressed) := m != nil && (forall k: string :: {f.Services[k]} k in f.Services ==> f.Services[k] in m && ComprS(m[f.Services[k]], f.Services[k]))

func processors.ServiceDuplicateRemover.servEqual
  requires off(a.activeMap) == 0 && off(b.activeMap) == 0
  modifies nothing
  ensures result <==> EqC(a, b)
  loop 1
    invariant forall i: int :: {row(a.activeMap)[i]} {row(b.activeMap)[i]} 0 <= i && i < $i ==> row(a.activeMap)[i] == row(b.activeMap)[i]

func processors.ServiceDuplicateRemover.serviceHash
  modifies nothing

func processors.boolsToBytes
  modifies nothing
  loop 1
    invariant len(b) == (len(t) + 7) / 8 && fresh(b)

func processors.ServiceDuplicateRemover.getActiveMaps
  hide ActiveDef, WFValDef, EqRowDef, SameCalDef
  requires ServicesWF(feed)
  modifies nothing
  ensures fresh(result) && AmapsOk(feed, result)
  loop 1
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant local 0 <= $i && $i <= len(feed.Services) && chunksize >= 0
    invariant local len(feed.Services) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && fresh(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant local forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> Reg(feed, row(row(chunks)[c])[i])
    invariant forall k: string :: {feed.Services[k]} visited(k) ==> (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] == feed.Services[k])
  loop 2
    invariant off(rets) == 0 && fresh(rets) && len(rets) == len(chunks) && allocated(arr(rets))
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < $i ==> row(rets)[c] != nil && row(rets)[c] != ret && fresh(row(rets)[c]) && allocated(row(rets)[c])
    invariant fresh(ret) && ret != nil && allocated(ret) && (forall s: *gtfs.Service :: {s in ret} !(s in ret))
    invariant forall c: int, s: *gtfs.Service :: {row(rets)[c][s]} 0 <= c && c < $i && s in row(rets)[c] ==> Reg(feed, s) && ComprS(row(rets)[c][s], s)
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] in row(rets)[c]
  loop 3
    modifies map[*gtfs.Service]processors.ServiceCompressed at row(rets)[j]
    invariant forall s: *gtfs.Service :: {row(rets)[j][s]} s in row(rets)[j] ==> Reg(feed, s) && ComprS(row(rets)[j][s], s)
    invariant forall i: int :: {row(chunk)[i]} 0 <= i && i < $i ==> row(chunk)[i] in row(rets)[j]
  loop 4
    invariant true
  loop 5
    modifies map[*gtfs.Service]processors.ServiceCompressed at ret
    invariant fresh(ret) && ret != nil && allocated(ret)
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) ==> row(rets)[c] != ret
    invariant forall s: *gtfs.Service :: {ret[s]} s in ret ==> Reg(feed, s) && ComprS(ret[s], s)
    invariant forall c: int, s: *gtfs.Service :: {s in row(rets)[c]} 0 <= c && c < $i && s in row(rets)[c] ==> s in ret
  loop 6
    modifies map[*gtfs.Service]processors.ServiceCompressed at ret
    invariant forall s: *gtfs.Service :: {ret[s]} s in ret ==> Reg(feed, s) && ComprS(ret[s], s)
    invariant forall s: *gtfs.Service :: {s in ret} atpre(s in ret) ==> s in ret
    invariant forall s: *gtfs.Service :: {visited(s)} visited(s) ==> s in ret


// chunks[h] lists, in some partition, exactly the services with hash h
pred ChunksOk(f: *gtfsparser.Feed, m: map[*gtfs.Service]processors.ServiceCompressed, ch: map[uint32][][]*gtfs.Service) := ch != nil
  && (forall h: uint32, c: int, i: int :: {row(row(ch[h])[c])[i]} h in ch && 0 <= c && c < len(ch[h]) && 0 <= i && i < len(row(ch[h])[c]) ==> Reg(f, row(row(ch[h])[c])[i]) && m[row(row(ch[h])[c])[i]].hash == h)
  && (forall h: uint32 :: {ch[h]} h in ch ==> off(ch[h]) == 0 && allocated(arr(ch[h])))
  && (forall h: uint32, c: int :: {row(ch[h])[c]} h in ch && 0 <= c && c < len(ch[h]) ==> off(row(ch[h])[c]) == 0)
  && (forall k: string :: {f.Services[k]} k in f.Services ==> m[f.Services[k]].hash in ch && (exists c: int, i: int :: {row(row(ch[m[f.Services[k]].hash])[c])[i]} 0 <= c && c < len(ch[m[f.Services[k]].hash]) && 0 <= i && i < len(row(ch[m[f.Services[k]].hash])[c]) && row(row(ch[m[f.Services[k]].hash])[c])[i] == f.Services[k]))

func processors.ServiceDuplicateRemover.getServiceChunks
  hide ActiveDef, WFValDef, EqRowDef, SameCalDef, ComprDef, EqCompDef
  requires ServicesWF(feed) && AmapsOk(feed, amaps)
  modifies nothing
  ensures fresh(result) && ChunksOk(feed, amaps, result)
  loop 1
    invariant services != nil && fresh(services) && allocated(services)
    invariant forall h: uint32 :: {services[h]} h in services ==> off(services[h]) == 0 && len(services[h]) > 0 && fresh(services[h]) && allocated(arr(services[h]))
    invariant local forall h: uint32, g: uint32 :: {services[h], services[g]} h in services && g in services && h != g ==> arr(services[h]) != arr(services[g])
    invariant forall h: uint32, i: int :: {row(services[h])[i]} h in services && 0 <= i && i < len(services[h]) ==> Reg(feed, row(services[h])[i]) && amaps[row(services[h])[i]].hash == h
    invariant forall k: string :: {feed.Services[k]} visited(k) ==> amaps[feed.Services[k]].hash in services && (exists i: int :: {row(services[amaps[feed.Services[k]].hash])[i]} 0 <= i && i < len(services[amaps[feed.Services[k]].hash]) && row(services[amaps[feed.Services[k]].hash])[i] == feed.Services[k])
    invariant chunks != nil && fresh(chunks) && chunks != services && (forall h: uint32 :: {h in chunks} !(h in chunks))
  loop 2
    modifies map[uint32][][]*gtfs.Service at chunks
    invariant forall h: uint32 :: {chunks[h]} h in chunks ==> off(chunks[h]) == 0 && len(chunks[h]) == numchunks && fresh(chunks[h]) && allocated(arr(chunks[h]))
    invariant forall h: uint32, c: int :: {row(chunks[h])[c]} h in chunks && 0 <= c && c < len(chunks[h]) ==> off(row(chunks[h])[c]) == 0 && (len(row(chunks[h])[c]) > 0 ==> fresh(row(chunks[h])[c]) && allocated(arr(row(chunks[h])[c])))
    invariant forall h: uint32, c: int, i: int :: {row(row(chunks[h])[c])[i]} h in chunks && 0 <= c && c < len(chunks[h]) && 0 <= i && i < len(row(chunks[h])[c]) ==> Reg(feed, row(row(chunks[h])[c])[i]) && amaps[row(row(chunks[h])[c])[i]].hash == h
    invariant forall h: uint32, i: int :: {row(services[h])[i]} visited(h) && 0 <= i && i < len(services[h]) ==> h in chunks && (exists c: int, j: int :: {row(row(chunks[h])[c])[j]} 0 <= c && c < len(chunks[h]) && 0 <= j && j < len(row(chunks[h])[c]) && row(row(chunks[h])[c])[j] == row(services[h])[i])
    invariant forall h: uint32 :: {h in chunks} h in chunks ==> visited(h)
  loop 3
    modifies [][]*gtfs.Service at arr(chunks[hash])
    invariant hash in chunks && hash in services && off(chunks[hash]) == 0 && len(chunks[hash]) == numchunks && fresh(chunks[hash]) && allocated(arr(chunks[hash]))
    invariant local 0 <= curchunk && curchunk <= numchunks && chunksize >= 0
    invariant local len(services[hash]) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks[hash])[curchunk]) && (len(row(chunks[hash])[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks[hash])[c]} curchunk < c && c < numchunks ==> len(row(chunks[hash])[c]) == 0
    invariant forall c: int :: {row(chunks[hash])[c]} 0 <= c && c < numchunks ==> off(row(chunks[hash])[c]) == 0 && (len(row(chunks[hash])[c]) == 0 && cap(row(chunks[hash])[c]) == 0 || len(row(chunks[hash])[c]) > 0 && freshloop(row(chunks[hash])[c]) && allocated(arr(row(chunks[hash])[c])))
    invariant local forall c: int, e: int :: {row(chunks[hash])[c], row(chunks[hash])[e]} 0 <= c && c < e && e < numchunks && len(row(chunks[hash])[c]) > 0 && len(row(chunks[hash])[e]) > 0 ==> arr(row(chunks[hash])[c]) != arr(row(chunks[hash])[e])
    invariant forall c: int, i: int :: {row(row(chunks[hash])[c])[i]} 0 <= c && c < numchunks && 0 <= i && i < len(row(chunks[hash])[c]) ==> Reg(feed, row(row(chunks[hash])[c])[i]) && amaps[row(row(chunks[hash])[c])[i]].hash == hash
    invariant forall i: int :: {row(services[hash])[i]} 0 <= i && i < $i ==> (exists c: int, j: int :: {row(row(chunks[hash])[c])[j]} 0 <= c && c < numchunks && 0 <= j && j < len(row(chunks[hash])[c]) && row(row(chunks[hash])[c])[j] == row(services[hash])[i])

func processors.ServiceDuplicateRemover.getEquivalentServices
  hide ActiveDef, WFValDef, EqRowDef, SameCalDef, ComprDef, EqCompDef
  requires serv != nil && off(chunks) == 0 && amaps != nil
  requires off(amaps[serv].activeMap) == 0
  requires forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0
  requires forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> off(amaps[row(row(chunks)[c])[i]].activeMap) == 0
  modifies nothing
  ensures off(result) == 0 && fresh(result)
  ensures forall j: int :: {row(result)[j]} 0 <= j && j < len(result) ==> row(result)[j] != serv && EqC(amaps[row(result)[j]], amaps[serv]) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(result)[j] == row(row(chunks)[c])[i])
  ensures forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != serv && EqC(amaps[row(row(chunks)[c])[i]], amaps[serv]) ==> (exists j: int :: {row(result)[j]} 0 <= j && j < len(result) && row(result)[j] == row(row(chunks)[c])[i])
  loop 1
    modifies [][]*gtfs.Service at arr(rets)
    invariant off(rets) == 0 && fresh(rets) && len(rets) == len(chunks) && allocated(arr(rets))
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) ==> off(row(rets)[c]) == 0 && allocated(arr(row(rets)[c])) && (cap(row(rets)[c]) == 0 || freshloop(row(rets)[c]))
    invariant forall c: int :: {row(rets)[c]} $i <= c && c < len(rets) ==> cap(row(rets)[c]) == 0
    invariant forall c: int, j: int :: {row(row(rets)[c])[j]} 0 <= c && c < $i && 0 <= j && j < len(row(rets)[c]) ==> row(row(rets)[c])[j] != serv && EqC(amaps[row(row(rets)[c])[j]], amaps[serv]) && (exists i: int :: {row(row(chunks)[c])[i]} 0 <= i && i < len(row(chunks)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != serv && EqC(amaps[row(row(chunks)[c])[i]], amaps[serv]) ==> (exists j: int :: {row(row(rets)[c])[j]} 0 <= j && j < len(row(rets)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
  loop 2
    modifies [][]*gtfs.Service at arr(rets)
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) && c != j ==> row(rets)[c] == atpre(row(rets)[c])
    invariant off(row(rets)[j]) == 0 && allocated(arr(row(rets)[j])) && (cap(row(rets)[j]) == 0 || freshloop(row(rets)[j]))
    invariant forall q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) ==> row(row(rets)[j])[q] != serv && EqC(amaps[row(row(rets)[j])[q]], amaps[serv]) && (exists i: int :: {row(chunk)[i]} 0 <= i && i < len(chunk) && row(row(rets)[j])[q] == row(chunk)[i])
    invariant forall i: int :: {row(chunk)[i]} 0 <= i && i < $i && row(chunk)[i] != serv && EqC(amaps[row(chunk)[i]], amaps[serv]) ==> (exists q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) && row(row(rets)[j])[q] == row(chunk)[i])
  loop 3
    invariant true
  loop 4
    modifies nothing
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret)) && (cap(ret) == 0 || freshloop(ret))
    invariant forall j: int :: {row(ret)[j]} 0 <= j && j < len(ret) ==> row(ret)[j] != serv && EqC(amaps[row(ret)[j]], amaps[serv]) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(ret)[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != serv && EqC(amaps[row(row(chunks)[c])[i]], amaps[serv]) ==> (exists j: int :: {row(ret)[j]} 0 <= j && j < len(ret) && row(ret)[j] == row(row(chunks)[c])[i])

func processors.ServiceDuplicateRemover.combineServices
  hide ActiveDef, WFValDef, EqRowDef, SameCalDef, ComprDef, EqCompDef
  requires feed != nil && feed.Services != nil && off(services) == 0 && len(services) > 0 && allocated(arr(services))
  requires forall i: int :: {row(services)[i]} 0 <= i && i < len(services) ==> Reg(feed, row(services)[i])
  requires forall s: *gtfs.Service :: {trips[s]} off(trips[s]) == 0
  requires forall s: *gtfs.Service, j: int :: {row(trips[s])[j]} 0 <= j && j < len(trips[s]) ==> row(trips[s])[j] != nil
  modifies gtfs.Trip.Service any
  modifies map[string]*gtfs.Service at feed.Services
  ensures exists r: int :: 0 <= r && r < len(services) && Reg(feed, row(services)[r])
    && (forall t: *gtfs.Trip :: {t.Service} t.Service == old(t.Service) || t.Service == row(services)[r] && (exists i: int :: {row(services)[i]} 0 <= i && i < len(services) && row(services)[i] == old(t.Service)))
    && (forall i: int, j: int :: {row(trips[row(services)[i]])[j]} 0 <= i && i < len(services) && row(services)[i] != row(services)[r] && 0 <= j && j < len(trips[row(services)[i]]) ==> row(trips[row(services)[i]])[j].Service != row(services)[i])
    && (forall k: string :: {k in feed.Services} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k]))
    && (forall k: string :: {k in feed.Services} old(k in feed.Services) && !(k in feed.Services) ==> (exists i: int :: {row(services)[i]} 0 <= i && i < len(services) && row(services)[i] != row(services)[r] && row(services)[i].id == k))
  loop 1
    invariant exists r: int :: {row(services)[r]} 0 <= r && r < len(services) && ref == row(services)[r]
  loop 2
    modifies gtfs.Trip.Service any
    modifies map[string]*gtfs.Service at feed.Services
    invariant Reg(feed, ref)
    invariant forall t: *gtfs.Trip :: {t.Service} t.Service == atpre(t.Service) || t.Service == ref && (exists i: int :: {row(services)[i]} 0 <= i && i < len(services) && row(services)[i] == atpre(t.Service))
    invariant forall i: int, j: int :: {row(trips[row(services)[i]])[j]} 0 <= i && i < $i && row(services)[i] != ref && 0 <= j && j < len(trips[row(services)[i]]) ==> row(trips[row(services)[i]])[j].Service != row(services)[i]
    invariant forall k: string :: {k in feed.Services} k in feed.Services ==> atpre(k in feed.Services) && feed.Services[k] == atpre(feed.Services[k])
    invariant forall k: string :: {k in feed.Services} atpre(k in feed.Services) && !(k in feed.Services) ==> (exists i: int :: {row(services)[i]} 0 <= i && i < len(services) && row(services)[i] != ref && row(services)[i].id == k)
  loop 3
    modifies gtfs.Trip.Service any
    invariant forall t: *gtfs.Trip :: {t.Service} t.Service == atpre(t.Service) || t.Service == ref && atpre(t.Service) == s
    invariant forall j: int :: {row(trips[s])[j]} 0 <= j && j < $i ==> row(trips[s])[j].Service != s

pred Orig(f: *gtfsparser.Feed, s: *gtfs.Service) := s != nil && old(s.id in f.Services) && old(f.Services[s.id]) == s

func processors.ServiceDuplicateRemover.Run
  hide ActiveDef, WFValDef, EqRowDef, SameCalDef, ComprDef, EqCompDef
  requires ServicesWF(feed) && feed.Trips != nil
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && Reg(feed, feed.Trips[k].Service)
  modifies gtfs.Trip.Service any
  modifies map[string]*gtfs.Service at feed.Services
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> Reg(feed, feed.Trips[k].Service) && SameS(feed.Trips[k].Service, old(feed.Trips[k].Service))
  ensures forall k: string :: {k in feed.Services} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k])
  ensures forall k: string :: {k in feed.Services} old(k in feed.Services) && !(k in feed.Services) ==> (exists l: string :: {l in feed.Services} l in feed.Services && SameS(old(feed.Services[k]), feed.Services[l]))
  loop 1
    modifies map[*gtfs.Service][]*gtfs.Trip at trips
    invariant trips != nil && fresh(trips) && allocated(trips)
    invariant forall s: *gtfs.Service :: {trips[s]} off(trips[s]) == 0 && (len(trips[s]) > 0 ==> freshloop(trips[s]) && allocated(arr(trips[s])))
    invariant local forall s: *gtfs.Service :: {trips[s]} len(trips[s]) == 0 ==> cap(trips[s]) == 0
    invariant local forall s: *gtfs.Service, u: *gtfs.Service :: {trips[s], trips[u]} s != u && len(trips[s]) > 0 && len(trips[u]) > 0 ==> arr(trips[s]) != arr(trips[u])
    invariant forall s: *gtfs.Service, j: int :: {row(trips[s])[j]} 0 <= j && j < len(trips[s]) ==> row(trips[s])[j] != nil
    invariant forall k: string :: {feed.Trips[k]} visited(k) ==> (exists j: int :: {row(trips[feed.Trips[k].Service])[j]} 0 <= j && j < len(trips[feed.Trips[k].Service]) && row(trips[feed.Trips[k].Service])[j] == feed.Trips[k])
    invariant fresh(proced) && proced != nil && (forall s: *gtfs.Service :: {s in proced} !(s in proced))
  loop 2
    modifies gtfs.Trip.Service any
    modifies map[string]*gtfs.Service at feed.Services
    modifies map[*gtfs.Service]bool at proced
    invariant forall k: string :: {k in feed.Services} {feed.Services[k]} k in feed.Services ==> old(k in feed.Services) && feed.Services[k] == old(feed.Services[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips ==> Reg(feed, feed.Trips[k].Service) && Cls(amaps, feed.Trips[k].Service, old(feed.Trips[k].Service))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !(feed.Trips[k].Service in proced) ==> feed.Trips[k].Service == old(feed.Trips[k].Service)
    invariant forall k: string, l: string :: {old(feed.Services[k]), old(feed.Services[l])} old(k in feed.Services) && old(l in feed.Services) && Cls(amaps, old(feed.Services[k]), old(feed.Services[l])) && old(feed.Services[k]) in proced ==> old(feed.Services[l]) in proced
    invariant forall k: string :: {k in feed.Services} old(k in feed.Services) && !(k in feed.Services) ==> old(feed.Services[k]) in proced && (exists l: string :: {l in feed.Services} l in feed.Services && feed.Services[l] in proced && Cls(amaps, old(feed.Services[k]), feed.Services[l]))
  loop 3
    modifies map[*gtfs.Service]bool at proced
    assert forall i: int :: {row(eqServices)[i]} 0 <= i && i < len(eqServices) ==> Orig(feed, row(eqServices)[i]) && Cls(amaps, row(eqServices)[i], s#1)
    assert exists l: string :: {l in feed.Services} l in feed.Services && Cls(amaps, s#1, feed.Services[l]) && (feed.Services[l] == s#1 || (exists i: int :: {row(eqServices)[i]} 0 <= i && i < len(eqServices) && row(eqServices)[i] == feed.Services[l]))
    assert forall k: string :: {k in feed.Services} old(k in feed.Services) && !(k in feed.Services) ==> old(feed.Services[k]) in proced || Cls(amaps, old(feed.Services[k]), s#1)
    assert forall i: int :: {row(eqServices)[i]} 0 <= i && i < len(eqServices) ==> !(row(eqServices)[i] in proced)
    assert forall k: string :: {k in feed.Services} old(k in feed.Services) && old(feed.Services[k]) in proced && !(k in feed.Services) ==> (exists l: string :: {l in feed.Services} l in feed.Services && feed.Services[l] in proced && Cls(amaps, old(feed.Services[k]), feed.Services[l]))
    assert forall k: string :: {k in feed.Services} old(k in feed.Services) && !(k in feed.Services) ==> (exists l: string :: {l in feed.Services} l in feed.Services && (feed.Services[l] in proced || feed.Services[l] == s#1 || (exists i: int :: {row(eqServices)[i]} 0 <= i && i < len(eqServices) && row(eqServices)[i] == feed.Services[l])) && Cls(amaps, old(feed.Services[k]), feed.Services[l]))
    invariant forall x: *gtfs.Service :: {x in proced} atpre(x in proced) ==> x in proced
    invariant forall i: int :: {row(eqServices)[i]} 0 <= i && i < $i ==> row(eqServices)[i] in proced
    invariant forall x: *gtfs.Service :: {x in proced} x in proced && !atpre(x in proced) ==> (exists i: int :: {row(eqServices)[i]} 0 <= i && i < len(eqServices) && row(eqServices)[i] == x)
