property C05 processors.AgencyDuplicateRemover.Run
assumes agencies registered under their ID; the agency of every route and fare attribute is registered

pred UrlEq(a: *url.URL, b: *url.URL) := a == b || a != nil && b != nil && deref(a) == deref(b)
pred MailEq(a: *mail.Address, b: *mail.Address) := a == b || a != nil && b != nil && deref(a) == deref(b)
pred AgEq(f: *gtfsparser.Feed, a: *gtfs.Agency, b: *gtfs.Agency) := a.Name == b.Name && UrlEq(a.Url, b.Url) && a.Timezone.tz == b.Timezone.tz && a.Lang == b.Lang && a.Phone == b.Phone && UrlEq(a.Fare_url, b.Fare_url) && MailEq(a.Email, b.Email)
  && (forall g: string :: {f.AgenciesAddFlds[g]} g in f.AgenciesAddFlds ==> f.AgenciesAddFlds[g][a.Id] == f.AgenciesAddFlds[g][b.Id])
// agreement in all of this when Run begins
ufun Same(*gtfs.Agency, *gtfs.Agency): bool
fun H(a: *gtfs.Agency) := stable("processors.AgencyDuplicateRemover.agencyHash", a)
pred Cls(a: *gtfs.Agency, b: *gtfs.Agency) := H(a) == H(b) && Same(a, b)
pred Reg(f: *gtfsparser.Feed, s: *gtfs.Agency) := s != nil && s.Id in f.Agencies && f.Agencies[s.Id] == s
pred In(f: *gtfsparser.Feed, s: *gtfs.Agency) := s.Id in f.Agencies
pred AgenciesWF(f: *gtfsparser.Feed) := f != nil && f.Agencies != nil && (forall k: string :: {f.Agencies[k]} k in f.Agencies ==> f.Agencies[k] != nil && f.Agencies[k].Id == k)
pred ChunksOk(f: *gtfsparser.Feed, ch: map[uint32][][]*gtfs.Agency) := ch != nil
  && (forall h: uint32, c: int, i: int :: {row(row(ch[h])[c])[i]} h in ch && 0 <= c && c < len(ch[h]) && 0 <= i && i < len(row(ch[h])[c]) ==> Reg(f, row(row(ch[h])[c])[i]) && H(row(row(ch[h])[c])[i]) == h)
  && (forall h: uint32 :: {ch[h]} h in ch ==> off(ch[h]) == 0 && allocated(arr(ch[h])))
  && (forall h: uint32, c: int :: {row(ch[h])[c]} h in ch && 0 <= c && c < len(ch[h]) ==> off(row(ch[h])[c]) == 0)
  && (forall k: string :: {f.Agencies[k]} k in f.Agencies ==> H(f.Agencies[k]) in ch && (exists c: int, i: int :: {row(row(ch[H(f.Agencies[k])])[c])[i]} 0 <= c && c < len(ch[H(f.Agencies[k])]) && 0 <= i && i < len(row(ch[H(f.Agencies[k])])[c]) && row(row(ch[H(f.Agencies[k])])[c])[i] == f.Agencies[k]))

func processors.AgencyDuplicateRemover.agencyHash
  requires a != nil
  modifies nothing
  stable

func processors.AgencyDuplicateRemover.agencyEquals
  requires a != nil && b != nil && feed != nil
  modifies nothing
  ensures result <==> AgEq(feed, a, b)
  loop 1
    invariant addFldsEq && (forall g: string :: {visited(g)} visited(g) ==> feed.AgenciesAddFlds[g][a.Id] == feed.AgenciesAddFlds[g][b.Id])

func processors.AgencyDuplicateRemover.getAgencyChunks
  requires AgenciesWF(feed)
  modifies nothing
  ensures fresh(result) && ChunksOk(feed, result)
  loop 1
    invariant agencies != nil && fresh(agencies) && allocated(agencies)
    invariant forall h: uint32 :: {agencies[h]} h in agencies ==> off(agencies[h]) == 0 && len(agencies[h]) > 0 && fresh(agencies[h]) && allocated(arr(agencies[h]))
    invariant local forall h: uint32, g: uint32 :: {agencies[h], agencies[g]} h in agencies && g in agencies && h != g ==> arr(agencies[h]) != arr(agencies[g])
    invariant forall h: uint32, i: int :: {row(agencies[h])[i]} h in agencies && 0 <= i && i < len(agencies[h]) ==> Reg(feed, row(agencies[h])[i]) && H(row(agencies[h])[i]) == h
    invariant forall k: string :: {feed.Agencies[k]} visited(k) ==> H(feed.Agencies[k]) in agencies && (exists i: int :: {row(agencies[H(feed.Agencies[k])])[i]} 0 <= i && i < len(agencies[H(feed.Agencies[k])]) && row(agencies[H(feed.Agencies[k])])[i] == feed.Agencies[k])
    invariant chunks != nil && fresh(chunks) && chunks != agencies && (forall h: uint32 :: {h in chunks} !(h in chunks))
  loop 2
    modifies map[uint32][][]*gtfs.Agency at chunks
    invariant forall h: uint32 :: {chunks[h]} h in chunks ==> off(chunks[h]) == 0 && len(chunks[h]) == numchunks && fresh(chunks[h]) && allocated(arr(chunks[h]))
    invariant forall h: uint32, c: int :: {row(chunks[h])[c]} h in chunks && 0 <= c && c < len(chunks[h]) ==> off(row(chunks[h])[c]) == 0 && (len(row(chunks[h])[c]) > 0 ==> fresh(row(chunks[h])[c]) && allocated(arr(row(chunks[h])[c])))
    invariant forall h: uint32, c: int, i: int :: {row(row(chunks[h])[c])[i]} h in chunks && 0 <= c && c < len(chunks[h]) && 0 <= i && i < len(row(chunks[h])[c]) ==> Reg(feed, row(row(chunks[h])[c])[i]) && H(row(row(chunks[h])[c])[i]) == h
    invariant forall h: uint32, i: int :: {row(agencies[h])[i]} visited(h) && 0 <= i && i < len(agencies[h]) ==> h in chunks && (exists c: int, j: int :: {row(row(chunks[h])[c])[j]} 0 <= c && c < len(chunks[h]) && 0 <= j && j < len(row(chunks[h])[c]) && row(row(chunks[h])[c])[j] == row(agencies[h])[i])
    invariant forall h: uint32 :: {h in chunks} h in chunks ==> visited(h)
  loop 3
    modifies [][]*gtfs.Agency at arr(chunks[hash])
    invariant hash in chunks && hash in agencies && off(chunks[hash]) == 0 && len(chunks[hash]) == numchunks && fresh(chunks[hash]) && allocated(arr(chunks[hash]))
    invariant local 0 <= curchunk && curchunk <= numchunks && chunksize >= 0
    invariant local len(agencies[hash]) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks[hash])[curchunk]) && (len(row(chunks[hash])[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks[hash])[c]} curchunk < c && c < numchunks ==> len(row(chunks[hash])[c]) == 0
    invariant forall c: int :: {row(chunks[hash])[c]} 0 <= c && c < numchunks ==> off(row(chunks[hash])[c]) == 0 && (len(row(chunks[hash])[c]) == 0 && cap(row(chunks[hash])[c]) == 0 || len(row(chunks[hash])[c]) > 0 && freshloop(row(chunks[hash])[c]) && allocated(arr(row(chunks[hash])[c])))
    invariant local forall c: int, e: int :: {row(chunks[hash])[c], row(chunks[hash])[e]} 0 <= c && c < e && e < numchunks && len(row(chunks[hash])[c]) > 0 && len(row(chunks[hash])[e]) > 0 ==> arr(row(chunks[hash])[c]) != arr(row(chunks[hash])[e])
    invariant forall c: int, i: int :: {row(row(chunks[hash])[c])[i]} 0 <= c && c < numchunks && 0 <= i && i < len(row(chunks[hash])[c]) ==> Reg(feed, row(row(chunks[hash])[c])[i]) && H(row(row(chunks[hash])[c])[i]) == hash
    invariant forall i: int :: {row(agencies[hash])[i]} 0 <= i && i < $i ==> (exists c: int, j: int :: {row(row(chunks[hash])[c])[j]} 0 <= c && c < numchunks && 0 <= j && j < len(row(chunks[hash])[c]) && row(row(chunks[hash])[c])[j] == row(agencies[hash])[i])

func processors.AgencyDuplicateRemover.getEquivalentAgencies
  requires agency != nil && feed != nil && off(chunks) == 0
  requires forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0
  requires forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != nil && (In(feed, row(row(chunks)[c])[i]) ==> (Same(row(row(chunks)[c])[i], agency) <==> AgEq(feed, row(row(chunks)[c])[i], agency)))
  modifies nothing
  ensures off(result) == 0 && fresh(result)
  ensures forall j: int :: {row(result)[j]} 0 <= j && j < len(result) ==> row(result)[j] != agency && In(feed, row(result)[j]) && Same(row(result)[j], agency) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(result)[j] == row(row(chunks)[c])[i])
  ensures forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != agency && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], agency) ==> (exists j: int :: {row(result)[j]} 0 <= j && j < len(result) && row(result)[j] == row(row(chunks)[c])[i])
  loop 1
    modifies [][]*gtfs.Agency at arr(rets)
    invariant off(rets) == 0 && fresh(rets) && len(rets) == len(chunks) && allocated(arr(rets))
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) ==> off(row(rets)[c]) == 0 && allocated(arr(row(rets)[c])) && (cap(row(rets)[c]) == 0 || freshloop(row(rets)[c]))
    invariant forall c: int :: {row(rets)[c]} $i <= c && c < len(rets) ==> cap(row(rets)[c]) == 0
    invariant forall c: int, j: int :: {row(row(rets)[c])[j]} 0 <= c && c < $i && 0 <= j && j < len(row(rets)[c]) ==> row(row(rets)[c])[j] != agency && In(feed, row(row(rets)[c])[j]) && Same(row(row(rets)[c])[j], agency) && (exists i: int :: {row(row(chunks)[c])[i]} 0 <= i && i < len(row(chunks)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != agency && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], agency) ==> (exists j: int :: {row(row(rets)[c])[j]} 0 <= j && j < len(row(rets)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
  loop 2
    modifies [][]*gtfs.Agency at arr(rets)
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) && c != j ==> row(rets)[c] == atpre(row(rets)[c])
    invariant off(row(rets)[j]) == 0 && allocated(arr(row(rets)[j])) && (cap(row(rets)[j]) == 0 || freshloop(row(rets)[j]))
    invariant forall q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) ==> row(row(rets)[j])[q] != agency && In(feed, row(row(rets)[j])[q]) && Same(row(row(rets)[j])[q], agency) && (exists i: int :: {row(chunk)[i]} 0 <= i && i < len(chunk) && row(row(rets)[j])[q] == row(chunk)[i])
    invariant forall i: int :: {row(chunk)[i]} 0 <= i && i < $i && row(chunk)[i] != agency && In(feed, row(chunk)[i]) && Same(row(chunk)[i], agency) ==> (exists q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) && row(row(rets)[j])[q] == row(chunk)[i])
  loop 3
    invariant true
  loop 4
    modifies nothing
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret)) && (cap(ret) == 0 || freshloop(ret))
    invariant forall j: int :: {row(ret)[j]} 0 <= j && j < len(ret) ==> row(ret)[j] != agency && In(feed, row(ret)[j]) && Same(row(ret)[j], agency) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(ret)[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != agency && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], agency) ==> (exists j: int :: {row(ret)[j]} 0 <= j && j < len(ret) && row(ret)[j] == row(row(chunks)[c])[i])

func processors.AgencyDuplicateRemover.combineAgencies
  requires feed != nil && feed.Agencies != nil && off(agencies) == 0 && len(agencies) > 0 && allocated(arr(agencies))
  requires forall i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) ==> Reg(feed, row(agencies)[i])
  requires forall a: *gtfs.Agency :: {routes[a]} off(routes[a]) == 0
  requires forall a: *gtfs.Agency, j: int :: {row(routes[a])[j]} 0 <= j && j < len(routes[a]) ==> row(routes[a])[j] != nil
  requires forall a: *gtfs.Agency :: {fareattrs[a]} off(fareattrs[a]) == 0
  requires forall a: *gtfs.Agency, j: int :: {row(fareattrs[a])[j]} 0 <= j && j < len(fareattrs[a]) ==> row(fareattrs[a])[j] != nil
  modifies gtfs.Route.Agency any
  modifies gtfs.FareAttribute.Agency any
  modifies gtfs.Agency.Attributions any
  modifies []*gtfs.Attribution any
  modifies map[string]string any
  modifies map[string]*gtfs.Agency at feed.Agencies
  ensures exists r: int :: 0 <= r && r < len(agencies) && Reg(feed, row(agencies)[r])
    && (forall t: *gtfs.Route :: {t.Agency} t.Agency == old(t.Agency) || t.Agency == row(agencies)[r] && (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] == old(t.Agency)))
    && (forall i: int, j: int :: {row(routes[row(agencies)[i]])[j]} 0 <= i && i < len(agencies) && row(agencies)[i] != row(agencies)[r] && 0 <= j && j < len(routes[row(agencies)[i]]) ==> row(routes[row(agencies)[i]])[j].Agency != row(agencies)[i])
    && (forall t: *gtfs.FareAttribute :: {t.Agency} t.Agency == old(t.Agency) || t.Agency == row(agencies)[r] && (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] == old(t.Agency)))
    && (forall i: int, j: int :: {row(fareattrs[row(agencies)[i]])[j]} 0 <= i && i < len(agencies) && row(agencies)[i] != row(agencies)[r] && 0 <= j && j < len(fareattrs[row(agencies)[i]]) ==> row(fareattrs[row(agencies)[i]])[j].Agency != row(agencies)[i])
    && (forall k: string :: {k in feed.Agencies} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k]))
    && (forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && !(k in feed.Agencies) ==> (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] != row(agencies)[r] && row(agencies)[i].Id == k))
  ensures forall m: map[string]string, k: string :: {m[k]} k in feed.Agencies ==> m[k] == old(m[k])
  loop 1
    invariant exists r: int :: {row(agencies)[r]} 0 <= r && r < len(agencies) && ref == row(agencies)[r]
  loop 2
    modifies gtfs.Route.Agency any
    modifies gtfs.FareAttribute.Agency any
    modifies gtfs.Agency.Attributions any
    modifies []*gtfs.Attribution any
    modifies map[string]string any
    modifies map[string]*gtfs.Agency at feed.Agencies
    invariant Reg(feed, ref)
    invariant forall t: *gtfs.Route :: {t.Agency} t.Agency == atpre(t.Agency) || t.Agency == ref && (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] == atpre(t.Agency))
    invariant forall i: int, j: int :: {row(routes[row(agencies)[i]])[j]} 0 <= i && i < $i && row(agencies)[i] != ref && 0 <= j && j < len(routes[row(agencies)[i]]) ==> row(routes[row(agencies)[i]])[j].Agency != row(agencies)[i]
    invariant forall t: *gtfs.FareAttribute :: {t.Agency} t.Agency == atpre(t.Agency) || t.Agency == ref && (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] == atpre(t.Agency))
    invariant forall i: int, j: int :: {row(fareattrs[row(agencies)[i]])[j]} 0 <= i && i < $i && row(agencies)[i] != ref && 0 <= j && j < len(fareattrs[row(agencies)[i]]) ==> row(fareattrs[row(agencies)[i]])[j].Agency != row(agencies)[i]
    invariant forall k: string :: {k in feed.Agencies} k in feed.Agencies ==> atpre(k in feed.Agencies) && feed.Agencies[k] == atpre(feed.Agencies[k])
    invariant forall k: string :: {k in feed.Agencies} atpre(k in feed.Agencies) && !(k in feed.Agencies) ==> (exists i: int :: {row(agencies)[i]} 0 <= i && i < len(agencies) && row(agencies)[i] != ref && row(agencies)[i].Id == k)
    invariant forall m: map[string]string, k: string :: {m[k]} k in feed.Agencies ==> m[k] == atpre(m[k])
  loop 3
    modifies gtfs.Route.Agency any
    invariant forall t: *gtfs.Route :: {t.Agency} t.Agency == atpre(t.Agency) || t.Agency == ref && atpre(t.Agency) == a
    invariant forall j: int :: {row(routes[a])[j]} 0 <= j && j < $i ==> row(routes[a])[j].Agency != a
  loop 4
    modifies gtfs.Agency.Attributions any
    modifies []*gtfs.Attribution any
    invariant true
  loop 5
    modifies gtfs.FareAttribute.Agency any
    invariant forall t: *gtfs.FareAttribute :: {t.Agency} t.Agency == atpre(t.Agency) || t.Agency == ref && atpre(t.Agency) == a
    invariant forall j: int :: {row(fareattrs[a])[j]} 0 <= j && j < $i ==> row(fareattrs[a])[j].Agency != a

pred Orig(f: *gtfsparser.Feed, s: *gtfs.Agency) := s != nil && old(s.Id in f.Agencies) && old(f.Agencies[s.Id]) == s

func processors.AgencyDuplicateRemover.Run
  requires AgenciesWF(feed) && feed.Routes != nil && feed.FareAttributes != nil
  requires forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k] != nil && (feed.Routes[k].Agency != nil ==> Reg(feed, feed.Routes[k].Agency))
  requires forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes ==> feed.FareAttributes[k] != nil && (feed.FareAttributes[k].Agency != nil ==> Reg(feed, feed.FareAttributes[k].Agency))
  requires forall a: *gtfs.Agency, b: *gtfs.Agency :: {Same(a, b)} Same(a, b) <==> AgEq(feed, a, b)
  modifies gtfs.Route.Agency any
  modifies gtfs.FareAttribute.Agency any
  modifies gtfs.Agency.Attributions any
  modifies []*gtfs.Attribution any
  modifies map[string]string any
  modifies map[string]*gtfs.Agency at feed.Agencies
  ensures forall k: string :: {feed.Routes[k]} k in feed.Routes && old(feed.Routes[k].Agency) != nil ==> Reg(feed, feed.Routes[k].Agency) && Same(feed.Routes[k].Agency, old(feed.Routes[k].Agency))
  ensures forall k: string :: {feed.Routes[k]} k in feed.Routes && old(feed.Routes[k].Agency) == nil ==> feed.Routes[k].Agency == nil
  ensures forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && old(feed.FareAttributes[k].Agency) != nil ==> Reg(feed, feed.FareAttributes[k].Agency) && Same(feed.FareAttributes[k].Agency, old(feed.FareAttributes[k].Agency))
  ensures forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && old(feed.FareAttributes[k].Agency) == nil ==> feed.FareAttributes[k].Agency == nil
  ensures forall k: string :: {k in feed.Agencies} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k])
  ensures forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && !(k in feed.Agencies) ==> (exists l: string :: {l in feed.Agencies} l in feed.Agencies && Same(old(feed.Agencies[k]), feed.Agencies[l]))
  ensures forall g: string, k: string :: {feed.AgenciesAddFlds[g][k]} k in feed.Agencies && g in feed.AgenciesAddFlds ==> feed.AgenciesAddFlds[g][k] == old(feed.AgenciesAddFlds[g][k])
  loop 1
    modifies map[*gtfs.Agency][]*gtfs.Route at routes
    invariant routes != nil && fresh(routes) && allocated(routes)
    invariant forall s: *gtfs.Agency :: {routes[s]} off(routes[s]) == 0 && (len(routes[s]) > 0 ==> freshloop(routes[s]) && allocated(arr(routes[s])))
    invariant local forall s: *gtfs.Agency :: {routes[s]} len(routes[s]) == 0 ==> cap(routes[s]) == 0
    invariant local forall s: *gtfs.Agency, u: *gtfs.Agency :: {routes[s], routes[u]} s != u && len(routes[s]) > 0 && len(routes[u]) > 0 ==> arr(routes[s]) != arr(routes[u])
    invariant forall s: *gtfs.Agency, j: int :: {row(routes[s])[j]} 0 <= j && j < len(routes[s]) ==> row(routes[s])[j] != nil
    invariant forall k: string :: {feed.Routes[k]} visited(k) ==> (exists j: int :: {row(routes[feed.Routes[k].Agency])[j]} 0 <= j && j < len(routes[feed.Routes[k].Agency]) && row(routes[feed.Routes[k].Agency])[j] == feed.Routes[k])
    invariant fresh(proced) && proced != nil && (forall s: *gtfs.Agency :: {s in proced} !(s in proced))
    invariant fareattrs != nil && fresh(fareattrs) && (forall s: *gtfs.Agency :: {fareattrs[s]} len(fareattrs[s]) == 0 && cap(fareattrs[s]) == 0 && off(fareattrs[s]) == 0)
  loop 2
    modifies map[*gtfs.Agency][]*gtfs.FareAttribute at fareattrs
    invariant fareattrs != nil && fresh(fareattrs) && allocated(fareattrs)
    invariant forall s: *gtfs.Agency :: {fareattrs[s]} off(fareattrs[s]) == 0 && (len(fareattrs[s]) > 0 ==> freshloop(fareattrs[s]) && allocated(arr(fareattrs[s])))
    invariant local forall s: *gtfs.Agency :: {fareattrs[s]} len(fareattrs[s]) == 0 ==> cap(fareattrs[s]) == 0
    invariant local forall s: *gtfs.Agency, u: *gtfs.Agency :: {fareattrs[s], fareattrs[u]} s != u && len(fareattrs[s]) > 0 && len(fareattrs[u]) > 0 ==> arr(fareattrs[s]) != arr(fareattrs[u])
    invariant forall s: *gtfs.Agency, j: int :: {row(fareattrs[s])[j]} 0 <= j && j < len(fareattrs[s]) ==> row(fareattrs[s])[j] != nil
    invariant forall k: string :: {feed.FareAttributes[k]} visited(k) ==> (exists j: int :: {row(fareattrs[feed.FareAttributes[k].Agency])[j]} 0 <= j && j < len(fareattrs[feed.FareAttributes[k].Agency]) && row(fareattrs[feed.FareAttributes[k].Agency])[j] == feed.FareAttributes[k])
  loop 3
    modifies gtfs.Route.Agency any
    modifies gtfs.FareAttribute.Agency any
    modifies gtfs.Agency.Attributions any
    modifies []*gtfs.Attribution any
    modifies map[string]string any
    modifies map[string]*gtfs.Agency at feed.Agencies
    modifies map[*gtfs.Agency]bool at proced
    assert forall a: *gtfs.Agency, b: *gtfs.Agency :: {Same(a, b)} Same(a, b) ==> Same(b, a)
    assert forall a: *gtfs.Agency, b: *gtfs.Agency, c: *gtfs.Agency :: {Same(a, b), Same(b, c)} Same(a, b) && Same(b, c) ==> Same(a, c)
    assert forall a: *gtfs.Agency :: {Same(a, a)} Same(a, a)
    invariant forall m: map[string]string, k: string :: {m[k]} k in feed.Agencies ==> m[k] == atpre(m[k])
    invariant forall k: string :: {k in feed.Agencies} {feed.Agencies[k]} k in feed.Agencies ==> old(k in feed.Agencies) && feed.Agencies[k] == old(feed.Agencies[k])
    invariant forall k: string :: {feed.Routes[k]} k in feed.Routes && old(feed.Routes[k].Agency) != nil ==> Reg(feed, feed.Routes[k].Agency) && Cls(feed.Routes[k].Agency, old(feed.Routes[k].Agency))
    invariant forall k: string :: {feed.Routes[k]} k in feed.Routes && !(feed.Routes[k].Agency in proced) ==> feed.Routes[k].Agency == old(feed.Routes[k].Agency)
    invariant forall k: string :: {feed.Routes[k]} k in feed.Routes && old(feed.Routes[k].Agency) == nil ==> feed.Routes[k].Agency == nil
    invariant forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && old(feed.FareAttributes[k].Agency) != nil ==> Reg(feed, feed.FareAttributes[k].Agency) && Cls(feed.FareAttributes[k].Agency, old(feed.FareAttributes[k].Agency))
    invariant forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && !(feed.FareAttributes[k].Agency in proced) ==> feed.FareAttributes[k].Agency == old(feed.FareAttributes[k].Agency)
    invariant forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && old(feed.FareAttributes[k].Agency) == nil ==> feed.FareAttributes[k].Agency == nil
    invariant forall k: string, l: string :: {old(feed.Agencies[k]), old(feed.Agencies[l])} old(k in feed.Agencies) && old(l in feed.Agencies) && Cls(old(feed.Agencies[k]), old(feed.Agencies[l])) && old(feed.Agencies[k]) in proced ==> old(feed.Agencies[l]) in proced
    invariant forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && !(k in feed.Agencies) ==> old(feed.Agencies[k]) in proced && (exists l: string :: {l in feed.Agencies} l in feed.Agencies && feed.Agencies[l] in proced && Cls(old(feed.Agencies[k]), feed.Agencies[l]))
  loop 4
    modifies map[*gtfs.Agency]bool at proced
    assert forall i: int :: {row(eqAgencies)[i]} 0 <= i && i < len(eqAgencies) ==> Orig(feed, row(eqAgencies)[i]) && Cls(row(eqAgencies)[i], a#1)
    assert exists l: string :: {l in feed.Agencies} l in feed.Agencies && Cls(a#1, feed.Agencies[l]) && (feed.Agencies[l] == a#1 || (exists i: int :: {row(eqAgencies)[i]} 0 <= i && i < len(eqAgencies) && row(eqAgencies)[i] == feed.Agencies[l]))
    assert forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && !(k in feed.Agencies) ==> old(feed.Agencies[k]) in proced || Cls(old(feed.Agencies[k]), a#1)
    assert forall i: int :: {row(eqAgencies)[i]} 0 <= i && i < len(eqAgencies) ==> !(row(eqAgencies)[i] in proced)
    assert forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && old(feed.Agencies[k]) in proced && !(k in feed.Agencies) ==> (exists l: string :: {l in feed.Agencies} l in feed.Agencies && feed.Agencies[l] in proced && Cls(old(feed.Agencies[k]), feed.Agencies[l]))
    assert forall k: string :: {k in feed.Agencies} old(k in feed.Agencies) && !(k in feed.Agencies) ==> (exists l: string :: {l in feed.Agencies} l in feed.Agencies && (feed.Agencies[l] in proced || feed.Agencies[l] == a#1 || (exists i: int :: {row(eqAgencies)[i]} 0 <= i && i < len(eqAgencies) && row(eqAgencies)[i] == feed.Agencies[l])) && Cls(old(feed.Agencies[k]), feed.Agencies[l]))
    invariant forall x: *gtfs.Agency :: {x in proced} atpre(x in proced) ==> x in proced
    invariant forall i: int :: {row(eqAgencies)[i]} 0 <= i && i < $i ==> row(eqAgencies)[i] in proced
    invariant forall x: *gtfs.Agency :: {x in proced} x in proced && !atpre(x in proced) ==> (exists i: int :: {row(eqAgencies)[i]} 0 <= i && i < len(eqAgencies) && row(eqAgencies)[i] == x)
