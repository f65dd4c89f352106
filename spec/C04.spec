property C04 processors.RouteDuplicateRemover.Run
assumes routes and fare attributes registered under their ID, the route of every trip registered

pred RtEq(f: *gtfsparser.Feed, a: *gtfs.Route, b: *gtfs.Route) := a.Agency == b.Agency && a.Short_name == b.Short_name && a.Long_name == b.Long_name && a.Desc == b.Desc && a.Type == b.Type
  && a.Continuous_drop_off == b.Continuous_drop_off && a.Continuous_pickup == b.Continuous_pickup && a.Color == b.Color && a.Text_color == b.Text_color
  && (a.Url == b.Url || a.Url != nil && b.Url != nil && urlString(a.Url) == urlString(b.Url))
  && (forall g: string :: {f.RoutesAddFlds[g]} g in f.RoutesAddFlds ==> f.RoutesAddFlds[g][a.Id] == f.RoutesAddFlds[g][b.Id])
// agreement in all of this when Run begins
ufun Same(*gtfs.Route, *gtfs.Route): bool
fun H(a: *gtfs.Route) := stable("processors.RouteDuplicateRemover.routeHash", a)

// fare rules: route, and a number for origin, destination and contained zone; neither is modified
ufun FR(*gtfs.FareAttributeRule): *gtfs.Route
ufun Kind(*gtfs.FareAttributeRule): int
pred RulesFixed() := (forall p: *gtfs.FareAttributeRule :: {p.Route} p.Route == FR(p))
  && (forall p: *gtfs.FareAttributeRule, q: *gtfs.FareAttributeRule :: {Kind(p), Kind(q)} Kind(p) == Kind(q) <==> p.Origin_id == q.Origin_id && p.Destination_id == q.Destination_id && p.Contains_id == q.Contains_id)
// how many of the first n rules are of route r, by kind
ufun Cnt(seq[*gtfs.FareAttributeRule], int, *gtfs.Route): fn[int, int]
ufun Step(seq[*gtfs.FareAttributeRule], int): bool
axiom StepTrue := forall s: seq[*gtfs.FareAttributeRule], n: int :: {Step(s, n)} Step(s, n)
axiom CntZero := forall s: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int :: {Cnt(s, n, r)[k]} n <= 0 ==> Cnt(s, n, r)[k] == 0
axiom CntStep := forall s: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int :: {Step(s, n), Cnt(s, n, r)[k]} {Step(s, n), Cnt(s, n - 1, r)[k]} n >= 1 ==>
  Cnt(s, n, r)[k] == Cnt(s, n - 1, r)[k] + (if FR(s[n - 1]) == r && Kind(s[n - 1]) == k then 1 else 0)
lemma CntPos induction n := forall s: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int :: {Cnt(s, n, r)[k]} Step(s, n) ==> Cnt(s, n, r)[k] >= 0
lemma CntSame induction n := forall s: seq[*gtfs.FareAttributeRule], t: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int :: {Cnt(s, n, r)[k], Cnt(t, n, r)[k]}
  Step(s, n) && Step(t, n) && (forall j: int :: {s[j]} {t[j]} 0 <= j && j < n ==> s[j] == t[j]) ==> Cnt(s, n, r)[k] == Cnt(t, n, r)[k]
lemma CntNone induction n := forall s: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int :: {Cnt(s, n, r)[k]}
  Step(s, n) && (forall j: int :: {s[j]} 0 <= j && j < n ==> !(FR(s[j]) == r && Kind(s[j]) == k)) ==> Cnt(s, n, r)[k] == 0
lemma CntSome induction n := forall s: seq[*gtfs.FareAttributeRule], n: int, r: *gtfs.Route, k: int, j: int :: {Cnt(s, n, r)[k], s[j]}
  Step(s, n) && 0 <= j && j < n && FR(s[j]) == r && Kind(s[j]) == k ==> Cnt(s, n, r)[k] >= 1
// t is s without s[i]
ufun Without(seq[*gtfs.FareAttributeRule], seq[*gtfs.FareAttributeRule], int, int): bool
axiom WithoutDef := forall s: seq[*gtfs.FareAttributeRule], t: seq[*gtfs.FareAttributeRule], i: int, n: int :: {Without(s, t, i, n)}
  Without(s, t, i, n) == (forall j: int :: {t[j]} 0 <= j && j < n ==> t[j] == (if j < i then s[j] else s[j + 1]))
lemma CntDelLow induction m := forall s: seq[*gtfs.FareAttributeRule], t: seq[*gtfs.FareAttributeRule], i: int, n: int, m: int, r: *gtfs.Route, k: int :: {Without(s, t, i, n), Cnt(t, m, r)[k]}
  Without(s, t, i, n) && Step(s, m) && Step(t, m) && m <= i && m <= n ==> Cnt(t, m, r)[k] == Cnt(s, m, r)[k]
lemma CntDel induction m := forall s: seq[*gtfs.FareAttributeRule], t: seq[*gtfs.FareAttributeRule], i: int, n: int, m: int, r: *gtfs.Route, k: int :: {Without(s, t, i, n), Cnt(t, m, r)[k]}
  Without(s, t, i, n) && Step(s, m + 1) && Step(t, m) && 0 <= i && i <= m && m <= n ==> Cnt(t, m, r)[k] == Cnt(s, m + 1, r)[k] - (if FR(s[i]) == r && Kind(s[i]) == k then 1 else 0)

pred FaresOk(f: *gtfsparser.Feed) := forall k: string :: {f.FareAttributes[k]} k in f.FareAttributes ==> f.FareAttributes[k] != nil && f.FareAttributes[k].Id == k && off(f.FareAttributes[k].Rules) == 0
  && (forall j: int :: {row(f.FareAttributes[k].Rules)[j]} 0 <= j && j < len(f.FareAttributes[k].Rules) ==> row(f.FareAttributes[k].Rules)[j] != nil)
fun RC(f: *gtfsparser.Feed, k: string, r: *gtfs.Route) := Cnt(row(f.FareAttributes[k].Rules), len(f.FareAttributes[k].Rules), r)
pred FEq(f: *gtfsparser.Feed, a: *gtfs.Route, b: *gtfs.Route) := forall k: string :: {f.FareAttributes[k]} k in f.FareAttributes ==> RC(f, k, a) == RC(f, k, b)
// the same fare rules when Run begins
ufun FSame(*gtfs.Route, *gtfs.Route): bool
pred Cls(a: *gtfs.Route, b: *gtfs.Route) := H(a) == H(b) && Same(a, b) && FSame(a, b)
pred Reg(f: *gtfsparser.Feed, s: *gtfs.Route) := s != nil && s.Id in f.Routes && f.Routes[s.Id] == s
pred In(f: *gtfsparser.Feed, s: *gtfs.Route) := s.Id in f.Routes
pred RoutesWF(f: *gtfsparser.Feed) := f != nil && f.Routes != nil && (forall k: string :: {f.Routes[k]} k in f.Routes ==> f.Routes[k] != nil && f.Routes[k].Id == k)
pred ChunksOk(f: *gtfsparser.Feed, ch: map[uint32][][]*gtfs.Route) := ch != nil
  && (forall h: uint32, c: int, i: int :: {row(row(ch[h])[c])[i]} h in ch && 0 <= c && c < len(ch[h]) && 0 <= i && i < len(row(ch[h])[c]) ==> Reg(f, row(row(ch[h])[c])[i]) && H(row(row(ch[h])[c])[i]) == h)
  && (forall h: uint32 :: {ch[h]} h in ch ==> off(ch[h]) == 0 && allocated(arr(ch[h])))
  && (forall h: uint32, c: int :: {row(ch[h])[c]} h in ch && 0 <= c && c < len(ch[h]) ==> off(row(ch[h])[c]) == 0)
  && (forall k: string :: {f.Routes[k]} k in f.Routes ==> H(f.Routes[k]) in ch && (exists c: int, i: int :: {row(row(ch[H(f.Routes[k])])[c])[i]} 0 <= c && c < len(ch[H(f.Routes[k])]) && 0 <= i && i < len(row(ch[H(f.Routes[k])])[c]) && row(row(ch[H(f.Routes[k])])[c])[i] == f.Routes[k]))

func processors.RouteDuplicateRemover.routeHash
  requires r != nil
  modifies nothing
  stable

func processors.RouteDuplicateRemover.routeEquals
  requires a != nil && b != nil && feed != nil
  modifies nothing
  ensures result <==> RtEq(feed, a, b)
  loop 1
    invariant addFldsEq && (forall g: string :: {visited(g)} visited(g) ==> feed.RoutesAddFlds[g][a.Id] == feed.RoutesAddFlds[g][b.Id])

func processors.RouteDuplicateRemover.fareRulesEqual
  requires attr != nil && off(attr.Rules) == 0 && a != b && RulesFixed()
  requires forall j: int :: {row(attr.Rules)[j]} 0 <= j && j < len(attr.Rules) ==> row(attr.Rules)[j] != nil
  modifies nothing
  ensures result <==> Cnt(row(attr.Rules), len(attr.Rules), a) == Cnt(row(attr.Rules), len(attr.Rules), b)
  loop 1
    modifies []*gtfs.FareAttributeRule where x: []*gtfs.FareAttributeRule :: fresh(x)
    step Step(row(attr.Rules), $i)
    step Step(row(rulesA), len(rulesA)) && Step(athead(row(rulesA)), athead(len(rulesA)))
    step len(rulesA) < athead(len(rulesA)) ==> len(rulesA) == athead(len(rulesA)) - 1 && (exists i: int :: {athead(row(rulesA)[i])} 0 <= i && i <= len(rulesA) && Without(athead(row(rulesA)), row(rulesA), i, len(rulesA)) && Kind(athead(row(rulesA)[i])) == Kind(row(attr.Rules)[$i - 1]))
    step len(rulesA) < athead(len(rulesA)) ==> (forall k: int :: {Cnt(row(rulesA), len(rulesA), a)[k]} Cnt(row(rulesA), len(rulesA), a)[k] == athead(Cnt(row(rulesA), len(rulesA), a))[k] - (if Kind(row(attr.Rules)[$i - 1]) == k then 1 else 0))
    step len(rulesA) > athead(len(rulesA)) ==> len(rulesA) == athead(len(rulesA)) + 1 && row(rulesA)[len(rulesA) - 1] == row(attr.Rules)[$i - 1] && (forall k: int :: {Cnt(row(rulesA), len(rulesA), a)[k]} Cnt(row(rulesA), len(rulesA), a)[k] == athead(Cnt(row(rulesA), len(rulesA), a))[k] + (if Kind(row(attr.Rules)[$i - 1]) == k then 1 else 0))
    step len(rulesA) == athead(len(rulesA)) ==> (forall k: int :: {Cnt(row(rulesA), len(rulesA), a)[k]} Cnt(row(rulesA), len(rulesA), a)[k] == athead(Cnt(row(rulesA), len(rulesA), a))[k])
    step Step(row(rulesB), len(rulesB)) && Step(athead(row(rulesB)), athead(len(rulesB)))
    step len(rulesB) < athead(len(rulesB)) ==> len(rulesB) == athead(len(rulesB)) - 1 && (exists i: int :: {athead(row(rulesB)[i])} 0 <= i && i <= len(rulesB) && Without(athead(row(rulesB)), row(rulesB), i, len(rulesB)) && Kind(athead(row(rulesB)[i])) == Kind(row(attr.Rules)[$i - 1]))
    step len(rulesB) < athead(len(rulesB)) ==> (forall k: int :: {Cnt(row(rulesB), len(rulesB), b)[k]} Cnt(row(rulesB), len(rulesB), b)[k] == athead(Cnt(row(rulesB), len(rulesB), b))[k] - (if Kind(row(attr.Rules)[$i - 1]) == k then 1 else 0))
    step len(rulesB) > athead(len(rulesB)) ==> len(rulesB) == athead(len(rulesB)) + 1 && row(rulesB)[len(rulesB) - 1] == row(attr.Rules)[$i - 1] && (forall k: int :: {Cnt(row(rulesB), len(rulesB), b)[k]} Cnt(row(rulesB), len(rulesB), b)[k] == athead(Cnt(row(rulesB), len(rulesB), b))[k] + (if Kind(row(attr.Rules)[$i - 1]) == k then 1 else 0))
    step len(rulesB) == athead(len(rulesB)) ==> (forall k: int :: {Cnt(row(rulesB), len(rulesB), b)[k]} Cnt(row(rulesB), len(rulesB), b)[k] == athead(Cnt(row(rulesB), len(rulesB), b))[k])
    invariant off(rulesA) == 0 && allocated(arr(rulesA)) && fresh(rulesA) && (forall j: int :: {row(rulesA)[j]} 0 <= j && j < len(rulesA) ==> row(rulesA)[j] != nil && FR(row(rulesA)[j]) == a)
    invariant off(rulesB) == 0 && allocated(arr(rulesB)) && fresh(rulesB) && (forall j: int :: {row(rulesB)[j]} 0 <= j && j < len(rulesB) ==> row(rulesB)[j] != nil && FR(row(rulesB)[j]) == b)
    invariant cap(rulesA) > 0 && cap(rulesB) > 0 ==> arr(rulesA) != arr(rulesB)
    invariant forall k: int :: {Cnt(row(attr.Rules), $i, a)[k]} {Cnt(row(rulesA), len(rulesA), a)[k]} Cnt(row(attr.Rules), $i, a)[k] - Cnt(row(attr.Rules), $i, b)[k] == Cnt(row(rulesA), len(rulesA), a)[k] - Cnt(row(rulesB), len(rulesB), b)[k]
    invariant forall k: int :: {Cnt(row(rulesA), len(rulesA), a)[k]} {Cnt(row(rulesB), len(rulesB), b)[k]} Cnt(row(rulesA), len(rulesA), a)[k] == 0 || Cnt(row(rulesB), len(rulesB), b)[k] == 0
    invariant len(rulesA) > 0 ==> Cnt(row(rulesA), len(rulesA), a)[Kind(row(rulesA)[0])] >= 1
    invariant len(rulesB) > 0 ==> Cnt(row(rulesB), len(rulesB), b)[Kind(row(rulesB)[0])] >= 1
  loop 2
    modifies []*gtfs.FareAttributeRule at arr(rulesB)
    invariant !found && rulesB == atpre(rulesB)
    invariant forall j: int :: {row(rulesB)[j]} 0 <= j && j < len(rulesB) ==> row(rulesB)[j] == atpre(row(rulesB)[j])
    invariant forall j: int :: {row(rulesB)[j]} 0 <= j && j < $i ==> Kind(row(rulesB)[j]) != Kind(r)
  loop 3
    modifies []*gtfs.FareAttributeRule at arr(rulesA)
    invariant !found && rulesA == atpre(rulesA)
    invariant forall j: int :: {row(rulesA)[j]} 0 <= j && j < len(rulesA) ==> row(rulesA)[j] == atpre(row(rulesA)[j])
    invariant forall j: int :: {row(rulesA)[j]} 0 <= j && j < $i ==> Kind(row(rulesA)[j]) != Kind(r)

func processors.RouteDuplicateRemover.checkFareEquality
  requires feed != nil && a != b && FaresOk(feed) && RulesFixed()
  modifies nothing
  ensures result <==> FEq(feed, a, b)
  loop 1
    invariant forall k: string :: {feed.FareAttributes[k]} visited(k) ==> RC(feed, k, a) == RC(feed, k, b)
  loop 2
    invariant forall j: int :: {row(fa.Rules)[j]} 0 <= j && j < $i ==> FR(row(fa.Rules)[j]) != a && FR(row(fa.Rules)[j]) != b

func processors.RouteDuplicateRemover.getRouteChunks
  requires RoutesWF(feed)
  modifies nothing
  ensures fresh(result) && ChunksOk(feed, result)
  loop 1
    invariant routes != nil && fresh(routes) && allocated(routes)
    invariant forall h: uint32 :: {routes[h]} h in routes ==> off(routes[h]) == 0 && len(routes[h]) > 0 && fresh(routes[h]) && allocated(arr(routes[h]))
    invariant local forall h: uint32, g: uint32 :: {routes[h], routes[g]} h in routes && g in routes && h != g ==> arr(routes[h]) != arr(routes[g])
    invariant forall h: uint32, i: int :: {row(routes[h])[i]} h in routes && 0 <= i && i < len(routes[h]) ==> Reg(feed, row(routes[h])[i]) && H(row(routes[h])[i]) == h
    invariant forall k: string :: {feed.Routes[k]} visited(k) ==> H(feed.Routes[k]) in routes && (exists i: int :: {row(routes[H(feed.Routes[k])])[i]} 0 <= i && i < len(routes[H(feed.Routes[k])]) && row(routes[H(feed.Routes[k])])[i] == feed.Routes[k])
    invariant chunks != nil && fresh(chunks) && chunks != routes && (forall h: uint32 :: {h in chunks} !(h in chunks))
  loop 2
    modifies map[uint32][][]*gtfs.Route at chunks
    invariant forall h: uint32 :: {chunks[h]} h in chunks ==> off(chunks[h]) == 0 && len(chunks[h]) == numchunks && fresh(chunks[h]) && allocated(arr(chunks[h]))
    invariant forall h: uint32, c: int :: {row(chunks[h])[c]} h in chunks && 0 <= c && c < len(chunks[h]) ==> off(row(chunks[h])[c]) == 0 && (len(row(chunks[h])[c]) > 0 ==> fresh(row(chunks[h])[c]) && allocated(arr(row(chunks[h])[c])))
    invariant forall h: uint32, c: int, i: int :: {row(row(chunks[h])[c])[i]} h in chunks && 0 <= c && c < len(chunks[h]) && 0 <= i && i < len(row(chunks[h])[c]) ==> Reg(feed, row(row(chunks[h])[c])[i]) && H(row(row(chunks[h])[c])[i]) == h
    invariant forall h: uint32, i: int :: {row(routes[h])[i]} visited(h) && 0 <= i && i < len(routes[h]) ==> h in chunks && (exists c: int, j: int :: {row(row(chunks[h])[c])[j]} 0 <= c && c < len(chunks[h]) && 0 <= j && j < len(row(chunks[h])[c]) && row(row(chunks[h])[c])[j] == row(routes[h])[i])
    invariant forall h: uint32 :: {h in chunks} h in chunks ==> visited(h)
  loop 3
    modifies [][]*gtfs.Route at arr(chunks[hash])
    invariant hash in chunks && hash in routes && off(chunks[hash]) == 0 && len(chunks[hash]) == numchunks && fresh(chunks[hash]) && allocated(arr(chunks[hash]))
    invariant local 0 <= curchunk && curchunk <= numchunks && chunksize >= 0
    invariant local len(routes[hash]) <= numchunks * chunksize
    invariant local curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks[hash])[curchunk]) && (len(row(chunks[hash])[curchunk]) < chunksize || chunksize == 0)
    invariant local curchunk == numchunks ==> $i == numchunks * chunksize
    invariant local forall c: int :: {row(chunks[hash])[c]} curchunk < c && c < numchunks ==> len(row(chunks[hash])[c]) == 0
    invariant forall c: int :: {row(chunks[hash])[c]} 0 <= c && c < numchunks ==> off(row(chunks[hash])[c]) == 0 && (len(row(chunks[hash])[c]) == 0 && cap(row(chunks[hash])[c]) == 0 || len(row(chunks[hash])[c]) > 0 && freshloop(row(chunks[hash])[c]) && allocated(arr(row(chunks[hash])[c])))
    invariant local forall c: int, e: int :: {row(chunks[hash])[c], row(chunks[hash])[e]} 0 <= c && c < e && e < numchunks && len(row(chunks[hash])[c]) > 0 && len(row(chunks[hash])[e]) > 0 ==> arr(row(chunks[hash])[c]) != arr(row(chunks[hash])[e])
    invariant forall c: int, i: int :: {row(row(chunks[hash])[c])[i]} 0 <= c && c < numchunks && 0 <= i && i < len(row(chunks[hash])[c]) ==> Reg(feed, row(row(chunks[hash])[c])[i]) && H(row(row(chunks[hash])[c])[i]) == hash
    invariant forall i: int :: {row(routes[hash])[i]} 0 <= i && i < $i ==> (exists c: int, j: int :: {row(row(chunks[hash])[c])[j]} 0 <= c && c < numchunks && 0 <= j && j < len(row(chunks[hash])[c]) && row(row(chunks[hash])[c])[j] == row(routes[hash])[i])

func processors.RouteDuplicateRemover.getEquivalentRoutes
  requires route != nil && feed != nil && off(chunks) == 0 && FaresOk(feed) && RulesFixed()
  requires forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0
  requires forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> row(row(chunks)[c])[i] != nil && (In(feed, row(row(chunks)[c])[i]) ==> (Same(row(row(chunks)[c])[i], route) <==> RtEq(feed, row(row(chunks)[c])[i], route)) && (FSame(route, row(row(chunks)[c])[i]) <==> FEq(feed, route, row(row(chunks)[c])[i])))
  modifies nothing
  ensures off(result) == 0 && fresh(result)
  ensures forall j: int :: {row(result)[j]} 0 <= j && j < len(result) ==> row(result)[j] != route && In(feed, row(result)[j]) && Same(row(result)[j], route) && FSame(route, row(result)[j]) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(result)[j] == row(row(chunks)[c])[i])
  ensures forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != route && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], route) && FSame(route, row(row(chunks)[c])[i]) ==> (exists j: int :: {row(result)[j]} 0 <= j && j < len(result) && row(result)[j] == row(row(chunks)[c])[i])
  loop 1
    modifies [][]*gtfs.Route at arr(rets)
    invariant off(rets) == 0 && fresh(rets) && len(rets) == len(chunks) && allocated(arr(rets))
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) ==> off(row(rets)[c]) == 0 && allocated(arr(row(rets)[c])) && (cap(row(rets)[c]) == 0 || freshloop(row(rets)[c]))
    invariant forall c: int :: {row(rets)[c]} $i <= c && c < len(rets) ==> cap(row(rets)[c]) == 0
    invariant forall c: int, j: int :: {row(row(rets)[c])[j]} 0 <= c && c < $i && 0 <= j && j < len(row(rets)[c]) ==> row(row(rets)[c])[j] != route && In(feed, row(row(rets)[c])[j]) && Same(row(row(rets)[c])[j], route) && FSame(route, row(row(rets)[c])[j]) && (exists i: int :: {row(row(chunks)[c])[i]} 0 <= i && i < len(row(chunks)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != route && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], route) && FSame(route, row(row(chunks)[c])[i]) ==> (exists j: int :: {row(row(rets)[c])[j]} 0 <= j && j < len(row(rets)[c]) && row(row(rets)[c])[j] == row(row(chunks)[c])[i])
  loop 2
    modifies [][]*gtfs.Route at arr(rets)
    invariant forall c: int :: {row(rets)[c]} 0 <= c && c < len(rets) && c != j ==> row(rets)[c] == atpre(row(rets)[c])
    invariant off(row(rets)[j]) == 0 && allocated(arr(row(rets)[j])) && (cap(row(rets)[j]) == 0 || freshloop(row(rets)[j]))
    invariant forall q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) ==> row(row(rets)[j])[q] != route && In(feed, row(row(rets)[j])[q]) && Same(row(row(rets)[j])[q], route) && FSame(route, row(row(rets)[j])[q]) && (exists i: int :: {row(chunk)[i]} 0 <= i && i < len(chunk) && row(row(rets)[j])[q] == row(chunk)[i])
    invariant forall i: int :: {row(chunk)[i]} 0 <= i && i < $i && row(chunk)[i] != route && In(feed, row(chunk)[i]) && Same(row(chunk)[i], route) && FSame(route, row(chunk)[i]) ==> (exists q: int :: {row(row(rets)[j])[q]} 0 <= q && q < len(row(rets)[j]) && row(row(rets)[j])[q] == row(chunk)[i])
  loop 3
    invariant true
  loop 4
    modifies nothing
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret)) && (cap(ret) == 0 || freshloop(ret))
    invariant forall j: int :: {row(ret)[j]} 0 <= j && j < len(ret) ==> row(ret)[j] != route && In(feed, row(ret)[j]) && Same(row(ret)[j], route) && FSame(route, row(ret)[j]) && (exists c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) && row(ret)[j] == row(row(chunks)[c])[i])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < $i && 0 <= i && i < len(row(chunks)[c]) && row(row(chunks)[c])[i] != route && In(feed, row(row(chunks)[c])[i]) && Same(row(row(chunks)[c])[i], route) && FSame(route, row(row(chunks)[c])[i]) ==> (exists j: int :: {row(ret)[j]} 0 <= j && j < len(ret) && row(ret)[j] == row(row(chunks)[c])[i])

func gtfsparser.Feed.DeleteRoute
  requires feed != nil
  modifies map[string]*gtfs.Route at feed.Routes
  modifies map[string]string any
  ensures forall k: string :: {k in feed.Routes} k in feed.Routes <==> old(k in feed.Routes) && k != id
  ensures forall k: string :: {feed.Routes[k]} k in feed.Routes ==> feed.Routes[k] == old(feed.Routes[k])
  ensures forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == old(m[k])
  loop 1
    modifies map[string]string any
    invariant forall m: map[string]string, k: string :: {m[k]} k != id ==> m[k] == atpre(m[k])

// the tables of additional fields of routes
ufun RT(map[string]string): bool
pred Tables(f: *gtfsparser.Feed) := (forall g: string :: {f.RoutesAddFlds[g]} g in f.RoutesAddFlds ==> RT(f.RoutesAddFlds[g]))
  && (forall g: string :: {f.FareAttributesAddFlds[g]} g in f.FareAttributesAddFlds ==> !RT(f.FareAttributesAddFlds[g]))

func gtfsparser.Feed.DeleteFareAttribute
  requires feed != nil && Tables(feed)
  modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
  modifies map[string]string any
  modifies map[string]map[*gtfs.FareAttributeRule]string any
  ensures forall k: string :: {k in feed.FareAttributes} k in feed.FareAttributes <==> old(k in feed.FareAttributes) && k != id
  ensures forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes ==> feed.FareAttributes[k] == old(feed.FareAttributes[k])
  ensures forall m: map[string]string, k: string :: {m[k]} RT(m) ==> m[k] == old(m[k])
  loop 1
    modifies map[string]map[*gtfs.FareAttributeRule]string any
    invariant true
  loop 2
    modifies map[string]string any
    invariant forall m: map[string]string, k: string :: {m[k]} RT(m) ==> m[k] == atpre(m[k])

func processors.RouteDuplicateRemover.combineRoutes
  requires feed != nil && feed.Routes != nil && off(routes) == 0 && len(routes) > 0 && allocated(arr(routes)) && FaresOk(feed) && RulesFixed() && Tables(feed)
  requires forall i: int :: {row(routes)[i]} 0 <= i && i < len(routes) ==> Reg(feed, row(routes)[i])
  requires forall a: *gtfs.Route :: {trips[a]} off(trips[a]) == 0
  requires forall a: *gtfs.Route, j: int :: {row(trips[a])[j]} 0 <= j && j < len(trips[a]) ==> row(trips[a])[j] != nil
  modifies gtfs.Trip.Route any
  modifies gtfs.Route.Attributions any
  modifies []*gtfs.Attribution any
  modifies gtfs.FareAttribute.Rules any
  modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
  modifies map[string]string any
  modifies map[string]map[*gtfs.FareAttributeRule]string any
  modifies map[string]*gtfs.Route at feed.Routes
  ensures exists r: int :: 0 <= r && r < len(routes) && Reg(feed, row(routes)[r])
    && (forall t: *gtfs.Trip :: {t.Route} t.Route == old(t.Route) || t.Route == row(routes)[r] && (exists i: int :: {row(routes)[i]} 0 <= i && i < len(routes) && row(routes)[i] == old(t.Route)))
    && (forall i: int, j: int :: {row(trips[row(routes)[i]])[j]} 0 <= i && i < len(routes) && row(routes)[i] != row(routes)[r] && 0 <= j && j < len(trips[row(routes)[i]]) ==> row(trips[row(routes)[i]])[j].Route != row(routes)[i])
    && (forall k: string :: {k in feed.Routes} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k]))
    && (forall k: string :: {k in feed.Routes} old(k in feed.Routes) && !(k in feed.Routes) ==> (exists i: int :: {row(routes)[i]} 0 <= i && i < len(routes) && row(routes)[i] != row(routes)[r] && row(routes)[i].Id == k))
  ensures forall m: map[string]string, k: string :: {m[k]} RT(m) && k in feed.Routes ==> m[k] == old(m[k])
  ensures FaresOk(feed)
  ensures forall k: string :: {k in feed.FareAttributes} {feed.FareAttributes[k]} k in feed.FareAttributes ==> old(k in feed.FareAttributes) && feed.FareAttributes[k] == old(feed.FareAttributes[k])
  ensures forall k: string, x: *gtfs.Route, q: int :: {Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]} {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} k in feed.FareAttributes && Reg(feed, x) ==> Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q] == old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])
  ensures forall k: string, x: *gtfs.Route, q: int :: {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} old(k in feed.FareAttributes) && !(k in feed.FareAttributes) && Reg(feed, x) ==> old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]) == 0
  loop 1
    invariant exists r: int :: {row(routes)[r]} 0 <= r && r < len(routes) && ref == row(routes)[r]
  loop 2
    modifies gtfs.Trip.Route any
    modifies gtfs.Route.Attributions any
    modifies []*gtfs.Attribution any
    modifies gtfs.FareAttribute.Rules any
    modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
    modifies map[string]string any
    modifies map[string]map[*gtfs.FareAttributeRule]string any
    modifies map[string]*gtfs.Route at feed.Routes
    invariant Reg(feed, ref)
    invariant forall t: *gtfs.Trip :: {t.Route} t.Route == atpre(t.Route) || t.Route == ref && (exists i: int :: {row(routes)[i]} 0 <= i && i < len(routes) && row(routes)[i] == atpre(t.Route))
    invariant forall i: int, j: int :: {row(trips[row(routes)[i]])[j]} 0 <= i && i < $i && row(routes)[i] != ref && 0 <= j && j < len(trips[row(routes)[i]]) ==> row(trips[row(routes)[i]])[j].Route != row(routes)[i]
    invariant forall k: string :: {k in feed.Routes} k in feed.Routes ==> atpre(k in feed.Routes) && feed.Routes[k] == atpre(feed.Routes[k])
    invariant forall k: string :: {k in feed.Routes} atpre(k in feed.Routes) && !(k in feed.Routes) ==> (exists i: int :: {row(routes)[i]} 0 <= i && i < len(routes) && row(routes)[i] != ref && row(routes)[i].Id == k)
    invariant forall m: map[string]string, k: string :: {m[k]} RT(m) && k in feed.Routes ==> m[k] == atpre(m[k])
    invariant FaresOk(feed)
    invariant forall k: string :: {k in feed.FareAttributes} {feed.FareAttributes[k]} k in feed.FareAttributes ==> atpre(k in feed.FareAttributes) && feed.FareAttributes[k] == atpre(feed.FareAttributes[k])
    invariant forall k: string, x: *gtfs.Route, q: int :: {Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]} {atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} k in feed.FareAttributes && Reg(feed, x) ==> Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q] == atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])
    invariant forall k: string, x: *gtfs.Route, q: int :: {atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} atpre(k in feed.FareAttributes) && !(k in feed.FareAttributes) && Reg(feed, x) ==> atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]) == 0
  loop 3
    modifies gtfs.Trip.Route any
    invariant forall t: *gtfs.Trip :: {t.Route} t.Route == atpre(t.Route) || t.Route == ref && atpre(t.Route) == r
    invariant forall j: int :: {row(trips[r])[j]} 0 <= j && j < $i ==> row(trips[r])[j].Route != r
  loop 4
    modifies gtfs.Route.Attributions any
    modifies []*gtfs.Attribution any
    invariant true
  loop 5
    modifies gtfs.FareAttribute.Rules any
    modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
    modifies map[string]string any
    modifies map[string]map[*gtfs.FareAttributeRule]string any
    invariant forall m: map[string]string, k: string :: {m[k]} RT(m) ==> m[k] == atpre(m[k])
    invariant FaresOk(feed)
    invariant forall k: string :: {feed.FareAttributes[k]} k in feed.FareAttributes && !visited(k) ==> feed.FareAttributes[k].Rules == atpre(feed.FareAttributes[k].Rules)
    invariant forall k: string :: {k in feed.FareAttributes} {feed.FareAttributes[k]} k in feed.FareAttributes ==> atpre(k in feed.FareAttributes) && feed.FareAttributes[k] == atpre(feed.FareAttributes[k])
    invariant forall k: string, x: *gtfs.Route, q: int :: {Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]} {atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} k in feed.FareAttributes && x != r ==> Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q] == atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])
    invariant forall k: string, x: *gtfs.Route, q: int :: {atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} atpre(k in feed.FareAttributes) && !(k in feed.FareAttributes) && x != r ==> atpre(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]) == 0
  loop 6
    modifies nothing
    step Step(row(fa.Rules), $i)
    step Step(row(new), len(new)) && Step(athead(row(new)), athead(len(new)))
    step len(new) > athead(len(new)) ==> len(new) == athead(len(new)) + 1 && row(new)[len(new) - 1] == row(fa.Rules)[$i - 1]
    step forall x: *gtfs.Route, q: int :: {Cnt(row(new), len(new), x)[q]} x != r ==> Cnt(row(new), len(new), x)[q] == athead(Cnt(row(new), len(new), x)[q]) + (if FR(row(fa.Rules)[$i - 1]) == x && Kind(row(fa.Rules)[$i - 1]) == q then 1 else 0)
    invariant off(new) == 0 && allocated(arr(new)) && fresh(new) && (cap(new) == 0 || freshloop(new)) && len(new) <= $i
    invariant forall j: int :: {row(new)[j]} 0 <= j && j < len(new) ==> row(new)[j] != nil
    invariant forall x: *gtfs.Route, q: int :: {Cnt(row(new), len(new), x)[q]} {Cnt(row(fa.Rules), $i, x)[q]} x != r ==> Cnt(row(new), len(new), x)[q] == Cnt(row(fa.Rules), $i, x)[q]

pred Orig(f: *gtfsparser.Feed, s: *gtfs.Route) := s != nil && old(s.Id in f.Routes) && old(f.Routes[s.Id]) == s

func processors.RouteDuplicateRemover.Run
  requires RoutesWF(feed) && feed.Trips != nil && feed.FareAttributes != nil && FaresOk(feed) && RulesFixed() && Tables(feed)
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && (feed.Trips[k].Route != nil ==> Reg(feed, feed.Trips[k].Route))
  requires forall a: *gtfs.Route, b: *gtfs.Route :: {Same(a, b)} Same(a, b) <==> RtEq(feed, a, b)
  requires forall a: *gtfs.Route, b: *gtfs.Route :: {FSame(a, b)} FSame(a, b) <==> FEq(feed, a, b)
  modifies gtfs.Trip.Route any
  modifies gtfs.Route.Attributions any
  modifies []*gtfs.Attribution any
  modifies gtfs.FareAttribute.Rules any
  modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
  modifies map[string]string any
  modifies map[string]map[*gtfs.FareAttributeRule]string any
  modifies map[string]*gtfs.Route at feed.Routes
  modifies map[gtfs.TransferKey]gtfs.TransferVal at feed.Transfers
  modifies map[gtfs.TransferKey]string any
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Route) != nil ==> Reg(feed, feed.Trips[k].Route) && Same(feed.Trips[k].Route, old(feed.Trips[k].Route))
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Route) == nil ==> feed.Trips[k].Route == nil
  ensures forall k: string :: {k in feed.Routes} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k])
  ensures forall k: string :: {k in feed.Routes} old(k in feed.Routes) && !(k in feed.Routes) ==> (exists l: string :: {l in feed.Routes} l in feed.Routes && Same(old(feed.Routes[k]), feed.Routes[l]) && FSame(old(feed.Routes[k]), feed.Routes[l]))
  ensures forall g: string, k: string :: {feed.RoutesAddFlds[g][k]} k in feed.Routes && g in feed.RoutesAddFlds ==> feed.RoutesAddFlds[g][k] == old(feed.RoutesAddFlds[g][k])
  ensures forall k: string :: {k in feed.FareAttributes} {feed.FareAttributes[k]} k in feed.FareAttributes ==> old(k in feed.FareAttributes) && feed.FareAttributes[k] == old(feed.FareAttributes[k])
  ensures forall k: string, x: *gtfs.Route, q: int :: {Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]} {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} k in feed.FareAttributes && Reg(feed, x) ==> Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q] == old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])
  ensures forall k: string, x: *gtfs.Route, q: int :: {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} old(k in feed.FareAttributes) && !(k in feed.FareAttributes) && Reg(feed, x) ==> old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]) == 0
  ensures forall l: string :: {l in feed.FareAttributes} l in feed.FareAttributes ==> old(l in feed.FareAttributes) && feed.FareAttributes[l] == old(feed.FareAttributes[l])
  ensures forall k: string, l: string, q: int :: {feed.Trips[k], Cnt(row(feed.FareAttributes[l].Rules), len(feed.FareAttributes[l].Rules), feed.Trips[k].Route)[q]} k in feed.Trips && l in feed.FareAttributes && old(feed.Trips[k].Route) != nil ==> Cnt(row(feed.FareAttributes[l].Rules), len(feed.FareAttributes[l].Rules), feed.Trips[k].Route)[q] == old(Cnt(row(feed.FareAttributes[l].Rules), len(feed.FareAttributes[l].Rules), feed.Trips[k].Route)[q])
  ensures forall k: string, l: string, q: int :: {feed.Trips[k], old(Cnt(row(feed.FareAttributes[l].Rules), len(feed.FareAttributes[l].Rules), feed.Trips[k].Route)[q])} k in feed.Trips && old(l in feed.FareAttributes) && !(l in feed.FareAttributes) && old(feed.Trips[k].Route) != nil ==> old(Cnt(row(feed.FareAttributes[l].Rules), len(feed.FareAttributes[l].Rules), feed.Trips[k].Route)[q]) == 0
  loop 1
    modifies map[*gtfs.Route][]*gtfs.Trip at trips
    invariant trips != nil && fresh(trips) && allocated(trips)
    invariant forall s: *gtfs.Route :: {trips[s]} off(trips[s]) == 0 && (len(trips[s]) > 0 ==> freshloop(trips[s]) && allocated(arr(trips[s])))
    invariant local forall s: *gtfs.Route :: {trips[s]} len(trips[s]) == 0 ==> cap(trips[s]) == 0
    invariant local forall s: *gtfs.Route, u: *gtfs.Route :: {trips[s], trips[u]} s != u && len(trips[s]) > 0 && len(trips[u]) > 0 ==> arr(trips[s]) != arr(trips[u])
    invariant forall s: *gtfs.Route, j: int :: {row(trips[s])[j]} 0 <= j && j < len(trips[s]) ==> row(trips[s])[j] != nil
    invariant forall k: string :: {feed.Trips[k]} visited(k) ==> (exists j: int :: {row(trips[feed.Trips[k].Route])[j]} 0 <= j && j < len(trips[feed.Trips[k].Route]) && row(trips[feed.Trips[k].Route])[j] == feed.Trips[k])
    invariant fresh(proced) && proced != nil && (forall s: *gtfs.Route :: {s in proced} !(s in proced))
  loop 2
    modifies gtfs.Trip.Route any
    modifies gtfs.Route.Attributions any
    modifies []*gtfs.Attribution any
    modifies gtfs.FareAttribute.Rules any
    modifies map[string]*gtfs.FareAttribute at feed.FareAttributes
    modifies map[string]string any
    modifies map[string]map[*gtfs.FareAttributeRule]string any
    modifies map[string]*gtfs.Route at feed.Routes
    modifies map[*gtfs.Route]bool at proced
    assert forall a: *gtfs.Route, b: *gtfs.Route :: {Same(a, b)} Same(a, b) ==> Same(b, a)
    assert forall a: *gtfs.Route, b: *gtfs.Route, c: *gtfs.Route :: {Same(a, b), Same(b, c)} Same(a, b) && Same(b, c) ==> Same(a, c)
    assert forall a: *gtfs.Route :: {Same(a, a)} Same(a, a)
    assert forall a: *gtfs.Route, b: *gtfs.Route :: {FSame(a, b)} FSame(a, b) ==> FSame(b, a)
    assert forall a: *gtfs.Route, b: *gtfs.Route, c: *gtfs.Route :: {FSame(a, b), FSame(b, c)} FSame(a, b) && FSame(b, c) ==> FSame(a, c)
    assert forall a: *gtfs.Route :: {FSame(a, a)} FSame(a, a)
    invariant forall m: map[string]string, k: string :: {m[k]} RT(m) && k in feed.Routes ==> m[k] == atpre(m[k])
    invariant FaresOk(feed)
    invariant forall k: string :: {k in feed.FareAttributes} {feed.FareAttributes[k]} k in feed.FareAttributes ==> old(k in feed.FareAttributes) && feed.FareAttributes[k] == old(feed.FareAttributes[k])
    invariant forall k: string, x: *gtfs.Route, q: int :: {Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]} {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} k in feed.FareAttributes && Reg(feed, x) ==> Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q] == old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])
    invariant forall k: string, x: *gtfs.Route, q: int :: {old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q])} old(k in feed.FareAttributes) && !(k in feed.FareAttributes) && Reg(feed, x) ==> old(Cnt(row(feed.FareAttributes[k].Rules), len(feed.FareAttributes[k].Rules), x)[q]) == 0
    invariant forall a: *gtfs.Route, b: *gtfs.Route :: {FSame(a, b)} Reg(feed, a) && Reg(feed, b) ==> (FSame(a, b) <==> FEq(feed, a, b))
    invariant forall k: string :: {k in feed.Routes} {feed.Routes[k]} k in feed.Routes ==> old(k in feed.Routes) && feed.Routes[k] == old(feed.Routes[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Route) != nil ==> Reg(feed, feed.Trips[k].Route) && Cls(feed.Trips[k].Route, old(feed.Trips[k].Route))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !(feed.Trips[k].Route in proced) ==> feed.Trips[k].Route == old(feed.Trips[k].Route)
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && old(feed.Trips[k].Route) == nil ==> feed.Trips[k].Route == nil
    invariant forall k: string, l: string :: {old(feed.Routes[k]), old(feed.Routes[l])} old(k in feed.Routes) && old(l in feed.Routes) && Cls(old(feed.Routes[k]), old(feed.Routes[l])) && old(feed.Routes[k]) in proced ==> old(feed.Routes[l]) in proced
    invariant forall k: string :: {k in feed.Routes} old(k in feed.Routes) && !(k in feed.Routes) ==> old(feed.Routes[k]) in proced && (exists l: string :: {l in feed.Routes} l in feed.Routes && feed.Routes[l] in proced && Cls(old(feed.Routes[k]), feed.Routes[l]))
  loop 3
    modifies map[*gtfs.Route]bool at proced
    assert forall i: int :: {row(eqRoutes)[i]} 0 <= i && i < len(eqRoutes) ==> Orig(feed, row(eqRoutes)[i]) && Cls(row(eqRoutes)[i], r#1)
    assert exists l: string :: {l in feed.Routes} l in feed.Routes && Cls(r#1, feed.Routes[l]) && (feed.Routes[l] == r#1 || (exists i: int :: {row(eqRoutes)[i]} 0 <= i && i < len(eqRoutes) && row(eqRoutes)[i] == feed.Routes[l]))
    assert forall k: string :: {k in feed.Routes} old(k in feed.Routes) && !(k in feed.Routes) ==> old(feed.Routes[k]) in proced || Cls(old(feed.Routes[k]), r#1)
    assert forall i: int :: {row(eqRoutes)[i]} 0 <= i && i < len(eqRoutes) ==> !(row(eqRoutes)[i] in proced)
    assert forall k: string :: {k in feed.Routes} old(k in feed.Routes) && old(feed.Routes[k]) in proced && !(k in feed.Routes) ==> (exists l: string :: {l in feed.Routes} l in feed.Routes && feed.Routes[l] in proced && Cls(old(feed.Routes[k]), feed.Routes[l]))
    assert forall k: string :: {k in feed.Routes} old(k in feed.Routes) && !(k in feed.Routes) ==> (exists l: string :: {l in feed.Routes} l in feed.Routes && (feed.Routes[l] in proced || feed.Routes[l] == r#1 || (exists i: int :: {row(eqRoutes)[i]} 0 <= i && i < len(eqRoutes) && row(eqRoutes)[i] == feed.Routes[l])) && Cls(old(feed.Routes[k]), feed.Routes[l]))
    invariant forall x: *gtfs.Route :: {x in proced} atpre(x in proced) ==> x in proced
    invariant forall i: int :: {row(eqRoutes)[i]} 0 <= i && i < $i ==> row(eqRoutes)[i] in proced
    invariant forall x: *gtfs.Route :: {x in proced} x in proced && !atpre(x in proced) ==> (exists i: int :: {row(eqRoutes)[i]} 0 <= i && i < len(eqRoutes) && row(eqRoutes)[i] == x)
