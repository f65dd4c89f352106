property C12 processors.ServiceCalDatesRem.Run
assumes services as the parser delivers them (dates empty or valid calendar dates 1901-2154, with a date range or an exception), registered under their ID; trips registered under their ID, with a registered service; additional fields of registered trips only

pred NoExc(x: *gtfs.Service) := x.exceptions != nil && (forall d: gtfs.Date :: {d in x.exceptions} !(d in x.exceptions))
pred Bit(s: *gtfs.Service, d: gtfs.Date) := bit(s.daymap, (T(d) + 4) % 7)

func gtfs.Service.SetDaymap
  requires s != nil && 0 <= i && i <= 6
  modifies gtfs.Service.daymap at s
  ensures forall k: int :: {bit(s.daymap, k)} bit(s.daymap, k) <==> (if k == i then v else old(bit(s.daymap, k)))

func processors.ServiceMinimizer.countServices
  nosafety
  modifies nothing
  loop 1
    invariant true

func processors.ServiceCalDatesRem.freeServiceId
  nosafety
  requires sm != nil && feed != nil && sm.sids != nil
  requires forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
  modifies processors.ServiceCalDatesRem.sidc at sm
  modifies map[string]bool at sm.sids
  ensures !(result in feed.Services) && !old(result in sm.sids)
  ensures forall k: string :: {k in sm.sids} k in sm.sids <==> old(k in sm.sids) || k == result
  ensures forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
  loop 1
    invariant forall k: string :: {k in sm.sids} k in sm.sids <==> old(k in sm.sids)
    invariant forall k: string :: {sm.sids[k]} sm.sids[k] == old(sm.sids[k])

func processors.ServiceCalDatesRem.getBlocks
  ghost kept: fn[int, int]
  requires sm != nil && feed != nil && sm.sids != nil
  requires forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
  requires WFService(s) && Defined(s)
  modifies processors.ServiceCalDatesRem.sidc at sm
  modifies map[string]bool at sm.sids
  ensures off(result) == 0 && len(result) > 0 && fresh(result) && allocated(arr(result))
  ensures forall k: string :: {k in sm.sids} old(k in sm.sids) ==> k in sm.sids
  ensures forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
  ensures forall i: int :: {row(result)[i]} 0 <= i && i < len(result) ==> row(result)[i] != nil && fresh(row(result)[i]) && allocated(row(result)[i]) && NoExc(row(result)[i])
      && row(result)[i].id in sm.sids && (let n := row(result)[i].id :: !old(n in sm.sids)) && !(row(result)[i].id in feed.Services)
  ensures forall i: int, j: int :: {row(result)[i], row(result)[j]} 0 <= i && i < j && j < len(result) ==> row(result)[i].id != row(result)[j].id
  ensures forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) ==> (exists i: int :: {row(result)[i]} 0 <= i && i < len(result) && Act(row(result)[i], d))
  ensures forall i: int, d: gtfs.Date :: {Act(row(result)[i], d)} 0 <= i && i < len(result) && DateOk(d) && Act(row(result)[i], d) ==> Act(s, d)
  ensures forall i: int, j: int, d: gtfs.Date :: {Act(row(result)[i], d), Act(row(result)[j], d)} 0 <= i && i < j && j < len(result) && DateOk(d) ==> !Act(row(result)[i], d) || !Act(row(result)[j], d)
  loop 1
    assert !Empty(first) && LateDate(first)
    assert !Empty(last) && LateDate(last)
    step forall i: int :: {row(ret)[i]} 0 <= i && i < athead(len(ret)) ==> row(ret)[i] == athead(row(ret)[i])
    step len(ret) > athead(len(ret)) ==> len(ret) == athead(len(ret)) + 1 && row(ret)[athead(len(ret))] != nil
    step len(ret) > athead(len(ret)) && Bit(s, athead(first)) ==> row(ret)[athead(len(ret))].daymap == s.daymap && row(ret)[athead(len(ret))].start_date == athead(curBlockStart) && T(row(ret)[athead(len(ret))].end_date) == athead(T(first)) - 1
    step len(ret) > athead(len(ret)) && !Bit(s, athead(first)) ==> row(ret)[athead(len(ret))].start_date == athead(first) && row(ret)[athead(len(ret))].end_date == athead(first) && Bit(row(ret)[athead(len(ret))], athead(first))
    step len(ret) > athead(len(ret)) ==> (forall d: gtfs.Date :: {Act(s, d)} {Act(row(ret)[athead(len(ret))], d)} DateOk(d) && Act(row(ret)[athead(len(ret))], d) ==>
      (if Bit(s, athead(first)) then Bit(s, d) && athead(T(curBlockStart)) <= T(d) && T(d) < athead(T(first)) else T(d) == athead(T(first))))
    step len(ret) > athead(len(ret)) ==> (forall d: gtfs.Date :: {Act(s, d)} {Act(row(ret)[athead(len(ret))], d)} DateOk(d) &&
      (if Bit(s, athead(first)) then Bit(s, d) && athead(T(curBlockStart)) <= T(d) && T(d) < athead(T(first)) else T(d) == athead(T(first))) ==> Act(row(ret)[athead(len(ret))], d))
    invariant until 2 DateOk(first) && DateOk(last) && T(last) <= 67600 && atentry(T(first)) <= T(first) && T(first) <= 67601 && (T(first) <= T(last) + 1 || T(first) == atentry(T(first)))
    invariant until 2 DateOk(curBlockStart) && atentry(T(first)) <= T(curBlockStart) && T(curBlockStart) <= T(first)
    invariant until 2 forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) ==> atentry(T(first)) <= T(d) && T(d) <= T(last)
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret))
    invariant until 2 forall k: string :: {k in sm.sids} old(k in sm.sids) ==> k in sm.sids
    invariant until 2 forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
    invariant until 2 forall i: int :: {row(ret)[i]} 0 <= i && i < len(ret) ==> row(ret)[i] != nil && fresh(row(ret)[i]) && allocated(row(ret)[i]) && NoExc(row(ret)[i])
      && row(ret)[i].id in sm.sids && (let n := row(ret)[i].id :: !old(n in sm.sids)) && !(row(ret)[i].id in feed.Services)
      && DateOk(row(ret)[i].start_date) && DateOk(row(ret)[i].end_date) && T(row(ret)[i].end_date) < T(first)
    invariant until 2 forall i: int, j: int :: {row(ret)[i], row(ret)[j]} 0 <= i && i < j && j < len(ret) ==> row(ret)[i].id != row(ret)[j].id && row(ret)[i] != row(ret)[j]
    invariant until 2 forall i: int, d: gtfs.Date :: {Act(row(ret)[i], d)} 0 <= i && i < len(ret) && DateOk(d) && Act(row(ret)[i], d) ==> Act(s, d) && T(d) < T(first) && (T(d) < T(curBlockStart) || !Bit(s, d))
    invariant until 2 forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) && T(d) < T(first) ==> T(d) >= T(curBlockStart) && Bit(s, d) || (exists i: int :: {row(ret)[i]} 0 <= i && i < len(ret) && Act(row(ret)[i], d))
    invariant until 2 forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && T(curBlockStart) <= T(d) && T(d) < T(first) && Bit(s, d) ==> Act(s, d)
    invariant until 2 forall i: int, j: int, d: gtfs.Date :: {Act(row(ret)[i], d), Act(row(ret)[j], d)} 0 <= i && i < j && j < len(ret) && DateOk(d) ==> !Act(row(ret)[i], d) || !Act(row(ret)[j], d)
  loop 2
    modifies gtfs.Service.daymap where x: *gtfs.Service :: fresh(x)
    assert forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) ==> (exists i: int :: {row(ret)[i]} 0 <= i && i < len(ret) && Act(row(ret)[i], d))
    step forall k: int :: {newmap[k]} {bit(row(ret)[$i - 1].daymap, k)} 0 <= k && k < 7 ==> (bit(row(ret)[$i - 1].daymap, k) <==> newmap[k])
    step forall k: int :: {newmap[k]} 0 <= k && k < 7 && newmap[k] ==> bit(athead(row(ret)[$i].daymap), k)
    step T(start) > T(row(ret)[$i - 1].end_date)
    step forall d: gtfs.Date :: {Act(row(ret)[$i - 1], d)} {athead(Act(row(ret)[$i], d))} DateOk(d) && athead(Act(row(ret)[$i], d)) && !(d in row(ret)[$i - 1].exceptions) ==> newmap[(T(d) + 4) % 7]
    step forall d: gtfs.Date :: {Act(row(ret)[$i - 1], d)} {athead(Act(row(ret)[$i], d))} DateOk(d) ==> (Act(row(ret)[$i - 1], d) <==> athead(Act(row(ret)[$i], d)))
    invariant off(ret) == 0 && fresh(ret) && allocated(arr(ret))
    invariant off(ret2) == 0 && fresh(ret2) && allocated(arr(ret2)) && (cap(ret2) == 0 || freshloop(ret2)) && len(ret2) <= $i
    invariant forall i: int, d: gtfs.Date :: {Act(row(ret)[i], d)} {atpre(Act(row(ret)[i], d))} 0 <= i && i < len(ret) && DateOk(d) ==> Act(row(ret)[i], d) == atpre(Act(row(ret)[i], d))
    invariant forall i: int :: {row(ret)[i]} 0 <= i && i < len(ret) ==> row(ret)[i] == atpre(row(ret)[i]) && row(ret)[i] != nil && fresh(row(ret)[i]) && allocated(row(ret)[i]) && NoExc(row(ret)[i])
      && row(ret)[i].id in sm.sids && (let n := row(ret)[i].id :: !old(n in sm.sids)) && !(row(ret)[i].id in feed.Services)
      && DateOk(row(ret)[i].start_date) && DateOk(row(ret)[i].end_date) && T(row(ret)[i].end_date) <= 67600
    invariant forall i: int, j: int :: {row(ret)[i], row(ret)[j]} 0 <= i && i < j && j < len(ret) ==> row(ret)[i].id != row(ret)[j].id && row(ret)[i] != row(ret)[j]
    invariant forall i: int, d: gtfs.Date :: {Act(row(ret)[i], d)} 0 <= i && i < len(ret) && DateOk(d) && Act(row(ret)[i], d) ==> Act(s, d)
    invariant forall i: int, j: int, d: gtfs.Date :: {Act(row(ret)[i], d), Act(row(ret)[j], d)} 0 <= i && i < j && j < len(ret) && DateOk(d) ==> !Act(row(ret)[i], d) || !Act(row(ret)[j], d)
    invariant forall k: string :: {k in sm.sids} old(k in sm.sids) ==> k in sm.sids
    invariant forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
    invariant forall i: int :: {row(ret2)[i]} 0 <= i && i < len(ret2) ==> row(ret2)[i] != nil && fresh(row(ret2)[i]) && allocated(row(ret2)[i]) && NoExc(row(ret2)[i])
      && row(ret2)[i].id in sm.sids && (let n := row(ret2)[i].id :: !old(n in sm.sids)) && !(row(ret2)[i].id in feed.Services)
    invariant forall i: int, d: gtfs.Date :: {Act(row(ret2)[i], d)} 0 <= i && i < len(ret2) && DateOk(d) && Act(row(ret2)[i], d) ==> Act(s, d)
    invariant forall i: int, j: int :: {row(ret2)[i], row(ret2)[j]} 0 <= i && i < j && j < len(ret2) ==> row(ret2)[i].id != row(ret2)[j].id && row(ret2)[i] != row(ret2)[j]
    invariant forall i: int, j: int :: {row(ret2)[i], row(ret)[j]} 0 <= i && i < len(ret2) && $i <= j && j < len(ret) ==> row(ret2)[i].id != row(ret)[j].id && row(ret2)[i] != row(ret)[j]
    invariant forall i: int, j: int, d: gtfs.Date :: {Act(row(ret2)[i], d), Act(row(ret2)[j], d)} 0 <= i && i < j && j < len(ret2) && DateOk(d) ==> !Act(row(ret2)[i], d) || !Act(row(ret2)[j], d)
    invariant forall i: int, j: int, d: gtfs.Date :: {Act(row(ret2)[i], d), Act(row(ret)[j], d)} 0 <= i && i < len(ret2) && $i <= j && j < len(ret) && DateOk(d) ==> !Act(row(ret2)[i], d) || !Act(row(ret)[j], d)
    set kept := kept[$i - 1 := len(ret2) - 1]
    invariant forall j: int, d: gtfs.Date :: {Act(row(ret)[j], d)} 0 <= j && j < $i && DateOk(d) && Act(row(ret)[j], d) ==> 0 <= kept[j] && kept[j] < len(ret2) && row(ret2)[kept[j]] == row(ret)[j]
  loop 3
    step T(start) == athead(T(start)) + 1 && (forall k: int :: {newmap[k]} athead(newmap[k]) ==> newmap[k])
    step bit(s#2.daymap, athead((T(start) + 4) % 7)) ==> newmap[athead((T(start) + 4) % 7)]
    step forall d: gtfs.Date :: {Act(s#2, d)} DateOk(d) && T(d) == athead(T(start)) && Bit(s#2, d) ==> newmap[(T(d) + 4) % 7]
    step forall d: gtfs.Date :: {Act(s#2, d)} DateOk(d) && atentry(T(start)) <= T(d) && T(d) < athead(T(start)) && Bit(s#2, d) ==> athead(newmap[(T(d) + 4) % 7])
    invariant DateOk(start) && DateOk(end) && T(end) <= 67600 && atentry(T(start)) <= T(start) && (T(start) <= T(end) + 1 || T(start) == atentry(T(start)))
    invariant forall k: int :: {newmap[k]} 0 <= k && k < 7 && newmap[k] ==> bit(s#2.daymap, k)
    invariant forall d: gtfs.Date :: {Act(s#2, d)} DateOk(d) && atentry(T(start)) <= T(d) && T(d) < T(start) && bit(s#2.daymap, (T(d) + 4) % 7) ==> newmap[(T(d) + 4) % 7]

func processors.ServiceCalDatesRem.freeTripId
  nosafety
  requires sm != nil && feed != nil && sm.tids != nil
  requires forall k: string :: {sm.tids[k]} k in sm.tids ==> sm.tids[k]
  modifies processors.ServiceCalDatesRem.tidc at sm
  modifies map[string]bool at sm.tids
  ensures !(result in feed.Trips) && !old(result in sm.tids)
  ensures forall k: string :: {k in sm.tids} k in sm.tids <==> old(k in sm.tids) || k == result
  ensures forall k: string :: {sm.tids[k]} k in sm.tids ==> sm.tids[k]
  loop 1
    invariant forall k: string :: {k in sm.tids} k in sm.tids <==> old(k in sm.tids)
    invariant forall k: string :: {sm.tids[k]} sm.tids[k] == old(sm.tids[k])

// tables of additional fields: those of one trip are the same as those of another
ufun SameSeq(set[int], fn[int, string], set[int], fn[int, string]): bool
axiom SameSeqDef := forall a: set[int], v: fn[int, string], b: set[int], w: fn[int, string] :: {SameSeq(a, v, b, w)}
  SameSeq(a, v, b, w) == (forall q: int :: {q in a} {q in b} (q in a <==> q in b) && (q in a ==> v[q] == w[q]))
ufun SameFrq(set[*gtfs.Frequency], fn[*gtfs.Frequency, string], set[*gtfs.Frequency], fn[*gtfs.Frequency, string]): bool
axiom SameFrqDef := forall a: set[*gtfs.Frequency], v: fn[*gtfs.Frequency, string], b: set[*gtfs.Frequency], w: fn[*gtfs.Frequency, string] :: {SameFrq(a, v, b, w)}
  SameFrq(a, v, b, w) == (forall q: *gtfs.Frequency :: {q in a} {q in b} (q in a <==> q in b) && (q in a ==> v[q] == w[q]))
pred SameSTF(m: map[string]map[int]string, x: string, y: string) := (x in m <==> y in m) && (y in m ==> SameSeq(dom(m[x]), mapval(m[x]), dom(m[y]), mapval(m[y])))
pred SameFRF(m: map[string]map[*gtfs.Frequency]string, x: string, y: string) := (x in m <==> y in m) && (y in m ==> SameFrq(dom(m[x]), mapval(m[x]), dom(m[y]), mapval(m[y])))
pred SameTF(m: map[string]string, x: string, y: string) := (x in m <==> y in m) && m[x] == m[y]
// x is in none of the tables
pred NoFlds(f: *gtfsparser.Feed, x: string) := (forall g: string :: {f.TripsAddFlds[g]} g in f.TripsAddFlds ==> !(x in f.TripsAddFlds[g]))
  && (forall g: string :: {f.StopTimesAddFlds[g]} g in f.StopTimesAddFlds ==> !(x in f.StopTimesAddFlds[g]))
  && (forall g: string :: {f.FrequenciesAddFlds[g]} g in f.FrequenciesAddFlds ==> !(x in f.FrequenciesAddFlds[g]))

func processors.ServiceCalDatesRem.copyAddFlds
  nosafety
  requires feed != nil && id != newId && NoFlds(feed, newId)
  modifies map[string]string where m: map[string]string :: exists g: string :: {feed.TripsAddFlds[g]} g in feed.TripsAddFlds && feed.TripsAddFlds[g] == m
  modifies map[string]map[int]string where m: map[string]map[int]string :: exists g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds && feed.StopTimesAddFlds[g] == m
  modifies map[string]map[*gtfs.Frequency]string where m: map[string]map[*gtfs.Frequency]string :: exists g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds && feed.FrequenciesAddFlds[g] == m
  ensures forall g: string :: {feed.TripsAddFlds[g]} g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], newId, id)
  ensures forall g: string, k: string :: {k in feed.TripsAddFlds[g]} {feed.TripsAddFlds[g][k]} g in feed.TripsAddFlds && k != newId ==> (k in feed.TripsAddFlds[g] <==> old(k in feed.TripsAddFlds[g])) && feed.TripsAddFlds[g][k] == old(feed.TripsAddFlds[g][k])
  ensures forall g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], newId, id) && (newId in feed.StopTimesAddFlds[g] ==> allocated(feed.StopTimesAddFlds[g][newId]))
  ensures forall g: string, k: string :: {k in feed.StopTimesAddFlds[g]} {feed.StopTimesAddFlds[g][k]} g in feed.StopTimesAddFlds && k != newId ==> (k in feed.StopTimesAddFlds[g] <==> old(k in feed.StopTimesAddFlds[g])) && feed.StopTimesAddFlds[g][k] == old(feed.StopTimesAddFlds[g][k])
  ensures forall g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], newId, id) && (newId in feed.FrequenciesAddFlds[g] ==> allocated(feed.FrequenciesAddFlds[g][newId]))
  ensures forall g: string, k: string :: {k in feed.FrequenciesAddFlds[g]} {feed.FrequenciesAddFlds[g][k]} g in feed.FrequenciesAddFlds && k != newId ==> (k in feed.FrequenciesAddFlds[g] <==> old(k in feed.FrequenciesAddFlds[g])) && feed.FrequenciesAddFlds[g][k] == old(feed.FrequenciesAddFlds[g][k])
  loop 1
    invariant forall g: string :: {visited(g)} {feed.TripsAddFlds[g]} visited(g) ==> SameTF(feed.TripsAddFlds[g], newId, id)
    invariant forall g: string, k: string :: {k in feed.TripsAddFlds[g]} {feed.TripsAddFlds[g][k]} g in feed.TripsAddFlds && k != newId ==> (k in feed.TripsAddFlds[g] <==> old(k in feed.TripsAddFlds[g])) && feed.TripsAddFlds[g][k] == old(feed.TripsAddFlds[g][k])
    invariant forall g: string :: {feed.TripsAddFlds[g]} g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], newId, id) || !(newId in feed.TripsAddFlds[g])
  loop 2
    step newId in flds <==> id in flds
    step id in flds ==> (forall q: int :: {q in flds[newId]} {q in flds[id]} q in flds[newId] <==> q in flds[id])
    step id in flds ==> (forall q: int :: {q in flds[newId]} {q in flds[id]} q in flds[id] ==> flds[newId][q] == flds[id][q])
    step SameSTF(flds, newId, id)
    step forall g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds && feed.StopTimesAddFlds[g] != flds && athead(SameSTF(feed.StopTimesAddFlds[g], newId, id)) ==> SameSTF(feed.StopTimesAddFlds[g], newId, id)
    invariant forall g: string :: {visited(g)} {feed.StopTimesAddFlds[g]} visited(g) ==> SameSTF(feed.StopTimesAddFlds[g], newId, id)
    invariant forall g: string, k: string :: {k in feed.StopTimesAddFlds[g]} {feed.StopTimesAddFlds[g][k]} g in feed.StopTimesAddFlds && k != newId ==> (k in feed.StopTimesAddFlds[g] <==> old(k in feed.StopTimesAddFlds[g])) && feed.StopTimesAddFlds[g][k] == old(feed.StopTimesAddFlds[g][k])
    invariant forall g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], newId, id) || !(newId in feed.StopTimesAddFlds[g])
    invariant forall g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds && newId in feed.StopTimesAddFlds[g] ==> allocated(feed.StopTimesAddFlds[g][newId])
  loop 3
    modifies map[int]string at flds[newId]
    invariant newId in flds && fresh(flds[newId]) && flds[newId] != vals && allocated(flds[newId])
    invariant forall q: int :: {q in flds[newId]} {visited(q)} q in flds[newId] <==> visited(q)
    invariant forall q: int :: {flds[newId][q]} {vals[q]} visited(q) ==> q in vals && flds[newId][q] == vals[q]
  loop 4
    step newId in flds <==> id in flds
    step id in flds ==> (forall q: *gtfs.Frequency :: {q in flds[newId]} {q in flds[id]} q in flds[newId] <==> q in flds[id])
    step id in flds ==> (forall q: *gtfs.Frequency :: {q in flds[newId]} {q in flds[id]} q in flds[id] ==> flds[newId][q] == flds[id][q])
    step SameFRF(flds, newId, id)
    step forall g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds && feed.FrequenciesAddFlds[g] != flds && athead(SameFRF(feed.FrequenciesAddFlds[g], newId, id)) ==> SameFRF(feed.FrequenciesAddFlds[g], newId, id)
    invariant forall g: string :: {visited(g)} {feed.FrequenciesAddFlds[g]} visited(g) ==> SameFRF(feed.FrequenciesAddFlds[g], newId, id)
    invariant forall g: string, k: string :: {k in feed.FrequenciesAddFlds[g]} {feed.FrequenciesAddFlds[g][k]} g in feed.FrequenciesAddFlds && k != newId ==> (k in feed.FrequenciesAddFlds[g] <==> old(k in feed.FrequenciesAddFlds[g])) && feed.FrequenciesAddFlds[g][k] == old(feed.FrequenciesAddFlds[g][k])
    invariant forall g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], newId, id) || !(newId in feed.FrequenciesAddFlds[g])
    invariant forall g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds && newId in feed.FrequenciesAddFlds[g] ==> allocated(feed.FrequenciesAddFlds[g][newId])
  loop 5
    modifies map[*gtfs.Frequency]string at flds[newId]
    invariant newId in flds && fresh(flds[newId]) && flds[newId] != vals && allocated(flds[newId])
    invariant forall q: *gtfs.Frequency :: {q in flds[newId]} {visited(q)} q in flds[newId] <==> visited(q)
    invariant forall q: *gtfs.Frequency :: {flds[newId][q]} {vals[q]} visited(q) ==> q in vals && flds[newId][q] == vals[q]

// whole lists and stop times of two trips
ufun SameList(seq[gtfs.StopTime], int, seq[gtfs.StopTime], int): bool
axiom SameListDef := forall a: seq[gtfs.StopTime], n: int, b: seq[gtfs.StopTime], m: int :: {SameList(a, n, b, m)}
  SameList(a, n, b, m) == (n == m && (forall j: int :: {a[j]} {b[j]} 0 <= j && j < n ==> a[j] == b[j]))
pred SameAttr(x: *gtfs.Trip, y: *gtfs.Trip) := x.Route == y.Route && x.Shape == y.Shape && x.Headsign == y.Headsign && x.Short_name == y.Short_name && x.Block_id == y.Block_id
  && x.Direction_id == y.Direction_id && x.Wheelchair_accessible == y.Wheelchair_accessible && x.Bikes_allowed == y.Bikes_allowed
  && off(x.StopTimes) == 0 && SameList(row(x.StopTimes), len(x.StopTimes), row(y.StopTimes), len(y.StopTimes))
ufun SameFr(seq[*gtfs.Frequency], int, seq[*gtfs.Frequency], int): bool
axiom SameFrDef := forall a: seq[*gtfs.Frequency], n: int, b: seq[*gtfs.Frequency], m: int :: {SameFr(a, n, b, m)}
  SameFr(a, n, b, m) == (n == m && (forall j: int :: {a[j]} {b[j]} 0 <= j && j < n ==> a[j] == b[j]))
ufun SameAt(seq[*gtfs.Attribution], int, seq[*gtfs.Attribution], int): bool
axiom SameAtDef := forall a: seq[*gtfs.Attribution], n: int, b: seq[*gtfs.Attribution], m: int :: {SameAt(a, n, b, m)}
  SameAt(a, n, b, m) == (n == m && (forall j: int :: {a[j]} {b[j]} 0 <= j && j < n ==> a[j] == b[j]))
ufun SameTr(seq[*gtfs.Translation], int, seq[*gtfs.Translation], int): bool
axiom SameTrDef := forall a: seq[*gtfs.Translation], n: int, b: seq[*gtfs.Translation], m: int :: {SameTr(a, n, b, m)}
  SameTr(a, n, b, m) == (n == m && (forall j: int :: {a[j]} {b[j]} 0 <= j && j < n ==> a[j] == b[j]))
pred SameFrqs(x: *gtfs.Trip, y: *gtfs.Trip) := (x.Frequencies == nil <==> y.Frequencies == nil) && (y.Frequencies != nil ==> off(deref(x.Frequencies)) == 0
  && SameFr(row(deref(x.Frequencies)), len(deref(x.Frequencies)), row(deref(y.Frequencies)), len(deref(y.Frequencies))))
pred SameAttrs(x: *gtfs.Trip, y: *gtfs.Trip) := (x.Attributions == nil <==> y.Attributions == nil) && (y.Attributions != nil ==> off(deref(x.Attributions)) == 0
  && SameAt(row(deref(x.Attributions)), len(deref(x.Attributions)), row(deref(y.Attributions)), len(deref(y.Attributions))))
pred SameTrans(x: *gtfs.Trip, y: *gtfs.Trip) := (x.Translations == nil <==> y.Translations == nil) && (y.Translations != nil ==> off(deref(x.Translations)) == 0
  && SameTr(row(deref(x.Translations)), len(deref(x.Translations)), row(deref(y.Translations)), len(deref(y.Translations))))
pred ListsOk(t: *gtfs.Trip) := off(t.StopTimes) == 0 && (t.Frequencies != nil ==> off(deref(t.Frequencies)) == 0) && (t.Attributions != nil ==> off(deref(t.Attributions)) == 0) && (t.Translations != nil ==> off(deref(t.Translations)) == 0)

// marks pairs for which a block is looked up
ufun W(string, int): bool
axiom WTrue := forall k: string, i: int :: {W(k, i)} W(k, i)

func processors.ServiceCalDatesRem.Run
  nosafety
  ghost src: fn[string, string]
  ghost ix: fn[string, int]
  ghost pos: fn[string, int]
  ghost nth: fn[string, int]
  requires feed != nil && feed.Services != nil && feed.Trips != nil
  requires forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k
  requires until 2 forall k: string :: {feed.Services[k]} k in feed.Services ==> WFService(feed.Services[k]) && Defined(feed.Services[k])
  requires forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k && ListsOk(feed.Trips[k])
      && feed.Trips[k].Service != nil && feed.Trips[k].Service.id in feed.Services && feed.Services[feed.Trips[k].Service.id] == feed.Trips[k].Service
  requires forall k: string :: {k in feed.Trips} !(k in feed.Trips) ==> NoFlds(feed, k)
  modifies gtfs.Service.daymap where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies gtfs.Service.start_date where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies gtfs.Service.end_date where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies gtfs.Service.exceptions where x: *gtfs.Service :: x.id in feed.Services && feed.Services[x.id] == x
  modifies map[string]*gtfs.Service at feed.Services
  modifies map[string]*gtfs.Trip at feed.Trips
  modifies gtfs.Trip.Service where x: *gtfs.Trip :: x.Id in feed.Trips && feed.Trips[x.Id] == x
  modifies map[string]string where m: map[string]string :: exists g: string :: {feed.TripsAddFlds[g]} g in feed.TripsAddFlds && feed.TripsAddFlds[g] == m
  modifies map[string]map[int]string where m: map[string]map[int]string :: exists g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds && feed.StopTimesAddFlds[g] == m
  modifies map[string]map[*gtfs.Frequency]string where m: map[string]map[*gtfs.Frequency]string :: exists g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds && feed.FrequenciesAddFlds[g] == m
  ensures forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k && NoExc(feed.Services[k])
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k] != nil && feed.Trips[k].Id == k
      && feed.Trips[k].Service != nil && feed.Trips[k].Service.id in feed.Services && feed.Services[feed.Trips[k].Service.id] == feed.Trips[k].Service
  // every trip stays, every other one is a copy of one that was there
  ensures forall k: string :: {feed.Trips[k]} {old(feed.Trips[k])} old(k in feed.Trips) ==> k in feed.Trips && feed.Trips[k] == old(feed.Trips[k])
  ensures forall k: string :: {feed.Trips[k]} k in feed.Trips && !old(k in feed.Trips) ==> (let o := src[k] :: old(o in feed.Trips))
      && SameAttr(feed.Trips[k], feed.Trips[src[k]]) && SameFrqs(feed.Trips[k], feed.Trips[src[k]]) && SameAttrs(feed.Trips[k], feed.Trips[src[k]]) && SameTrans(feed.Trips[k], feed.Trips[src[k]])
  // with the additional fields, and nothing else of the trips that were there is changed
  ensures forall g: string, k: string :: {k in feed.TripsAddFlds[g]} {feed.TripsAddFlds[g][k]} g in feed.TripsAddFlds && old(k in feed.Trips) ==> (k in feed.TripsAddFlds[g] <==> old(k in feed.TripsAddFlds[g])) && feed.TripsAddFlds[g][k] == old(feed.TripsAddFlds[g][k])
  ensures forall g: string, k: string :: {k in feed.StopTimesAddFlds[g]} {feed.StopTimesAddFlds[g][k]} g in feed.StopTimesAddFlds && old(k in feed.Trips) ==> (k in feed.StopTimesAddFlds[g] <==> old(k in feed.StopTimesAddFlds[g])) && feed.StopTimesAddFlds[g][k] == old(feed.StopTimesAddFlds[g][k])
  ensures forall g: string, k: string :: {k in feed.FrequenciesAddFlds[g]} {feed.FrequenciesAddFlds[g][k]} g in feed.FrequenciesAddFlds && old(k in feed.Trips) ==> (k in feed.FrequenciesAddFlds[g] <==> old(k in feed.FrequenciesAddFlds[g])) && feed.FrequenciesAddFlds[g][k] == old(feed.FrequenciesAddFlds[g][k])
  ensures forall k: string, g: string :: {feed.Trips[k], feed.TripsAddFlds[g]} k in feed.Trips && !old(k in feed.Trips) && g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], k, src[k])
  ensures forall k: string, g: string :: {feed.Trips[k], feed.StopTimesAddFlds[g]} k in feed.Trips && !old(k in feed.Trips) && g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], k, src[k])
  ensures forall k: string, g: string :: {feed.Trips[k], feed.FrequenciesAddFlds[g]} k in feed.Trips && !old(k in feed.Trips) && g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], k, src[k])
  // on every date, exactly one of a trip and its copies runs if the trip ran before
  ensures forall k: string, d: gtfs.Date :: {Act(feed.Trips[k].Service, d)} k in feed.Trips && DateOk(d) && Act(feed.Trips[k].Service, d) ==> (let o := (if old(k in feed.Trips) then k else src[k]) :: old(Act(feed.Trips[o].Service, d)))
  ensures forall k: string, d: gtfs.Date :: {old(Act(feed.Trips[k].Service, d))} old(k in feed.Trips) && DateOk(d) && old(Act(feed.Trips[k].Service, d)) ==>
      Act(feed.Trips[k].Service, d) || (exists c: string :: {feed.Trips[c]} c in feed.Trips && !old(c in feed.Trips) && src[c] == k && Act(feed.Trips[c].Service, d))
  ensures forall k: string, c: string, d: gtfs.Date :: {Act(feed.Trips[k].Service, d), Act(feed.Trips[c].Service, d)} k in feed.Trips && c in feed.Trips && k != c && DateOk(d)
      && (if old(k in feed.Trips) then k else src[k]) == (if old(c in feed.Trips) then c else src[c]) ==> !Act(feed.Trips[k].Service, d) || !Act(feed.Trips[c].Service, d)
  loop 1
    step len(blocks) == 1 ==> (forall d: gtfs.Date :: {Act(s, d)} {Act(row(blocks)[0], d)} DateOk(d) ==> (Act(s, d) <==> Act(row(blocks)[0], d)))
    step len(blocks) == 1 ==> (forall d: gtfs.Date :: {Act(s, d)} {Act(row(blocks)[0], d)} DateOk(d) ==> (let x := s :: Act(row(blocks)[0], d) <==> old(Act(x, d))))
    invariant sm.sids != nil && sm.sids == atentry(sm.sids) && fresh(sm.sids) && allocated(sm.sids) && sm.tids == atentry(sm.tids)
    invariant forall k: string :: {k in sm.tids} !(k in sm.tids)
    invariant forall k: string :: {feed.Services[k]} k in feed.Services && !visited(k) ==> feed.Services[k].daymap == old(feed.Services[k].daymap) && feed.Services[k].start_date == old(feed.Services[k].start_date)
        && feed.Services[k].end_date == old(feed.Services[k].end_date) && feed.Services[k].exceptions == old(feed.Services[k].exceptions)
    invariant forall k: string :: {sm.sids[k]} k in sm.sids ==> sm.sids[k]
    invariant forall s: *gtfs.Service :: {newServices[s]} {s in newServices} s in newServices ==> s != nil && s.id in feed.Services && feed.Services[s.id] == s && visited(s.id)
        && len(newServices[s]) >= 1 && off(newServices[s]) == 0 && fresh(newServices[s]) && allocated(arr(newServices[s]))
    invariant forall s: *gtfs.Service, i: int :: {row(newServices[s])[i]} s in newServices && 0 <= i && i < len(newServices[s]) ==> row(newServices[s])[i] != nil && fresh(row(newServices[s])[i]) && allocated(row(newServices[s])[i])
        && NoExc(row(newServices[s])[i]) && row(newServices[s])[i].id in sm.sids && !(row(newServices[s])[i].id in feed.Services)
    invariant forall s: *gtfs.Service, i: int, t: *gtfs.Service, j: int :: {row(newServices[s])[i], row(newServices[t])[j]} s in newServices && 0 <= i && i < len(newServices[s]) && t in newServices && 0 <= j && j < len(newServices[t])
        && row(newServices[s])[i].id == row(newServices[t])[j].id ==> s == t && i == j
    invariant forall s: *gtfs.Service, d: gtfs.Date :: {old(Act(s, d)), newServices[s]} s in newServices && DateOk(d) && old(Act(s, d)) ==> (exists i: int :: {row(newServices[s])[i]} 0 <= i && i < len(newServices[s]) && Act(row(newServices[s])[i], d))
    invariant forall s: *gtfs.Service, i: int, d: gtfs.Date :: {Act(row(newServices[s])[i], d)} s in newServices && 0 <= i && i < len(newServices[s]) && DateOk(d) && Act(row(newServices[s])[i], d) ==> old(Act(s, d))
    invariant forall s: *gtfs.Service, i: int, j: int, d: gtfs.Date :: {Act(row(newServices[s])[i], d), Act(row(newServices[s])[j], d)} s in newServices && 0 <= i && i < j && j < len(newServices[s]) && DateOk(d) ==> !Act(row(newServices[s])[i], d) || !Act(row(newServices[s])[j], d)
    invariant forall k: string :: {feed.Services[k]} k in feed.Services && visited(k) && !(feed.Services[k] in newServices) ==> NoExc(feed.Services[k])
    invariant forall k: string, d: gtfs.Date :: {Act(feed.Services[k], d)} k in feed.Services && visited(k) && !(feed.Services[k] in newServices) && DateOk(d) ==> (Act(feed.Services[k], d) <==> old(Act(feed.Services[k], d)))
  loop 2
    invariant forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k && (NoExc(feed.Services[k]) || feed.Services[k] in newServices && !visited(feed.Services[k]))
    invariant forall s: *gtfs.Service, i: int :: {row(newServices[s])[i]} s in newServices && visited(s) && 0 <= i && i < len(newServices[s]) ==> row(newServices[s])[i].id in feed.Services && feed.Services[row(newServices[s])[i].id] == row(newServices[s])[i]
    invariant forall k: string :: {atpre(feed.Services[k])} atpre(k in feed.Services) && !(atpre(feed.Services[k]) in newServices) ==> k in feed.Services && feed.Services[k] == atpre(feed.Services[k])
  loop 3
    invariant forall k: string :: {feed.Services[k]} k in feed.Services ==> feed.Services[k] != nil && feed.Services[k].id == k && (NoExc(feed.Services[k]) || atentry(k in feed.Services) && feed.Services[k] == atentry(feed.Services[k]))
    invariant forall i: int :: {row(news)[i]} 0 <= i && i < $i ==> row(news)[i].id in feed.Services && feed.Services[row(news)[i].id] == row(news)[i]
    invariant forall k: string :: {feed.Services[k]} {atentry(feed.Services[k])} atentry(k in feed.Services) ==> k in feed.Services && (feed.Services[k] == atentry(feed.Services[k]) || (exists i: int :: {row(news)[i]} 0 <= i && i < $i && row(news)[i].id == k))
  loop 4
    set pos := pos[trip.Id := athead(len(newTrips))]
    step forall k: string :: {feed.Trips[k]} k in feed.Trips && k != trip.Id ==> pos[k] == athead(pos[k])
    step forall j: int :: {row(newTrips)[j]} 0 <= j && j < athead(len(newTrips)) ==> row(newTrips)[j] == athead(row(newTrips)[j]) && src[row(newTrips)[j].Id] == athead(src[row(newTrips)[j].Id]) && ix[row(newTrips)[j].Id] == athead(ix[row(newTrips)[j].Id])
    step pos[trip.Id] == athead(len(newTrips))
    step forall j: int :: {row(newTrips)[j]} athead(len(newTrips)) <= j && j < len(newTrips) ==> src[row(newTrips)[j].Id] == trip.Id && ix[row(newTrips)[j].Id] == j - pos[trip.Id] + 1
    invariant sm.tids != nil && sm.tids == atentry(sm.tids) && fresh(sm.tids) && allocated(sm.tids) && (forall k: string :: {sm.tids[k]} k in sm.tids ==> sm.tids[k])
    invariant off(newTrips) == 0 && fresh(newTrips) && allocated(arr(newTrips)) && (cap(newTrips) == 0 || freshloop(newTrips))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !visited(k) ==> feed.Trips[k].Service == old(feed.Trips[k].Service)
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) ==> (let s := old(feed.Trips[k].Service) :: feed.Trips[k].Service == (if s in newServices then row(newServices[s])[0] else s))
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> row(newTrips)[j] != nil && fresh(row(newTrips)[j]) && allocated(row(newTrips)[j]) && row(newTrips)[j].Id in sm.tids && !(row(newTrips)[j].Id in feed.Trips)
    invariant forall i: int, j: int :: {row(newTrips)[i], row(newTrips)[j]} 0 <= i && i < j && j < len(newTrips) ==> row(newTrips)[i].Id != row(newTrips)[j].Id
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> (let y := row(newTrips)[j].Id :: src[y] in feed.Trips && visited(src[y]) && pos[src[y]] + ix[y] - 1 == j && 1 <= ix[y]
        && (let k := src[y] :: let s := old(feed.Trips[k].Service) :: s in newServices && ix[y] < len(newServices[s]) && row(newTrips)[j].Service == row(newServices[s])[ix[y]]))
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && visited(k) && old(feed.Trips[k].Service) in newServices ==> 0 <= pos[k] && pos[k] + len(newServices[old(feed.Trips[k].Service)]) - 1 <= len(newTrips)
    invariant forall k: string, j: int :: {feed.Trips[k], row(newTrips)[j]} k in feed.Trips && visited(k) && old(feed.Trips[k].Service) in newServices && pos[k] <= j && j < pos[k] + len(newServices[old(feed.Trips[k].Service)]) - 1 ==> src[row(newTrips)[j].Id] == k && ix[row(newTrips)[j].Id] == j - pos[k] + 1
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> SameAttr(row(newTrips)[j], feed.Trips[src[row(newTrips)[j].Id]])
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> SameFrqs(row(newTrips)[j], feed.Trips[src[row(newTrips)[j].Id]])
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> SameAttrs(row(newTrips)[j], feed.Trips[src[row(newTrips)[j].Id]])
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> SameTrans(row(newTrips)[j], feed.Trips[src[row(newTrips)[j].Id]])
    invariant forall k: string :: {k in feed.Trips} {k in sm.tids} !(k in feed.Trips) && !(k in sm.tids) ==> NoFlds(feed, k)
    invariant forall g: string, k: string :: {k in feed.TripsAddFlds[g]} {feed.TripsAddFlds[g][k]} g in feed.TripsAddFlds && k in feed.Trips ==> (k in feed.TripsAddFlds[g] <==> old(k in feed.TripsAddFlds[g])) && feed.TripsAddFlds[g][k] == old(feed.TripsAddFlds[g][k])
    invariant forall g: string, k: string :: {k in feed.StopTimesAddFlds[g]} {feed.StopTimesAddFlds[g][k]} g in feed.StopTimesAddFlds && k in feed.Trips ==> (k in feed.StopTimesAddFlds[g] <==> old(k in feed.StopTimesAddFlds[g])) && feed.StopTimesAddFlds[g][k] == old(feed.StopTimesAddFlds[g][k])
    invariant forall g: string, k: string :: {k in feed.FrequenciesAddFlds[g]} {feed.FrequenciesAddFlds[g][k]} g in feed.FrequenciesAddFlds && k in feed.Trips ==> (k in feed.FrequenciesAddFlds[g] <==> old(k in feed.FrequenciesAddFlds[g])) && feed.FrequenciesAddFlds[g][k] == old(feed.FrequenciesAddFlds[g][k])
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.TripsAddFlds[g]} 0 <= j && j < len(newTrips) && g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], row(newTrips)[j].Id, src[row(newTrips)[j].Id])
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.StopTimesAddFlds[g]} 0 <= j && j < len(newTrips) && g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], row(newTrips)[j].Id, src[row(newTrips)[j].Id])
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.FrequenciesAddFlds[g]} 0 <= j && j < len(newTrips) && g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], row(newTrips)[j].Id, src[row(newTrips)[j].Id])
  loop 5
    modifies map[string]bool at sm.tids
    modifies []*gtfs.Trip at arr(newTrips)
    modifies map[string]string where m: map[string]string :: exists g: string :: {feed.TripsAddFlds[g]} g in feed.TripsAddFlds && feed.TripsAddFlds[g] == m
    modifies map[string]map[int]string where m: map[string]map[int]string :: exists g: string :: {feed.StopTimesAddFlds[g]} g in feed.StopTimesAddFlds && feed.StopTimesAddFlds[g] == m
    modifies map[string]map[*gtfs.Frequency]string where m: map[string]map[*gtfs.Frequency]string :: exists g: string :: {feed.FrequenciesAddFlds[g]} g in feed.FrequenciesAddFlds && feed.FrequenciesAddFlds[g] == m
    set src := src[row(newTrips)[len(newTrips) - 1].Id := trip.Id]
    set ix := ix[row(newTrips)[len(newTrips) - 1].Id := i - 1]
    invariant 1 <= i && i <= len(val) && len(newTrips) == atentry(len(newTrips)) + i - 1
    invariant sm.tids != nil && sm.tids == atentry(sm.tids) && fresh(sm.tids) && allocated(sm.tids) && (forall k: string :: {sm.tids[k]} k in sm.tids ==> sm.tids[k])
    invariant forall k: string :: {k in sm.tids} atentry(k in sm.tids) ==> k in sm.tids
    invariant off(newTrips) == 0 && fresh(newTrips) && allocated(arr(newTrips)) && (cap(newTrips) == 0 || freshloop(newTrips) || arr(newTrips) == atentry(arr(newTrips)) && cap(newTrips) == atentry(cap(newTrips)))
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < atentry(len(newTrips)) ==> row(newTrips)[j] == atentry(row(newTrips)[j])
    invariant forall k: string :: {src[k]} {ix[k]} atentry(k in sm.tids) ==> src[k] == atentry(src[k]) && ix[k] == atentry(ix[k])
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> row(newTrips)[j] != nil && fresh(row(newTrips)[j]) && allocated(row(newTrips)[j]) && row(newTrips)[j].Id in sm.tids && !(row(newTrips)[j].Id in feed.Trips)
    invariant forall i: int, j: int :: {row(newTrips)[i], row(newTrips)[j]} 0 <= i && i < j && j < len(newTrips) ==> row(newTrips)[i].Id != row(newTrips)[j].Id
    invariant forall j: int :: {row(newTrips)[j]} atentry(len(newTrips)) <= j && j < len(newTrips) ==> (let y := row(newTrips)[j].Id :: src[y] == trip.Id && ix[y] == j - atentry(len(newTrips)) + 1 && row(newTrips)[j].Service == row(val)[ix[y]])
    invariant forall j: int :: {row(newTrips)[j]} atentry(len(newTrips)) <= j && j < len(newTrips) ==> SameAttr(row(newTrips)[j], trip)
    invariant forall j: int :: {row(newTrips)[j]} atentry(len(newTrips)) <= j && j < len(newTrips) ==> SameFrqs(row(newTrips)[j], trip)
    invariant forall j: int :: {row(newTrips)[j]} atentry(len(newTrips)) <= j && j < len(newTrips) ==> SameAttrs(row(newTrips)[j], trip)
    invariant forall j: int :: {row(newTrips)[j]} atentry(len(newTrips)) <= j && j < len(newTrips) ==> SameTrans(row(newTrips)[j], trip)
    invariant forall k: string :: {k in feed.Trips} {k in sm.tids} !(k in feed.Trips) && !(k in sm.tids) ==> NoFlds(feed, k)
    invariant forall g: string, k: string :: {k in feed.TripsAddFlds[g]} {feed.TripsAddFlds[g][k]} g in feed.TripsAddFlds && (k in feed.Trips || atentry(k in sm.tids)) ==> (k in feed.TripsAddFlds[g] <==> atentry(k in feed.TripsAddFlds[g])) && feed.TripsAddFlds[g][k] == atentry(feed.TripsAddFlds[g][k])
    invariant forall g: string, k: string :: {k in feed.StopTimesAddFlds[g]} {feed.StopTimesAddFlds[g][k]} g in feed.StopTimesAddFlds && (k in feed.Trips || atentry(k in sm.tids)) ==> (k in feed.StopTimesAddFlds[g] <==> atentry(k in feed.StopTimesAddFlds[g])) && feed.StopTimesAddFlds[g][k] == atentry(feed.StopTimesAddFlds[g][k])
    invariant forall g: string, k: string :: {k in feed.FrequenciesAddFlds[g]} {feed.FrequenciesAddFlds[g][k]} g in feed.FrequenciesAddFlds && (k in feed.Trips || atentry(k in sm.tids)) ==> (k in feed.FrequenciesAddFlds[g] <==> atentry(k in feed.FrequenciesAddFlds[g])) && feed.FrequenciesAddFlds[g][k] == atentry(feed.FrequenciesAddFlds[g][k])
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.TripsAddFlds[g]} atentry(len(newTrips)) <= j && j < len(newTrips) && g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], row(newTrips)[j].Id, trip.Id)
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.StopTimesAddFlds[g]} atentry(len(newTrips)) <= j && j < len(newTrips) && g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], row(newTrips)[j].Id, trip.Id)
    invariant forall j: int, g: string :: {row(newTrips)[j], feed.FrequenciesAddFlds[g]} atentry(len(newTrips)) <= j && j < len(newTrips) && g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], row(newTrips)[j].Id, trip.Id)
  loop 6
    assert forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> (let o := src[row(newTrips)[j].Id] :: old(o in feed.Trips))
    assert forall k: string :: {feed.Trips[k]} k in feed.Trips ==> feed.Trips[k].Service != nil && feed.Trips[k].Service.id in feed.Services && feed.Services[feed.Trips[k].Service.id] == feed.Trips[k].Service
    assert forall j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) ==> row(newTrips)[j].Service != nil && row(newTrips)[j].Service.id in feed.Services && feed.Services[row(newTrips)[j].Service.id] == row(newTrips)[j].Service
    assert forall k: string, d: gtfs.Date :: {Act(feed.Trips[k].Service, d)} k in feed.Trips && DateOk(d) && Act(feed.Trips[k].Service, d) ==> old(Act(feed.Trips[k].Service, d))
    assert forall j: int, d: gtfs.Date :: {Act(row(newTrips)[j].Service, d)} 0 <= j && j < len(newTrips) && DateOk(d) && Act(row(newTrips)[j].Service, d) ==> (let o := src[row(newTrips)[j].Id] :: old(Act(feed.Trips[o].Service, d)))
    assert forall k: string, d: gtfs.Date :: {old(Act(feed.Trips[k].Service, d))} k in feed.Trips && old(feed.Trips[k].Service) in newServices && DateOk(d) && old(Act(feed.Trips[k].Service, d)) ==>
      (exists i: int :: {row(newServices[old(feed.Trips[k].Service)])[i]} W(k, i) && 0 <= i && i < len(newServices[old(feed.Trips[k].Service)]) && Act(row(newServices[old(feed.Trips[k].Service)])[i], d))
    assert forall k: string, i: int :: {W(k, i)} W(k, i) && k in feed.Trips && old(feed.Trips[k].Service) in newServices && 1 <= i && i < len(newServices[old(feed.Trips[k].Service)]) ==>
      0 <= pos[k] + i - 1 && pos[k] + i - 1 < len(newTrips) && src[row(newTrips)[pos[k] + i - 1].Id] == k && row(newTrips)[pos[k] + i - 1].Service == row(newServices[old(feed.Trips[k].Service)])[i]
    assert forall k: string, d: gtfs.Date :: {old(Act(feed.Trips[k].Service, d))} k in feed.Trips && DateOk(d) && old(Act(feed.Trips[k].Service, d)) ==>
      Act(feed.Trips[k].Service, d) || (exists j: int :: {row(newTrips)[j]} 0 <= j && j < len(newTrips) && src[row(newTrips)[j].Id] == k && Act(row(newTrips)[j].Service, d))
    assert forall j: int, d: gtfs.Date :: {Act(row(newTrips)[j].Service, d)} 0 <= j && j < len(newTrips) && DateOk(d) ==> !Act(row(newTrips)[j].Service, d) || !Act(feed.Trips[src[row(newTrips)[j].Id]].Service, d)
    assert forall i: int, j: int, d: gtfs.Date :: {Act(row(newTrips)[i].Service, d), Act(row(newTrips)[j].Service, d)} 0 <= i && i < j && j < len(newTrips) && DateOk(d) && src[row(newTrips)[i].Id] == src[row(newTrips)[j].Id] ==> !Act(row(newTrips)[i].Service, d) || !Act(row(newTrips)[j].Service, d)
    set nth := nth[row(newTrips)[$i - 1].Id := $i - 1]
    step nth[row(newTrips)[$i - 1].Id] == $i - 1 && feed.Trips[row(newTrips)[$i - 1].Id] == row(newTrips)[$i - 1]
    step forall k: string :: {nth[k]} {feed.Trips[k]} k != row(newTrips)[$i - 1].Id ==> nth[k] == athead(nth[k]) && feed.Trips[k] == athead(feed.Trips[k]) && (k in feed.Trips <==> athead(k in feed.Trips))
    invariant forall k: string :: {feed.Trips[k]} atpre(k in feed.Trips) ==> k in feed.Trips && feed.Trips[k] == atpre(feed.Trips[k])
    invariant forall k: string :: {feed.Trips[k]} k in feed.Trips && !atpre(k in feed.Trips) ==> 0 <= nth[k] && nth[k] < $i && row(newTrips)[nth[k]].Id == k && feed.Trips[k] == row(newTrips)[nth[k]]
    invariant forall j: int :: {row(newTrips)[j]} 0 <= j && j < $i ==> row(newTrips)[j].Id in feed.Trips && feed.Trips[row(newTrips)[j].Id] == row(newTrips)[j]
    invariant forall k: string, g: string :: {feed.Trips[k], feed.TripsAddFlds[g]} k in feed.Trips && !atpre(k in feed.Trips) && g in feed.TripsAddFlds ==> SameTF(feed.TripsAddFlds[g], k, src[k])
    invariant forall k: string, g: string :: {feed.Trips[k], feed.StopTimesAddFlds[g]} k in feed.Trips && !atpre(k in feed.Trips) && g in feed.StopTimesAddFlds ==> SameSTF(feed.StopTimesAddFlds[g], k, src[k])
    invariant forall k: string, g: string :: {feed.Trips[k], feed.FrequenciesAddFlds[g]} k in feed.Trips && !atpre(k in feed.Trips) && g in feed.FrequenciesAddFlds ==> SameFRF(feed.FrequenciesAddFlds[g], k, src[k])
