property C01 processors.ServiceMinimizer.Run

// s is active on exactly the dates it was active on when the function was entered
pred SameDates(s: *gtfs.Service) := forall d: gtfs.Date :: {Act(s, d)} ValidDate(d) ==> Act(s, d) == old(Act(s, d))

func processors.GetDateRange
  requires WFService(service)
  requires exists d: gtfs.Date :: d in service.exceptions
  assert forall d: gtfs.Date :: {d in service.exceptions} d in service.exceptions && service.exceptions[d] ==> Act(service, d)
  ensures ValidDate(result.Start) && ValidDate(result.End) && T(result.Start) <= T(result.End)
  ensures forall d: gtfs.Date :: {Act(service, d)} DateOk(d) && Act(service, d) ==> T(result.Start) <= T(d) && T(d) <= T(result.End)
  loop 1
    invariant LateDate(first) && LateDate(last) && T(first) <= T(last)
    invariant forall d: gtfs.Date :: {Act(service, d)} DateOk(d) && Act(service, d) ==> T(first) <= T(d) && T(d) <= T(last)
  loop 2
    invariant LateDate(first) && LateDate(last) && T(first) <= T(last)
    invariant forall d: gtfs.Date :: {Act(service, d)} DateOk(d) && Act(service, d) ==> T(first) <= T(d) && T(d) <= T(last)

func processors.ServiceMinimizer.getDaysNotMatched
  requires service != nil
  modifies nothing

func processors.ServiceMinimizer.countExceptions
  requires startDiff <= 0 && -endDiff < len(actmap) && 0 <= -endDiff
  modifies nothing

func processors.ServiceMinimizer.updateService
  requires WFService(service)
  requires ValidDate(start) && ValidDate(end) && T(start) <= T(end)
  requires startTime == T(start) && endTime == T(end)
  requires bestA >= 0 && bestB >= 0 && T(start) + bestA <= 67600 && T(start) + bestB <= 67600
  requires forall d: gtfs.Date :: {Act(service, d)} DateOk(d) && Act(service, d) ==> T(start) <= T(d) && T(d) <= T(end)
  modifies gtfs.Service.daymap, gtfs.Service.start_date, gtfs.Service.end_date, gtfs.Service.exceptions at service
  requires bestA <= bestB
  ensures SameDates(service)
  ensures WFService(service)
  assert newBegin >= newEnd ==> newBegin == newEnd && !newMap[0] && !newMap[1] && !newMap[2] && !newMap[3] && !newMap[4] && !newMap[5] && !newMap[6]
  assert newBegin < newEnd ==> newEnd <= T(end)
  assert T(service.start_date) == newBegin && T(service.end_date) == newEnd
  assert newEnd <= newBegin || newEnd <= T(end)
  assert bit(service.daymap, 0) == newMap[0]
  assert bit(service.daymap, 1) == newMap[1]
  assert bit(service.daymap, 2) == newMap[2]
  assert bit(service.daymap, 3) == newMap[3]
  assert bit(service.daymap, 4) == newMap[4]
  assert bit(service.daymap, 5) == newMap[5]
  assert bit(service.daymap, 6) == newMap[6]
  assert newBegin >= newEnd ==> NoDays(service.daymap)
  assert forall d: gtfs.Date :: {Act(service, d)} bit(service.daymap, (T(d) + 4) % 7) == newMap[(T(d) + 4) % 7]
  assert forall d: gtfs.Date :: {Act(service, d)} d in service.exceptions ==> Act(service, d) == old(Act(service, d))
  assert forall d: gtfs.Date :: {Act(service, d)} !(d in service.exceptions) ==> (Act(service, d) <==> InMap(newMap, newBegin, newEnd, T(d)))
  assert forall d: gtfs.Date :: {Act(service, d)} ValidDate(d) && !(T(start) <= T(d) && T(d) <= T(end)) ==> !Act(service, d)
  loop 1
    invariant newBegin >= startTime && newBegin <= DATEHI && newBegin <= newEnd
  loop 2
    invariant newEnd <= DATEHI && newEnd >= startTime && newBegin <= newEnd
  loop 3
    invariant T(start) <= st && st <= T(end) + 1
    invariant fresh(newExceptions) && off(newExceptions) == 0
    invariant forall i: int :: {row(newExceptions)[i]} 0 <= i && i < len(newExceptions) ==>
        let e := row(newExceptions)[i] :: e != nil && fresh(e) && ValidDate(e.Date) && T(start) <= T(e.Date) && T(e.Date) < st
          && (e.Type == 1 || e.Type == 2) && (e.Type == 1 <==> Act(service, e.Date)) && (e.Type == 1 <==> !InMap(newMap, newBegin, newEnd, T(e.Date)))
    invariant forall d: gtfs.Date :: {Act(service, d)} ValidDate(d) && T(start) <= T(d) && T(d) < st && (Act(service, d) <==> !InMap(newMap, newBegin, newEnd, T(d)))
        ==> exists i: int :: {row(newExceptions)[i]} 0 <= i && i < len(newExceptions) && row(newExceptions)[i].Date == d
  loop 4
    modifies map[gtfs.Date]bool at service.exceptions
    invariant forall d: gtfs.Date :: {d in service.exceptions} d in service.exceptions ==> ValidDate(d) && (service.exceptions[d] <==> atold(Act(service, d), d, service)) && (service.exceptions[d] <==> !InMap(newMap, newBegin, newEnd, T(d)))
    invariant forall i: int :: {row(newExceptions)[i]} 0 <= i && i < $i ==> row(newExceptions)[i].Date in service.exceptions

pred InMap(m: [7]bool, b: time.Time, e: time.Time, t: int) := b <= t && t <= e && m[(t + 4) % 7]


func processors.ServiceMinimizer.perfectMinimize
  requires WFService(service)
  modifies gtfs.Service.daymap, gtfs.Service.start_date, gtfs.Service.end_date, gtfs.Service.exceptions at service
  ensures SameDates(service)
  ensures WFService(service)
  loop 1
    invariant 0 <= a && 0 <= bestA && bestA <= bestB && bestB <= l
  loop 2
    invariant b <= l - 1 && 0 <= bestA && bestA <= bestB && bestB <= l
  loop 3
    invariant 0 <= bestA && bestA <= bestB && bestB <= l

func processors.ServiceMinimizer.Run
  hide WFValDef, ActiveDef
  requires feed != nil && feed.Services != nil
  requires forall k: string :: {feed.Services[k]} k in feed.Services ==> WFService(feed.Services[k])
  modifies gtfs.Service.daymap, gtfs.Service.start_date, gtfs.Service.end_date, gtfs.Service.exceptions any
  ensures forall k: string :: {feed.Services[k]} k in feed.Services ==> SameDates(feed.Services[k])
  loop 2
    invariant off(chunks) == 0 && fresh(chunks) && len(chunks) == numchunks && numchunks >= 1 && 0 <= curchunk && curchunk <= numchunks
    invariant 0 <= $i && $i <= len(feed.Services) && chunksize >= 0
    invariant len(feed.Services) <= numchunks * chunksize
    invariant curchunk < numchunks ==> $i == curchunk * chunksize + len(row(chunks)[curchunk]) && (len(row(chunks)[curchunk]) < chunksize || chunksize == 0)
    invariant curchunk == numchunks ==> $i == numchunks * chunksize
    invariant forall c: int :: {row(chunks)[c]} curchunk < c && c < len(chunks) ==> len(row(chunks)[c]) == 0
    invariant forall c: int :: {row(chunks)[c]} 0 <= c && c < len(chunks) ==> off(row(chunks)[c]) == 0 && (len(row(chunks)[c]) == 0 && cap(row(chunks)[c]) == 0 || len(row(chunks)[c]) > 0 && fresh(row(chunks)[c]) && allocated(arr(row(chunks)[c])))
    invariant forall c: int, e: int :: {row(chunks)[c], row(chunks)[e]} 0 <= c && c < e && e < len(chunks) && len(row(chunks)[c]) > 0 && len(row(chunks)[e]) > 0 ==> arr(row(chunks)[c]) != arr(row(chunks)[e])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> WFService(row(row(chunks)[c])[i])
  loop 3
    invariant forall k: string :: {feed.Services[k]} k in feed.Services ==> SameDates(feed.Services[k])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> WFService(row(row(chunks)[c])[i])
  loop 4
    invariant forall k: string :: {feed.Services[k]} k in feed.Services ==> SameDates(feed.Services[k])
    invariant forall c: int, i: int :: {row(row(chunks)[c])[i]} 0 <= c && c < len(chunks) && 0 <= i && i < len(row(chunks)[c]) ==> WFService(row(row(chunks)[c])[i])
  loop 5
    invariant true
