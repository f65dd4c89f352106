// Contracts shared by all properties: dates and services (package gtfs of gtfsparser).

ufun daynum(int, int, int): int
ufun mdays(int, int): int
ufun tday(int): int
ufun tmonth(int): int
ufun tyear(int): int

// day number of a date, as computed by Date.GetTime
fun T(d: gtfs.Date) := daynum(d.year + 1900, d.month, d.day)
// representable calendar dates, 1900..2155
pred DateOk(d: gtfs.Date) := 0 <= d.year && d.year <= 255 && 1 <= d.month && d.month <= 12 && 1 <= d.day && d.day <= mdays(d.year + 1900, d.month)
// 1901..2154: the dates the properties quantify over
pred ValidDate(d: gtfs.Date) := DateOk(d) && 1 <= d.year && d.year <= 254
pred LateDate(d: gtfs.Date) := DateOk(d) && 1 <= d.year && T(d) <= 67600
pred NoDays(m: uint8) := !bit(m, 0) && !bit(m, 1) && !bit(m, 2) && !bit(m, 3) && !bit(m, 4) && !bit(m, 5) && !bit(m, 6)
pred Empty(d: gtfs.Date) := d.day == 0 && d.month == 0 && d.year == 0
fun DLO := -25202
fun DHI := 67569
fun DATELO := -25567
fun DATEHI := 67934

ufun Active(uint8, gtfs.Date, gtfs.Date, set[gtfs.Date], fn[gtfs.Date, bool], gtfs.Date): bool
axiom ActiveDef := forall m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool], d: gtfs.Date ::
  {Active(m, s, e, ds, ev, d)}
  Active(m, s, e, ds, ev, d) == (if d in ds then ev[d] else (bit(m, (T(d) + 4) % 7) && T(s) <= T(d) && T(d) <= T(e)))
fun Act(s: *gtfs.Service, d: gtfs.Date) := Active(s.daymap, s.start_date, s.end_date, dom(s.exceptions), mapval(s.exceptions), d)

// A service as the parser delivers it: both dates empty or both valid. The second kind (no weekday,
// only additions, dates possibly in 2155) is what the service minimiser makes of a service; it is
// allowed so that the predicate is preserved.
ufun WFVal(uint8, gtfs.Date, gtfs.Date, set[gtfs.Date], fn[gtfs.Date, bool]): bool
axiom WFValDef := forall m: uint8, s: gtfs.Date, e: gtfs.Date, ds: set[gtfs.Date], ev: fn[gtfs.Date, bool] ::
  {WFVal(m, s, e, ds, ev)}
  WFVal(m, s, e, ds, ev) == ((Empty(s) && Empty(e) || ValidDate(s) && ValidDate(e)
      || LateDate(s) && LateDate(e) && NoDays(m) && (forall d: gtfs.Date :: {d in ds} d in ds ==> ev[d]))
  && (forall d: gtfs.Date :: {d in ds} d in ds ==> ValidDate(d)))
pred WFService(s: *gtfs.Service) := s != nil && s.exceptions != nil
  && WFVal(s.daymap, s.start_date, s.end_date, dom(s.exceptions), mapval(s.exceptions))

func gtfs.Date.GetTime
  ensures 0 <= d.year && d.year <= 255 ==> result == T(d)

func gtfs.Date.GetOffsettedDate
  requires DateOk(d)
  requires DATELO <= T(d) + offset && T(d) + offset <= DATEHI
  ensures DateOk(result)
  ensures T(result) == T(d) + offset

func gtfs.Service.IsActiveOn
  requires s != nil
  ensures result == Act(s, d)

func gtfs.Service.GetFirstDefinedDate
  requires WFService(s)
  ensures Empty(result) || LateDate(result)
  ensures forall d: gtfs.Date :: {d in s.exceptions} d in s.exceptions ==> !Empty(result) && T(result) <= T(d)
  ensures !Empty(s.start_date) ==> !Empty(result) && T(result) <= T(s.start_date)
  ensures Empty(result) ==> Empty(s.start_date)
  ensures !Empty(result) ==> T(result) == T(s.start_date) || result in s.exceptions
  loop 1
    invariant Empty(first) || LateDate(first)
    invariant forall d: gtfs.Date :: {visited(d)} visited(d) ==> !Empty(first) && T(first) <= T(d)
    invariant Empty(first) || first in s.exceptions

func gtfs.Service.GetLastDefinedDate
  requires WFService(s)
  ensures Empty(result) || LateDate(result)
  ensures forall d: gtfs.Date :: {d in s.exceptions} d in s.exceptions ==> !Empty(result) && T(d) <= T(result)
  ensures !Empty(s.end_date) ==> !Empty(result) && T(s.end_date) <= T(result)
  ensures Empty(result) ==> Empty(s.end_date)
  ensures !Empty(result) ==> T(result) == T(s.end_date) || result in s.exceptions
  loop 1
    invariant Empty(last) || LateDate(last)
    invariant forall d: gtfs.Date :: {visited(d)} visited(d) ==> !Empty(last) && T(d) <= T(last)
    invariant Empty(last) || last in s.exceptions

// has a date range or an exception: a service without either is not delivered by the parser
pred Defined(s: *gtfs.Service) := !Empty(s.start_date) || (exists d: gtfs.Date :: {d in s.exceptions} d in s.exceptions)

func gtfs.Service.GetFirstActiveDate
  requires WFService(s) && Defined(s)
  modifies nothing
  ensures Empty(result) || DateOk(result) && T(result) <= 67600 && Act(s, result)
  ensures forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) ==> !Empty(result) && T(result) <= T(d)
  loop 1
    invariant DateOk(d) && T(d) <= 67601
    invariant forall x: gtfs.Date :: {Act(s, x)} DateOk(x) && T(x) < T(d) ==> !Act(s, x)

func gtfs.Service.GetLastActiveDate
  requires WFService(s) && Defined(s)
  modifies nothing
  ensures Empty(result) || DateOk(result) && T(result) <= 67600 && Act(s, result)
  ensures forall d: gtfs.Date :: {Act(s, d)} DateOk(d) && Act(s, d) ==> !Empty(result) && T(d) <= T(result)
  loop 1
    invariant DateOk(d) && T(d) <= 67600
    invariant forall x: gtfs.Date :: {Act(s, x)} DateOk(x) && T(x) > T(d) ==> !Act(s, x)

func processors.ServiceMinimizer.getActiveOnMap
  requires WFService(service)
  requires DATELO <= startTimeAm && endTimeAm < DATEHI && startTimeAm <= endTimeAm + 1 || startTimeAm == -25599 && endTimeAm == -25599
  modifies nothing
  ensures startTimeAm > -25599 ==> len(result) == endTimeAm - startTimeAm + 1
  ensures startTimeAm == -25599 ==> len(result) == 0
  ensures off(result) == 0 && fresh(result) && allocated(arr(result))
  ensures startTimeAm > -25599 ==> forall d: gtfs.Date :: {Act(service, d)} DateOk(d) && startTimeAm <= T(d) && T(d) <= endTimeAm ==> (row(result)[T(d) - startTimeAm] <==> Act(service, d))
  loop 1
    invariant DateOk(d)
    invariant startTimeAm > -25599 ==> T(d) <= endTimeAm + 1 && len(activeOn) == T(d) - startTimeAm
    invariant startTimeAm == -25599 ==> len(activeOn) == 0 && T(d) > endTimeAm
    invariant fresh(activeOn) && off(activeOn) == 0 && allocated(arr(activeOn))
    invariant startTimeAm > -25599 ==> forall x: gtfs.Date :: {Act(service, x)} DateOk(x) && startTimeAm <= T(x) && T(x) < T(d) ==> (row(activeOn)[T(x) - startTimeAm] <==> Act(service, x))
