#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept so that the file is edited in one place).
import json
P=[]
def prop(id,title,stmt,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=["inputs"],text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
pr="processors/"
prop("C01","Calendar minimisation keeps every service's active dates",
 "After minimising services (calendar/calendar_dates re-encoding), every service is active on exactly the dates it was active on before, under the GTFS rule that an exception on a date overrides weekday map and date range. No service is added, removed or renamed.",
 "every service: any weekday map, any date range, any set of exceptions (dates 1901-2154)",
 "The existing test runs four hand-made services; the guarantee is over all combinations of weekday map, range and exceptions and of the range/weekmap the optimiser happens to choose.",
 [pr+"serviceminimizer.go"],[("ServiceMinimizer.Run / perfectMinimize / updateService / GetDateRange",pr+"serviceminimizer.go")],
 [("Service daymap, start, end, exceptions","the encoding of the active dates","gtfs.Service")],["feed.Services after Run"])
prop("C02","Merging duplicate services keeps each trip's service dates",
 "After removing duplicate services, every trip still runs on exactly the dates it ran on before and its service is still an entry of the feed's services. No service's own dates change, and no service other than one whose active dates are identical to a remaining service is removed.",
 "every feed: any services with any calendars, any trip-to-service references",
 "The test checks the number of services in one feed; which trips are re-pointed to which calendars is not observable by sampling a handful of calendars.",
 [pr+"serviceduplicateremover.go"],[("ServiceDuplicateRemover.Run / servEqual / getActiveMaps / combineServices",pr+"serviceduplicateremover.go")],
 [("Trip.Service","reference from trip to calendar","gtfs.Trip")],["feed.Trips, feed.Services after Run"])
prop("C03","Orphan removal deletes nothing that is still referenced",
 "Removing unreferenced entries deletes a shape, service, route or agency only if no remaining trip, route or fare references it, and deletes a trip only if it has no stop times and no frequencies, or no stop time at which boarding is possible, or none at which alighting is (pickup/drop-off and continuous rules of stop time and route). No other trip changes. Afterwards no remaining trip references a removed shape, service, route or stop, no route or fare a removed agency, no fare rule a removed route, and no remaining transfer a removed stop, route or trip.",
 "every feed whose references are consistent, with any mix of used and unused entries",
 "No test covers the orphan remover; its four reference kinds times every usage pattern are not enumerable.",
 [pr+"orphanminimizer.go"],[("OrphanRemover.Run and its remove*Orphans helpers",pr+"orphanminimizer.go")],
 [("feed maps","registered entities","gtfsparser.Feed")],["feed maps after Run"])
prop("C04","Merging duplicate routes keeps each trip's route attributes",
 "After removing duplicate routes, every trip's route is still an entry of the feed and agrees with the trip's former route in agency, names, description, type, URL, colours, continuous pickup/drop-off, additional fields, and in its fare rules (how many each fare attribute has for it with each origin, destination and contained zone). A route is removed only if one equal to it in all of these remains, and no remaining route changes in any of these. Trips whose route had no equal counterpart are untouched, and no trip is lost.",
 "every feed: any routes, any trip-to-route references, any additional fields and fare rules",
 "The test feed has one duplicate pair; equality must hold field by field for every pair that is merged.",
 [pr+"routeduplicateremover.go"],[("RouteDuplicateRemover.Run / routeEquals / checkFareEquality / fareRulesEqual / combineRoutes",pr+"routeduplicateremover.go")],
 [("Trip.Route","reference","gtfs.Trip"),("FareAttribute.Rules","fare rules by route","gtfs.FareAttribute")],["feed.Trips, feed.Routes, feed.FareAttributes after Run"])
prop("C05","Merging duplicate agencies keeps references and attributes",
 "After removing duplicate agencies, every route and fare attribute that had an agency refers to an agency that is still an entry of the feed and agrees with its former agency in name, URL, time zone, language, phone, fare URL, e-mail and additional fields. Routes and fare attributes without an agency stay without one. An agency is removed only if one equal to it in all of these remains, and no remaining agency changes in any of these.",
 "every feed: any agencies, any references from routes and fare attributes",
 "No test covers agency merging.",
 [pr+"agencyduplicateremover.go"],[("AgencyDuplicateRemover.Run / agencyEquals / combineAgencies",pr+"agencyduplicateremover.go")],
 [("Route.Agency, FareAttribute.Agency","references","gtfs")],["feed.Routes, feed.FareAttributes, feed.Agencies after Run"])
prop("C06","Merging duplicate stops re-points every reference",
 "After removing duplicate stops, every stop time, parent-station reference, pathway end and transfer end that referred to a stop refers to a stop that is still an entry of the feed and equal, in every attribute the remover compares, to the former one. The sequence, times and flags of every trip's stop times are unchanged.",
 "every feed: any stops, parents, transfers, pathways, stop times",
 "The test looks at one small feed without transfers or pathways between merged stops.",
 [pr+"stopduplicateremover.go"],[("StopDuplicateRemover.Run / stopEquals / combineStops / combineLevels",pr+"stopduplicateremover.go")],
 [("StopTime.Stop, Stop.Parent_station, TransferKey, Pathway ends","references","gtfs")],["feed after Run"])
prop("C07","ID minimisation is an injective renaming that loses nothing",
 "After ID minimisation every agency, stop, trip, route, service, fare attribute, shape, level and pathway of the feed is still present, under exactly one new identifier equal to its own ID field, distinct from all others of its kind; kinds configured to be kept are unchanged. All renaming has completed when the processor returns, and every additional-field value of an entity is found under the entity's new identifier.",
 "every feed, prefix, numeric base, and every combination of keep flags",
 "No test covers the ID minimizer; collisions between old and new identifiers and unawaited workers depend on the feed and the schedule.",
 [pr+"idminimizer.go"],[("IDMinimizer.Run and its minimize*Ids helpers",pr+"idminimizer.go")],
 [("feed maps","id to entity","gtfsparser.Feed")],["feed maps after Run"])
prop("C08","Shape minimisation only drops points within the tolerance",
 "After minimising shapes, the points of every shape are a subsequence of its former points, unmodified apart from their sequence numbers and in order, that contains the first and the last one. Every dropped point is, by the processor's own distance function, within the configured tolerance of the segment joining the kept points around it.",
 "every shape: any number of points, any coordinates, any tolerance",
 "The test minimises one short polyline; the guarantee is over arbitrary recursion patterns.",
 [pr+"shapeminimizer.go"],[("ShapeMinimizer.Run / minimizeShape",pr+"shapeminimizer.go")],
 [("Shape.Points","polyline","gtfs.Shape")],["feed.Shapes after Run"])
prop("C09","Grouping adjacent stop times keeps every boarding and alighting",
 "Grouping adjacent stop times replaces every maximal run of consecutive stop events of a trip that agree in stop, distance travelled (or have none), headsign (the same reference) and continuous pickup/drop-off rules, and each have equal arrival and departure time, by one stop time, which has the sequence number, time point flag, arrival time and drop-off rule of the first event of the run, the departure time and pickup rule of the last, and the attributes they share. Stop events that are in no such run, and every other attribute of the trips, are unchanged.",
 "every trip: any sequence of stop times with any times, flags and distances",
 "No test covers the grouper; runs of three and more events and flag combinations are not sampled.",
 [pr+"adjstoptimegrouper.go"],[("AdjacentStopTimeGrouper.Run",pr+"adjstoptimegrouper.go")],
 [("Trip.StopTimes","stop events","gtfs.Trip")],["feed.Trips after Run"])
prop("C10","Enforcing parent stations adds exactly one parent per bare stop",
 "After enforcing parent stations every stop or platform has a parent that is a station registered in the feed under its own ID; stops that had a parent keep it, and every stop that existed before keeps its ID, position, name and type. Each added station is new, carries the position and name of its only child, and has no parent.",
 "every feed: any stops with any IDs, including IDs that look like generated ones",
 "No test covers the enforcer; ID clashes and iteration over a growing map depend on the feed and on map order.",
 [pr+"stopparentenforcer.go"],[("StopParentEnforcer.Run",pr+"stopparentenforcer.go")],
 [("Stop.Parent_station","parent reference","gtfs.Stop")],["feed.Stops after Run"])
prop("C11","The complete-trips geo filter keeps whole trips and their stops",
 "The complete-trips polygon filter keeps a trip exactly if at least one of its stops lies in one of the polygons, and leaves kept trips and their stop times unchanged. Every stop used by a kept trip, every stop inside a polygon, and the parent station of every stop that is kept (a platform's station, a boarding area's platform) stays in the feed, as does every fare attribute. Afterwards exactly the pathways remain whose two ends remain, and exactly the transfers that refer to registered stops, routes and trips only.",
 "every feed and every set of polygons",
 "No test covers the filter; the set of kept entities depends on the interplay of trips, parents and polygons.",
 [pr+"completegeotripsfilter.go"],[("CompleteTripsGeoFilter.Run",pr+"completegeotripsfilter.go")],
 [("feed.Stops, feed.Trips, feed.Pathways","registered entities","gtfsparser.Feed")],["feed after Run"])
prop("C12","calendar_dates elimination keeps every trip on every date",
 "After eliminating calendar_dates exceptions, for every date the multiset of trips that run (route, stop times, shape, frequencies, other trip attributes and additional fields) is the same as before, and every former trip is still in the feed under its ID. No service with an exception remains, and every trip's service is registered in the feed.",
 "every feed: any services with exceptions, any IDs, any number of trips per service",
 "No test covers this processor; ID generation, date splitting and copying depend on the whole feed.",
 [pr+"servicecaldatesremover.go"],[("ServiceCalDatesRem.Run",pr+"servicecaldatesremover.go")],
 [("feed.Services, feed.Trips","calendars and trips","gtfsparser.Feed")],["feed after Run"])
prop("C13","Trip de-duplication keeps every service date of every trip pattern",
 "After removing duplicate trips (exact mode), for every date and every former trip running on it there is a remaining trip running on that date with the same route, stop sequence, times, headsign and boarding rules, and nothing runs on a date on which no such trip ran before. Every remaining trip's service is registered in the feed.",
 "every feed: any trips with any calendars, containing, intersecting or adjacent",
 "No test covers trip merging; the calendar algebra (merge, difference, intersection) must be right for every pair of calendars.",
 [pr+"tripduplicateremover.go",pr+"util.go"],[("TripDuplicateRemover.Run and calendar helpers merge/diff/intersect/writeServiceList",pr+"tripduplicateremover.go")],
 [("Trip.Service","calendar reference","gtfs.Trip")],["feed after Run"])
prop("C14","Frequency minimisation keeps the departures",
 "After frequency minimisation, the departures obtained by expanding all remaining trips (trips without frequencies count once, frequency entries expand from start, exclusive end and headway) are the same multiset as before within every group of trips that agree on everything but time. Relative times between the stops of each trip are unchanged.",
 "every feed: any trips, any frequencies, any parameters of the minimizer",
 "The test checks a tiny trip set; covers and packings depend on the arithmetic structure of all departure times.",
 [pr+"frequencyminizer.go"],[("FrequencyMinimizer.Run / getCover / packCovers / freqMinimize / remeasureStopTimes",pr+"frequencyminizer.go")],
 [("Trip.Frequencies, Trip.StopTimes","departures","gtfs.Trip")],["feed.Trips after Run"])
prop("C15","Shape de-duplication re-points trips only to close shapes",
 "After removing duplicate shapes every trip that had a shape has a shape that is registered in the feed, and trips without a shape still have none. A shape is removed, and its trips re-pointed to another shape, only if a chain of pairs accepted by the equality test leads from it to that other shape, which stays registered. Two shapes are equal only if each is within the configured tolerance of the other: their first and last points are, and every point but the last and every position 10, 20, ... metres after it on the way to the next is within the tolerance of some segment of the other shape where the distances travelled do not contradict (neither larger than at the point after the segment's next one nor smaller than at the point before the segment). No shape's points change, and no shape is added.",
 "every feed: any shapes, any trip references, any finite tolerance",
 "The test has one duplicate pair in one feed; which shapes are merged, and whether trips of merged shapes follow when their new shape is merged again, depends on all shapes and the order in which they are visited.",
 [pr+"shapeduplicateremover.go",pr+"shapeidx.go",pr+"util.go"],[("ShapeDuplicateRemover.Run / combineShapes / getEquShps / inDistTo",pr+"shapeduplicateremover.go"),("ShapeIdx",pr+"shapeidx.go")],
 [("Trip.Shape","reference","gtfs.Trip")],["feed.Trips, feed.Shapes after Run"])
prop("C16","The speed filter deletes exactly the trips that are too fast",
 "Removing too-fast trips deletes a trip exactly if it fails one of two tests against the speed limit of its route's basic type (km/h: tram 100, metro, bus and monorail 150, rail 500, ferry 80, cable tram 30, aerial lift, funicular and trolleybus 50), by the approximate distance between its stops and a stretch without time difference counting as one minute: a stretch of 7 km or more from the last stop event since which time has passed to a later one, or a stretch of 10 km or more between any two later stop events, from the second one on. Kept trips are unchanged, no stop, route, service or shape is deleted, and afterwards exactly the transfers remain that refer to registered stops, routes and trips only.",
 "every feed: any trips, times, positions and route types",
 "No test covers the filter; which stretch exceeds a limit depends on the whole sequence of positions and times.",
 [pr+"toofasttripremover.go",pr+"util.go"],[("TooFastTripRemover.Run",pr+"toofasttripremover.go"),("distSApprox / haversineApprox",pr+"util.go")],
 [("feed.Trips","registered trips","gtfsparser.Feed")],["feed after Run"])
prop("C17","Snapping stops to shapes only adds copies of stops that are too far away",
 "After snapping stop points to shapes every former stop is still registered under its ID and unchanged, every entry of the stop registry is registered under its own ID, and trips, shapes and everything of a stop event but its stop are unchanged. A stop event refers to its former stop or, only if its trip has a shape, to an added stop that is registered under its own, formerly unused ID, agrees with the former stop in every attribute except ID and position, and lies farther than the maximal distance from it.",
 "every feed: any stops with any IDs (including IDs that look like generated ones), any shapes, trips and maximal distance",
 "No test covers the snapper; ID clashes and which stops are moved depend on the feed's positions, measurements and IDs.",
 [pr+"shapesnapper.go",pr+"util.go"],[("ShapeSnapper.Run / freeStopId",pr+"shapesnapper.go"),("haversineApprox",pr+"util.go")],
 [("StopTime.stop, feed.Stops","stop reference, registry","gtfs.Trip")],["feed.Trips, feed.Stops after Run"])
prop("C18","Remeasuring shapes keeps points and measurements and fills holes by distance",
 "Remeasuring shapes leaves the number, order, positions and sequence numbers of the points of every shape unchanged, and adds or removes no shape or trip. A shape without any measurement is measured in metres along its points, from 0. Of any other shape every measured point keeps its measurement and, between two consecutive measured points a positive way apart, every point gets the measurement interpolated by the way along the points (unless that is not a number); or, only if forcing is off, all measurements of the shape are dropped. The distance of a stop time changes only if it exceeded the measurement of the last point of its trip's shape, and then becomes that measurement; everything else of stop times is unchanged.",
 "every feed: any shapes with any measured and unmeasured points, any stop times",
 "No test covers the remeasurer; where holes begin and end and how they interact with kept measurements depends on every pattern of measured points.",
 [pr+"shaperemeasurer.go",pr+"util.go"],[("ShapeRemeasurer.Run / remeasure / remeasureKnown / remeasureUnknown / remeasureBetween",pr+"shaperemeasurer.go"),("distP / haversine",pr+"util.go")],
 [("Shape.Points, Trip.StopTimes","measurements","gtfs.Shape, gtfs.Trip")],["feed.Shapes, feed.Trips after Run"])
prop("C19","Averaging moves exactly the parents that are too far from their children",
 "The parent averager changes nothing but the positions of stops that are parents of registered stops. A parent whose children are not parents themselves is moved exactly if it is at least the maximal distance away from one of its children while every child is closer than that to the mean of all children's positions, and then it is moved to this mean; otherwise it stays where it is.",
 "every feed: any stops, parents and maximal distance",
 "No test covers the averager; whether a parent may be moved depends on the positions of all its children together.",
 [pr+"parentaverager.go",pr+"util.go"],[("StopParentAverager.Run",pr+"parentaverager.go"),("haversineApprox",pr+"util.go")],
 [("Stop.Lat, Stop.Lon","position","gtfs.Stop")],["feed.Stops after Run"])
prop("C20","Remeasuring stop times only places whole trips forwards along their shapes",
 "Remeasuring stop times changes nothing but the distances of stop times. The stop times of a trip without a shape, or in which every stop time has a distance, are unchanged. Any other trip is either left unchanged as a whole, or every one of its stop times gets its distance from a segment of the trip's shape, namely the measurement at the segment's first point plus the difference to the one at its second times the fraction of the segment before the point of it closest to the stop; this point lies at most 250 metres from the stop, and of two consecutive stop times the second does not lie before the first (on an earlier segment, or at a smaller fraction of the same one).",
 "every feed: any shapes with any points and measurements, any stops, any measured and unmeasured stop times",
 "No test covers the remeasurer; which segments are candidates and which sequence of them is chosen depends on the positions of all stops of a trip together.",
 [pr+"stoptimeremeasurer.go",pr+"util.go"],[("StopTimeRemeasurer.Run / buildAllSegments / getCands / remeasure",pr+"stoptimeremeasurer.go"),("snapToWithProgr / intersect / haversine",pr+"util.go")],
 [("StopTime.shape_dist_traveled","distance along the shape","gtfs.Trip")],["feed.Trips after Run"])
prop("C21","Platform codes are dropped from exactly the stops without parent",
 "Dropping platform codes leaves every registered stop without a parent without platform code, and changes neither the platform codes of stops with a parent nor anything else of the feed.",
 "every feed: any stops of any type, with any parents and platform codes",
 "No test covers the dropper.",
 [pr+"platformcodedropper.go"],[("PlatformCodeDropper.Run",pr+"platformcodedropper.go")],
 [("Stop.Platform_code","platform code","gtfs.Stop")],["feed.Stops after Run"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
