COMMON = "Every obligation is generated from /repo's current source and must be discharged by an SMT solver; unbounded in feed size, calendar length and iterations. Assumes mathematical integers, uninterpreted floats, contracts on the standard library, sequentialised goroutines; termination not proved. "
CLAIMED = {
 "C01": COMMON + "Services are assumed as the parser delivers them: start and end date both empty or both valid calendar dates 1901-2154, valid exception dates.",
  "C10": COMMON + "Stops are assumed registered under their own ID, with the parent of a stop or platform a registered station (the parser's output).",
  "C02": COMMON + "Services are assumed as for C01 and to have a date range or an exception each; every trip's service is assumed registered.",
  "C03": COMMON + "Feeds are assumed without nil entries and with a route for every trip.",
}
CLAIMED["C08"] = COMMON + "The distance is the processor's own function of float coordinates, whose arithmetic is not interpreted (only the IEEE order is). A negative tolerance is excluded; every shape's points are assumed to be a slice of its own."
CLAIMED["C16"] = COMMON + "Float arithmetic is not interpreted: distance and speed are compared as formulas (addition and multiplication commute). Feeds are assumed without nil entries, with a route for every trip and a stop for every stop time; the mapping of extended to basic route types is the parser's."
CLAIMED["C11"] = COMMON + "Whether a point lies in one polygon is the parser's function of the polygon and the point. Stops, parents, stop times and pathways are assumed to refer to registered entries, and entries to be registered under their own ID (the parser's output)."
CLAIMED["C09"] = COMMON + "Distances are compared as floats (uninterpreted but for the IEEE order). Trips are assumed registered under their own ID, each with a slice of stop times of its own."
CLAIMED["C05"] = COMMON + "Agencies are assumed registered under their own ID and referred to only if registered. The agency hash is checked to be a function of the agency alone, its value is not interpreted."
CLAIMED["C07"] = COMMON + "Entities are assumed registered under their own ID; the base is 2 to 36. An absent additional-field value counts as empty. strconv.FormatInt is injective, as is concatenation with a fixed prefix. IDs of attributions, which nothing refers to, are not covered."
CLAIMED["C15"] = COMMON + "Distances are formulas over floats, whose arithmetic is not interpreted. Shapes are assumed registered under their own ID with at least one point each, the shape of every trip registered, and the tolerance finite. That all duplicates are found is not part of the property."
CLAIMED["C04"] = COMMON + "Routes and fare attributes are assumed registered under their own ID, the route of every trip registered, and the tables of additional fields of routes and of fare attributes distinct. The text of a URL is a function of its fields. The route hash is checked to be a function of the route alone, its value is not interpreted. Transfers are not part of the property (those of removed routes are dropped)."
CLAIMED["C12"] = COMMON + "Services are assumed registered under their ID, as the parser delivers them (see C01) and with a date range or an exception; trips registered under their ID with a registered service; additional fields those of registered trips only; the number of new ids is below 2^64. That on every date the same trips run follows from the four contracts on origin, soundness, cover and disjointness of copies."
CLAIMED["C17"] = COMMON + "Stops are assumed registered under their own ID, every stop time to have a stop, and the stop times of each trip to be a slice of its own. Distances are formulas over floats, whose arithmetic is not interpreted; that stops farther away are moved, and where to, is not part of the property. Additional fields of stops are not covered (added stops have none)."
CLAIMED["C18"] = COMMON + "Every shape is assumed to have points, in a slice of its own, as are the stop times of each trip. Float arithmetic is not interpreted: measurements are compared as formulas over the distances between consecutive points. What points outside two measured ones (or between two at distance 0) get is not part of the property."
CLAIMED["C19"] = COMMON + "Stops are assumed registered under their own ID. Float arithmetic is not interpreted: the mean is the sum of the children's positions, each child once in some order, divided by their number."
CLAIMED["C20"] = COMMON + "Every trip's shape is assumed registered, with points in a slice of its own, fewer than 2^31; so are the stop times of each trip, each of which has a stop. Float arithmetic is not interpreted, except that infinity plus anything is less than nothing: distances and fractions are formulas. sort.Find is assumed to return a position from 0 to n and sort.Slice to permute; that the functions given to them write nothing is checked. That a trip which could be placed is placed, and that the nearest segments are chosen, is not part of the property."
CLAIMED["C21"] = COMMON + "Stops are assumed registered under their own ID."
NOT = {
 "C06": "StopDuplicateRemover keeps pointers to elements of slices (&t.StopTimes[i]) in maps and writes through them later; the verifier's memory model has no such pointers. Reading it also showed defects (a transfer to a removed stop survives when one to its reference exists, a stale transfer index) that rule out the statement for the current tree.",
 "C13": "TripDuplicateRemover (about 950 lines, an attribute index and a calendar algebra with merge, difference and intersection) was not brought under contract in the time there was; on the current tree it dereferences an absent headsign, so it would hold only for feeds in which every trip has one.",
 "C14": "The statement is false on the current tree: FrequencyMinimizer's comparison of trips is not transitive, so departures can be duplicated, and a single departure may become an exact frequency; the repair is a redesign, not a small patch.",
}
