From e9fd0846a9d1ab8073bd170e18ce004a5f8d2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 1/9] fix: keep a shape with a single point as it is when
 minimizing shapes

The point was duplicated, and a shape without points led to a panic.
---
 processors/shapeminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..b967d26 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -71,6 +71,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 2 {
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From e72131fd646971ab69a21d911e3376ee28c5dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 2/9] fix: delete pathways, not fare attributes, in the
 complete-trips geo filter

---
 processors/completegeotripsfilter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..2b472f2 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -76,7 +76,13 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			// feed.DeletePathway would delete the fare attribute with this ID
+			delete(feed.Pathways, p.Id)
+
+			// delete additional fields from CSV
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
-- 
2.43.0


From 0131921297c63c8de4f3d0d2a2fee433057055c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 3/9] fix: keep the station of a platform with boarding areas
 in the complete-trips geo filter

---
 processors/completegeotripsfilter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2b472f2..a958906 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -27,8 +27,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
 				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for p := s.Parent_station; p != nil && !usedstops[p]; p = p.Parent_station {
+					usedstops[p] = true
 				}
 				break
 			}
@@ -49,8 +49,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 		} else {
 			for _, st := range t.StopTimes {
 				usedstops[st.Stop()] = true
-				if st.Stop().Parent_station != nil {
-					usedstops[st.Stop().Parent_station] = true
+				for p := st.Stop().Parent_station; p != nil && !usedstops[p]; p = p.Parent_station {
+					usedstops[p] = true
 				}
 			}
 		}
-- 
2.43.0


From ce11654b696dd46687513d75e28399e1632d2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 4/9] fix: use the pickup type of the last and the drop off
 type of the first grouped stop time

---
 processors/adjstoptimegrouper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..5ecd74c 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -33,10 +33,22 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 			total++
 			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
 
-				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				// update previous stop, built anew because setting the pickup and
+				// drop off types only adds to the old ones
+				prev := newSt[len(newSt) - 1]
+				merged := gtfs.StopTime{}
+				merged.SetArrival_time(prev.Arrival_time())
+				merged.SetDeparture_time(t.StopTimes[i].Departure_time())
+				merged.SetStop(prev.Stop())
+				merged.SetHeadsign(prev.Headsign())
+				merged.SetSequence(prev.Sequence())
+				merged.SetTimepoint(prev.Timepoint())
+				merged.SetShape_dist_traveled(prev.Shape_dist_traveled())
+				merged.SetDrop_off_type(prev.Drop_off_type())
+				merged.SetPickup_type(t.StopTimes[i].Pickup_type())
+				merged.SetContinuous_pickup(prev.Continuous_pickup())
+				merged.SetContinuous_drop_off(prev.Continuous_drop_off())
+				newSt[len(newSt) - 1] = merged
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
-- 
2.43.0


From af2322639a29fa46f82443f61a5c0cf4b410ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 5/9] fix: do not group stop times that differ in distance or
 continuous drop off

---
 processors/adjstoptimegrouper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 5ecd74c..c810fc6 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,7 +31,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() {
 
 				// update previous stop, built anew because setting the pickup and
 				// drop off types only adds to the old ones
-- 
2.43.0


From 7da3ef72d7beda237fd3d81c7da5e07604d26409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 6/9] fix: IDMinimizer waits for all ten ID categories

One of ten workers was not waited for, and keeping every kind of ID made the
completion channel's size negative.
---
 processors/idminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..72926d6 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -33,7 +33,7 @@ type IDMinimizer struct {
 
 // Run this IDMinimizer on a feed
 func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
-	j := 9
+	j := 10
 	if minimizer.KeepStations {
 		j = j - 1
 	}
-- 
2.43.0


From 1c2de144e2460cad0d1dbbca37527f6009f7c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 7/9] fix: IDMinimizer keeps additional fields when old and new
 IDs overlap

Additional fields were moved to the new IDs in place, so an entity whose old ID
equals another one's new ID lost its values or took over the other one's. The
fields of frequencies and fare rules were not moved at all.
---
 processors/idminimizer.go | 109 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index 72926d6..e0c50b7 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -135,30 +135,39 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
+// Move the additional fields of renamed entities from their old to their new IDs
+func renameAddFlds[V any](addFlds map[string]map[string]V, newIds map[string]string) {
+	for k, flds := range addFlds {
+		renamed := make(map[string]V)
+		for oldId, newId := range newIds {
+			if v, ok := flds[oldId]; ok {
+				renamed[newId] = v
+			}
+		}
+		addFlds[k] = renamed
+	}
+}
+
 // Minimize trip IDs
 func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Trip)
+	newIds := make(map[string]string)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		t.Id = newId
 		idCount = idCount + 1
 		newMap[t.Id] = t
-
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -167,20 +176,19 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Shape)
+	newIds := make(map[string]string)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -189,20 +197,19 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Route)
+	newIds := make(map[string]string)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		r.Id = newId
 		idCount = idCount + 1
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -225,20 +232,19 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Stop)
+	newIds := make(map[string]string)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -285,20 +291,19 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Agency)
+	newIds := make(map[string]string)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -307,20 +312,20 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.FareAttribute)
+	newIds := make(map[string]string)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -329,20 +334,19 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Pathway)
+	newIds := make(map[string]string)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -351,19 +355,18 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Level)
+	newIds := make(map[string]string)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
-- 
2.43.0


From ea8323d15cd1e326b53b2ec5603866b8330a5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 8/9] fix: calendar_dates removal could give two new trips or
 services the same id

The ids generated for split services and for the copies of their trips were
only checked against the ids already in the feed, not against the ones generated
before, so that (with a trip "a" and a trip "a1") two copies could get the same
id and one of them was lost.
---
 processors/servicecaldatesremover.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..0ba7d28 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,8 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+	tids map[string]bool
+	sids map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -27,6 +29,10 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Removing calendar_dates.txt entries... ")
 	calBefore, datesBefore := sm.countServices(feed)
 
+	// ids generated so far
+	sm.tids = make(map[string]bool)
+	sm.sids = make(map[string]bool)
+
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
 
 	for _, s := range feed.Services {
@@ -215,7 +221,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.tids[tid] {
+			sm.tids[tid] = true
 			return tid
 		}
 	}
@@ -227,7 +234,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.sids[sid] {
+			sm.sids[sid] = true
 			return sid
 		}
 	}
-- 
2.43.0


From 6121b3e1169f0f855ace54f49538757f1632cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 9/9] fix: calendar_dates removal lost frequencies,
 attributions, translations and additional fields of trips

When a service is split, the copies of its trips lacked these fields.
---
 processors/servicecaldatesremover.go | 42 ++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index 0ba7d28..99716cb 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -80,6 +80,21 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
+				if trip.Frequencies != nil {
+					freqs := append([]*gtfs.Frequency(nil), *trip.Frequencies...)
+					newTrip.Frequencies = &freqs
+				}
+				if trip.Attributions != nil {
+					attrs := append([]*gtfs.Attribution(nil), *trip.Attributions...)
+					newTrip.Attributions = &attrs
+				}
+				if trip.Translations != nil {
+					trans := append([]*gtfs.Translation(nil), *trip.Translations...)
+					newTrip.Translations = &trans
+				}
+
+				sm.copyAddFlds(feed, trip.Id, newTrip.Id)
+
 				newTrips = append(newTrips, newTrip)
 			}
 		}
@@ -216,6 +231,33 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 	return ret2
 }
 
+// give the trip newId the additional fields of the trip id
+func (sm *ServiceCalDatesRem) copyAddFlds(feed *gtfsparser.Feed, id string, newId string) {
+	for _, flds := range feed.TripsAddFlds {
+		if v, ok := flds[id]; ok {
+			flds[newId] = v
+		}
+	}
+
+	for _, flds := range feed.StopTimesAddFlds {
+		if vals, ok := flds[id]; ok {
+			flds[newId] = make(map[int]string, len(vals))
+			for seq, v := range vals {
+				flds[newId][seq] = v
+			}
+		}
+	}
+
+	for _, flds := range feed.FrequenciesAddFlds {
+		if vals, ok := flds[id]; ok {
+			flds[newId] = make(map[*gtfs.Frequency]string, len(vals))
+			for freq, v := range vals {
+				flds[newId][freq] = v
+			}
+		}
+	}
+}
+
 // get a free trip id with the given prefix
 func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.tidc < ^uint(0) {
-- 
2.43.0

