// Distances. The float arithmetic is not interpreted: these functions are known to depend on nothing
// but their arguments (checked on the code), and float comparison is ordered as IEEE 754 says.
ufun distE(float64, float64, float64, float64): float64
ufun mercX(float32, float32): float64
ufun mercY(float32, float32): float64

axiom FltTrans := forall a: float64, b: float64, c: float64 :: {a < b, b < c} a < b && b < c ==> a < c
axiom FltNaN := forall a: float64, b: float64 :: {a < b} a < b ==> !isnan(a) && !isnan(b)
// of three numbers
axiom FltTotal := forall a: float64, b: float64, c: float64 :: {a < b, c < b} a < b && !isnan(c) ==> a < c || c < b
axiom FltTotal2 := forall a: float64, b: float64, c: float64 :: {a < b, a < c} a < b && !isnan(c) ==> a < c || c < b

axiom FltAddComm := forall a: float64, b: float64 :: {a + b} a + b == b + a
axiom FltMulComm := forall a: float64, b: float64 :: {a * b} a * b == b * a

func processors.dist
  pure distE
  ensures result == math("Sqrt", (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1))

func processors.latLngToWebMerc
  pure mercX, mercY
  ensures let r := fconst("0.017453292519943295769236907684886127134428718885417254560", "float32") :: result0 == float64(fconst("6378137", "float32") * lng * r)
  ensures let r := fconst("0.017453292519943295769236907684886127134428718885417254560", "float32") :: let a := float64(lat * r) ::
     result1 == float64(float32(fconst("3189068.5") * math("Log", (fconst("1") + math("Sin", a)) / (fconst("1") - math("Sin", a)))))

// distance of p from the segment [la, lb]: from the end la if both ends coincide or p projects before
// la, from the end lb if it projects behind lb, else from the projected point
fun SegLen2(lax: float64, lay: float64, lbx: float64, lby: float64) := distE(lax, lay, lbx, lby) * distE(lax, lay, lbx, lby)
fun SegT(px: float64, py: float64, lax: float64, lay: float64, lbx: float64, lby: float64) := ((px - lax) * (lbx - lax) + (py - lay) * (lby - lay)) / SegLen2(lax, lay, lbx, lby)
fun SegDist(px: float64, py: float64, lax: float64, lay: float64, lbx: float64, lby: float64) :=
  if feq(SegLen2(lax, lay, lbx, lby), 0) then distE(px, py, lax, lay)
  else if SegT(px, py, lax, lay, lbx, lby) < 0 then distE(px, py, lax, lay)
  else if SegT(px, py, lax, lay, lbx, lby) > 1 then distE(px, py, lbx, lby)
  else distE(px, py, lax + SegT(px, py, lax, lay, lbx, lby) * (lbx - lax), lay + SegT(px, py, lax, lay, lbx, lby) * (lby - lay))

func processors.perpendicularDist
  ensures result == SegDist(px, py, lax, lay, lbx, lby)

ufun havApproxE(float64, float64, float64, float64): float64
func processors.haversineApprox
  pure havApproxE
  // equirectangular: sqrt(dlat^2 + (dlon * cos(mean lat))^2) in radians, on the WGS84 equatorial radius
  ensures let r := fconst("0.017453292519943295769236907684886127134428718885417254560") ::
     let dlat := latB * r - latA * r :: let x := (lonB * r - lonA * r) * math("Cos", fconst("0.5") * (latA * r + latB * r)) ::
     result == math("Sqrt", dlat * dlat + x * x) * 6378137

ufun baseType(int16): int16
func gtfs.GetTypeFromExtended
  pure baseType
