---------------------------------- MODULE T_Sensor ----------------------------------
(* The sensor database and the EXIF data.  State: the database file (absent, or its rows). *)
(* A download may fail in the network, with an HTTP error, while the file is written, or   *)
(* the process may die; it then leaves no database.                                        *)
EXTENDS Arith, Obs, Json
VARIABLES l, st

Absent == [there |-> FALSE, rows |-> <<>>]
Rows(r) == [there |-> TRUE, rows |-> r]
Sizes(db, model) == {<<db.rows[i].w, db.rows[i].h>> : i \in {i \in DOMAIN db.rows : (db.rows[i].maker \o " " \o db.rows[i].model) = model}}
(* the answer allowed for a model: the size of one of the rows of exactly this model, or nothing *)
Answer(db, model, ret) ==
  IF Sizes(db, model) = {} THEN ret = <<>>
  ELSE Len(ret) = 2 /\ \E s \in Sizes(db, model) : REq(s[1], ret[1]) /\ REq(s[2], ret[2])
(* the network is asked only without a database; the database afterwards *)
After(s, e) == IF s.there THEN s ELSE IF e.net = "ok" THEN Rows(e.rows) ELSE Absent
FileOk(db, e) == e.file = (IF db.there THEN "complete" ELSE "absent")
Asked(s, e) == IF s.there THEN e.asked = 0 ELSE e.asked >= 1
Res(s, f) == [st |-> s, fails |-> f]

Lookup(s, e) ==
  LET d == After(s, e)
  IN  Res(d, Chk("C24.download", Asked(s, e)) \cup
             Chk("C24.file", FileOk(d, e)) \cup
             (IF e.net = "kill" /\ ~s.there THEN {}
              ELSE IF d.there THEN Chk("C24.lookup", e.ok /\ Answer(d, e.model, e.ret))
              ELSE Chk("C24.failure", ~e.ok \/ e.ret = <<>>)))

(* ------------------------------ EXIF ------------------------------ *)
UnitMm(u) == IF u = 3 THEN RInt(10) ELSE RRat(254, 10)
ExifSize(e) == <<(RInt(e.w) \oslash e.rx) \otimes UnitMm(e.unit), (RInt(e.h) \oslash e.ry) \otimes UnitMm(e.unit)>>
NearSize(a, b) == Len(b) = 2 /\ NearRel(a[1], b[1], RSci(1, -9)) /\ NearRel(a[2], b[2], RSci(1, -9))
Exif(s, e) ==
  LET d == IF e.use THEN After(s, e) ELSE s
      sizes == IF e.use /\ d.there THEN Sizes(d, e.model) ELSE {}
      size == IF sizes = {} THEN (e.focal /\ NearSize(ExifSize(e), e.sensor))
              ELSE \E x \in sizes : NearSize(x, e.sensor)
      failing == e.use /\ ~d.there                       \* the database cannot be had: an error, or the EXIF data
  IN  Res(d, Chk("C24.download", IF e.use THEN Asked(s, e) ELSE e.asked = 0) \cup
             Chk("C24.file", FileOk(d, e)) \cup
             (IF e.net = "kill" /\ failing THEN {}
              ELSE IF failing /\ ~e.ok THEN {}
              ELSE IF sizes = {} /\ ~e.focal THEN Chk("C24.exif", ~e.ok)      \* nothing is known about the sensor
              ELSE Chk("C24.exif", e.ok /\ NearRel(e.f, e.gotf, RSci(1, -9)) /\ e.size = <<e.w, e.h>> /\ size)))

Step(s, e) ==
  CASE e.k = "reset" -> Res(Absent, {})
    [] e.k = "put" -> Res(Rows(e.rows), {})
    [] e.k = "remove" -> Res(Absent, {})
    [] e.k = "watched" -> Res(s, Chk("C24.partial", e.partial = 0))     \* a process that dies at any moment leaves no part
    [] e.k = "lookup" -> Lookup(s, e)
    [] e.k = "exif" -> Exif(s, e)
Start == Absent
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
=====================================================================================
